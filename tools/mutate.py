"""tools/mutate.py SEED COUNT [file...]: random small changes (operators, constants, dropped statements) to the
code under test, each in a scratch copy; those that pass the stable tests are given to the checks of the file
until one of them reports it.  Prints one line per change; SURVIVED ones are to be judged by hand."""
import sys, os, ast, json, random, shutil, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import *
CHECKS = {
 "switss/certification/certificates.py": "C15 C16", "switss/model/amdp.py": "C07 C08 C26 C10 C25 C28", "switss/model/dtmc.py": "C07 C08 C29 C25 C28", "switss/model/mdp.py": "C07 C08 C29 C25 C28",
 "switss/model/reachability_form.py": "C11 C12 C31 C14 C13 C10 C09 C29", "switss/model/reward_reachability_form.py": "C23", "switss/prism/prism.py": "C26 C08",
 "switss/problem/formulations.py": "C17 C18 C21", "switss/problem/milpexact.py": "C17 C28", "switss/problem/qsheur.py": "C18 C28", "switss/problem/problemform.py": "C17 C18 C28", "switss/problem/problemresult.py": "C28 C18",
 "switss/problem/qsheurparams.py": "C24 C18", "switss/problem/subsystem.py": "C19 C29", "switss/solver/milp.py": "C20 C21", "switss/solver/solverresult.py": "C20", "switss/utils/casting.py": "C07 C20 C12",
 "switss/utils/graphviz_utils.py": "C29", "switss/utils/invertible_dict.py": "C22", "bin/switss": "C28",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
def sites(src):
    t = ast.parse(src); out = []
    seg = lambda n: ast.get_source_segment(src, n)
    lines = src.splitlines(keepends=True); offs = [0]
    for l in lines: offs.append(offs[-1] + len(l.encode()))
    pos = lambda l, c: offs[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    skip = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Assert) and n.msg is not None: skip.update(id(x) for x in ast.walk(n.msg))
        if isinstance(n, ast.Raise): skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "__print", "tqdm"): skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id in ("debug", "verbose"): skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__", "_check_mec_freeness"): skip.update(id(x) for x in ast.walk(n))
    def between(a, b, new): out.append((span(a)[1], span(b)[0], " " + new + " "))
    for n in ast.walk(t):
        if id(n) in skip: continue
        if isinstance(n, ast.Compare):
            ops = [n.left] + n.comparators
            for k, o in enumerate(n.ops):
                for r in CMP.get(type(o), []): between(ops[k], ops[k + 1], r)
        elif isinstance(n, ast.BoolOp):
            for a, b in zip(n.values, n.values[1:]): between(a, b, "or" if isinstance(n.op, ast.And) else "and")
        elif isinstance(n, ast.BinOp):
            r = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&"}.get(type(n.op))
            if r and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)): between(n.left, n.right, r)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)): out.append((span(n)[0], span(n.operand)[0], ""))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False: out.append((*span(n), str(not v)))
            elif isinstance(v, (int, float)): out += [(*span(n), r) for r in ([str(v + 1)] + (["0"] if v not in (0,) else []))]
            elif v is None: pass
        elif isinstance(n, (ast.Break, ast.Continue)): out.append((*span(n), "continue" if isinstance(n, ast.Break) else "break"))
        elif isinstance(n, ast.Name) and n.id in ("min", "max", "any", "all") and isinstance(n.ctx, ast.Load): out.append((*span(n), {"min": "max", "max": "min", "any": "all", "all": "any"}[n.id]))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Assert)) and n.lineno: out.append((*span(n), "pass"))
        elif isinstance(n, ast.If): out.append((*span(n.test), "True")); out.append((*span(n.test), "False"))
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            a, b = n.args; sa, sb = span(a), span(b)
            out.append((sa[0], sb[1], "%s, %s" % (seg(b), seg(a))))
    return out
def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2]); files = sys.argv[3:] or sorted(CHECKS)
    rnd = random.Random(seed); todo = []
    for f in files:
        src = open("/repo/" + f).read()
        for s in sites(src): todo.append((f, s))
    rnd.shuffle(todo)
    per = {}; pick = []
    for f, s in todo:     # files in turn, so that short ones are looked at as well
        per.setdefault(f, []).append(s)
    while len(pick) < count and any(per.values()):
        for f in files:
            w = max(1, len(open("/repo/" + f).read()) // 6000)
            for _ in range(w):
                if per.get(f): pick.append((f, per[f].pop()))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    d = copy_repo()
    try:
        for f, (a, b, new) in pick[:count]:
            raw = open("/repo/" + f, "rb").read(); p = os.path.join(d, "repo", f)
            line = raw[:a].count(b"\n") + 1
            old = raw[a:b].decode(); mut = raw[:a] + new.encode() + raw[b:]
            what = "%s:%d  %s" % (f, line, raw.splitlines()[line - 1].decode().strip()[:90])
            desc = "%r -> %r" % (old[-60:], new[-60:])
            try: compile(mut, f, "exec")
            except SyntaxError: continue
            open(p, "wb").write(mut)
            run_in(d, "timeout 120 bash /opt/vp/test.sh %s/t.json" % d)
            try: passed = set(json.load(open(d + "/t.json"))["passed"])
            except Exception: passed = set()
            if os.path.exists(d + "/t.json"): os.unlink(d + "/t.json")
            if stable - passed: print("tests     ", what, desc, flush=True); open(p, "wb").write(raw); continue
            res = "SURVIVED"; codes = []
            for c in CHECKS[f].split():
                r, o = run_in(d, "cd /verif && timeout 900 bin/check %s quick" % c, verif=True)
                codes.append("%s:%d" % (c, r))
                if r == 1: res = "caught " + c; break
            print("%-10s" % res, what, desc, " ".join(codes), flush=True)
            open(p, "wb").write(raw)
    finally: shutil.rmtree(d, ignore_errors=True)
main()
