"""The command line pipeline round-trips certificates and subsystems."""
import os, sys, json, io, re, types, tempfile, shutil, contextlib, builtins
from symx.api import *
from symx.gen import *
from C13 import D

# ---------------------------------------------------------------- running the tool
def sym_json(ctx):
    """json that can carry symbolic numbers"""
    from symx import core
    def default(o):
        if isinstance(o, core.SymReal): return {"__sym": str(o)}
        if isinstance(o, Fraction): return {"__frac": "%d/%d" % (o.numerator, o.denominator)}
        raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)
    def hook(d):
        if "__sym" in d: return core.from_token(d["__sym"])
        if "__frac" in d: return Fraction(d["__frac"])
        return d
    m = types.ModuleType("json"); m.__dict__.update(json.__dict__)
    m.dump = lambda o, fp, **k: json.dump(o, fp, default=default, **k)
    m.dumps = lambda o, **k: json.dumps(o, default=default, **k)
    m.load = lambda fp, **k: json.load(fp, object_hook=hook, **k)
    m.loads = lambda s, **k: json.loads(s, object_hook=hook, **k)
    return m

class Tool:
    def __init__(self, ctx):
        self.ctx, self.out = ctx, []
        if ctx.mode == "sym":
            self.json = ctx.over["json"] = sym_json(ctx)
            def pr(*a, sep=" ", end="\n", file=None, **k):
                if file in (None, sys.stdout): self.out.append(sep.join(str(x) for x in a) + end)
            ctx.bover["print"] = pr
        else: self.json = json
    def __call__(self, *argv):
        """(ran to the end, what was printed, what went wrong)"""
        from symx.load import REPO
        path = os.path.join(REPO, "bin", "switss")
        self.out.clear()
        old, sys.argv = sys.argv, [path] + [str(a) for a in argv]
        buf, err = io.StringIO(), None
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
                if self.ctx.mode == "sym":
                    self.ctx.load("switss")
                    self.ctx._world.exec_file(path)
                else:
                    g = {"__name__": "__main__", "__file__": path}
                    exec(compile(open(path).read(), path, "exec"), g)
        except SystemExit as e: err = e if e.code not in (0, None) else None
        except Exception as e:
            err = e
            if os.environ.get("SYMX_TRACE"):
                import traceback; open(os.environ["SYMX_TRACE"], "a").write(traceback.format_exc())
        finally: sys.argv = old
        return err is None, "".join(self.out) + buf.getvalue(), err

def text(x):
    """a number the way a user types it"""
    if isinstance(x, float): return repr(x)
    return str(x) if is_sym(x) else repr(float(x)) if float(x) == x else "%d/%d" % (x.numerator, x.denominator)
def write_model(path, kind, rows, saps, N, lts):
    with open(path + ".tra", "w") as f:
        nnz = sum(len(r) for r in rows)
        f.write("%d %d\n" % (N, nnz) if kind == "dtmc" else "%d %d %d\n" % (N, len(saps), nnz))
        for (s, a), r in sorted(zip(saps, rows), key=lambda x: x[0]):
            for d in sorted(r): f.write(("%d %d %s\n" % (s, d, text(r[d]))) if kind == "dtmc" else ("%d %d %d %s\n" % (s, a, d, text(r[d]))))
    with open(path + ".lab", "w") as f:
        names = list(lts)
        f.write(" ".join('%d="%s"' % (i, l) for i, l in enumerate(names)) + "\n")
        for s in range(N):
            ls = [i for i, l in enumerate(names) if s in lts[l]]
            if ls: f.write("%d: %s\n" % (s, " ".join(map(str, ls))))
def same_model(ctx, a, b, extra=None):
    """b equals a; extra: (label, states) that b carries additionally"""
    if not ctx.check(a.N == b.N and a.C == b.C and set(a.index_by_state_action) == set(b.index_by_state_action), "states and state-action pairs of the written model"): return
    for sa, i in a.index_by_state_action.items():
        for j in range(a.N): ctx.eq(b.P[b.index_by_state_action[sa], j], a.P[i, j], "transition probabilities of the written model", tol=1e-9)
    for s in range(a.N):
        want = set(a.labels_by_state[s]) | ({extra[0]} if extra and s in extra[1] else set())
        ctx.check(set(b.labels_by_state[s]) == want, "labels of the written model")

class Solver:
    """plays the LP/MILP back end: call k gets the same answer in every run of the pipeline"""
    def __init__(self, ctx, outs): self.ctx, self.outs, self.ans, self.log = ctx, outs, {}, []
    def start(self): self.log = []
    def __call__(self, p):
        k = len(self.log); self.log.append(p)
        if k not in self.ans:
            out = self.ctx.choice("out%d" % k, self.outs)
            self.ans[k] = (out, [])
        out, xs = self.ans[k]
        while len(xs) < len(p.vars): xs.append(self.ctx.real("x%d_%d" % (k, len(xs)), -1, 2))
        return out, (xs[:len(p.vars)] if out == "optimal" else None)
def same_problem(ctx, p, q):
    what = "the tool hands the method's own problem to the solver"
    if not ctx.check(len(p.vars) == len(q.vars) and p.sense == q.sense and len(p.cons) == len(q.cons) and p.cat == q.cat, what): return
    ctx.check((type(p.solver).__name__, getattr(p.solver, "timeLimit", None)) == (type(q.solver).__name__, getattr(q.solver, "timeLimit", None)), "the solver and the time limit are passed on")
    for a, b in list(zip(p.lb, q.lb)) + list(zip(p.ub, q.ub)):
        if ctx.check((a is None) == (b is None), what) and a is not None: ctx.eq(a, b, what)
    for (r, s, c), (r2, s2, c2) in zip(p.cons, q.cons):
        if not ctx.check([i for i, _ in r] == [i for i, _ in r2] and s == s2, what): return
        for (_, a), (_, b) in zip(r, r2): ctx.eq(a, b, what)
        ctx.eq(c, c2, what)
    if ctx.check([i for i, _ in p.obj] == [i for i, _ in q.obj], what):
        for (_, a), (_, b) in zip(p.obj, q.obj): ctx.eq(a, b, what)

# ---------------------------------------------------------------- minimize, certify, subsystem
def pipeline(ctx, n, saps, options, kind, methods, modes=("min", "max"), symbolic=None, outs=("optimal",), labels=(None,), timeouts=(None,), tols=(None,), names=(False,), how=("-s", "-si")):
    tool = Tool(ctx)
    d = tempfile.mkdtemp(prefix="c28_")
    try: _pipeline(ctx, tool, d, n, saps, options, kind, methods, modes, symbolic, outs, labels, timeouts, tols, names, how)
    finally: shutil.rmtree(d)
def _pipeline(ctx, tool, d, n, saps, options, kind, methods, modes, symbolic, outs, labels, timeouts, tols, names, how):
    if symbolic: rows = rf_structure(ctx, n, saps, supports=symbolic)
    else: rows, _ = rf_concrete(ctx, n, saps, options)
    N = n + 2
    own = ctx.choice("own labels", names)
    li, lt, lf = ("start", "goal", "trap") if own else ("init", "rf_target", "rf_fail")
    lts = {li: {0}, lt: {n}, lf: {n + 1}, "g": {0}, "h": {n - 1}}
    path = os.path.join(d, "model")
    write_model(path, kind, rows + [{n: ctx.q(1)}, {n + 1: ctx.q(1)}], list(saps) + [(n, 0), (n + 1, 0)], N, lts)
    lopts = ["-i", li, "-trf", lt, "-frf", lf] if own else []
    thr = ctx.real("thr", 0, 1)
    mode, meth, si = ctx.choice("mode", modes), ctx.choice("method", methods), ctx.choice("how", how)
    lab, tmo, tol = ctx.choice("labels", labels), ctx.choice("timeout", timeouts), ctx.choice("tol", tols)
    sol = Solver(ctx, outs)
    ctx.backend(sol)
    # ---- what the library itself computes for these parameters
    mod, prob, cer = ctx.load("switss.model"), ctx.load("switss.problem"), ctx.load("switss.certification")
    cls = mod.DTMC if kind == "dtmc" else mod.MDP
    model = cls.from_file(path + ".lab", path + ".tra")
    rf = mod.ReachabilityForm(model, li, lt, lf)
    par = {k: int(v) if k == "iterations" else getattr(prob, v) if k.endswith("type") else v for k, v in meth[1].items()}
    kw = {} if lab is None else {"labels": lab}
    if tmo is not None: kw["timeout"] = tmo
    method = getattr(prob, meth[0])(**par)
    sol.start()
    ok, res = ctx.call(lambda: list(method.solveiter(rf, thr, mode, **kw)))
    libfails = not ok
    if libfails: res = []
    if si == "-s": res = res[-1:]
    direct = sol.log
    good = [(i, r) for i, r in enumerate(res) if r.status == "success"]
    # ---- minimize
    cert = os.path.join(d, "out.json") if own else path + ".certificates.json"
    argv = ["minimize", kind, path] + lopts + (["-c", cert] if own else []) + ["-m", meth[0], "mode=%s" % mode] + ["%s=%s" % (k, v) for k, v in meth[1].items()]
    argv += [si, "threshold=%s" % text(thr)] + (["labels=%s" % ",".join(lab)] if lab is not None else []) + (["timeout=%d" % tmo] if tmo is not None else []) + (["-tol", repr(tol)] if tol is not None else [])
    sol.start()
    ok, out, err = tool(*argv)
    if libfails: ctx.check(not ok, "the tool succeeds where the library fails"); return
    if not ok: ctx.fail("minimize failed with %s" % type(err).__name__); return
    if not ctx.check(len(sol.log) == len(direct), "as many problems are solved as the method needs"): return
    for p, q in zip(sol.log, direct): same_problem(ctx, p, q)
    if not ctx.check(os.path.exists(cert), "the certificates are stored"): return
    info = tool.json.load(open(cert))
    ctx.check(info["method"].get("mode") == mode and all(info["method"].get(k) == v for k, v in method.details.items()), "method and mode are stored")
    inst = info["instances"]
    if not ctx.check(len(inst) == len(good), "one stored instance per result"): return
    for e, (i, r) in zip(inst, good):
        ctx.check(e["iteration"] == i, "results are stored in order")
        ctx.eq(e["threshold"], thr, "the threshold is stored", tol=1e-9)
        if not ctx.check(len(e["certificate"]) == len(r.farkas_cert), "the certificate is stored"): return
        for a, b in zip(e["certificate"], r.farkas_cert): ctx.eq(a, b, "the certificate is stored", tol=1e-9)
    # ---- certify
    t = 1e-5 if tol is None else tol
    verdict = [bool(cer.check_farkas_certificate(rf, mode, ">=", thr, r.farkas_cert, tol=t)) for i, r in good]
    if good: ctx.cover("certificates"); 
    if True in verdict: ctx.cover("valid")
    if False in verdict: ctx.cover("invalid")
    ok, out, err = tool("certify", kind, path, *lopts, "-c", cert, *(["-tol", repr(tol)] if tol is not None else []))
    if not ok: ctx.fail("certify failed with %s" % type(err).__name__); return
    ctx.check([w == "VALID" for w in re.findall(r"\b(VALID|INVALID)\b", out)] == verdict, "certify reports each certificate's validity")
    # ---- subsystem
    masks = [{s for s in range(n) if bool(r.subsystem.subsystem_mask[s])} for i, r in good]
    outp = os.path.join(d, "sub") if own else path + "-subsys"
    sl = "kept" if own else "subsystem"
    ok, out, err = tool("subsystem", kind, path, *lopts, "-c", cert, *(["-o", outp, "-sl", sl] if own else []))
    if not ok: ctx.fail("subsystem failed with %s" % type(err).__name__); return
    for (i, r), mask in zip(good, masks):
        f = "%s-%d" % (outp, i)
        if not ctx.check(os.path.exists(f + ".tra") and os.path.exists(f + ".lab"), "one model per certificate is written"): return
        ok, w = ctx.call(cls.from_file, f + ".lab", f + ".tra")
        if not ok: ctx.fail("the written model cannot be loaded"); return
        same_model(ctx, model, w, (sl, mask))
    # a label that is already there is refused
    if good and own:
        ok, out, err = tool("subsystem", kind, path, *lopts, "-c", cert, "-o", outp + "x", "-sl", "g")
        ctx.check(not ok, "a label that the model already has is refused")

# ---------------------------------------------------------------- several stored results
def stored(ctx, n, saps, options, kind, modes, insts, lo=-1, free=None):
    """a file with several results of any certificates and thresholds: each is certified and drawn up on its own"""
    tool = Tool(ctx)
    d = tempfile.mkdtemp(prefix="c28_")
    try:
        rows, _ = rf_concrete(ctx, n, saps, options)
        N = n + 2
        lts = {"init": {0}, "rf_target": {n}, "rf_fail": {n + 1}, "g": {0}, "h": {n - 1}}
        path = os.path.join(d, "model")
        write_model(path, kind, rows + [{n: ctx.q(1)}, {n + 1: ctx.q(1)}], list(saps) + [(n, 0), (n + 1, 0)], N, lts)
        mode = ctx.choice("mode", modes)
        idx = ctx.choice("iterations", [list(range(insts)), [2 * i + 1 for i in range(insts)]])
        m = n if mode == "min" else len(saps)
        certs = [[ctx.real("c%d_%d" % (k, i), lo, 2) if free is None or (k, i) in free else ctx.q(Fraction((2 * k + 3 * i) % 5, 4) if k else Fraction(i == (0 if mode == "min" else list(saps).index((0, 0))), 4)) for i in range(m)] for k in range(insts)]
        thr = [ctx.real("t%d" % k, 0, 1) if free is None or k in {f[0] for f in free} else ctx.q(Fraction(k + 1, 32 * insts)) for k in range(insts)]
        cert = os.path.join(d, "stored.json")
        f = open(cert, "w")
        tool.json.dump({"method": {"type": "QSHeur", "mode": mode}, "instances": [{"iteration": i, "threshold": t, "certificate": c} for i, t, c in zip(idx, thr, certs)]}, f)
        f.close()
        mod, prob, cer = ctx.load("switss.model"), ctx.load("switss.problem"), ctx.load("switss.certification")
        cls = mod.DTMC if kind == "dtmc" else mod.MDP
        model = cls.from_file(path + ".lab", path + ".tra")
        rf = mod.ReachabilityForm(model, "init", "rf_target", "rf_fail")
        verdict = [bool(cer.check_farkas_certificate(rf, mode, ">=", t, ctx.np.array(c), tol=1e-5)) for t, c in zip(thr, certs)]
        if True in verdict: ctx.cover("valid")
        ok, out, err = tool("certify", kind, path, "-c", cert)
        if not ok: ctx.fail("certify failed with %s" % type(err).__name__); return
        ctx.check([w == "VALID" for w in re.findall(r"\b(VALID|INVALID)\b", out)] == verdict, "certify reports each certificate's validity")
        pos = [{(i if mode == "min" else sorted(saps)[i][0]) for i in range(m) if bool(c[i] > 0)} for c in certs]
        if len(pos) > 1 and pos[0] - pos[1]: ctx.cover("the second is not larger")
        ok, out, err = tool("subsystem", kind, path, "-c", cert)
        if not ok: ctx.fail("subsystem failed with %s" % type(err).__name__); return
        for i, mask in zip(idx, pos):
            f = "%s-subsys-%d" % (path, i)
            if not ctx.check(os.path.exists(f + ".tra") and os.path.exists(f + ".lab"), "one model per certificate is written"): return
            ok, w = ctx.call(cls.from_file, f + ".lab", f + ".tra")
            if not ok: ctx.fail("the written model cannot be loaded"); return
            got = {s for s in range(N) if "subsystem" in w.labels_by_state[s]} - {n, n + 1}
            ctx.check(got == mask, "the subsystem label is on exactly the states of the certificate")
            same_model(ctx, model, w, ("subsystem", {s for s in range(N) if "subsystem" in w.labels_by_state[s]}))
    finally: shutil.rmtree(d)

# ---------------------------------------------------------------- rf
def rfcmd(ctx, N, saps, kind, supports=None, maxk=None, own=(False,), targets=None):
    tool = Tool(ctx)
    d = tempfile.mkdtemp(prefix="c28_")
    try:
        rows = [row(ctx, "r%d" % i, N, maxk=maxk, supports=supports[i] if isinstance(supports, dict) else supports) for i in range(len(saps))]
        succ = {}
        for (s, a), r in zip(saps, rows): succ.setdefault(s, set()).update(r)
        T = set(ctx.choice("targets", targets or [(N - 1,)]))
        if not closure(succ, {0}) & T: ctx.skip()
        o = ctx.choice("own labels", own)
        li, lt, trf, frf = ("start", "goal", "TT", "FF") if o else ("init", "target", "rf_target", "rf_fail")
        lts = {li: {0}, lt: T, "g": {0, N - 1}}
        path = os.path.join(d, "model")
        write_model(path, kind, rows, saps, N, lts)
        outp = os.path.join(d, "o") if o else path + "-rf"
        ok, out, err = tool("rf", kind, path, *(["-i", li, "-t", lt, "-trf", trf, "-frf", frf, "-o", outp] if o else []))
        if not ok: ctx.fail("rf failed with %s" % type(err).__name__); return
        mod = ctx.load("switss.model")
        cls = mod.DTMC if kind == "dtmc" else mod.MDP
        model = cls.from_file(path + ".lab", path + ".tra")
        rf, _, sa = mod.ReachabilityForm.reduce(model, li, lt, trf, frf)
        ok, w = ctx.call(cls.from_file, outp + ".lab", outp + ".tra")
        if not ok: ctx.fail("the written model cannot be loaded"); return
        same_model(ctx, rf.system, w)
        mp = tool.json.load(open(outp + ".mapping.json"))
        got = sorted(zip(mp["states"], mp["actions"], mp["rfstates"], mp["rfactions"]))
        ctx.check(got == sorted((int(k[0]), int(k[1]), int(v[0]), int(v[1])) for k, v in sa.items()) and len({len(x) for x in mp.values()}) == 1, "the state-action mapping is stored")
        ok, r2 = ctx.call(mod.ReachabilityForm, w, li, trf, frf)
        ctx.check(ok, "the written model is a reachability form again")
        ctx.cover("reduced")
    finally: shutil.rmtree(d)

H = []
def add(name, fn, bounds, must=(), **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    h = Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=16); h.must_reach = must; H.append(h)
QS1, QS2, EX = ("QSHeur", {"iterations": "1"}), ("QSHeur", {"iterations": "2", "initializertype": "InverseReachabilityInitializer", "updatertype": "InverseResultUpdater"}), ("MILPExact", {})
QG, EG = ("QSHeur", {"iterations": "1", "solver": "glpk"}), ("MILPExact", {"solver": "glpk"})
cov = ("certificates", "valid", "invalid")
O1 = D("1:1", "1:1/2 2:1/2", "0:1/2 1:1/4 2:1/4")
O2 = D("1:1", "2:1", "1:1/2 2:1/2", "0:1/4 2:1/2 3:1/4")
add("pipeline-1", pipeline, "form with one inner state and two actions, concrete probabilities; any threshold, any solver answers; both methods and modes", must=cov, n=1, saps=[(0, 0), (0, 1)], options=O1[1:], kind="mdp", methods=[QS1, EX])
add("pipeline-sym", pipeline, "one inner state, one action, symbolic probabilities", must=cov, n=1, saps=[(0, 0)], options=None, kind="dtmc", symbolic=[[(1, 2), (0, 1, 2)]], methods=[QS1, QS2, EX], how=("-s",))
add("pipeline-options", pipeline, "one inner state: own label names, output files, tolerances, timeouts, labels, solvers", must=cov, n=1, saps=[(0, 1), (0, 0)], options={0: D("1:1/2 2:1/2"), 1: D("1:1")}, kind="mdp", methods=[QS1, QG, EG], labels=(None, ["g"], ["g", "h"]), timeouts=(None, 7), tols=(None, 0.25), names=(True, False), how=("-s",), modes=("min",))
add("pipeline-dtmc", pipeline, "DTMC form with two inner states", must=cov, n=2, saps=[(0, 0), (1, 0)], options={0: D("1:1/2 3:1/2"), 1: D("0:1/4 2:1/2 3:1/4")}, kind="dtmc", methods=[QS1, EX], how=("-si",), modes=("min",))
add("pipeline-failed", pipeline, "solver outcomes other than optimal", n=1, saps=[(0, 0)], options={0: D("1:1/2 2:1/2")}, kind="mdp", methods=[QS1, EX], outs=("optimal", "infeasible", "notsolved"))
S2 = dict(n=2, options={0: D("1:1/2 3:1/2"), 1: D("0:1/4 2:1/2 3:1/4")}, insts=2)
add("stored-dtmc", stored, "stored results: two arbitrary certificates and thresholds for a DTMC form with two inner states, both modes", must=("valid", "the second is not larger"), saps=[(0, 0), (1, 0)], kind="dtmc", modes=("min", "max"), lo=0, **S2)
add("stored-mdp", stored, "stored results: two arbitrary certificates and thresholds for an MDP form with two inner states and three pairs", must=("valid", "the second is not larger"), n=2, saps=[(1, 0), (0, 0), (1, 1)], options={0: D("0:1/4 2:1/2 3:1/4"), 1: D("1:1/2 3:1/2"), 2: D("2:1")}, insts=2, kind="mdp", modes=("min", "max"), lo=0)
add("rf-dtmc", rfcmd, "DTMC with three states, every support, two target sets", must=("reduced",), N=3, saps=[(i, 0) for i in range(3)], kind="dtmc", targets=[(2,), (1, 2)], own=(False, True))
add("rf-mdp", rfcmd, "MDP with three states and four pairs, at most two successors", must=("reduced",), N=3, saps=[(0, 0), (0, 2), (1, 1), (2, 0)], kind="mdp", supports=[(0,), (1, 2), (2,), (0, 1)])
add("pipeline-2x3", pipeline, "two inner states, three pairs", must=cov, n=2, saps=[(0, 0), (1, 0), (1, 1)], options={0: D("1:1", "1:1/2 3:1/2"), 1: D("2:1", "2:1/2 3:1/2"), 2: D("0:1/2 2:1/2")}, kind="mdp", methods=[QS1, EX], quick=False, budget=100)
add("large-stored-dtmc", stored, "thirteen results for a DTMC form with eleven inner states (two-digit indices); two certificates and thresholds with arbitrary entries", must=("valid",), kind="dtmc", modes=("min", "max"), lo=0, insts=13, free={(1, 10), (11, 2)}, **large(kind="dtmc", n=11))
add("large-stored-mdp", stored, "the same for an MDP form with two-digit actions", must=("valid",), kind="mdp", modes=("min", "max"), lo=0, insts=13, free={(1, 10), (11, 2)}, **large(n=11))
LR = [(0, 5, 10), (2,), (1, 10), (3, 4), (9, 10), (0, 7), (11,), (8, 9), (0, 1), (5, 6), (10, 2), (4, 11), (3, 7), (2, 8)]
for nm, sp in (("dtmc", [(s, 0) for s in range(12)]), ("mdp", [((5 * s) % 12, 0) for s in range(12)] + [(10, 11), (2, 1)])):
    add("large-rf-" + nm, rfcmd, "%s with twelve states, fixed graph, symbolic probabilities" % nm.upper(), must=("reduced",), N=12, saps=sp, kind=nm, supports={i: [LR[i]] for i in range(len(sp))}, targets=[(11,), (2, 10)], own=(False, True))
HARNESSES = H
ASSUMPTIONS = ["the solver's answers are arbitrary (the same for the tool and for the library call that it is compared with)", "JSON text of symbolic numbers is lossless", "floating point text of model files is lossless (see C08)"]
