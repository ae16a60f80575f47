"""Memory safety of the kernel: every access valid, every value initialised, every block freed once.
The interpreter records undefined behaviour with the condition under which it happens; the
obligations are that these conditions are unsatisfiable and that no block outlives the graph."""
import itertools, json, os, re, subprocess, sys, tempfile
from symx.core import z3
from .interp import MV, TupV, GList, PySet, NpArr, UNINIT, NULLP, Ptr, INT, Unsupported, Bound
from .graphs import base, split_fixed, reachable
from .model import Space, ename
from .run import Result
from . import real, treap

def finish(S, R, values=()):
    I = S.I
    seen = {}
    for v in I.viols: seen.setdefault("%s (%s)" % (v.kind, v.where), []).append(v.guard)
    R.must("no undefined behaviour", z3.Not(S.guardz(I.dead_ub)))
    for l, gs in seen.items():
        g = 0
        for x in gs: g = I.B.or_(g, x)
        R.must("no undefined behaviour: " + l, z3.Not(S.guardz(g)))
    un = 0
    for v in values:
        if v is UNINIT: un = I.B.diff(1, I.dead())
        elif type(v) is MV and UNINIT in v.m: un = I.B.or_(un, I.B.diff(v.m[UNINIT], I.dead()))
    R.must("no uninitialised value is returned", z3.Not(S.guardz(un)))
    by = {}
    for b in I.blocks:
        if b is None or b.stack: continue
        g = I.B.diff(I.B.diff(b.alloc, b.freed), I.dead_ub)
        if g: by[str(b.where)] = I.B.or_(by.get(str(b.where), 0), g)
    anyleak = 0
    for g in by.values(): anyleak = I.B.or_(anyleak, g)
    R.must("everything allocated is freed", z3.Not(S.guardz(anyleak)))
    for w, g in by.items(): R.must("everything allocated is freed: block of %s" % w, z3.Not(S.guardz(g)))
    R.okay = lambda asg: True
    R.outputs = lambda asg: []
    return R
def cells_of(S, out, n):
    if isinstance(out, NpArr): return [out.cells.get(i, out.default) for i in range(n)]
    return []
def catch(S):
    """the caller catches the exception"""
    S.I.dead_exc = 0
def dealloc(S):
    I = S.I
    m = S.G.cls.methods.get("__dealloc__")
    if m is not None: I.call(Bound(S.G, m), [], {}, 1, None)
def drain(S, out):
    I = S.I
    if isinstance(out, (GList, PySet)): return [x for ge, v in I.entries(out, 1, None) for t, _ in I.expand(v, ge) for x in (t if isinstance(t, tuple) else (t,))]
    return []
def sym_mem(job):
    N = job["N"]
    S, R = base(job, split_fixed(job))
    lo, hi = job.get("lo", 0), job.get("hi", N)
    if "reach" in job["q"] or "oor" in job["q"]:
        Fs, Bs = S.setof("f", range(lo, hi)), S.setof("b", range(lo, hi))
    S.edges()
    S.build()
    vals = []
    for q in job["q"].split("+"):
        if q == "mec":
            out = S.call("maximal_end_components")
            if type(out) is TupV: vals += cells_of(S, out.v[0], N)
        elif q == "scc":
            out = S.call("strongly_connected_components")
            if type(out) is TupV: vals += cells_of(S, out.v[0], N)
        elif q in ("reachf", "reachb"):
            out = S.call("reachable", [Fs, "forward" if q == "reachf" else "backward", Bs])
            vals += cells_of(S, out, N)
        elif q == "adj":
            for which in ("successors", "predecessors"):
                for s in range(lo, hi):
                    for a in (None, 0, job["A"]):
                        vals += drain(S, S.call(which, [s] + ([] if a is None else [a])))
                        catch(S)
        else: raise Unsupported(q)
        catch(S)
    dealloc(S)
    return finish(S, R, vals)

def conc_mem(ctx):
    N, A, es = real.edges(ctx)
    pairs = sorted({(s, a) for s, a, _ in es})
    w = real.weights(ctx, N, A, es)
    ents = [[pairs.index((s, a)), d, w[s, a, d]] for s, a, d in es]
    order = ctx.i.get("job.order", "row")
    if order == "col": ents.sort(key=lambda t: (t[1], t[0]))
    if order == "rev": ents.reverse()
    lo, hi = int(ctx.i.get("job.lo", 0)), int(ctx.i.get("job.hi", N))
    spec = {"N": N, "A": A, "pairs": pairs, "ents": ents, "q": ctx.i["job.q"].split("+"), "lo": lo, "hi": hi,
            "F": [i for i in range(lo, hi) if ctx.i.get("f%d" % i)], "B": [i for i in range(lo, hi) if ctx.i.get("b%d" % i)],
            "rand": [real.rand_value(ctx.i.get("job.rand", "mix"), k) for k in range(5000)]}
    judge(ctx, spec)
def judge(ctx, spec):
    errs, status = valgrind(spec)
    ctx.check(status == "ok", "the queries end without a crash: %s" % status)
    for e in errs: ctx.check(False, e)
def sym_treapmem(job):
    S, R, keys = treap.setup(job)
    I, n = S.I, job["n"]
    g = I.B.diff(1, S.dead)
    t = NULLP
    for i in range(n):
        t = I.call(treap.fn(S, "add_to_treap"), [t, I.restrict(keys[i], g)], {}, g, None)
    vals = [I.call(treap.fn(S, "in_treap"), [t, k], {}, g, None) for k in range(job["K"])]
    I.call(treap.fn(S, "free_treap"), [t], {}, g, None)
    R.assume = list(S.extra)
    return finish(S, R, vals)
def conc_treapmem(ctx):
    n, K, D = int(ctx.i["job.n"]), int(ctx.i["job.K"]), int(ctx.i["job.prios"])
    judge(ctx, {"keys": [treap.decode(ctx.i, "key%d" % i, K) for i in range(n)],
                "rand": [treap.decode(ctx.i, "prio%d" % i, D) if "prio%d.0" % i in ctx.i else 0 for i in range(12)], "q": ["treap"]})

def valgrind(spec):
    """errors attributed to the kernel, and how the run ended"""
    with tempfile.TemporaryDirectory() as d:
        jf, lf = os.path.join(d, "spec.json"), os.path.join(d, "vg.log")
        json.dump(spec, open(jf, "w"))
        env = dict(os.environ, PYTHONMALLOC="malloc", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1")
        try:
            p = subprocess.run(["valgrind", "--leak-check=full", "--show-leak-kinds=all", "--num-callers=12", "--log-file=" + lf, sys.executable, "-W", "ignore", os.path.abspath(__file__).replace("mem.py", "memrun.py"), jf],
                               env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=110)
            status = "ok" if p.returncode == 0 and b"DONE" in p.stdout else "exit %s: %s" % (p.returncode, p.stdout.decode(errors="replace")[-300:])
        except subprocess.TimeoutExpired: status = "it does not end"
        txt = open(lf, errors="replace").read() if os.path.exists(lf) else ""
    out = []
    K = re.compile(r"__pyx_\w*switss_5utils_\w+")
    for para in re.split(r"\n==\d+== \n", txt):
        ls = [re.sub(r"^==\d+== ?", "", l) for l in para.strip().split("\n")]
        fr = [l.strip() for l in ls if re.match(r"\s+(at|by) 0x", l)]
        if not fr: continue
        head = next((l for l in ls if l.strip() and not re.match(r"\s+(at|by) 0x", l)), "").strip()
        if "lost in loss record" in head or "still reachable" in head:
            k = next((i for i, l in enumerate(fr) if re.search(r": (malloc|calloc|realloc) ", l)), None)
            if k is not None and k + 1 < len(fr) and K.search(fr[k + 1]): out.append("everything allocated is freed: block of %s" % fr[k + 1].split(": ", 1)[1])
        elif K.search(" ".join(fr[:4])) and re.match(r"(Invalid|Conditional|Use of uninit|Mismatched|Process term|Jump|Source and)", head):
            k = next(l for l in fr if K.search(l))
            out.append("no undefined behaviour: %s in %s" % (head, k.split(": ", 1)[1]))
    return sorted(set(out)), status
