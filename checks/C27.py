"""Benchmark runs record every threshold and result."""
import os, json, time, tempfile, shutil, types, importlib
from symx.api import *
from fractions import Fraction as F

class Clock:
    """wall and process time advance only while the method works"""
    def __init__(self): self.wall, self.proc = 0, 0
    def functions(self):
        w, p = (lambda: self.wall), (lambda: self.proc)
        return {"perf_counter": w, "time": w, "monotonic": w, "process_time": p, "thread_time": p}

PAT = [("s",), ("s", "s"), ("i",), ("f",), ("s", "f"), ("f", "s"), ("s", "i")]

def body(ctx, K, steps, pats, methods=1, modes=("min",), over1=False, names=None, files=False):
    clk = Clock()
    saved = []
    if ctx.mode == "sym":
        t = types.ModuleType("time"); t.__dict__.update(time.__dict__); t.__dict__.update(clk.functions())
        ctx.over["time"] = t
        j = types.ModuleType("json"); j.__dict__.update(json.__dict__)
        j.dump = lambda obj, fp, **k: saved.append((os.path.basename(fp.name), obj))
        j.dumps = lambda obj, **k: Fail("json.dumps of symbolic data")
        ctx.over["json"] = j
        B = ctx.load("switss.benchmarks.benchmarks")
    else:
        old = {k: getattr(time, k) for k in clk.functions()}
        for k, v in clk.functions().items(): setattr(time, k, v)
        B = importlib.reload(ctx.load("switss.benchmarks.benchmarks"))
    d = tempfile.mkdtemp() if files else None
    try: _run(ctx, B, clk, K, steps, pats, methods, modes, over1, names, d, saved)
    finally:
        if ctx.mode != "sym":
            for k, v in old.items(): setattr(time, k, v)
            importlib.reload(B)
        if d: shutil.rmtree(d)

def _run(ctx, B, clk, K, steps, pats, nmeth, modes, over1, names, d, saved):
    RF, PF = ctx.load("switss.model").ReachabilityForm, ctx.load("switss.problem").ProblemFormulation
    Res = ctx.load("switss.problem").ProblemResult
    step = ctx.choice("step", steps)
    k = ctx.choice("number of steps", K)
    f = ctx.real("from", 0, 1)
    # end = from + k steps + rest
    if False:
        r = ctx.real("rest", F(step) / 50, F(step) * 49 / 50)
    else: r = 0
    to = f + k * ctx.q(F(step)) + r
    if over1:
        # the end value exceeds one: the run goes up to one
        ctx.assume(to > 1); ctx.assume(f + max(k - 1, 0) * ctx.q(F(step)) < 1)
        end = 1
        top = False
        if top: f = 1 - k * ctx.q(F(step))
        n = k + 1 if top else None
        if top: ctx.assume(f >= 0); to = 1 + r if r is not 0 else 1
        else:
            last = f + k * ctx.q(F(step))
            ctx.assume(Or(last < 1 - F(step) / 50, last > 1 + F(step) / 50))
            if ctx.mode == "sym": n = k + 1 if bool(last <= 1) else k
            else: n = k + 1 if last <= 1 else k
    else:
        ctx.assume(to < 1); end = to; n = k + 1
    stepv = ctx.q(F(step)) if ctx.mode == "sym" else float(F(step))
    rf = RF.__new__(RF)
    plain = over1 or d is not None
    labels = [None, ["x"]][ctx.choice("labels", [0, 1])] if nmeth == 1 and not plain else ["x", "y"]
    timeout = 7 if plain else ctx.choice("timeout", [None, 7])
    stop = ctx.choice("stop at failures", [True, False])
    calls, truth = [], {}
    class M(PF):
        def __init__(self, nm): self.nm = nm
        @property
        def details(self): return {"type": "M%d" % self.nm, "solver": "cbc"}
        def _solveiter(self, rf_, thr, mode, labels=None, timeout=None):
            c = len([1 for x in calls if x[0] is self and x[3] == mode])
            calls.append((self, rf_, thr, mode, labels, timeout))
            pat = ctx.choice("results %d %s %d" % (self.nm, mode, c), pats)
            out = truth.setdefault((self.nm, mode), [])
            row = []; out.append(row)
            w = p = 0
            for i, st in enumerate(pat):
                nm = "%d_%s_%d_%d" % (self.nm, mode, c, i)
                dw, dp, v = ctx.real("w" + nm, 0, 100), ctx.real("p" + nm, 0, 100), ctx.real("v" + nm, 0, 1000)
                clk.wall = clk.wall + dw; clk.proc = clk.proc + dp
                w = w + dw; p = p + dp
                row.append((st, v, w, p))
                yield Res({"s": "success", "i": "infeasible", "f": "notsolved"}[st], None, v if st == "s" else None, None)
    ms = [M(i) for i in range(nmeth)]
    kw = {}
    if d is not None: kw["json_dir"] = d
    md = modes[0] if names in (None, "string") else list(modes)
    dbg = ctx.choice("debug", [False, True]) if nmeth == 1 and not plain and len(pats) > 2 else False
    ok, res = ctx.call(lambda: B.run(rf, ms if names != "single" and nmeth > 1 or names == "list" else ms[0], md, from_thr=f, to_thr=to, step=stepv, labels=labels, timeout=timeout, stop_on_timeout=stop, debug=dbg, **kw))
    if not ok: ctx.fail("the run failed with %s" % type(res).__name__); return
    for (m, rf_, thr, mode, lb, to_) in calls:
        ctx.check(rf_ is rf and lb == labels and to_ == timeout, "every threshold is solved with the given form, labels and timeout")
    single = not (names == "list" or nmeth > 1 or names == "single")
    if not ctx.check(isinstance(res, dict) == single, "one record for one method, a list for several"): return
    recs = [res] if single else list(res)
    want = [(m, mo) for m in ms for mo in modes]
    ctx.check(len(recs) == len(want), "one record per method and mode")
    if len(recs) != len(want): return
    for (m, mo) in want:
        mine = [x for x in recs if x["method"] == m.details and x["mode"] == mo]
        if not ctx.check(len(mine) == 1, "one record per method and mode"): return
        rec, thr = mine[0], [c[2] for c in calls if c[0] is m and c[3] == mo]
        rows = truth.get((m.nm, mo), [])
        # where the run has to end
        exp, n_vis, halt = [], 0, None
        for i in range(n):
            if i >= len(rows): break
            n_vis = i + 1
            row, out, halt = rows[i], [], None
            for (st, v, w, p) in row:
                if st == "i": halt = "i"; break
                out.append((-1 if st == "f" else v, w, p))
                if st == "f" and stop: halt = "f"; break
            if halt != "i": exp.append((i, out))
            if halt: break
        else: halt = "end"
        if n == 0: halt = "end"
        if not ctx.check(halt is not None and len(thr) == n_vis and len(rows) == n_vis, "exactly the thresholds from start to end are visited"): return
        if halt == "i": ctx.cover("infeasible")
        if halt == "f": ctx.cover("stopped at a failure")
        for i in range(n_vis): ctx.eq(thr[i], f + i * ctx.q(F(step)), "the thresholds are start, start+step, ...", tol=F(1, 10**8))
        if n_vis: ctx.le(thr[-1], end if not isinstance(end, float) else end, "no threshold beyond the end", tol=F(1, 10**12))
        run = rec["run"]
        if not ctx.check(len(run) == len(exp), "one entry per solved threshold"): return
        for e, (i, out) in zip(run, exp):
            ctx.eq(e["threshold"], f + i * ctx.q(F(step)), "entries carry their threshold", tol=F(1, 10**8))
            if not ctx.check(len(e["value"]) == len(e["wall_times"]) == len(e["proc_times"]) == len(out), "one value, wall time and process time per result"): return
            for a, b, c, (v, w, p) in zip(e["value"], e["wall_times"], e["proc_times"], out):
                ctx.eq(a, v, "values in order"); ctx.eq(b, w, "wall times"); ctx.eq(c, p, "process times")
        if d is not None:
            if ctx.mode == "sym": files = [o for nm, o in saved if mo in nm and "M%d" % m.nm in nm]; ok = len(files) == 1 and files[0] is rec
            else:
                nm = [x for x in os.listdir(d) if mo in x and "M%d" % m.nm in x]
                ok = len(nm) == 1 and json.load(open(os.path.join(d, nm[0]))) == rec
            ctx.check(ok, "the record is written to its file")

H = []
def add(name, bounds, must=(), **k):
    q = k.pop("quick", True); b = k.pop("budget", 60); fn = k.pop("fn", body)
    h = Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=30); h.must_reach = must; H.append(h)
ST = ["1/8", "1/4", "1/16"]
both = ("infeasible", "stopped at a failure")
add("one", "one method and mode, up to three thresholds (any start, step widths %s), up to two results each with any status and value" % ST, must=both, K=[0, 1, 2], steps=ST[:2], pats=[PAT[0], PAT[2], PAT[3], PAT[4]])
add("results", "one method, two thresholds, every pattern of up to two results", must=both, K=[1], steps=["1/8"], pats=PAT, files=True)
add("over-one", "end values above one", K=[0, 1, 2, 3], steps=ST, pats=[PAT[0], PAT[1]], over1=True)
add("long", "nine to twelve thresholds of one result", K=[9, 11], steps=["1/16", "1/64"], pats=[PAT[0]])
add("many", "two methods, two modes", K=[1], steps=["1/8"], pats=[PAT[0], PAT[2]], methods=2, modes=("min", "max"), names="list")
add("one-deep", "up to four thresholds, every pattern", K=[3], steps=["1/8", "1/4"], pats=PAT, quick=False, budget=400)
def fixed(ctx, f, to, step, want):
    """known findings: concrete runs whose thresholds are not the required ones"""
    fixed_run(ctx, f, to, step, "min", 1, want)
def fixed_run(ctx, f, to, step, mode, nm, want, methods_list=False, nrec=None):
    B = ctx.load("switss.benchmarks.benchmarks")
    RF, PF = ctx.load("switss.model").ReachabilityForm, ctx.load("switss.problem").ProblemFormulation
    Res = ctx.load("switss.problem").ProblemResult
    class M(PF):
        details = {"type": "M", "solver": "cbc"}
        def _solveiter(self, rf, thr, mode, labels=None, timeout=None): yield Res("success", None, 1, None)
    ok, r = ctx.call(lambda: B.run(RF.__new__(RF), [M() for _ in range(nm)] if methods_list else M(), mode, from_thr=f, to_thr=to, step=step))
    if not ctx.check(ok, "the run succeeds"): return
    recs = r if isinstance(r, list) else [r]
    if nrec is not None and not ctx.check(len(recs) == nrec, "one record per method and mode"): return
    for rec in recs:
        thr = [e["threshold"] for e in rec["run"]]
        if ctx.check(len(thr) == len(want), "exactly the thresholds from start to end are visited"):
            for a, b in zip(thr, want): ctx.eq(a, b, "the thresholds are start, start+step, ...", tol=1e-8)
add("finding-end-one", "from 0.5 to 1 in steps of 0.25", fn=fixed, f=0.5, to=1, step=0.25, want=[0.5, 0.75, 1])
add("finding-beyond-end", "from 0.125 to 0.3125 in steps of 0.125", fn=fixed, f=0.125, to=0.3125, step=0.125, want=[0.125, 0.25])
add("finding-mode-string", "two methods, one mode given as a string", fn=fixed_run, f=0.25, to=0.5, step=0.25, mode="min", nm=2, methods_list=True, nrec=2, want=[0.25, 0.5])
add("finding-mode-list", "one method, two modes", fn=fixed_run, f=0.25, to=0.5, step=0.25, mode=["min", "max"], nm=1, nrec=2, want=[0.25, 0.5])
HARNESSES = H
ASSUMPTIONS = ["the clock only advances while the method works (the statement is about the time spent there)", "a method yields at least one result per threshold", "the end value is one of the thresholds and below one, or above one with no threshold equal to one (the other cases are the known findings)"]
