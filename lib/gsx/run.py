"""Jobs of symbolically executed kernel harnesses: pool, obligations, counterexamples, validation samples."""
import time, random, traceback, os, sys
import multiprocessing as mp
from symx.core import z3, Inconclusive

class GHarness:
    gsx = True
    native = True
    def __init__(self, name, jobs, sym, conc, bounds, quick=True, thorough=True, budget=300, samples=8, must_reach=(), env=None):
        self.name, self.jobs, self.sym, self.conc, self.bounds = name, jobs, sym, conc, bounds
        self.quick, self.thorough, self.budget, self.samples = quick, thorough, budget, samples
        self.must_reach, self.params, self.max_paths = must_reach, {}, 10 ** 9
    def fn(self, ctx): return self.conc(ctx)
    body = fn

class Result:
    """what a job produced: obligations [(label, formula)], assumption, inputs, outputs"""
    def __init__(self, S):
        self.S, self.ob, self.assume, self.outputs, self.job, self.prefer = S, [], [], None, {}, []
        self.covered = set()
    def must(self, label, f): self.ob.append((label, f))

def job_main(args):
    h, job, tier, seed = args
    t0 = time.time()
    out = {"job": job, "viol": [], "inc": None, "queries": 0, "solver_s": 0.0, "ob": 0, "dis": 0, "labels": {}, "samples": [], "funcs": set(), "covered": set(), "steps": 0, "derefs": 0, "nodes": 0}
    try:
        R = h.sym(job)
        S = R.S
        I = S.I
        out["funcs"], out["steps"], out["derefs"], out["nodes"], out["covered"] = set(I.funcs), I.steps, I.derefs, len(I.B.var), R.covered
        s = z3.Solver(); s.set("timeout", 300000)
        for a in R.assume + S.real_axioms(): s.add(a)
        def check(*a):
            t = time.time(); r = s.check(*a); out["solver_s"] += time.time() - t; out["queries"] += 1
            if r == z3.unknown: raise Inconclusive("solver: unknown")
            return r
        if check() == z3.unsat: raise Inconclusive("vacuous job: the assumptions are contradictory")
        neg = [(l, z3.Not(f)) for l, f in R.ob]
        for l, _ in neg: out["labels"][l] = out["labels"].get(l, 0) + 1
        out["ob"] = len(neg)
        if neg and check(z3.Or([f for _, f in neg])) == z3.unsat: out["dis"] = len(neg)
        else:
            n = 0
            for l, f in neg:
                if n >= 12: break
                r = check(f)
                if r == z3.unsat: out["dis"] += 1; continue
                best = None
                for extra in ([R.prefer] if R.prefer else []) + [[]]:
                    if check(f, *extra) == z3.sat: best = s.model(); break
                out["viol"].append({"label": l, "detail": "", "inputs": inputs_of(S, job, best), "stubs": None}); n += 1
        # random assignments with the predicted outputs, re-run later on the real code
        rnd = random.Random(seed * 1009 + hash(str(sorted(job.items()))) % 10007 if False else seed * 1009 + sum(map(ord, str(sorted(job.items())))))
        if R.outputs is not None:
            for _ in range(3):
                asg = {n: (S.fixed[n] if n in S.fixed else rnd.random() < 0.45) for n in S.names}
                if R.okay is not None and not R.okay(asg): continue
                o = R.outputs(asg)
                if o is None: continue
                inp = {n: bool(v) for n, v in asg.items()}
                inp.update({"job." + k: v for k, v in job.items()})
                out["samples"].append({"inputs": inp, "observed": o})
    except Inconclusive as e: out["inc"] = str(e)[:300]
    except RecursionError as e: out["inc"] = "recursion limit"
    except Exception as e:
        out["inc"] = "machinery: %s: %s %s" % (type(e).__name__, str(e)[:200], [(os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(e.__traceback__)][-5:])
    out["wall"] = time.time() - t0
    return out
Result.okay = None

def inputs_of(S, job, m):
    inp = {}
    for n in S.names: inp[n] = bool(S.fixed[n]) if n in S.fixed else z3.is_true(m.eval(S.zv[n], model_completion=True))
    if S.I.atoms:
        for t in S.tokens:
            v = m.eval(z3.Real(t), model_completion=True)
            inp[t] = {"q": "%d/%d" % (v.numerator_as_long(), v.denominator_as_long())} if z3.is_rational_value(v) else 0
    inp.update({"job." + k: v for k, v in job.items()})
    return inp

def _init():
    import resource
    sys.setrecursionlimit(20000)
    import threading
def _big(args):
    import threading
    box = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: box.append(job_main(args)))
    t.start(); t.join()
    return box[0] if box else {"job": args[1], "inc": "job died", "viol": [], "queries": 0, "solver_s": 0, "ob": 0, "dis": 0, "labels": {}, "samples": [], "funcs": set(), "covered": set(), "steps": 0, "derefs": 0, "nodes": 0}

_HS = []
def _worker(k, tier, seed, qi, qo):
    h = _HS[k]
    while True:
        j = qi.get()
        if j is None: return
        qo.put((j[0], _big((h, j[1], tier, seed))))
def explore(h, tier, seed, budget, nproc=None):
    nproc = nproc or min(8, os.cpu_count() or 1)
    jobs = list(h.jobs(tier))
    from .interp import Interp
    try: Interp().load_modules()       # parsed once, inherited by the workers
    except Inconclusive: pass
    if h not in _HS: _HS.append(h)
    k = _HS.index(h)
    tot = {"paths": 0, "infeasible": 0, "inc": [], "viol": [], "samples": [], "stats": [0, 0.0, 0, 0, 0], "labels": {}, "status": {}, "covered": set(), "funcs": set(), "left": 0, "error": None,
           "derefs": 0, "steps": 0}
    t0 = time.time()
    ctx = mp.get_context("fork")
    qi, qo = ctx.Queue(), ctx.Queue()
    for j in enumerate(jobs): qi.put(j)
    for _ in range(nproc): qi.put(None)
    ps = [ctx.Process(target=_worker, args=(k, tier, seed, qi, qo), daemon=True) for _ in range(min(nproc, len(jobs)))]
    for p in ps: p.start()
    done, tv = 0, None
    import queue
    while done < len(jobs):
        try: _, o = qo.get(timeout=3)
        except queue.Empty:
            if time.time() - t0 > budget or tv and time.time() - tv > 40: tot["left"] = len(jobs) - done; break
            if not any(p.is_alive() for p in ps):
                try: _, o = qo.get(timeout=2)
                except queue.Empty:
                    tot["error"] = "worker processes died"; break
            else: continue
        done += 1
        if o["inc"]: tot["inc"].append((o["inc"] + " in job %s" % o["job"], None))
        else: tot["paths"] += 1
        tot["viol"] += o["viol"]; tot["samples"] += o["samples"]
        st = tot["stats"]; st[0] += o["queries"]; st[1] += o["solver_s"]; st[2] += o["ob"]; st[3] += o["dis"]; st[4] += o["steps"]
        for l, n in o["labels"].items(): tot["labels"][l] = tot["labels"].get(l, 0) + n
        tot["covered"] |= o["covered"]; tot["funcs"] |= o["funcs"]; tot["derefs"] += o["derefs"]
        if tot["viol"] and tv is None: tv = time.time()
        if len(tot["viol"]) > 60: break
        if time.time() - t0 > budget: tot["left"] = len(jobs) - done; break
    for p in ps: p.terminate()
    for p in ps: p.join(5)
    tot["wall"] = time.time() - t0
    return tot
