"""Exploration of harnesses: path scheduling over a worker pool, replay of counterexamples
against the real code, validation of the symbolic world, evidence."""
import os, sys, json, time, traceback, subprocess, tempfile, random, hashlib, math, importlib.util, threading
import multiprocessing as mp
from fractions import Fraction
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

class Harness:
    def __init__(self, name, fn, bounds, quick=True, thorough=True, budget=60, samples=6, params=None, max_paths=10**9, native=True, needs_lp=False):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.quick, self.thorough, self.budget, self.samples = quick, thorough, budget, samples
        self.params = params or {}
        self.max_paths = max_paths
        self.native = native
    def body(self, ctx):
        """ints: deterministic rows are given as integers"""
        p = dict(self.params)
        ctx.ints = p.pop("ints", False)
        self.fn(ctx, **p)

def enc(v):
    if isinstance(v, Fraction): return {"q": "%d/%d" % (v.numerator, v.denominator)}
    return v
def dec(v):
    if isinstance(v, dict) and "q" in v: return Fraction(v["q"])
    return v

class Fail(Exception): pass
class NotThisPath(BaseException): pass
class _Inputs(dict):
    def __missing__(self, k): raise NotThisPath("input %s was not reached on the symbolic path" % k)

class CtxBase:
    ints = False
    tier = "quick"
    def bool(self, name): return self.choice(name, [False, True])
    def call(self, f, *a, **k):
        """(True, result) or (False, exception)"""
        try: return True, f(*a, **k)
        except Exception as e:
            if os.environ.get("SYMX_TRACE"): open(os.environ["SYMX_TRACE"], "a").write(traceback.format_exc() + "\n")
            return False, e
    def fail(self, label): self.check(False, label)
    def skip(self):
        """outside the stated bounds"""
        from . import core
        if self.mode == "sym": raise core.PathAbort()
        raise NotThisPath("outside the bounds")
    def cover(self, label): self.covered.add(label)

class SymCtx(CtxBase):
    mode = "sym"
    def __init__(self, E, harness, tier):
        from . import core, load
        self.E, self.h, self.tier = E, harness, tier
        self.core = core
        self.covered = set()
        self._world = None
        self.over, self.bover = {}, {}
        E.lp_handler = None
    def world(self, overrides=None, builtin_overrides=None):
        from . import load
        return load.World(overrides, builtin_overrides)
    def load(self, name):
        from . import load
        if self._world is None: self._world = load.World(self.over, self.bover)
        return self._world.load(name)
    @property
    def np(self):
        from . import npshim
        return npshim.np
    @property
    def sparse(self):
        from . import spshim
        return spshim.sparse
    def real(self, name, lo=None, hi=None, grid=None, pos=False):
        core = self.core
        e = core.z3.Real(name)
        self.E.inputs[name] = ("real", e)
        x = core.SymReal(e, grid=[Fraction(g) for g in grid] if grid else None)
        if grid: self.E.add(core.z3.Or([e == core.num(Fraction(g)) for g in grid]))
        if lo is not None: self.E.add(e >= core.num(Fraction(lo)))
        if hi is not None: self.E.add(e <= core.num(Fraction(hi)))
        if pos:
            self.E.add(e > 0)
        return x
    def choice(self, name, opts):
        """a value of the (concrete) list, chosen by forking"""
        core = self.core
        opts = list(opts)
        if len(opts) == 1: return opts[0]
        e = core.z3.Int(name)
        assert name not in self.E.inputs, "input %r declared twice" % name
        self.E.inputs[name] = ("int", e)
        E = self.E
        # a fresh bounded integer: every value is feasible, no query is needed to split on it
        if E.pos < len(E.prefix): i = E.prefix[E.pos]
        else:
            i = 0
            for k in range(1, len(opts)): E.alternatives.append(list(E.decisions) + [k])
        E.pos += 1
        E.decisions.append(i)
        E.add(e == i)
        return opts[i]
    def symbool(self, name):
        e = self.core.z3.Bool(name)
        self.E.inputs[name] = ("bool", e)
        return self.core.SymBool(e)
    def symint(self, name, lo, hi):
        e = self.core.z3.Int(name)
        self.E.inputs[name] = ("int", e)
        self.E.add(self.core.z3.And(e >= lo, e <= hi))
        return self.core.SymInt(e, list(range(lo, hi + 1)))
    def key(self, name):
        """an arbitrary object, known only up to equality (usable as a dictionary key)"""
        e = self.core.z3.Int(name)
        self.E.inputs[name] = ("int", e)
        return self.core.SymKey(e)
    def assume(self, c): self.E.assume(c)
    def lp(self, handler=None):
        """the model of the LP back end used from here on"""
        from . import lpexact
        self.E.lp_handler = handler or lpexact.exact
    def decoy(self, f):
        """runs f, whose outcome does not matter, with a back end that gives one concrete answer"""
        from . import lpexact
        old = self.E.lp_handler; self.E.lp_handler = lpexact.one
        try: return self.call(f)
        finally: self.E.lp_handler = old
    def backend(self, handler):
        """handler(problem) -> (status, values) plays the solver, here and on the real code"""
        self.E.lp_handler = handler
    def tap(self, f):
        """f(problem) is called with every problem handed to the LP back end"""
        self.E.__dict__.setdefault("lp_taps", []).append(f)
    def q(self, x): return Fraction(x)
    # ---- obligations
    def check(self, c, label):
        core, E = self.core, self.E
        E.obligations += 1
        E.labels[label] = E.labels.get(label, 0) + 1
        if isinstance(c, core.SymReal): c = c != 0
        if c is True or (not core.is_sym(c) and bool(c)):
            E.discharged += 1; return True
        neg = core.z3.Not(core.bx(c))
        if core.is_sym(c):
            r = E._check(neg)
            if r == core.z3.unsat:
                E.discharged += 1; return True
        else: neg = core.z3.BoolVal(True)
        self._viol(label, [neg])
        return False
    def _viol(self, label, extra, detail=""):
        E = self.E
        if len(E.violations) >= 4: return
        E.violations.append({"label": label, "detail": detail, "inputs": self.inputs(extra), "stubs": self.stubs_last})
    def eq(self, a, b, label, tol=Fraction(1, 10**6)):
        core = self.core
        if isinstance(a, (bool, str, tuple, list, set, dict, type(None))) or isinstance(b, (bool, str, tuple, list, set, dict, type(None))):
            return self.check(core.Iff(a, b) if isinstance(a, core.SymBool) or isinstance(b, core.SymBool) else a == b, label)
        from .npshim import exact
        a, b = exact(a), exact(b)
        d = a - b
        return self.check(core.And(d <= tol, d >= -tol), label)
    def le(self, a, b, label, tol=Fraction(1, 10**6)):
        from .npshim import exact
        return self.check(exact(a) - exact(b) <= tol, label)
    def observe(self, name, v): self.E.observed.append((name, v))
    stubs_last = None
    def inputs(self, extra=()):
        core = self.core
        m = self.E.model(extra)
        if m is None:
            return None
        out = {n: enc(core.zval(m, e)) for n, (k, e) in self.E.inputs.items()}
        self.stubs_last = [[s, None if x is None else [enc(core.zval(m, core.ex(v)) if core.is_sym(v) else v) for v in x], nm] for (s, x, nm) in self.E.stubs.get("lp", [])]
        self.last_model = m
        return out

class ConcCtx(CtxBase):
    """the same harness on the real code"""
    mode = "conc"
    def __init__(self, inputs, harness, tier, stubs=None, scripted=False):
        self.i = _Inputs({k: dec(v) for k, v in inputs.items()})
        self.h, self.tier = harness, tier
        self.viol, self.observed, self.covered = [], [], set()
        self.stubs, self.scripted = stubs or [], scripted
        self.over, self.bover = {}, {}
    def load(self, name):
        import importlib
        return importlib.import_module(name)
    @property
    def np(self):
        import numpy; return numpy
    @property
    def sparse(self):
        import scipy.sparse; return scipy.sparse
    def real(self, name, lo=None, hi=None, grid=None, pos=False): return float(self.i[name])
    def choice(self, name, opts):
        opts = list(opts)
        if len(opts) == 1: return opts[0]
        return opts[int(self.i.get(name, 0))]
    def symbool(self, name): return bool(self.i[name])
    def symint(self, name, lo, hi): return int(self.i[name])
    def key(self, name): return int(self.i[name])
    def assume(self, c): pass
    def lp(self, handler=None): pass
    def decoy(self, f): return self.call(f)
    def tap(self, f): _taps.append(f)
    def backend(self, handler):
        _taps.append(_Backend(handler))
    def q(self, x): return float(Fraction(x))
    def check(self, c, label):
        if not bool(c): self.viol.append(label); return False
        return True
    def eq(self, a, b, label, tol=Fraction(1, 10**6)):
        if isinstance(a, (bool, str, tuple, list, set, dict, type(None))) or isinstance(b, (bool, str, tuple, list, set, dict, type(None))):
            return self.check(a == b, label)
        import math
        ok = abs(a - b) <= max(float(tol) / 2, 1e-13) if math.isfinite(a) and math.isfinite(b) else a == b
        return self.check(ok, label)
    def le(self, a, b, label, tol=Fraction(1, 10**6)): return self.check(a - b <= max(float(tol) / 2, 1e-13), label)
    def observe(self, name, v): self.observed.append((name, v))

# ------------------------------------------------------------------ symbolic path runner
_H = None
_funcs = set()
def _monitor():
    m = sys.monitoring
    from .load import REPO
    try: m.use_tool_id(3, "symx")
    except ValueError: return
    def cb(code, off):
        if code.co_filename.startswith(REPO): _funcs.add(os.path.relpath(code.co_filename, REPO) + ":" + code.co_qualname)
        return m.DISABLE
    m.register_callback(3, m.events.PY_START, cb)
    m.set_events(3, m.events.PY_START)

def run_path(h, prefix, tier, want_model):
    from . import core
    E = core.Engine(prefix)
    core.Engine.cur = E
    ctx = SymCtx(E, h, tier)
    res = {"status": "ok", "alts": None, "viol": [], "sample": None}
    try:
        try:
            h.body(ctx)
        except core.PathAbort: res["status"] = "infeasible"
        except core.Inconclusive as e:
            res["status"] = "inconclusive"; res["why"] = str(e)[:300]
            try: res["inputs"] = ctx.inputs()
            except (core.Inconclusive, core.PathAbort, Exception): pass
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(_repo())]
            res["status"] = "exception"
            res["why"] = "%s: %s @ %s" % (type(e).__name__, str(e)[:200], ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb][-4:])
            if tb and not where: res["status"] = "harness-error" if not any("symx" in f.filename for f in tb[-1:]) else "exception"
            try: ctx._viol("exception:%s" % type(e).__name__, [], res["why"])
            except core.Inconclusive: pass
        res["viol"] = E.violations
        if want_model and res["status"] == "ok" and not E.violations:
            try:
                inp = ctx.inputs()
                if inp is not None:
                    m = ctx.last_model
                    obs = []
                    for n, v in E.observed: obs.append((n, _obsval(core, m, v)))
                    res["sample"] = {"inputs": inp, "observed": obs, "stubs": ctx.stubs_last}
            except core.Inconclusive: pass
    except core.Inconclusive as e:
        res["status"] = "inconclusive"; res["why"] = str(e)[:300]
    finally:
        core.Engine.cur = None
    res["alts"] = E.alternatives
    res["stats"] = (E.nq, E.tq, E.obligations, E.discharged, E.branches)
    res["labels"] = E.labels
    res["covered"] = ctx.covered
    return res
def _repo():
    from .load import REPO
    return REPO
def _obsval(core, m, v):
    if core.is_sym(v): return enc(core.zval(m, v.e))
    if isinstance(v, Fraction): return enc(v)
    if isinstance(v, (list, tuple)): return [_obsval(core, m, x) for x in v]
    if isinstance(v, (set, frozenset)): return sorted(_obsval(core, m, x) for x in v)
    if isinstance(v, dict): return sorted([[_obsval(core, m, a), _obsval(core, m, b)] for a, b in v.items()], key=repr)
    import numpy as np
    if isinstance(v, np.ndarray): return [_obsval(core, m, x) for x in v.ravel().tolist()]
    if isinstance(v, np.integer): return int(v)
    if isinstance(v, np.floating): return enc(Fraction(float(v)))
    if isinstance(v, float): return enc(Fraction(v))
    return v
def obs_close(a, b, tol=1e-6):
    a, b = dec(a) if isinstance(a, dict) else a, dec(b) if isinstance(b, dict) else b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(obs_close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool): return bool(a) == bool(b)
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)): return abs(float(a) - float(b)) <= tol * max(1, abs(float(a)))
    return a == b

def worker_main(hid, q_in, q_out, tier, seed):
    h = _H[hid]
    sys.setrecursionlimit(10000)
    _monitor()
    from . import core, load
    try:
        if h.native: load.install_native()
    except Exception as e:
        q_out.put(("error", "cannot load the compiled kernel: %r" % e)); return
    rnd = random.Random(seed)
    while True:
        task = q_in.get()
        if task is None: break
        stack, slice_s = task
        stack = [list(p) for p in stack]
        t0 = time.time()
        agg = {"paths": 0, "infeasible": 0, "inc": [], "viol": [], "samples": [], "stats": [0, 0.0, 0, 0, 0], "labels": {}, "status": {}, "covered": set(), "why": []}
        first = True
        while stack and (first or time.time() - t0 < slice_s):
            first = False
            pre = stack.pop()
            want = int(hashlib.md5(repr((seed, pre)).encode()).hexdigest(), 16) % 1000 < h.sample_rate or not pre
            r = run_path(h, pre, tier, want)
            stack.extend(r["alts"])
            agg["status"][r["status"]] = agg["status"].get(r["status"], 0) + 1
            if r["status"] == "infeasible": agg["infeasible"] += 1
            else: agg["paths"] += 1
            if r["status"] in ("inconclusive", "harness-error"): agg["inc"].append((r.get("why"), r.get("inputs")))
            agg["viol"].extend(r["viol"])
            if r["sample"]: agg["samples"].append(r["sample"])
            for i in range(5): agg["stats"][i] += r["stats"][i]
            for k, v in r["labels"].items(): agg["labels"][k] = agg["labels"].get(k, 0) + v
            agg["covered"] |= r["covered"]
            if len(agg["viol"]) > 20: break
        agg["funcs"] = set(_funcs)
        q_out.put(("done", stack, agg))

def explore(hid, h, tier, seed, budget, nproc=8, quiet=True):
    ctx = mp.get_context("fork")
    q_out, shared = ctx.Queue(), ctx.Queue()
    h.sample_rate = getattr(h, "sample_rate", 20)
    import queue as _q
    frontier = [[]]
    tot = {"paths": 0, "infeasible": 0, "inc": [], "viol": [], "samples": [], "stats": [0, 0.0, 0, 0, 0], "labels": {}, "status": {}, "covered": set(), "funcs": set(), "left": 0, "error": None}
    t0 = time.time()
    rnd = random.Random(seed)
    out, tv = 0, None
    stop = False
    procs = []
    for i in range(nproc):
        p = ctx.Process(target=worker_main, args=(hid, shared, q_out, tier, seed), daemon=True)
        p.start(); procs.append(p)
    while True:
        if not stop and frontier and out < nproc + 2:
            # hand out chunks: oldest prefixes first (they are the largest subtrees)
            n = max(1, min(64, len(frontier) // (2 * nproc)))
            if len(frontier) > 64: rnd.shuffle(frontier)
            chunk, frontier = frontier[:n], frontier[n:]
            sl = 0.3 if len(frontier) < 4 * nproc else 2.0
            shared.put((chunk, sl)); out += 1
            continue
        if out == 0: break
        try: msg = q_out.get(timeout=5)
        except _q.Empty:
            if tv and time.time() - tv > 45: break       # a violation has been found: do not wait for long paths
            if any(not p.is_alive() for p in procs):
                tot["error"] = "a worker process died (exit %s)" % [p.exitcode for p in procs]; break
            if time.time() - t0 > budget + 180:
                tot["error"] = "no progress within the time limit"; break
            continue
        if msg[0] == "error": tot["error"] = msg[1]; break
        out -= 1
        _, left, agg = msg
        frontier.extend(left)
        for k in ("paths", "infeasible"): tot[k] += agg[k]
        for k in ("inc", "viol", "samples"): tot[k].extend(agg[k])
        for i in range(5): tot["stats"][i] += agg["stats"][i]
        for k, v in agg["labels"].items(): tot["labels"][k] = tot["labels"].get(k, 0) + v
        for k, v in agg["status"].items(): tot["status"][k] = tot["status"].get(k, 0) + v
        tot["covered"] |= agg["covered"]; tot["funcs"] |= agg["funcs"]
        if tot["viol"] and tv is None: tv = time.time()
        if time.time() - t0 > budget or tot["paths"] >= h.max_paths or len(tot["viol"]) > 60 or tv and time.time() - tv > 30: stop = True
    tot["left"] = len(frontier)
    tot["wall"] = time.time() - t0
    for p in procs: p.terminate()
    for p in procs: p.join(5)
    return tot

# ------------------------------------------------------------------ replay on the real code
def load_check(cid):
    p = os.path.join(HERE, "checks")
    if p not in sys.path: sys.path.insert(0, p)
    import importlib
    return importlib.import_module(cid)

def conc_runs(cid, tier, runs, timeout=900):
    """results of running harnesses on the real code, one subprocess (restarted after a crash)"""
    from . import native
    root = native.prepare()
    results = []
    env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    i = 0
    while i < len(runs):
        with tempfile.TemporaryDirectory() as d:
            jf, of = os.path.join(d, "job.json"), os.path.join(d, "out.jsonl")
            json.dump({"check": cid, "tier": tier, "runs": runs[i:]}, open(jf, "w"))
            env1 = env
            if getattr(load_check(cid), "PRELOAD", False):
                so = os.path.join(d, "shim.so")
                if subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(HERE, "lib", "gsx", "shim.c")]).returncode == 0: env1 = dict(env, LD_PRELOAD=so)
            open(of, "w").close()
            rc = None
            try:
                pr = subprocess.run([sys.executable, "-W", "ignore", os.path.join(HERE, "lib", "symx", "conc.py"), jf, of], env=env1, cwd=d,
                                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
                rc = pr.returncode; txt = pr.stdout.decode(errors="replace")[-2000:]
            except subprocess.TimeoutExpired: txt = "timeout"
            got = [json.loads(l) for l in open(of)]
        results += got
        i += len(got)
        if i < len(runs):
            if not got and rc == 1 and "Timeout (" not in txt: raise RuntimeError("replay runner failed: " + txt)
            results.append({"exc": "timeout" if "Timeout (" in txt else "crash (exit %s)" % rc, "viol": [], "observed": None, "tb": txt}); i += 1
    return results

def conc_parallel(cid, tier, runs, n=8):
    if len(runs) <= 2: return conc_runs(cid, tier, runs)
    n = min(n, (len(runs) + 1) // 2)
    parts = [runs[k::n] for k in range(n)]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as ex: rs = list(ex.map(lambda p: conc_runs(cid, tier, p), parts))
    out = [None] * len(runs)
    for k in range(n):
        for j, r in enumerate(rs[k]): out[k + j * n] = r
    return out

_saved = {}
_taps = []
class _Backend:
    def __init__(self, f): self.f = f
def install_taps():
    """real code: observers of the problems handed to PuLP"""
    import pulp
    from .lpstub import Prob
    if "init" in _saved: return
    seq = [0]
    oi = _saved["init"] = pulp.LpVariable.__init__
    def init(self, *a, **k):
        oi(self, *a, **k); seq[0] += 1; self._symx_seq = seq[0]
    pulp.LpVariable.__init__ = init
    os_ = pulp.LpProblem.solve
    def solve(self, *a, **k):
        be = None
        for f in list(_taps):
            if isinstance(f, _Backend): be = f
            else: f(Prob(self, None))
        if be is not None:
            from .lpstub import answer
            p = Prob(self, None)
            r = be.f(p)
            if r is not None: return answer(self, p, *r)       # None: the real solver answers
        return os_(self, *a, **k)
    pulp.LpProblem.solve = solve
def install_script(ctx):
    """the LP back end answers with the solutions of the counterexample, after checking with
    the real solver that each is feasible and as good as the real optimum"""
    import pulp
    script = list(ctx.stubs)
    orig = pulp.LpProblem.solve
    _saved["solve"] = orig
    def solve(self, solver=None, **kw):
        if not script: return orig(self, solver, **kw)
        status, x, names = script.pop(0)
        r = orig(self, solver, **kw)
        byname = {v.name: v for v in self.variables()}
        if status != "optimal":
            if pulp.LpStatus[self.status] != {"infeasible": "Infeasible", "unbounded": "Unbounded", "undefined": "Undefined", "notsolved": "Not Solved"}.get(status): raise NotThisPath("solver disagrees with the scripted status %s" % status)
            return r
        if self.status != 1: raise NotThisPath("solver says %s, script says optimal" % pulp.LpStatus[self.status])
        best = self.objective.value() if self.objective is not None else 0
        old = {v: v.varValue for v in self.variables()}
        for n, val in zip(names, x):
            if n in byname: byname[n].varValue = float(dec(val))
        ok = all(c.valid(1e-6) for c in self.constraints.values())
        for v in self.variables():
            val = v.varValue
            if val is None: ok = False; continue
            if v.lowBound is not None and val < v.lowBound - 1e-6: ok = False
            if v.upBound is not None and val > v.upBound + 1e-6: ok = False
            if v.cat == "Integer" and abs(val - round(val)) > 1e-6: ok = False
        new = self.objective.value() if self.objective is not None else 0
        if not ok or abs(new - best) > 1e-6: raise NotThisPath("scripted solution is not an optimal solution of this problem")
        return r
    pulp.LpProblem.solve = solve
def remove_script():
    import pulp
    pulp.LpProblem.solve = _saved.pop("solve", pulp.LpProblem.solve)

# ------------------------------------------------------------------ a whole check
def known_findings(cid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == cid and k.get("kind") == "finding"]
def match_known(known, hname, label, inputs):
    for k in known:
        if k["harness"] == hname and k["label"] == label and all(inputs.get(a) == b for a, b in k.get("inputs", {}).items()): return k
    return None

def run_check(cid, tier):
    global _H
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = load_check(cid)
    from . import native
    try: native.prepare()
    except native.BuildError as e:
        print("ERROR: the extensions do not build:\n%s" % e); return 3
    hs = [h for h in chk.HARNESSES if (h.quick if tier == "quick" else h.thorough)]
    _H = hs
    known = known_findings(cid)
    hit_known = {}
    reported = []
    ev = {"harnesses": {}, "functions_encoded": set(), "queries": 0, "solver_s": 0.0, "paths": 0, "obligations": 0, "discharged": 0,
          "inconclusive_paths": 0, "validated": 0, "validation_mismatches": 0, "unexplored_prefixes": 0}
    samples, fatal, mism = [], [], []
    for hid, h in enumerate(hs):
        if reported and time.time() - t0 > 60: print("  (stopped: a violation has been found)"); break
        budget = h.budget if tier == "quick" else h.budget * 8
        if getattr(h, "gsx", False):
            from gsx import run as gsx_run
            t = gsx_run.explore(h, tier, seed, budget)
        else: t = explore(hid, h, tier, seed, budget)
        if t["error"]: fatal.append("%s: %s" % (h.name, t["error"]))
        rec = {"paths": t["paths"], "infeasible": t["infeasible"], "queries": t["stats"][0], "solver_s": round(t["stats"][1], 2), "obligations": t["stats"][2],
               "discharged": t["stats"][3], "branches": t["stats"][4], "wall_s": round(t["wall"], 1), "bounds": h.bounds, "complete": t["left"] == 0 and not t["error"],
               "unexplored_prefixes": t["left"], "assertions": t["labels"], "reached": sorted(t["covered"]), "inconclusive": len(t["inc"])}
        if getattr(h, "gsx", False):
            rec["memory_accesses_checked"] = t["derefs"]; rec["statements_and_expressions_executed"] = t["stats"][4]; rec["jobs"] = rec.pop("paths")
        ev["harnesses"][h.name] = rec
        for a, b in (("queries", 0), ("solver_s", 1), ("obligations", 2), ("discharged", 3)): ev[a] += t["stats"][b]
        ev["paths"] += t["paths"]; ev["unexplored_prefixes"] += t["left"]; ev["functions_encoded"] |= t["funcs"]
        # --- counterexamples: replay on the real code
        bylab = {}
        for v in t["viol"]:
            if v["inputs"] is None: continue
            bylab.setdefault(v["label"], []).append(v)
        spurious = 0
        for lab, vs in sorted(bylab.items()):
            cands = vs[:6]
            runs = [{"harness": h.name, "inputs": v["inputs"]} for v in cands]
            runs += [{"harness": h.name, "inputs": v["inputs"], "stubs": v["stubs"], "scripted": True} for v in cands if v.get("stubs")]
            rs = conc_parallel(cid, tier, runs)
            ok = False
            for run, r in zip(runs, rs):
                if r.get("skipped") and not r["viol"]: continue
                if r["viol"] or r["exc"]:
                    what = "; ".join(sorted(set(r["viol"]))[:3]) or r["exc"]
                    lab2 = (sorted(set(r["viol"]))[0] if r["viol"] else "exception")
                    k = match_known(known, h.name, lab, run["inputs"]) or match_known(known, h.name, lab2, run["inputs"])
                    ok = True
                    if k: hit_known.setdefault(k["id"], (k, what)); continue
                    reported.append({"harness": h.name, "label": lab, "what": what, "run": run, "exc": r["exc"], "tb": r.get("tb"), "symbolic": cands[0]["detail"]})
                    break
            if not ok: spurious += len(vs); mism.append("%s/%s: a symbolic counterexample did not reproduce: %s %s -> %s" % (h.name, lab, vs[0]["inputs"], vs[0]["detail"], rs[0]))
        rec["not_reproduced"] = spurious
        # --- inconclusive paths: try the real code on the path's own model, at least
        inc_inputs = [i for (w, i) in t["inc"] if i][:12]
        # --- validation: sampled passing paths on the real code
        smp = t["samples"]
        random.Random(seed).shuffle(smp)
        n = h.samples if tier == "quick" else h.samples * 6
        smp = smp[:n]
        runs = [{"harness": h.name, "inputs": s["inputs"]} for s in smp] + [{"harness": h.name, "inputs": i} for i in inc_inputs]
        rs = conc_parallel(cid, tier, runs) if runs else []
        for j, (run, r) in enumerate(zip(runs, rs)):
            if r.get("skipped") and not r["viol"]: continue
            if r["viol"] or r["exc"]:
                lab2 = (sorted(set(r["viol"]))[0] if r["viol"] else "exception")
                k = match_known(known, h.name, lab2, run["inputs"])
                if k: hit_known.setdefault(k["id"], (k, r["exc"] or lab2)); continue
                reported.append({"harness": h.name, "label": lab2, "what": "; ".join(sorted(set(r["viol"]))[:3]) or r["exc"], "run": run, "exc": r["exc"], "tb": r.get("tb"),
                                 "symbolic": "found while validating a path against the real code"})
                continue
            if j < len(smp):
                ev["validated"] += 1
                a, b = smp[j]["observed"], r["observed"]
                if b is not None and not obs_close([list(x) for x in a], [list(x) for x in b]):
                    ev["validation_mismatches"] += 1
                    mism.append("%s: observed values differ: inputs %s symbolic %s real %s" % (h.name, run["inputs"], a, b))
        if smp: samples.append({"harness": h.name, "inputs": smp[0]["inputs"]})
        ev["inconclusive_paths"] += len(t["inc"]) + spurious
        rec["inconclusive_reasons"] = sorted({str(w) for w, _ in t["inc"]})[:5]
        if t["paths"] == 0: fatal.append("%s: no feasible path (vacuous)" % h.name)
        elif (len(t["inc"]) + spurious) * 2 > t["paths"] + 1: fatal.append("%s: more than half of the paths are inconclusive: %s" % (h.name, rec["inconclusive_reasons"] or mism[-1:]))
        must = getattr(h, "must_reach", ())
        for m in must:
            if m not in t["covered"] and not t["left"]: fatal.append("%s: vacuity: never reached %r" % (h.name, m))
        print("  %-34s paths %6d  queries %7d  solver %7.1fs  obligations %6d  wall %5.1fs%s%s%s" % (h.name, t["paths"], t["stats"][0], t["stats"][1], t["stats"][2], t["wall"],
              "" if rec["complete"] else "  INCOMPLETE(%d left)" % t["left"], "  inconclusive %d" % len(t["inc"]) if t["inc"] else "", "  candidates %d" % len(t["viol"]) if t["viol"] else ""), flush=True)
    for m in mism[:6]: print("  note:", m[:1500])
    return finish(cid, tier, seed, t0, ev, samples, reported, hit_known, fatal, getattr(chk, "ASSUMPTIONS", []))

def finish(cid, tier, seed, t0, ev, samples, reported, hit_known, fatal, assumptions, explanation=None):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = dict(ev)
    cov["functions_encoded"] = sorted(ev["functions_encoded"])
    cov["solver_s"] = round(ev.get("solver_s", 0), 2)
    cov["samples"] = samples[:8]
    cov["explanation"] = explanation or ("Path-forking symbolic execution of the listed functions, read from /repo on this run; numeric inputs are z3 reals (bounds per harness), every feasible "
        "path within the bounds was executed and every assertion's negation was refuted by z3 unless listed. 'validated' paths were re-run on the real code with solver-chosen inputs.")
    json.dump({"property": cid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(reported)},
              open(os.path.join(HERE, "evidence", cid + ".json"), "w"), indent=1, default=str)
    for kid, (k, what) in sorted(hit_known.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (cid, kid, k["what"]))
    if reported:
        d = os.path.join(HERE, "evidence", "replays"); os.makedirs(d, exist_ok=True)
        for n, r in enumerate(reported[:5]):
            p = os.path.join(d, "%s-%d.json" % (cid, n))
            json.dump(dict(r, check=cid, tier=tier), open(p, "w"), indent=1, default=str)
            print("violation: %s / %s: %s" % (r["harness"], r["label"], r["what"]))
            print("VIOLATION property=%s replay=%s" % (cid, p))
        return 1
    if fatal:
        for f in fatal: print("ERROR:", f[:1500])
        return 3
    print("%s: held on everything explored (%s, %.1fs)" % (cid, tier, time.time() - t0))
    return 0
