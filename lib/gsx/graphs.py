"""Harnesses of the graph kernel."""
from symx.core import z3
from .interp import MV, TupV, GList, PySet, NpArr, UNINIT, Tok, Unsupported
from .model import Space, ename, spec_reach, spec_scc, spec_ec
from .run import Result
from . import real
import itertools

def base(job, fixed=None):
    S = Space(job["N"], job["A"], fixed=fixed, order=job.get("order", "row"), rand=job.get("rand", "zero"), max_steps=20_000_000)
    R = Result(S); R.job = job
    R.prefer = []
    return S, R
def two_each(S):
    """preference for counterexamples: no action with a single successor"""
    return [z3.Or([S.e(s, a, d) for d in range(S.N) if d != x] + [z3.Not(S.e(s, a, x))]) for s in range(S.N) for a in range(S.A) for x in range(S.N)] if S.N > 1 else []
def split_fixed(job): return {k[4:]: v for k, v in job.items() if k.startswith("fix.")}
def no_exc(S, R, label="the query succeeds"):
    I = S.I
    R.must(label, z3.Not(S.guardz(I.dead_exc)))
    if I.dead_loop: R.must("the query ends", z3.Not(S.guardz(I.dead_loop)))
    ub = I.B.diff(I.dead_ub, I.dead_loop)
    if ub: R.must("the query does not crash", z3.Not(S.guardz(ub)))
def aux_assume(S, R):
    """results are judged where the execution was defined"""
    if S.I.dead_ub:
        ok = z3.Not(S.guardz(S.I.dead_ub))
        must = R.must
        R.must = lambda label, f: must(label, z3.Implies(ok, f))
    R.must_undef = S.I.viols
def never_ends(S):
    """no run has a result to look at"""
    return not S.I.B.diff(1, S.I.dead())
def arr_cells(S, arr, n):
    """values of a returned vector, with the formula that it has length n"""
    if isinstance(arr, NpArr): return [arr.cells.get(i, arr.default) for i in range(n)], S.is_(arr.length, n)
    if isinstance(arr, GList):
        I = S.I
        return [I.getitem(arr, i, 1, None) if len(arr.e) > i else UNINIT for i in range(n)], S.is_(I.length(arr, 1, None), n)
    raise Unsupported("the query returned %r" % (arr,))
def reachable(R, label, f):
    """witness that the situation occurs within the bounds"""
    s = z3.Solver(); s.set("timeout", 60000)
    for a in R.assume: s.add(a)
    s.add(f)
    if s.check() == z3.sat: R.covered.add(label)
def undef_free(S, asg):
    return not S.I.B.eval(S.I.dead_ub, asg) and not S.I.B.eval(S.I.dead_exc, asg)

# ------------------------------------------------------------------ C01
def sym_reach(job):
    N = job["N"]
    fixed = split_fixed(job)
    for i in range(N): fixed["f%d" % i] = i in job["F"]
    if "B" in job:
        for i in range(N): fixed["b%d" % i] = i in job["B"]
    S, R = base(job, fixed)
    Fs = S.setof("f", range(N))
    Bs = S.setof("b", range(N))
    S.edges()
    S.build()
    out = S.model_call("reachable_mask", [Fs, job["dir"], Bs] if job.get("noblock") is None else [Fs, job["dir"]])
    no_exc(S, R); aux_assume(S, R)
    if never_ends(S): return R
    cells, ln = arr_cells(S, out, N)
    R.must("one mask entry per state", ln)
    spec = spec_reach(S, [S.z("f%d" % i) for i in range(N)], [S.z("b%d" % i) for i in range(N)], job["dir"])
    for i in range(N): R.must("mask[%d]" % i, z3.And(S.is_(cells[i], 1) == spec[i], S.is_(cells[i], 0) == z3.Not(spec[i])))
    R.okay = lambda asg: undef_free(S, asg)
    R.outputs = lambda asg: [["mask", [S.concrete(c, asg) for c in cells]]]
    return R
def conc_reach(ctx):
    m, N, A, es, w = real.build(ctx)
    F = {i for i in range(N) if ctx.i["f%d" % i]}; Bl = {i for i in range(N) if ctx.i["b%d" % i]}
    ok, got = ctx.call(m.reachable_mask, F, ctx.i["job.dir"], Bl)
    ctx.check(ok, "the query succeeds")
    if not ok: return
    got = [int(x) for x in got]
    want = real.reach(N, es, F, Bl, ctx.i["job.dir"])
    ctx.check(len(got) == N, "one mask entry per state")
    for i in range(min(N, len(got))): ctx.check(got[i] == want[i], "mask[%d]" % i)
    ctx.observe("mask", got)

def sym_reach_seq(job):
    """three queries in a row on the same graph; the first and the last leave the blocklist to its default"""
    N = job["N"]
    fixed = split_fixed(job)
    for i in range(N): fixed["f%d" % i] = i in job["F"]
    S, R = base(job, fixed)
    Fs, Bs = S.setof("f", range(N)), S.setof("b", range(N))
    S.edges(); S.build()
    d1 = job["dir"]; d2 = "backward" if d1 == "forward" else "forward"
    F, Bl = [S.z("f%d" % i) for i in range(N)], [S.z("b%d" % i) for i in range(N)]
    no = [z3.BoolVal(False)] * N
    allc = []
    for k, (d, args, b) in enumerate([(d1, [Fs, d1], no), (d2, [Fs, d2, Bs], Bl), (d1, [Fs, d1], no)]):
        cells, ln = arr_cells(S, S.model_call("reachable_mask", args), N)
        spec = spec_reach(S, F, b, d)
        for i in range(N): R.must("query %d: mask[%d]" % (k, i), z3.And(S.is_(cells[i], 1) == spec[i], S.is_(cells[i], 0) == z3.Not(spec[i])))
        allc.append(cells)
    no_exc(S, R); aux_assume(S, R)
    R.okay = lambda asg: undef_free(S, asg)
    R.outputs = lambda asg: [["masks", [[S.concrete(c, asg) for c in cells] for cells in allc]]]
    return R
def conc_reach_seq(ctx):
    m, N, A, es, w = real.build(ctx)
    F = {i for i in range(N) if ctx.i["f%d" % i]}; Bl = {i for i in range(N) if ctx.i["b%d" % i]}
    d1 = ctx.i["job.dir"]; d2 = "backward" if d1 == "forward" else "forward"
    obs = []
    f0, b0 = set(F), set(Bl)
    for k, (d, args, b) in enumerate([(d1, [F, d1], set()), (d2, [F, d2, Bl], b0), (d1, [F, d1], set())]):
        ok, got = ctx.call(m.reachable_mask, *args)
        ctx.check(ok, "the query succeeds")
        if not ok: return
        got = [int(x) for x in got]
        want = real.reach(N, es, f0, b, d)
        for i in range(N): ctx.check(got[i] == want[i], "query %d: mask[%d]" % (k, i))
        obs.append(got)
    ctx.observe("masks", obs)

# ------------------------------------------------------------------ C02
def sym_mec(job):
    N = job["N"]
    S, R = base(job, split_fixed(job))
    S.edges(); S.build()
    out = S.model_call("maximal_end_components")
    no_exc(S, R); aux_assume(S, R)
    if never_ends(S): return R
    if type(out) is not TupV or len(out.v) != 3: raise Unsupported("maximal_end_components returned %r" % (out,))
    vec, prop, cnt = out.v
    cells, ln = arr_cells(S, vec, N)
    R.must("one component index per state", ln)
    ec = spec_ec(S)
    def isany(v, ks): return z3.Or([S.is_(v, k) for k in ks])
    for i in range(N):
        R.must("component index of state %d within 0..count-1" % i, z3.Or([z3.And(S.is_(cnt, c), isany(cells[i], range(c))) for c in range(1, N + 1)]))
        for j in range(i + 1, N):
            same = z3.Or([z3.And(S.is_(cells[i], k), S.is_(cells[j], k)) for k in range(N)])
            R.must("states %d and %d share a component" % (i, j), same == z3.Or([f for T, f in ec.items() if i in T and j in T]))
    for c in range(1, N + 1):
        for k in range(c): R.must("component %d of %d is used" % (k, c), z3.Implies(S.is_(cnt, c), z3.Or([S.is_(cells[i], k) for i in range(N)])))
    pc = [prop.cells.get(k, prop.default) for k in range(N)] if isinstance(prop, NpArr) else None
    if pc is None: raise Unsupported("proper flags %r" % (prop,))
    R.must("one proper flag per component", z3.Or([z3.And(S.is_(prop.length, c), S.is_(cnt, c)) for c in range(1, N + 1)]))
    for i in range(N):
        inec = z3.Or([f for T, f in ec.items() if i in T])
        for k in range(N):
            R.must("proper flag of the component of state %d" % i, z3.Implies(S.is_(cells[i], k), z3.And(S.true(S.I.restrict(pc[k], 1)) == inec, z3.Or(S.is_(pc[k], 0), S.is_(pc[k], 1)))))
    if N >= 2: reachable(R, "several components", z3.Not(S.is_(cnt, 1)))
    if N >= 2: reachable(R, "proper and improper", z3.And(S.is_(cnt, 2), z3.Or([z3.And(S.is_(pc[0], x), S.is_(pc[1], 1 - x)) for x in (0, 1)])))
    R.okay = lambda asg: undef_free(S, asg)
    def outputs(asg):
        v = [S.concrete(c, asg) for c in cells]
        if any(x is None or x is UNINIT for x in v): return None
        p = [S.concrete(c, asg) for c in pc]
        return [["components", real.canon(v)], ["proper", [p[x] for x in v]], ["count", S.concrete(cnt, asg)]]
    R.outputs = outputs
    return R
def conc_mec(ctx):
    m, N, A, es, w = real.build(ctx)
    ok, out = ctx.call(m.maximal_end_components)
    ctx.check(ok, "the query succeeds")
    if not ok: return
    vec, prop, cnt = out
    vec, prop, cnt = [int(x) for x in vec], [int(x) for x in prop], int(cnt)
    E = real.ecs(N, es)
    ctx.check(len(vec) == N, "one component index per state")
    for i in range(N):
        ctx.check(0 <= vec[i] < cnt, "component index of state %d within 0..count-1" % i)
        for j in range(i + 1, N): ctx.check((vec[i] == vec[j]) == any(i in T and j in T for T in E), "states %d and %d share a component" % (i, j))
    ctx.check(set(vec) == set(range(cnt)), "every component is used")
    ctx.check(len(prop) == cnt, "one proper flag per component")
    for i in range(N):
        if vec[i] < len(prop): ctx.check(prop[vec[i]] == (1 if any(i in T for T in E) else 0), "proper flag of the component of state %d" % i)
    ctx.observe("components", real.canon(vec)); ctx.observe("proper", [prop[v] for v in vec]); ctx.observe("count", cnt)

# ------------------------------------------------------------------ C03
def sym_scc(job):
    N = job["N"]
    S, R = base(job, split_fixed(job))
    S.edges(); S.build()
    out = S.model_call("strongly_connected_components")
    no_exc(S, R); aux_assume(S, R)
    if never_ends(S): return R
    if type(out) is not TupV or len(out.v) != 2: raise Unsupported("strongly_connected_components returned %r" % (out,))
    vec, cnt = out.v
    cells, ln = arr_cells(S, vec, N)
    R.must("one component index per state", ln)
    spec = spec_scc(S)
    rng = range(-1, N + 2)
    for i in range(N):
        for j in range(i + 1, N):
            same = z3.Or([z3.And(S.is_(cells[i], k), S.is_(cells[j], k)) for k in rng])
            R.must("states %d and %d share a component" % (i, j), same == spec[i][j])
    # number of classes: states that are the first of their class
    first = [z3.And([z3.Not(spec[i][j]) for j in range(i)]) for i in range(N)]
    for c in range(1, N + 1): R.must("count", S.is_(cnt, c) == z3.PbEq([(f, 1) for f in first], c))
    for i in range(N): R.must("component index of state %d is an index" % i, z3.Or([z3.And(S.is_(cnt, c), z3.Or([S.is_(cells[i], k) for k in range(c)])) for c in range(1, N + 1)]))
    R.okay = lambda asg: undef_free(S, asg)
    def outputs(asg):
        v = [S.concrete(c, asg) for c in cells]
        if any(x is None or x is UNINIT for x in v): return None
        return [["components", real.canon(v)], ["count", S.concrete(cnt, asg)]]
    R.outputs = outputs
    return R
def conc_scc(ctx):
    m, N, A, es, w = real.build(ctx)
    ok, out = ctx.call(m.strongly_connected_components)
    ctx.check(ok, "the query succeeds")
    if not ok: return
    vec, cnt = [int(x) for x in out[0]], int(out[1])
    E = real.sccs(N, es)
    ctx.check(len(vec) == N, "one component index per state")
    for i in range(N):
        ctx.check(0 <= vec[i] < cnt, "component index of state %d is an index" % i)
        for j in range(i + 1, N): ctx.check((vec[i] == vec[j]) == bool(E[i][j]), "states %d and %d share a component" % (i, j))
    ctx.check(cnt == len({tuple(r) for r in E}), "count")
    ctx.observe("components", real.canon(vec)); ctx.observe("count", cnt)

# ------------------------------------------------------------------ C04
def sym_adj(job):
    N, A = job["N"], job["A"]
    S, R = base(job, split_fixed(job))
    S.edges(); S.build()
    I = S.I
    aux = []
    obs = []
    for which in ("successors", "predecessors"):
        for s in range(N):
            for f in [None] + list(range(A + 1)):
                args = [s] + ([f] if f is not None else [])
                out = S.model_call(which, args) if f is None else S.call(which, args)
                if never_ends(S): no_exc(S, R); return R
                if not isinstance(out, (GList, PySet)): raise Unsupported("%s returned %r" % (which, out))
                got = {}
                bad = 0
                for ge, v in I.entries(out, 1, None):
                    for t, gt in I.expand(v, ge):
                        if len(t) != 3 or not isinstance(t[2], Tok): bad = I.B.or_(bad, gt); continue
                        got.setdefault(t, []).append(gt)
                lab = "%s(%d%s)" % (which, s, "" if f is None else ", %d" % f)
                seen = set()
                for d in range(N):
                    for a in range(A):
                        tr = (s, a, d) if which == "successors" else (d, a, s)
                        e = z3.And(S.e(*tr), z3.BoolVal(f is None or f == a))
                        want = (d, a, Tok("p_%d_%d_%d" % tr, "d"))
                        seen.add(want)
                        gs = [S.guardz(g) for g in got.get(want, [])]
                        R.must("%s lists %s exactly once, iff it is a transition" % (lab, (d, a)),
                               z3.And(z3.Or(gs or [z3.BoolVal(False)]) == e, z3.PbLe([(g, 1) for g in gs], 1) if len(gs) > 1 else True))
                for t, gs in got.items():
                    if t not in seen:
                        for g in gs: bad = I.B.or_(bad, g)
                R.must("%s lists nothing else, with exact probabilities" % lab, z3.Not(S.guardz(bad)))
                obs.append((which, s, f, got))
    no_exc(S, R); aux_assume(S, R)
    R.prefer = two_each(S)
    R.okay = lambda asg: undef_free(S, asg)
    def outputs(asg):
        return [["%s %s %s" % (w, s, f), sorted([int(t[0]), int(t[1])] for t, gs in got.items() for g in gs if I.B.eval(g, asg))] for w, s, f, got in obs]
    R.outputs = outputs
    return R
def conc_adj(ctx):
    m, N, A, es, w = real.build(ctx)
    from switss.utils.graph import Graph
    g = Graph(m.P, m.index_by_state_action) if hasattr(m, "P") else m.g
    rec = []
    for which in ("successors", "predecessors"):
        for s in range(N):
            for f in [None] + list(range(A + 1)):
                lab = "%s(%d%s)" % (which, s, "" if f is None else ", %d" % f)
                ok, got = ctx.call(lambda: list(getattr(g, which)(s) if f is None else getattr(g, which)(s, f)))
                ctx.check(ok, "the query succeeds")
                if not ok: continue
                if f is None and hasattr(m, "P"):
                    ctx.check(sorted(map(tuple, getattr(m, which)(s))) == sorted(map(tuple, got)), "%s of the model is that of the graph" % lab)
                got = [(int(t[0]), int(t[1]), t[2]) for t in got]
                want = [(t[2] if which == "successors" else t[0], t[1], w[t]) for t in es if (t[0] if which == "successors" else t[2]) == s and (f is None or f == t[1])]
                for d in range(N):
                    for a in range(A):
                        ctx.check([x[:2] for x in got].count((d, a)) == [x[:2] for x in want].count((d, a)), "%s lists %s exactly once, iff it is a transition" % (lab, (d, a)))
                ctx.check(sorted(got) == sorted(want), "%s lists nothing else, with exact probabilities" % lab)
                ctx.observe("%s %s %s" % (which, s, f), sorted([x[0], x[1]] for x in got))

# ------------------------------------------------------------------ job lists
def fsets(N): return [list(c) for k in range(1, N + 1) for c in itertools.combinations(range(N), k)]
def parts(spec, rand):
    """for (N, A, k, n): n subspaces in which the first k of a shuffled list of transitions are fixed"""
    import random
    out = []
    for N, A, k, n in spec:
        names = [ename(s, a, d) for s in range(N) for a in range(A) for d in range(N)]
        for i in range(n):
            r = random.Random("%d %d %d" % (N, A, i))
            p = (.3, .5, .7)[i % 3]
            ch = r.sample(names, k)
            out.append(dict({"N": N, "A": A, "rand": rand, "order": "row"}, **{"fix." + c: r.random() < p for c in ch}))
    return out
def shapes(spec, rand, order="row", N=None):
    """state s has acts[s] actions (all transitions of the others are absent)"""
    out = []
    for acts in spec:
        n = N or len(acts); A = max(acts)
        out.append(dict({"N": n, "A": A, "rand": rand, "order": order}, **{"fix." + ename(s, a, d): False for s in range(n) for a in range(A) for d in range(n) if s >= len(acts) or a >= acts[s]}))
    return out
def splits(N, A, k, rand):
    """all of the space: every valuation of the first k transitions"""
    names = [ename(s, a, d) for s in range(N) for d in range(N) for a in range(A)][:k]
    out = []
    for v in itertools.product((False, True), repeat=k):
        out.append(dict({"N": N, "A": A, "rand": rand, "order": "row"}, **{"fix." + c: b for c, b in zip(names, v)}))
    import random
    random.Random(5).shuffle(out)
    return out
