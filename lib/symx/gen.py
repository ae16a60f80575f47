"""Symbolic models: the structure (supports of rows, labels) is case-split, probabilities are
symbolic reals in (0,1] whose rows sum to one."""
from fractions import Fraction
from itertools import combinations
from .api import *

def subsets(xs, nonempty=True):
    xs = list(xs)
    return [c for k in range(1 if nonempty else 0, len(xs) + 1) for c in combinations(xs, k)]

def row(ctx, name, N, cols=None, grid=None, noise=None, maxk=None, supports=None):
    """{column: probability}; support chosen by case split, probabilities symbolic"""
    sup = ctx.choice(name + ".sup", supports if supports is not None else [c for c in subsets(cols if cols is not None else range(N)) if maxk is None or len(c) <= maxk])
    return fill(ctx, name, sup, grid, noise)

def fill(ctx, name, sup, grid=None, noise=None):
    if len(sup) == 1 and ctx.ints: return {sup[0]: 1}
    if len(sup) == 1:
        # an entry never exceeds one
        return {sup[0]: ctx.q(1) if noise is None else ctx.q(1) - abs(noise)}
    d = {}
    if grid:
        s = 0
        for c in sup:
            d[c] = ctx.real("%s.%d" % (name, c), grid=grid); s = s + d[c]
        ctx.assume(s == 1)
        return d
    s = 0
    for c in sup[:-1]:
        d[c] = ctx.real("%s.%d" % (name, c), pos=True); s = s + d[c]
    last = 1 - s
    if noise is not None: last = last - noise
    ctx.assume(last > (0 if noise is None else Fraction(1, 100)))
    if noise is not None: ctx.assume(last <= 1)
    d[sup[-1]] = last
    return d

def rows_to_matrix(ctx, rows, N):
    """rows of integers (a deterministic model) give an integer matrix"""
    if all(type(v) is int for r in rows for v in r.values()): return [[r.get(j, 0) for j in range(N)] for r in rows]
    return [[r.get(j, ctx.q(0)) for j in range(N)] for r in rows]

def build(ctx, rows, saps, N, lts, lta=None, rewards=None, fmt="dok", kind=None):
    model = ctx.load("switss.model")
    P = mkmatrix(ctx, rows_to_matrix(ctx, rows, N), fmt)
    isa = {sa: i for i, sa in enumerate(saps)}
    if kind == "dtmc": return model.DTMC(P, label_to_states=lts, index_by_state_action=isa, reward_vector=rewards)
    return model.MDP(P, isa, lta or {}, lts, reward_vector=rewards)

# ---- plain graph oracles on concrete structure
def succ_map(rows, saps):
    d = {}
    for r, (s, a) in zip(rows, saps): d.setdefault(s, set()).update(r.keys())
    return d
def closure(succ, start, block=()):
    seen, st = set(start), list(start)
    while st:
        u = st.pop()
        if u in block: continue
        for v in succ.get(u, ()):
            if v not in seen: seen.add(v); st.append(v)
    return seen
def backward(succ, targets):
    pred = {}
    for u, vs in succ.items():
        for v in vs: pred.setdefault(v, set()).add(u)
    return closure(pred, targets)

def rf_structure(ctx, n, saps, init=0, supports=None, grid=None, allow=None, maxk=None):
    """A reachability form with n inner states (target n, fail n+1): rows over n+2 columns,
    restricted to canonical ones (every inner state reachable and able to reach the target)."""
    rows = []
    for i, (s, a) in enumerate(saps):
        sup = ctx.choice("row%d.sup" % i, supports[i] if supports else [c for c in subsets(range(n + 2)) if maxk is None or len(c) <= maxk])
        rows.append(sup)
    succ = {}
    for sup, (s, a) in zip(rows, saps): succ.setdefault(s, set()).update(sup)
    full = dict(succ); full[n] = {n}; full[n + 1] = {n + 1}
    if closure(full, {init}) | {n + 1} < set(range(n + 2)) or not set(range(n)) <= backward(full, {n}) or n not in closure(full, {init}):
        ctx.skip()
    out = [fill(ctx, "p%d" % i, sup, grid) for i, sup in enumerate(rows)]
    return out

def rf_build(ctx, rows, saps, n, init=0, lts=None, lta=None, rewards=None, kind="mdp", cls="ReachabilityForm", checks=False, decoy=None):
    """decoy=(rows, operations): another form of the same shape, used before or after this one is built"""
    when = ctx.choice("other form used", ["before", "after"]) if decoy else None
    def other():
        other, _ = rf_build(ctx, [{d: ctx.q(x) for d, x in r.items()} for r in decoy[0]], saps, n, init=init, kind=kind)
        use_form(ctx, other, len(saps), n, decoy[1])
    if when == "before": ctx.decoy(other)
    r = _rf_build(ctx, rows, saps, n, init, lts, lta, rewards, kind, checks)
    if when == "after": ctx.decoy(other)
    return r

def use_form(ctx, rf, C, n, ops):
    """the operations of the library on a form that has nothing to do with the one that is judged"""
    np, q = ctx.np, lambda x: ctx.q(Fraction(x))
    cert, prob = ctx.load("switss.certification"), ctx.load("switss.problem")
    for op in ops.split():
        if op == "systems":
            for m in ("min", "max"): rf.fark_constraints(q("1/8"), m)
        elif op == "values":
            for f in (rf.pr_min, rf.pr_max, rf.max_z_state_action, rf.max_y_state_action, rf.max_y_state): f()
        elif op == "check":
            for m in ("min", "max"):
                for s in ("<=", "<", ">=", ">"): cert.check_farkas_certificate(rf, m, s, q("1/8"), np.array([q(0)] * (C if (m == "max") == (s[0] == ">") else n)))
        elif op == "generate":
            for m, s in (("min", ">="), ("min", "<"), ("max", ">"), ("max", "<=")): cert.generate_farkas_certificate(rf, m, s, q("1/8"))
        elif op == "exact":
            prob.MILPExact().solve(rf, q("1/8"), "min")
            if rf.is_ec_free: prob.MILPExact().solve(rf, q("1/8"), "max")
        elif op == "heuristic":
            for m in ("min", "max"): prob.QSHeur(iterations=1).solve(rf, q("1/8"), m)
        elif op == "subsystem":
            for m in ("min", "max"): prob.Subsystem(rf, np.array([q(1)] * (n if m == "min" else C)), m).subsys
        else: raise ValueError(op)

def moves(*targets):
    """deterministic rows, in integers"""
    return [{t: 1} for t in targets]

# two inner states with two pairs each: another form (an end component at state 0) and the judged ones, among
# them one with the same transitions and one with an end component at state 1 instead
def _D(*xs): return [{int(c.split(":")[0]): Fraction(c.split(":")[1]) for c in x.split()} for x in xs]
OTHER = _D("1:1/2 2:1/2", "2:3/4 3:1/4", "0:1", "2:1/4 0:3/4")
TWO = dict(n=2, saps=[(0, 0), (1, 0), (0, 1), (1, 1)])
TWO_OPTIONS = {0: _D("1:1/4 2:3/4"), 1: _D("2:1/2 3:1/2", "2:1/4 1:3/4"), 2: _D("0:1", "1:1/2 3:1/2"), 3: _D("1:1", "2:1/2 0:1/2")}
TWO_FEW = {i: o if i == 1 else o[-1:] for i, o in TWO_OPTIONS.items()}

# deterministic forms given by integer matrices
INTS = {0: moves(1, 2), 1: moves(2, 3), 2: moves(0, 3), 3: moves(0, 1, 2)}

def _rf_build(ctx, rows, saps, n, init, lts, lta, rewards, kind, checks):
    one = 1 if all(type(v) is int for r in rows for v in r.values()) else ctx.q(1)
    rows = rows + [{n: one}, {n + 1: one}]
    sp = list(saps) + [(n, 0), (n + 1, 0)]
    lt = {"init": {init}, "rf_target": {n}, "rf_fail": {n + 1}}
    lt.update(lts or {})
    m = build(ctx, rows, sp, n + 2, lt, lta, rewards, kind=kind)
    RF = ctx.load("switss.model").ReachabilityForm
    return RF(m, "init", ignore_consistency_checks=not checks), m

# ---- end components of a concrete structure (inner states only)
def end_components(rows, saps, states):
    """union of all end components with at least one action (states that can stay forever)"""
    out = set()
    for T in subsets(states):
        T = set(T); acts = {}
        for r, (s, a) in zip(rows, saps):
            if s in T and set(r) <= T: acts.setdefault(s, set()).update(r)
        if set(acts) == T and all(closure(acts, {t}) == T for t in T): out |= T
    return out
def mecs(rows, saps, states):
    best = []
    for T in sorted(subsets(states), key=len, reverse=True):
        T = set(T); acts = {}
        for r, (s, a) in zip(rows, saps):
            if s in T and set(r) <= T: acts.setdefault(s, set()).update(r)
        if set(acts) == T and all(closure(acts, {t}) == T for t in T) and not any(T <= B for B in best): best.append(T)
    return best

# ---- concrete distributions
def pool(cols, weights=None):
    """{support: [distribution]} with dyadic probabilities"""
    W = weights or {1: [(1,)], 2: [("1/2", "1/2"), ("1/4", "3/4")], 3: [("1/2", "1/4", "1/4")], 4: [("1/2", "1/4", "1/8", "1/8")], 5: [("1/2", "1/4", "1/8", "1/16", "1/16")]}
    return [dict(zip(c, map(Fraction, w))) for c in subsets(cols) for w in W[len(c)]]
def crow(ctx, name, options):
    """a concrete distribution chosen by case split"""
    d = ctx.choice(name, options)
    return {c: p if type(p) is int else ctx.q(p) for c, p in d.items()}
def canonical_structure(rows, saps, n, init):
    succ = succ_map(rows, saps)
    full = dict(succ); full[n] = {n}; full[n + 1] = {n + 1}
    return closure(full, {init}) | {n + 1} >= set(range(n + 2)) and set(range(n + 1)) <= backward(full, {n})
def rf_concrete(ctx, n, saps, options, init=0):
    """rows of a canonical form with concrete probabilities; options: list of distributions, or one list per row"""
    rows = []
    for i in range(len(saps)):
        d = ctx.choice("row%d" % i, options[i] if isinstance(options, dict) else options)
        rows.append({c: p if type(p) is int else Fraction(p) for c, p in d.items()})
    if not canonical_structure(rows, saps, n, init): ctx.skip()
    return [{c: p if type(p) is int else ctx.q(p) for c, p in r.items()} for r in rows], rows

# ---- oracles
def schedulers(saps, n):
    from itertools import product
    acts = {s: [i for i, (t, a) in enumerate(saps) if t == s] for s in range(n)}
    return [dict(zip(range(n), c)) for c in product(*[acts[s] for s in range(n)])]
def solve_exact(A, b):
    """Gaussian elimination over Fractions"""
    n = len(A)
    M = [list(map(Fraction, A[i])) + [Fraction(b[i])] for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        M[c] = [v / M[c][c] for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0: M[r] = [x - M[r][c] * y for x, y in zip(M[r], M[c])]
    return [M[i][n] for i in range(n)]
def reach_values(ctx, rows, saps, n, sigma, name=None, reward=None):
    """probability of reaching the target (or expected reward before it) under a memoryless scheduler"""
    succ = {s: set(rows[sigma[s]]) for s in range(n)}
    R = sorted(backward({**succ, n: {n}}, {n}) - {n})
    if any(is_sym(p) for s in R for p in rows[sigma[s]].values()):
        v = {}
        for s in R:
            v[s] = SymReal(ctx.core.z3.Real("v!%s!%d" % (name, s)))
        for s in R:
            e = rows[sigma[s]].get(n, Fraction(0)) if reward is None else reward[sigma[s]]
            for d in R: e = e + rows[sigma[s]].get(d, Fraction(0)) * v[d]
            ctx.E.add(And(v[s] == e)) if is_sym(v[s] == e) else None
            if reward is None: ctx.E.add(And(v[s] >= 0, v[s] <= 1))
    else:
        f = lambda x: x if isinstance(x, Fraction) else Fraction(x)
        A = [[f(1 if s == d else 0) - f(rows[sigma[s]].get(d, 0)) for d in R] for s in R]
        b = [f(rows[sigma[s]].get(n, 0)) if reward is None else f(reward[sigma[s]]) for s in R]
        v = dict(zip(R, solve_exact(A, b)))
        if ctx.mode == "conc": v = {s: float(x) for s, x in v.items()}
    z = ctx.q(0)
    return [v.get(s, z) for s in range(n)]
def all_values(ctx, rows, saps, n): return [reach_values(ctx, rows, saps, n, sg, str(k)) for k, sg in enumerate(schedulers(saps, n))]
def pmin(vals): return [Min([v[s] for v in vals]) for s in range(len(vals[0]))]
def pmax(vals): return [Max([v[s] for v in vals]) for s in range(len(vals[0]))]

# ---- a form of twelve inner states (numbers of two digits, more pairs than states, rows in no particular order)
def large(kind="mdp", ec=False, n=12):
    """n inner states in a row; every third one has a second action; with ec the states n-3 and n-2 can stay among themselves"""
    rows = {}
    for s in range(n):
        d = {n: "1/4", n + 1: "1/4"}
        if s + 1 < n: d[s + 1] = "1/2"
        else: d[n] = "3/4"
        if s % 4 == 1: d = {s + 1 if s + 1 < n else n: "3/4", n: "1/4"}
        rows[(s, 0)] = d
    if kind == "mdp":
        for s in (2, n - 4): rows[(s, 3)] = {(s + 2) % n: "1/2", n + 1: "1/2"}
        rows[(n - 1, 11)] = {0: "1/4", n: "1/4", n + 1: "1/2"}
        if ec: rows[(n - 3, 1)] = {n - 2: "1"}; rows[(n - 2, 2)] = {n - 3: "1/2", n - 2: "1/2"}
    saps = sorted(rows, key=lambda sa: ((sa[0] * 5 + sa[1]) % n, sa))
    return dict(n=n, saps=saps, options={i: [{c: Fraction(p) for c, p in rows[sa].items()}] for i, sa in enumerate(saps)})
LARGE, LARGE_EC, LARGE_DTMC = large(), large(ec=True), large(kind="dtmc")
def supports_of(d): return dict(n=d["n"], saps=d["saps"], supports=[[tuple(sorted(o)) for o in d["options"][i]] for i in range(len(d["saps"]))])
