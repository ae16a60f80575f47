"""Rendering shows exactly the model."""
import types, re, sys
from symx.api import *
from symx.gen import *
from C13 import D

class Digraph:
    """records what graphviz is told to draw"""
    made = []
    def __init__(self, *a, **k): self.nodes, self.edges = [], []; Digraph.made.append(self)
    def node(self, name, label=None, _attributes=None, **attrs):
        if label is not None: attrs["label"] = label
        attrs.update(_attributes or {}); self.nodes.append((self._t(name), self._a(attrs)))
    def edge(self, tail, head, label=None, _attributes=None, **attrs):
        if label is not None: attrs["label"] = label
        attrs.update(_attributes or {}); self.edges.append((self._t(tail), self._t(head), self._a(attrs)))
    def edges_(self, pairs):
        for a, b in pairs: self.edge(a, b)
    def attr(self, *a, **k): pass
    def _t(self, x):
        if not isinstance(x, str): raise TypeError("node names are strings")
        return x
    def _a(self, d):
        for k, v in d.items():
            if not isinstance(v, str): raise TypeError("attribute values are strings")
        return dict(d)

TOK = re.compile(r'"((?:[^"\\]|\\.)*)"|([^\s\[\]=";]+)|(->|=|\[|\])', re.S)
def parse(src):
    """nodes and edges of DOT text as graphviz' python package writes it"""
    body = src[src.index("{") + 1:src.rindex("}")]
    # statements end at a line break outside of quotes
    stm, cur, q, br = [], "", False, 0
    i = 0
    while i < len(body):
        c = body[i]
        if q and c == "\\": cur += body[i:i + 2]; i += 2; continue
        if c == '"': q = not q
        if not q: br += (c == "[") - (c == "]")
        if c == "\n" and not q and not br: stm.append(cur); cur = ""
        else: cur += c
        i += 1
    nodes, edges = [], []
    for s in [x.strip() for x in stm + [cur] if x.strip()]:
        at = {}
        toks = []
        for m in TOK.finditer(s): toks.append((m.group(1), True) if m.group(1) is not None else (m.group(2) or m.group(3), False))
        if ("[", False) in toks:
            k = toks.index(("[", False)); att = [t for t in toks[k + 1:] if t != ("]", False)]; toks = toks[:k]
            j = 0
            while j < len(att): at[att[j][0]] = att[j + 2][0]; j += 3
        names = [t for t in toks if t != ("->", False)]
        if len(names) == len(toks):
            if names[0] not in (("graph", False), ("node", False), ("edge", False)): nodes.append((names[0][0], at))
        else: edges.append((names[0][0], names[1][0], at))
    return nodes, edges
def drawn(ctx, dg):
    """(nodes, edges) with attributes"""
    if ctx.mode == "sym": return dg.nodes, dg.edges
    return parse(dg.source)
def setup(ctx):
    if ctx.mode == "sym":
        g = types.ModuleType("graphviz"); g.Digraph = Digraph
        ctx.over["graphviz"] = g

class Styles:
    """style functions that record their arguments; every result is marked with the number of its call"""
    def __init__(self, dtmc):
        self.calls = []
        self.dtmc = dtmc
    def note(self, kind, args, n=1):
        self.calls.append((kind, args)); return str(len(self.calls) - 1)
    def state(self, s, labels): return {"label": "s", "fontname": self.note("state", (s, set(labels)))}
    def trans(self, *a): return {"color": "c", "fontname": self.note("trans", a)}
    def action(self, s, a, labels):
        i = self.note("action", (s, a, set(labels)))
        return {"node": {"label": "a", "fontname": i}, "edge": {"fontname": i, "dir": "none"}}

def body(ctx, N, saps, kind, sups=None, maxk=None, zeros=False):
    setup(ctx)
    rows = [row(ctx, "r%d" % i, N, maxk=maxk, supports=sups) for i in range(len(saps))]
    lts = {"a": set(ctx.choice("a", [(0,), (0, N - 1), ()])), "b c": {N - 1}}
    lta = {} if kind == "dtmc" else {"x": {saps[0]}, "y": {saps[0], saps[-1]}}
    st = Styles(kind == "dtmc")
    vis = None
    how = ctx.choice("styles given", ["call", "model", "default"])
    U = ctx.load("switss.utils")
    if how == "model": vis = U.DTMCVisualizationConfig(state_map=st.state, trans_map=st.trans) if kind == "dtmc" else U.VisualizationConfig(state_map=st.state, trans_map=st.trans, action_map=st.action)
    mod = ctx.load("switss.model")
    P = mkmatrix(ctx, [[r.get(j, 0) for j in range(N)] for r in rows], "dok")
    if zeros:
        # the matrix stores a zero explicitly
        z = [(i, j) for i, r in enumerate(rows) for j in range(N) if j not in r]
        if not z: ctx.skip()
        i, j = ctx.choice("zero", list(range(len(z)))) if False else 0, 0
        sp = ctx.sparse
        data, ri, ci = [], [], []
        for i, r in enumerate(rows):
            for j in range(N):
                if j in r or (i, j) == z[0]: data.append(r.get(j, ctx.q(0))); ri.append(i); ci.append(j)
        P = sp.csr_matrix((data, (ri, ci)), shape=(len(rows), N))
    isa = {sa: i for i, sa in enumerate(saps)}
    mk = (lambda: mod.DTMC(P, label_to_states=lts, index_by_state_action=_bid(isa), vis_config=vis)) if kind == "dtmc" else (lambda: mod.MDP(P, _bid(isa), label_to_actions=lta, label_to_states=lts, vis_config=vis))
    ok, m = ctx.call(mk)
    if not ok: ctx.fail("the model was rejected with %s" % type(m).__name__); return
    kw = {}
    if how == "call":
        kw = {"state_map": st.state, "trans_map": st.trans}
        if kind == "mdp": kw["action_map"] = st.action
    ok, dg = ctx.call(lambda: m.digraph(**kw))
    if not ok: ctx.fail("rendering failed with %s" % type(dg).__name__); return
    nodes, edges = drawn(ctx, dg)
    occ = {s for s, a in saps} | {d for r in rows for d in r}
    sn = {str(s): s for s in occ}
    lab = lambda s: {l for l, ss in lts.items() if s in ss}
    alab = lambda sa: {l for l, ss in lta.items() if sa in ss}
    call = lambda at: st.calls[int(at["fontname"])]
    names = [n for n, _ in nodes]
    ctx.check(len(set(names)) == len(names), "no node is drawn twice")
    snodes = {n: at for n, at in nodes if n in sn}
    others = {n: at for n, at in nodes if n not in sn}
    ctx.check(set(snodes) == set(sn), "one node per state that occurs in a transition")
    if how != "default":
        for n, at in snodes.items():
            if ctx.check("fontname" in at and call(at)[0] == "state", "states are drawn with the state style"):
                ctx.check(call(at)[1] == (sn[n], lab(sn[n])), "the state style gets the state and its labels")
    else:
        for n, at in snodes.items(): ctx.check("State %d" % sn[n] in at["label"] and all(l in at["label"] for l in lab(sn[n])), "default style shows state and labels")
    if kind == "dtmc":
        ctx.check(not others, "no other nodes are drawn")
        want = sorted((s, d) for (s, a), r in zip(saps, rows) for d in r)
        if not ctx.check(sorted((sn.get(a, -1), sn.get(b, -1)) for a, b, _ in edges) == want, "exactly one edge per transition"): return
        for a, b, at in edges:
            s, d = sn[a], sn[b]
            p = rows[saps.index((s, 0))][d]
            edge_style(ctx, st, how, call, at, (s, d), p)
        return
    # action nodes: one per pair with an edge from its state
    ctx.check(len(others) == len(saps), "one node per state-action pair")
    into = [(sn[a], b, at) for a, b, at in edges if b in others]
    out = [(a, sn[b], at) for a, b, at in edges if a in others and b in sn]
    ctx.check(all(a in sn for a, b, _ in edges if b in others) and len(into) + len(out) == len(edges) and len(into) == len(others) == len({b for _, b, _ in into}), "one edge into each action node, from its state")
    if len(others) != len(saps) or len(into) != len(saps) or len(into) + len(out) != len(edges): return
    owner = {b: s for s, b, _ in into}
    # which action a node stands for: by style, or by its name's edges (default style)
    act = {}
    for n, at in others.items():
        if how != "default":
            if not ctx.check("fontname" in at and call(at)[0] == "action", "actions are drawn with the action style"): return
            s, a, ls = call(at)[1]
            ctx.check((s, a) in isa and ls == alab((s, a)) and s == owner[n], "the action style gets state, action and action labels")
            act[n] = (s, a)
        else:
            a = int(re.match(r"\d+", at["label"]).group(0)) if re.match(r"\d+", at["label"]) else None
            act[n] = (owner[n], a)
            ctx.check((owner[n], a) in isa and all(l in at["label"] for l in alab((owner[n], a))), "default style shows the action and its labels")
    ctx.check(sorted(act.values()) == sorted(saps), "every pair has its node")
    if sorted(act.values()) != sorted(saps): return
    if how != "default":
        for s, b, at in into: ctx.check("fontname" in at and call(at)[0] == "action" and call(at)[1][:2] == act[b], "edges into actions are drawn with their action's style")
    want = sorted((sa, d) for sa, r in zip(saps, rows) for d in r)
    if not ctx.check(sorted((act[a], d) for a, d, _ in out) == want, "exactly one edge per transition"): return
    for a, d, at in out: edge_style(ctx, st, how, call, at, (*act[a], d), rows[saps.index(act[a])][d])

def edge_style(ctx, st, how, call, at, key, p):
    if how == "default":
        ctx.check("label" in at, "default style shows the probability")
        if ctx.mode == "sym":
            from symx import core
            v = core.from_token(at["label"])
            v = v if v is not None else Fraction(at["label"])
        else: v = float(at["label"])
        ctx.eq(v, p, "default style shows the probability", tol=Fraction(2, 10**10))
        return
    if not ctx.check("fontname" in at and call(at)[0] == "trans", "transitions are drawn with the transition style"): return
    args = call(at)[1]
    ctx.check(tuple(args[:-1]) == key, "the transition style gets its own state, action and successor")
    ctx.eq(args[-1], p, "the transition style gets the probability", tol=1e-12)

def reduced(ctx, N, saps, kind, sups, targets):
    """a reduced form is drawn with the style functions of the original model, called with original states and actions"""
    setup(ctx)
    rows = [row(ctx, "r%d" % i, N, supports=sups[i]) for i in range(len(saps))]
    T = set(ctx.choice("targets", targets))
    lts = {"init": {0}, "goal": T, "a": {0, N - 1}}
    lta = {} if kind == "dtmc" else {"x": {saps[0]}, "y": {saps[0], saps[-1]}}
    succ = succ_map(rows, saps); fwd = closure(succ, {0}, block=T)
    if not fwd & T: ctx.skip()
    kept = fwd & backward(succ, T)
    U, mod = ctx.load("switss.utils"), ctx.load("switss.model")
    cfg = (lambda s: U.DTMCVisualizationConfig(state_map=s.state, trans_map=s.trans)) if kind == "dtmc" else (lambda s: U.VisualizationConfig(state_map=s.state, trans_map=s.trans, action_map=s.action))
    st, tst = Styles(kind == "dtmc"), {k: Styles(kind == "dtmc") for k in ("target", "fail")}
    for k in tst: tst[k].tag = k
    P = mkmatrix(ctx, [[r.get(j, 0) for j in range(N)] for r in rows], "dok")
    isa = _bid({sa: i for i, sa in enumerate(saps)})
    m = mod.DTMC(P, label_to_states=lts, index_by_state_action=isa, vis_config=cfg(st)) if kind == "dtmc" else mod.MDP(P, isa, label_to_actions=lta, label_to_states=lts, vis_config=cfg(st))
    ok, r = ctx.call(mod.ReachabilityForm.reduce, m, "init", "goal")
    if not ok: ctx.fail("reduction failed with %s" % type(r).__name__); return
    rf, smap, samap = r
    own = ctx.choice("styles of target and fail", [False, True])
    if own: rf.set_target_visualization_style(cfg(tst["target"])); rf.set_fail_visualization_style(cfg(tst["fail"]))
    ok, dg = ctx.call(lambda: rf.system.digraph())
    if not ok: ctx.fail("rendering failed with %s" % type(dg).__name__); return
    nodes, edges = drawn(ctx, dg)
    S, n2 = rf.system, rf.system.N - 2
    inv, ainv = {v: k for k, v in smap.items()}, {v: k for k, v in samap.items()}
    lab = lambda s: {l for l, ss in lts.items() if s in ss}
    call = lambda at, sty: sty.calls[int(at["fontname"])] if "fontname" in at else None
    drawnstates = set(range(n2 + 1)) | {n2 + 1}
    sn = {nm: at for nm, at in nodes if nm.isdigit() and int(nm) in drawnstates}
    if not ctx.check(set(map(int, sn)) == drawnstates, "one node per state of the form"): return
    for nm, at in sn.items():
        s = int(nm)
        if s < n2: ctx.check(call(at, st) == ("state", (inv[s], lab(inv[s]))), "a kept state is drawn with the original style of the original state")
        else:
            k = "target" if s == n2 else "fail"
            if own: c = call(at, tst[k]); ctx.check(c is not None and c[:1] == ("state",) and c[1][0] == s, "target and fail are drawn with their own style")
            else: ctx.check("fontname" not in at and at["label"] == ("rf_target" if k == "target" else "rf_fail") and at["color"] == ("green" if k == "target" else "red"), "target and fail are marked")
    ctx.cover("drawn")
    pairs = {sa: S.index_by_state_action[sa] for sa in S.index_by_state_action}
    Sr = {sa: {d: v for (i, d), v in S.P.items() if i == j} for sa, j in pairs.items()}
    if kind == "dtmc": out = [((int(a), 0), int(b), at) for a, b, at in edges]
    else:
        owner = {b: int(a) for a, b, at in edges if a in sn and b not in sn}
        act = {}
        for nm, at in nodes:
            if nm in sn: continue
            s = owner.get(nm)
            if s is None: ctx.fail("an action without a state"); return
            if s < n2:
                c = call(at, st)
                if not ctx.check(c is not None and c[0] == "action" and c[1][:2] in samap and samap[c[1][:2]][0] == s, "actions of kept states are drawn with the original style of the original action"): return
                act[nm] = samap[c[1][:2]]
                ctx.check(c[1][2] == {l for l, xs in lta.items() if c[1][:2] in xs}, "with its labels")
            else: act[nm] = (s, 0)
        ctx.check(sorted(act.values()) == sorted(pairs), "one node per state-action pair of the form")
        if sorted(act.values()) != sorted(pairs): return
        out = [(act[a], int(b), at) for a, b, at in edges if a not in sn]
    if not ctx.check(sorted((sa, d) for sa, d, _ in out) == sorted((sa, d) for sa, r in Sr.items() for d in r), "exactly one edge per transition of the form"): return
    for sa, d, at in out:
        if d < n2:
            c = call(at, st); o = ainv[sa]
            want = (o[0], inv[d]) if kind == "dtmc" else (o[0], o[1], inv[d])
            if ctx.check(c is not None and c[0] == "trans" and tuple(c[1][:-1]) == want, "transitions among kept states are drawn with the original style"): ctx.eq(c[1][-1], Sr[sa][d], "and their probability", tol=1e-12)
        elif own:
            c = call(at, tst["target" if d == n2 else "fail"])
            if ctx.check(c is not None and c[0] == "trans" and tuple(c[1][:-1]) == ((sa[0], d) if kind == "dtmc" else (*sa, d)), "transitions to target and fail are drawn with their style"): ctx.eq(c[1][-1], Sr[sa][d], "and their probability", tol=1e-12)
        else:
            if ctx.check("label" in at and "fontname" not in at, "transitions to target and fail show their probability"):
                if ctx.mode == "sym":
                    from symx import core
                    v = core.from_token(at["label"]); v = v if v is not None else Fraction(at["label"])
                else: v = float(at["label"])
                ctx.eq(v, Sr[sa][d], "the shown probability", tol=Fraction(2, 10**10))

def _bid(d):
    from bidict import bidict
    return bidict(d)

def sub(ctx, n, saps, options, kind, form, shared=False, plain=False):
    """a subsystem is drawn as its supersystem with the missing states greyed out"""
    setup(ctx)
    rows, exact = rf_concrete(ctx, n, saps, options)
    lts = {"a": {0}}
    rf, m = rf_build(ctx, rows, saps, n, lts=lts, kind=kind)
    prob = ctx.load("switss.problem")
    size = n if form == "min" else len(saps)
    c = [ctx.real("c%d" % i, 0, 1) for i in range(size)]
    weights = ctx.choice("weights", [True, False])
    sub = prob.Subsystem(rf, ctx.np.array(c), form, ignore_consistency_checks=True)
    kept = set()
    for i in range(size):
        if bool(c[i] > 0): kept.add(i if form == "min" else saps[i][0])
    if not ctx.check(set(s for s in range(n) if bool(sub.subsystem_mask[s])) == kept, "states of the subsystem"): return
    if 0 not in kept: ctx.skip()
    if weights and (form == "min" or kind == "dtmc"):
        succ = {s: set() for s in kept}
        for r, (s, a) in zip(exact if ctx.mode == "sym" else rows, saps):
            if s in kept: succ[s] |= {d for d in r if d in kept or d == n}
        if not (kept | {n}) <= closure(succ, {0}) or not kept <= backward(succ, {n}): ctx.skip()
    if shared:
        # style functions that return the same dictionaries every time they are asked; the subsystem is drawn twice
        std, memo = ctx.load("switss.utils.graphviz_utils"), {}
        def keep(f):
            def style(*a):
                key = (f.__name__,) + tuple(x for x in a if isinstance(x, (int, ctx.np.integer)))
                if key not in memo: memo[key] = f(*a)
                return memo[key]
            return style
        if kind == "dtmc": m.visualization = std.DTMCVisualizationConfig(state_map=keep(std.std_state_map))
        else: m.visualization = std.VisualizationConfig(state_map=keep(std.std_state_map), action_map=keep(std.std_action_map))
        ctx.call(lambda: sub.digraph(show_weights=weights))
    if plain:
        # a state style that gives no label
        std = ctx.load("switss.utils.graphviz_utils")
        m.visualization = (std.DTMCVisualizationConfig if kind == "dtmc" else std.VisualizationConfig)(state_map=lambda s, labels: {"color": "red"})
    ok, dg = ctx.call(lambda: sub.digraph(show_weights=weights))
    if not ok: ctx.fail("rendering failed with %s" % type(dg).__name__); return
    ok2, full = ctx.call(lambda: m.digraph())
    nodes, edges = drawn(ctx, dg); fn, fe = drawn(ctx, full)
    ctx.check(sorted(a for a, _ in nodes) == sorted(a for a, _ in fn) and sorted((a, b) for a, b, _ in edges) == sorted((a, b) for a, b, _ in fe), "nodes and edges of the supersystem")
    fd, shown = dict(fn), 0
    ctx.check(all("c[" not in at.get("label", "") for at in fd.values()), "the model's own drawing shows no certificate values")
    for nm, at in nodes:
        if not nm.isdigit(): owner = [int(a) for a, b, _ in fe if b == nm and a.isdigit()][0]; s = None
        else: s = int(nm)
        if s is not None and s < n and s not in kept: ctx.check(at["color"] == "azure3" and at.get("label", "") == "", "missing states are greyed out")
        elif s is not None:
            ctx.check(at["color"] == fd[nm]["color"] and at.get("label", "").startswith(fd[nm].get("label", "")), "other states keep their look")
        if not weights: continue
        want = None
        if s is not None and s in kept and (form == "min" or kind == "dtmc"): want = c[s] if form == "min" else c[saps.index((s, 0))]
        elif s is None and form == "max" and owner in kept:
            a = int(re.match(r"\d+", fd[nm]["label"]).group(0)); want = c[saps.index((owner, a))]
        ms = re.findall(r"c\[\d+\]=(\S+)", at.get("label", ""))
        ctx.check(len(ms) == (want is not None), "certificate values are shown exactly for the kept states (or their actions)")
        if want is not None and len(ms) == 1:
            if ctx.mode == "sym":
                from symx import core
                v = core.from_token(ms[0]); v = v if v is not None else Fraction(ms[0])
            else: v = float(ms[0])
            ctx.eq(v, want, "the shown certificate value", tol=Fraction(2, 10**5)); shown += 1
    if shown: ctx.cover("values shown")

H = []
def add(name, fn, bounds, must=(), **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    h = Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=24); h.must_reach = must; H.append(h)
add("dtmc-2", body, "DTMC with two states (rows swapped), every support, symbolic probabilities", N=2, saps=[(1, 0), (0, 0)], kind="dtmc")
add("dtmc-3", body, "DTMC with three states, every support, symbolic probabilities", N=3, saps=[(i, 0) for i in range(3)], kind="dtmc")
add("mdp-2x3", body, "MDP with two states and three pairs, every support, symbolic probabilities", N=2, saps=[(1, 1), (0, 0), (1, 0)], kind="mdp")
add("mdp-3x3", body, "MDP with three states of which one has no action", N=3, saps=[(2, 0), (0, 3), (0, 1)], kind="mdp", maxk=2)
add("mdp-12", body, "MDP with twelve states (two-digit numbers that are prefixes of one another)", N=12, saps=[(1, 11), (11, 1), (1, 1), (11, 11), (0, 0), (10, 1), (1, 10)], kind="mdp", sups=[(1, 11), (10,)])
add("zeros-dtmc", body, "a matrix that stores a zero explicitly (DTMC)", N=2, saps=[(0, 0), (1, 0)], kind="dtmc", zeros=True)
add("zeros-mdp", body, "a matrix that stores a zero explicitly (MDP)", N=3, saps=[(0, 0), (1, 0), (2, 1)], kind="mdp", zeros=True, maxk=2)
O2 = D("1:1", "2:1", "1:1/2 2:1/2", "0:1/2 3:1/2", "2:1/2 3:1/2", "0:1")
add("sub-min", sub, "subsystem rendering, min form, two inner states and three pairs, any certificate", must=("values shown",), n=2, saps=[(0, 0), (1, 0), (1, 1)], options=O2, kind="mdp", form="min")
add("sub-max", sub, "subsystem rendering, max form", must=("values shown",), n=2, saps=[(1, 0), (0, 0), (0, 1)], options=O2, kind="mdp", form="max")
add("sub-dtmc", sub, "subsystem rendering, DTMC with swapped rows", must=("values shown",), n=2, saps=[(1, 0), (0, 0)], options=O2, kind="dtmc", form="max")
add("sub-dtmc-min", sub, "subsystem rendering, DTMC with swapped rows, min form", must=("values shown",), n=2, saps=[(1, 0), (0, 0)], options=O2, kind="dtmc", form="min")
add("sub-max-shared", sub, "subsystem rendering, max form, style functions that return the same dictionaries again, drawn twice", must=("values shown",), n=2, saps=[(1, 0), (0, 0), (0, 1)], options=O2, kind="mdp", form="max", shared=True)
add("sub-dtmc-shared", sub, "subsystem rendering, DTMC, style functions that return the same dictionaries again, drawn twice", must=("values shown",), n=2, saps=[(1, 0), (0, 0)], options=O2, kind="dtmc", form="max", shared=True)
add("sub-dtmc-plain", sub, "subsystem rendering, DTMC, a state style without labels", must=("values shown",), n=2, saps=[(1, 0), (0, 0)], options=O2, kind="dtmc", form="max", plain=True)
add("sub-min-plain", sub, "subsystem rendering, min form, a state style without labels", must=("values shown",), n=2, saps=[(0, 0), (1, 0), (1, 1)], options=O2, kind="mdp", form="min", plain=True)
add("reduced-dtmc", reduced, "drawing of a reduced DTMC with four states, symbolic probabilities", must=("drawn",), N=4, saps=[(2, 0), (0, 0), (3, 0), (1, 0)], kind="dtmc", targets=[(1,), (1, 2)], sups=[[(3,), (0, 1)], [(1, 2), (1, 2, 3), (0, 3)], [(3,), (1, 3)], [(1,), (0, 2)]])
add("reduced-mdp", reduced, "drawing of a reduced MDP with four states (one without actions) and four pairs, symbolic probabilities", must=("drawn",), N=4, saps=[(2, 5), (0, 0), (2, 0), (0, 3)], kind="mdp", targets=[(1,), (1, 2)], sups=[[(3,), (0, 1)], [(1, 2), (2, 3)], [(2, 1), (0,)], [(2,), (1, 3), (0, 3)]])
add("mdp-3x4", body, "MDP with three states and four pairs", N=3, saps=[(2, 0), (0, 3), (0, 1), (1, 0)], kind="mdp", maxk=2, quick=False)
HARNESSES = H
ASSUMPTIONS = ["graphviz is replaced by a recorder of nodes and edges in the symbolic runs; replays parse the DOT text that the real package writes", "label names are not parts of the words of the default style"]
