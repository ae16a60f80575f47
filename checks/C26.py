"""The PRISM interface passes constants and labels and parses label files exactly."""
import os, re, stat, tempfile, shutil
from symx.api import *
from symx.gen import *
from symx import textstub

def scratch(ctx):
    d = tempfile.mkdtemp(prefix="c26_")
    return d
def numeral(ctx, name, digits=1): return textstub.numeral(ctx, name, digits)

# ------------------------------------------------------------------ label files
def labfile(ctx, names, states, end, listed, gap=False):
    """label ids and state numbers are arbitrary (distinct) numbers"""
    textstub.setup(ctx)
    pr = ctx.load("switss.prism")
    nm = ctx.choice("names", names)
    wi, ws = ctx.choice("digits", [(1, 1), (2, 2), (1, 2), (2, 1)])
    ids = [numeral(ctx, "id%d" % i, wi if i else 1) for i in range(len(nm))]
    sts = [numeral(ctx, "s%d" % i, ws) for i in range(states)]
    for xs in (ids, sts):
        for i in range(len(xs)):
            for j in range(i): ctx.assume(Not(textstub.same(xs[i], xs[j])))
    lst = [ctx.choice("listed%d" % i, [l for l in listed if all(x < len(nm) for x in l)]) for i in range(states)]
    lines = [" ".join('%s="%s"' % (i.text, n) for i, n in zip(ids, nm))]
    for s, l in zip(sts, lst): lines.append("%s:%s" % (s.text, "".join(" " + ids[x].text for x in l)))
    text = "\n".join(lines) + ctx.choice("end", end)
    d = scratch(ctx)
    try:
        f = os.path.join(d, "m.lab")
        with open(f, "w", encoding="utf-8") as h: h.write(text)
        ok, r = ctx.call(pr.parse_label_file, f)
    finally: shutil.rmtree(d, ignore_errors=True)
    if not ok: ctx.fail("parsing failed with %s" % type(r).__name__); return
    sbl, lbs, idl = r
    ctx.check(sorted(sbl) == sorted(nm), "exactly the declared labels")
    if sorted(sbl) != sorted(nm): return
    probe = numeral(ctx, "probe", ws)
    for x, n in enumerate(nm):
        want = Or([textstub.same(probe, s) for s, l in zip(sts, lst) if x in l])
        ctx.check(Iff(want, probe.val in sbl[n]), "exactly the states listed for a label")
        ctx.check(Iff(want, n in lbs.get(probe.val, ())), "labels by state agree with the file")
        ctx.check(idl.get(ids[x].val) == n, "labels by their number")
    ctx.check(len(idl) == len(nm), "labels by their number")

def longfile(ctx, labels, states):
    """long files: every number listed as text, one state and the labels it carries arbitrary"""
    textstub.setup(ctx)
    pr = ctx.load("switss.prism")
    order = ctx.choice("order", ["up", "down"])
    nm = ["l%d" % i for i in range(labels)]
    s = numeral(ctx, "s", 2)
    textstub.at_least(ctx, s, states)
    mine = ctx.choice("mine", [(), (labels - 1,), (0, labels - 1), tuple(range(labels))])
    lines = [(str(k), [x for x in range(labels) if (k + x) % 3 == 0 or x == 0]) for k in range(states)]
    lines.insert(states // 2, (s.text, list(mine)))
    if order == "down": lines.reverse()
    text = " ".join('%d="%s"' % (i, n) for i, n in enumerate(nm)) + "\n" + "".join("%s: %s\n" % (k, " ".join(map(str, l))) for k, l in lines)
    d = scratch(ctx)
    try:
        f = os.path.join(d, "m.lab")
        with open(f, "w", encoding="utf-8") as h: h.write(text)
        ok, r = ctx.call(pr.parse_label_file, f)
    finally: shutil.rmtree(d, ignore_errors=True)
    if not ok: ctx.fail("parsing failed with %s" % type(r).__name__); return
    sbl, lbs, idl = r
    ctx.check(sorted(sbl) == sorted(nm), "exactly the declared labels")
    if sorted(sbl) != sorted(nm): return
    for x, n in enumerate(nm):
        ctx.check(all((k in sbl[n]) == ((k + x) % 3 == 0 or x == 0) for k in range(states)), "exactly the states listed for a label")
        ctx.check(any(s.val == v for v in sbl[n]) == (x in mine), "exactly the states listed for a label")
        ctx.check(len(sbl[n]) == sum(1 for k in range(states) if (k + x) % 3 == 0 or x == 0) + (x in mine), "exactly the states listed for a label")
        ctx.check(idl.get(x) == n, "labels by their number")
    for k in range(states): ctx.check(set(lbs.get(k, ())) == {n for x, n in enumerate(nm) if (k + x) % 3 == 0 or x == 0}, "labels by state agree with the file")
    ctx.check(set(next((v for k, v in lbs.items() if s.val == k), ())) == {nm[x] for x in mine}, "labels by state agree with the file")

def loaded(ctx, names):
    """a model loaded from files carries exactly the labels of the label file"""
    nm = ctx.choice("names", names)
    mod = ctx.load("switss.model")
    kind = ctx.choice("kind", ["DTMC", "MDP"])
    lst = [ctx.choice("listed%d" % i, subsets(range(len(nm)), nonempty=False)) for i in range(2)]
    d = scratch(ctx)
    try:
        with open(d + "/m.lab", "w") as h:
            h.write(" ".join('%d="%s"' % (i, n) for i, n in enumerate(nm)) + "\n")
            for s, l in enumerate(lst):
                if l: h.write("%d: %s\n" % (s, " ".join(map(str, l))))
        with open(d + "/m.tra", "w") as h: h.write("3 3\n0 1 1\n1 2 1\n2 2 1\n" if kind == "DTMC" else "3 3 3\n0 0 1 1\n1 0 2 1\n2 0 2 1\n")
        ok, m = ctx.call(getattr(mod, kind).from_file, d + "/m.lab", d + "/m.tra")
    finally: shutil.rmtree(d, ignore_errors=True)
    if not ok: ctx.fail("loading failed with %s" % type(m).__name__); return
    for i, n in enumerate(nm):
        ctx.check(set(m.states_by_label[n]) == {s for s in range(2) if i in lst[s]}, "labels of the loaded model")
    ctx.check(set(m.states_by_label.keys()) == set(nm), "labels of the loaded model")

# ------------------------------------------------------------------ calling prism
SCRIPT = """#!/bin/sh
# stand-in for prism: records its arguments and the model it is given
printf '%%s\\n' "$#" > %(d)s/argc
: > %(d)s/argv
for a in "$@"; do printf '%%s\\n' "$a" >> %(d)s/argv; if [ -f "$a" ]; then cp "$a" %(d)s/model.seen; fi; done
echo x >> %(d)s/calls
if [ -f %(d)s/fail ]; then echo "error: no model"; exit 1; fi
for a in "$@"; do case "$a" in *.tra,sta,lab) b="${a%%.tra,sta,lab}"; cp %(d)s/out.tra "$b.tra"; cp %(d)s/out.lab "$b.lab"; : > "$b.sta";; esac; done
exit 0
"""
class Prism:
    def __init__(self, fail):
        self.d = tempfile.mkdtemp(prefix="c26_")
        os.mkdir(self.d + "/bin")
        p = self.d + "/bin/prism"
        with open(p, "w") as h: h.write(SCRIPT % {"d": self.d})
        os.chmod(p, 0o755)
        if fail: open(self.d + "/fail", "w").close()
        self.path = os.environ.get("PATH", "")
        os.environ["PATH"] = self.d + "/bin:" + self.path
    def close(self):
        os.environ["PATH"] = self.path
        shutil.rmtree(self.d, ignore_errors=True)
    def read(self, n):
        p = os.path.join(self.d, n)
        return open(p, encoding="utf-8").read() if os.path.exists(p) else None

EXACT = [7, 12345678, -3, 0.1234567890123456, 1e-07, 2500000.0, "true"]
LABS = [{}, {"target": "s=5 & t>1"}, {"a b": "true", "c": "x=1|y=2"}, {"t": "p1=3", "u": "(p1=3)", "v": "false"}]
MODELS = ["mdp\nmodule m\nendmodule\n", "dtmc\nmodule m\nendmodule", "dtmc\n// model\nmodule m\nendmodule // end", "mdp\nmodule m\nendmodule\n\n"]
def call(ctx, nconst, labs, models, kinds, fails=(False, True), via=("prism_to_tra",), earlier=None):
    lab, text, kind = ctx.choice("labels", labs), ctx.choice("model", models), ctx.choice("kind", kinds)
    k = ctx.choice("constants", nconst)
    names = ["N", "max_x", "K3"][:k]
    last = ctx.choice("last", EXACT) if k == 3 else 7
    vals = [ctx.real("c%d" % i, -100, 100) if i < 2 else last for i in range(k)]
    fail, how = ctx.choice("fail", fails), ctx.choice("via", via)
    consts = dict(zip(names, vals))
    def wrap(d):
        return d if kind == "dict" else list(d.items()) if kind == "list" else tuple(d.items())
    pr, mod = ctx.load("switss.prism"), ctx.load("switss.model")
    if earlier:
        # another model that is translated first
        P = Prism(ctx.choice("earlier fails", [False, True]))
        try:
            with open(P.d + "/old.nm", "w") as h: h.write(MODELS[0])
            with open(P.d + "/out.tra", "w") as h: h.write("1 1\n0 0 1\n")
            with open(P.d + "/out.lab", "w") as h: h.write('0="old"\n0: 0\n')
            ctx.call(getattr(pr if earlier == "prism_to_tra" else mod.DTMC, earlier), P.d + "/old.nm", *([P.d + "/old"] if earlier == "prism_to_tra" else []), prism_constants={"Old": 5}, extra_labels={"older": "z=1"})
        finally: P.close()
    P = Prism(fail)
    try:
        f, dest = P.d + "/model.nm", P.d + "/dest"
        with open(f, "w") as h: h.write(text)
        with open(P.d + "/out.tra", "w") as h: h.write("2 3\n0 0 0.25\n0 1 0.75\n1 1 1\n")
        with open(P.d + "/out.lab", "w") as h: h.write('0="init" 1="goal"\n0: 0\n1: 1\n')
        kw = {}
        if k or kind != "none": kw["prism_constants"] = wrap(consts)
        if lab or kind != "none": kw["extra_labels"] = wrap(lab)
        if how == "prism_to_tra": ok, r = ctx.call(pr.prism_to_tra, f, dest, **kw)
        else: ok, r = ctx.call(mod.DTMC.from_prism_model, f, **kw)
        seen, argv, calls = P.read("model.seen"), P.read("argv"), P.read("calls")
        now = open(f).read()
    finally: P.close()
    ctx.check(now == text, "the original file stays as it was")
    if how == "prism_to_tra":
        ctx.check(ok, "the translation failed with %s" % (type(r).__name__ if not ok else ""))
        if not ok: return
        ctx.check(r is (not fail), "success is reported exactly when prism succeeds")
    else:
        ctx.check(ok == (not fail), "a model is returned exactly when prism succeeds")
        if not ok: ctx.check(isassert(r), "failed with %s" % type(r).__name__)
        else:
            ctx.check(m_ok(ctx, r), "the model that prism exported")
    ctx.check(calls is not None and calls.count("x") == 1, "prism runs exactly once")
    if seen is None or argv is None: ctx.fail("prism gets a model file"); return
    ctx.check(seen.startswith(text), "prism gets a copy of the model")
    rest = seen[len(text):]
    if lab and not text.endswith("\n"): ctx.check(rest.startswith("\n") or rest.startswith("\r\n"), "label declarations start on a line of their own")
    decl = sorted(re.sub(r"\s*;\s*$", ";", l.strip()) for l in rest.split("\n") if l.strip())
    pat = lambda l: re.match(r'^label\s*"([^"]*)"\s*=\s*(.*?)\s*;$', l)
    ms = [pat(l) for l in decl]
    ctx.check(None not in ms and sorted((m.group(1), m.group(2)) for m in ms) == sorted(lab.items()), "exactly the extra label declarations")
    a = argv.rstrip("\n").split("\n")
    rest = a[:]
    i = [j for j, x in enumerate(a) if x == "-exportmodel"]
    ctx.check(len(i) == 1 and i[0] + 1 < len(a) and a[i[0] + 1].endswith(".tra,sta,lab"), "the files to export")
    if how == "prism_to_tra" and len(i) == 1: ctx.check(a[i[0] + 1] == dest + ".tra,sta,lab", "the destination")
    c = [j for j, x in enumerate(a) if x == "-const"]
    ctx.check(len(c) == (1 if k else 0), "constants are given exactly when there are some")
    if len(i) != 1 or len(c) != (1 if k else 0): return
    ctx.check(len(a) == 3 + 2 * len(c), "no other arguments")
    if k:
        got = [x.split("=", 1) for x in a[c[0] + 1].split(",")]
        ctx.check(sorted(g[0] for g in got) == sorted(names), "exactly the given constants")
        for g in got:
            if g[0] == "K3" and isinstance(last, (int, float)): ctx.check("SYM" not in g[-1] and float(g[-1]) == last and (not isinstance(last, int) or re.fullmatch(r"-?[0-9]+", g[-1]) is not None), "value of a constant")
            elif g[0] == "K3": ctx.check(g[-1] == last, "value of a constant")
            elif g[0] in consts: ctx.eq(textstub.number(ctx, g[-1]), consts[g[0]], "value of a constant", tol=Fraction(1, 10**9))
def m_ok(ctx, m):
    P = m.P.tocsr()
    return m.N == 2 and P[0, 0] == 0.25 and P[0, 1] == 0.75 and P[1, 1] == 1 and set(m.states_by_label["goal"]) == {1} and set(m.states_by_label["init"]) == {0}

H = []
def add(name, fn, bounds, **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    H.append(Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=24))
NM = [["init"], ["init", "a b"], ["t", "x=1", "3:2"], ["init", "deadlock", "goal"]]
LS = [(), (0,), (1,), (0, 1), (0, 2), (2, 1), (0, 1, 2)]
add("label-files", labfile, "up to three labels (names with blanks, digits, '=' and ':'), label numbers and two state numbers arbitrary, every listing", names=NM, states=2, end=["\n", "", "\n\n"], listed=LS)
add("label-files-long", longfile, "twelve labels, 300 states and one state with an arbitrary number, in both orders", labels=12, states=300)
add("label-files-0", labfile, "no state carries a label", names=NM, states=0, end=["\n", ""], listed=LS)
add("loaded", loaded, "models of three states loaded with every labelling of two states by up to two labels", names=[["init"], ["init", "goal state"]])
add("calls", call, "up to two constants with arbitrary values and one of seven exact ones (long integers, all digits of a float, words), up to three extra labels, models with and without final newline or comment, dictionaries and collections of pairs", nconst=[0, 1, 3], labs=LABS, models=MODELS, kinds=["dict", "list", "tuple"])
add("from-prism-model", call, "models built from prism's answer", nconst=[0, 2], labs=LABS[:3], models=MODELS[:2], kinds=["dict", "list"], via=("from_prism_model",))
add("calls-again", call, "the same after another model has been translated (successfully or not)", nconst=[0, 1], labs=LABS[:2], models=MODELS[:1], kinds=["dict", "none"], earlier="prism_to_tra", fails=(False,))
add("from-prism-model-again", call, "models built after another one", nconst=[1], labs=LABS[:2], models=MODELS[:1], kinds=["dict"], via=("from_prism_model",), earlier="from_prism_model", fails=(False,))
add("label-files-3", labfile, "three labelled states", names=NM, states=3, end=["\n", ""], listed=LS, quick=False)
HARNESSES = H
ASSUMPTIONS = ["prism is not installed: an executable of that name on the PATH records its arguments and its model file and succeeds or fails",
    "numbers in label files are symbolic: a digit-like character stands for any number below ten, two of them for any other, in the text, regular expressions are extended by it; texts of constants are symbolic numbers",
    "label names and expressions are taken from a list of typical and awkward ones"]
