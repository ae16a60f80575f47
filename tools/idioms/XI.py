"""Executes idioms of numpy, scipy.sparse and Python on symbolic numbers and on real ones (tools/idioms/run.sh):
every snippet must be executable symbolically and give what the real libraries give."""
from symx.api import *
import os, tempfile, types
S = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "snippets.py")).read().split("#---\n")
def body(ctx, n):
    import os, sys
    src = S[n]
    x = [ctx.real("x%d" % i, Fraction(1, 8), 2) for i in range(4)]
    ns = dict(x0=x[0], x1=x[1], x2=x[2], x3=x[3], q=ctx.q)
    with tempfile.NamedTemporaryFile("w", suffix=".py") as f:
        f.write(src); f.flush()
        if ctx.mode == "sym":
            ctx.load("switss")
            m = ctx._world.exec_file(f.name, "snip", ns)
            out = m.out
        else:
            exec(compile(src, f.name, "exec"), ns); out = ns["out"]
    if hasattr(out, "toarray"): out = out.toarray()
    if hasattr(out, "tolist"): out = out.tolist()
    def flat(o):
        if isinstance(o, (list, tuple)): return [flat(v) for v in o]
        if hasattr(o, "tolist") and not is_sym(o): return flat(o.tolist())
        return o
    for k, v in enumerate(flat([out])): ctx.observe("o%d" % k, v)
    ctx.check(True, "ok")
H = []
for n in range(len(S)):
    h = Harness("i%03d" % n, body, S[n][:60], params=dict(n=n), samples=4); h.sample_rate = 1; H.append(h)
HARNESSES = H
ASSUMPTIONS = []
