"""Numbers inside text: a character stands for an arbitrary natural number.  The stand-in is
a digit of an unused script, so that \\d and \\w match it natively; explicit digit ranges in
regular expressions are extended by these characters."""
import re as _re, types
from . import core
DIG = [chr(0x1E950 + i) for i in range(10)] + [chr(0x1D7F6 + i) for i in range(10)]
class Num:
    def __init__(self, text, val): self.text, self.val = text, val
def numeral(ctx, name, digits=1):
    """digits=1: one character (a number below ten); digits=2: two characters, the last digit and
    the digits before it, so that patterns and slices that take single digits are seen to cut it"""
    if ctx.mode == "conc":
        v = int(ctx.i[name]); return Num(str(v), v)
    E = ctx.E
    e = core.z3.Int(name)
    E.inputs[name] = ("int", e)
    E.add(e >= 0)
    tab = E.__dict__.setdefault("numerals", {})
    k = E.__dict__.setdefault("digits_used", 0)
    if digits == 1:
        E.add(e <= 9)
        c = DIG[k]; E.digits_used = k + 1
        tab[c] = core.SymKey(e)
        return Num(c, tab[c])
    E.add(e >= 10)
    c = DIG[k] + DIG[k + 1]; E.digits_used = k + 2
    tab[c], tab[DIG[k]], tab[DIG[k + 1]] = core.SymKey(e), core.SymKey(e / 10), core.SymKey(e % 10)
    return Num(c, tab[c])
def at_least(ctx, n, k):
    if ctx.mode == "conc": ctx.assume(n.val >= k)
    else: ctx.E.add(n.val.e >= k)
def same(a, b):
    if isinstance(a.val, core.SymKey): return a.val.t == b.val.t
    return a.val == b.val
def number(ctx, text):
    if ctx.mode == "conc": return float(text)
    v = core.from_token(text)
    return v if v is not None else core.Fraction(text)
def rewrite(p):
    return p.replace("0-9", "0-9" + "".join(DIG)) if isinstance(p, str) else p
class Re(types.ModuleType):
    def __getattr__(self, n):
        f = getattr(_re, n)
        if n in ("compile", "match", "search", "fullmatch", "findall", "finditer", "sub", "subn", "split"):
            return lambda p, *a, **k: f(rewrite(p), *a, **k)
        return f
def setup(ctx):
    if ctx.mode == "sym": ctx.over["re"] = Re("re")
