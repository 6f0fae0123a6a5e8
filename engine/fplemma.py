"""Integer values of double arithmetic that computes a ceiling or a floor of an integer quotient.

Lemmas used (DESIGN.md, lemma list):
 fp-exact   +,-,* on doubles holding integers are exact while every result stays within 2^53 in magnitude
 fp-floor   floor(fl(fl(A/B) + c)) = floor(A/B) + c   when |A| + (|c|+1)*B <= 2^50, B >= 1, c an integer
 fp-ceil    ceil (fl(fl(A/B) + c)) = ceil (A/B) + c   under the same bounds
"""
from terms import *
import terms as tm

LIM = 1 << 53


def _bounded(ctx, t, lim):
    lo, hi = rng(t)
    if lo is not None and hi is not None and -lim <= lo and hi <= lim:
        return True
    return ctx.prove(and_(le(I(-lim), t), le(t, I(lim)))) == 'yes'


def exact(ctx, v, d=0):
    """integer term equal to the double v, or None"""
    if v.sort != 'D' or d > 8:
        return None
    if v.op == 'fc':
        x = fc_val(v)
        if x == x and abs(x) < LIM and x == int(x):
            return I(int(x))
        return None
    if v.op == 'itof':
        return v.args[0] if _bounded(ctx, v.args[0], LIM) else None
    if v.op == 'fext' and v.args[0].op == 'itof':
        return v.args[0].args[0] if _bounded(ctx, v.args[0].args[0], 1 << 24) else None
    if v.op == 'fneg':
        # -0.0 and 0 agree as integers
        a = exact(ctx, v.args[0], d + 1)
        return None if a is None else neg(a)
    if v.op in ('fadd', 'fsub', 'fmul'):
        a = exact(ctx, v.args[0], d + 1)
        if a is None:
            return None
        b = exact(ctx, v.args[1], d + 1)
        if b is None:
            return None
        r = add(a, b) if v.op == 'fadd' else (sub(a, b) if v.op == 'fsub' else mul(a, b))
        return r if _bounded(ctx, r, LIM) else None
    if v.op == 'call' and v.args[0] in ('floor', 'ceil', 'trunc', 'rint', 'round'):
        a = exact(ctx, v.args[1], d + 1)
        if a is not None:
            return a
        if v.args[0] in ('floor', 'ceil'):
            return quotient(ctx, v.args[0], v.args[1])
        return None
    return None


def quotient(ctx, fn, x):
    c = ZERO
    if x.op in ('fadd', 'fsub'):
        a, b = x.args
        ea, eb = exact(ctx, a), exact(ctx, b)
        if eb is not None and a.op == 'fdiv':
            c, x = (eb if x.op == 'fadd' else neg(eb)), a
        elif ea is not None and b.op == 'fdiv' and x.op == 'fadd':
            c, x = ea, b
        else:
            return None
        if not is_c(c) or abs(cval(c)) > 1000:
            return None
    if x.op != 'fdiv':
        return None
    A, B = exact(ctx, x.args[0]), exact(ctx, x.args[1])
    if A is None or B is None:
        return None
    if not ctx.yes(le(ONE, B)):
        return None
    cc = abs(cval(c)) + 1
    if not (_bounded(ctx, A, 1 << 49) and ctx.yes(le(mul(I(cc), B), I(1 << 49)))):
        return None
    if B is ONE:
        return add(A, c)
    q = ctx.cdiv(A, B) if fn == 'floor' else add(ONE, ctx.cdiv(sub(A, ONE), B))
    return add(q, c)


def to_int(ctx, v):
    """value of (integer type) v for a double v, or None when no lemma applies"""
    if v.op in ('fc', 'itof'):
        return None
    return exact(ctx, v)
