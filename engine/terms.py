"""Hash-consed term language of the verifier.

Sorts: 'I' mathematical integer, 'B' boolean, 'F' binary32, 'D' binary64.
Integers are kept in polynomial normal form, so that index arithmetic that is
equal as a polynomial is equal as a term.  Machine arithmetic is made explicit
by wrapS/wrapU terms.
"""
import struct, math
from functools import lru_cache
import numpy as np

_table = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'lvl', 'rng', 'free', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


EMPTY = frozenset()


def _mk(op, args, sort, rng=None, kr=None):
    # kr: declared interval, part of the identity of variables and array elements
    key = (op, args, sort, kr)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        _cnt[0] += 1
        t.id = _cnt[0]
        lvl = 0
        if op == 'poly':
            for m, c in args:
                for a in m:
                    if a.lvl > lvl:
                        lvl = a.lvl
        else:
            for a in args:
                if isinstance(a, T) and a.lvl > lvl:
                    lvl = a.lvl
        if op in ('fold', 'exists'):
            lvl += 1
        t.lvl = lvl
        t.free = None
        t.rng = False
        if rng is not None:
            t.rng = rng
        _table[key] = t
    return t


# ------------------------------------------------------------------ integers
_consts = {}


def I(n):
    n = int(n)
    t = _consts.get(n)
    if t is None:
        t = _consts[n] = _mk('c', (n,), 'I')
    return t


ZERO = I(0)
ONE = I(1)


def poly(t):
    op = t.op
    if op == 'c':
        return {(): t.args[0]} if t.args[0] else {}
    if op == 'poly':
        return dict(t.args)
    return {(t,): 1}


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), tuple(a.id for a in mc[0]))))
    return _mk('poly', items, 'I')


def _chkI(a):
    if isinstance(a, int):
        return I(a)
    if a.sort == 'B':
        return ite(a, ONE, ZERO)
    return a


def add(*ts):
    d = {}
    for t in ts:
        t = _chkI(t)
        for m, c in poly(t).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


def neg(a):
    return from_poly({m: -c for m, c in poly(_chkI(a)).items()})


def sub(a, b):
    a = _chkI(a)
    b = _chkI(b)
    if a is b:
        return ZERO
    return add(a, neg(b))


def _mm(m1, m2):
    return tuple(sorted(m1 + m2, key=lambda a: a.id))


def mul(*ts):
    r = {(): 1}
    for t in ts:
        p = poly(_chkI(t))
        n = {}
        for m1, c1 in r.items():
            for m2, c2 in p.items():
                m = _mm(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2
        r = n
    return from_poly(r)


def is_c(t):
    return t.op == 'c'


def cval(t):
    return t.args[0]


def var(name, sort='I', lo=None, hi=None):
    if sort == 'I':
        if lo is not None or hi is not None:
            return _mk('var', (name,), 'I', (lo, hi), (lo, hi))
        return _mk('var', (name,), 'I')
    return _mk('var', (name,), sort)


_fresh = [0]


def fresh(prefix, sort='I', lo=None, hi=None):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), sort, lo, hi)


def app(name, args, sort, lo=None, hi=None):
    a = (name,) + tuple(_chkI(a) if isinstance(a, int) else a for a in args)
    if sort == 'I' and (lo is not None or hi is not None):
        return _mk('app', a, sort, (lo, hi), (lo, hi))
    return _mk('app', a, sort)


def rng(t):
    """static interval (lo, hi), None = unbounded"""
    if t.rng is not False:
        return t.rng
    r = _rng(t)
    t.rng = r
    return r


def _mulr(a, b):
    xs = []
    for x in a:
        for y in b:
            if x is None or y is None:
                if x == 0 or y == 0:
                    xs.append(0)
                    continue
                return _mulr_inf(a, b)
            xs.append(x * y)
    return (min(xs), max(xs))


def _mulr_inf(a, b):
    # only handle the nonnegative case
    if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
        lo = a[0] * b[0]
        hi = None if (a[1] is None or b[1] is None) else a[1] * b[1]
        return (lo, hi)
    return (None, None)


def _rng(t):
    op = t.op
    if op == 'c':
        return (t.args[0], t.args[0])
    if op == 'poly':
        lo, hi = 0, 0
        for m, c in t.args:
            r = (1, 1)
            i = 0
            while i < len(m):
                a = m[i]
                n = 1
                while i + n < len(m) and m[i + n] is a:
                    n += 1
                ra = rng(a)
                if n % 2 == 0:
                    l2, h2 = ra
                    if l2 is not None and l2 >= 0:
                        rr = (l2 ** n, None if h2 is None else h2 ** n)
                    else:
                        rr = (0, None if (l2 is None or h2 is None) else max(abs(l2), abs(h2)) ** n)
                else:
                    rr = ra
                    for _ in range(n - 1):
                        rr = _mulr(rr, ra)
                r = _mulr(r, rr)
                i += n
            if c < 0:
                r = (None if r[1] is None else r[1] * c, None if r[0] is None else r[0] * c)
            else:
                r = (None if r[0] is None else r[0] * c, None if r[1] is None else r[1] * c)
            lo = None if (lo is None or r[0] is None) else lo + r[0]
            hi = None if (hi is None or r[1] is None) else hi + r[1]
        return (lo, hi)
    if op == 'ite':
        a, b = rng(t.args[1]), rng(t.args[2])
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if op == 'wrapS':
        n = t.args[0]
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1)
    if op == 'wrapU':
        n = t.args[0]
        return (0, (1 << n) - 1)
    if op == 'mod':
        b = rng(t.args[1])
        return (0, None if b[1] is None else b[1] - 1)
    if op == 'div':
        a, b = rng(t.args[0]), rng(t.args[1])
        lo = 0 if (a[0] is not None and a[0] >= 0) else (a[0] if a[0] is not None else None)
        hi = a[1] if (a[1] is not None and a[1] >= 0) else (-1 if a[1] is not None else None)
        if is_c(t.args[1]):
            d = cval(t.args[1])
            lo = None if a[0] is None else a[0] // d
            hi = None if a[1] is None else a[1] // d
        return (lo, hi)
    return (None, None)


def _mono_div(m, d):
    """monomial m / monomial d or None"""
    m = list(m)
    for a in d:
        for i, x in enumerate(m):
            if x is a:
                del m[i]
                break
        else:
            return None
    return tuple(m)


def split_div(a, b):
    """a = q*b + r, syntactically (b a term).  Returns (q, r)."""
    pb = poly(b)
    if len(pb) == 1:
        (mb, cb), = pb.items()
        if cb < 0:
            return ZERO, a
        q, r = {}, {}
        for m, c in poly(a).items():
            mm = _mono_div(m, mb)
            if mm is None:
                r[m] = c
                continue
            qc, rc = divmod(c, cb)
            if qc:
                q[mm] = q.get(mm, 0) + qc
            if rc:
                r[m] = rc
        return from_poly(q), from_poly(r)
    # polynomial divisor: exact multiples only, leading monomial = last item of max degree
    lead = max(pb.items(), key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0])))
    q, r = {}, dict(poly(a))
    for _ in range(64):
        hit = None
        for m, c in r.items():
            mm = _mono_div(m, lead[0])
            if mm is not None and c % lead[1] == 0 and m != ():
                hit = (mm, c // lead[1])
                break
        if not hit:
            break
        q[hit[0]] = q.get(hit[0], 0) + hit[1]
        for m, c in pb.items():
            m2 = _mm(m, hit[0])
            r[m2] = r.get(m2, 0) - c * hit[1]
            if r[m2] == 0:
                del r[m2]
    return from_poly(q), from_poly(r)


def div(a, b):
    """floor(a/b); only meaningful for b > 0"""
    a = _chkI(a)
    b = _chkI(b)
    if is_c(b):
        if cval(b) == 1:
            return a
        if is_c(a) and cval(b) > 0:
            return I(cval(a) // cval(b))
    if a is ZERO:
        return ZERO
    q, r = split_div(a, b)
    if r is ZERO:
        return q
    ra, rb = rng(r), rng(b)
    if ra[0] is not None and ra[0] >= 0 and ra[1] is not None and rb[0] is not None and ra[1] < rb[0]:
        return q
    if r.op == 'div':
        return add(q, div(r.args[0], mul(r.args[1], b)))
    return add(q, _mk('div', (r, b), 'I'))


def mod(a, b):
    a = _chkI(a)
    b = _chkI(b)
    if is_c(b):
        if cval(b) == 1:
            return ZERO
        if is_c(a) and cval(b) > 0:
            return I(cval(a) % cval(b))
    q, r = split_div(a, b)
    if r is ZERO:
        return ZERO
    ra, rb = rng(r), rng(b)
    if ra[0] is not None and ra[0] >= 0 and ra[1] is not None and rb[0] is not None and ra[1] < rb[0]:
        return r
    if r.op == 'mod':
        q2, r2 = split_div(r.args[1], b)
        if r2 is ZERO:          # (x mod (b*c)) mod b
            return mod(r.args[0], b)
    return _mk('mod', (r, b), 'I')


def tdiv(a, b):
    """C division, truncating"""
    a = _chkI(a)
    b = _chkI(b)
    if is_c(a) and is_c(b) and cval(b) != 0:
        q = abs(cval(a)) // abs(cval(b))
        return I(q if (cval(a) < 0) == (cval(b) < 0) else -q)
    if b is ONE:
        return a
    ra, rb = rng(a), rng(b)
    if ra[0] is not None and ra[0] >= 0 and rb[0] is not None and rb[0] > 0:
        return div(a, b)
    return _mk('tdiv', (a, b), 'I')


def trem(a, b):
    a = _chkI(a)
    b = _chkI(b)
    if is_c(a) and is_c(b) and cval(b) != 0:
        r = abs(cval(a)) % abs(cval(b))
        return I(-r if cval(a) < 0 else r)
    ra, rb = rng(a), rng(b)
    if ra[0] is not None and ra[0] >= 0 and rb[0] is not None and rb[0] > 0:
        return mod(a, b)
    return _mk('trem', (a, b), 'I')


def _unwrap(t, n):
    """drop wraps of >= n bits inside a ring expression"""
    p = poly(t)
    chg = False
    for m in p:
        for a in m:
            if (a.op in ('wrapS', 'wrapU') and a.args[0] >= n):
                chg = True
    if not chg:
        return t
    acc = ZERO
    for m, c in p.items():
        fs = [I(c)]
        for a in m:
            if a.op in ('wrapS', 'wrapU') and a.args[0] >= n:
                a = _unwrap(a.args[1], n)
            fs.append(a)
        acc = add(acc, mul(*fs))
    return acc


def _redcoef(t, n):
    M = 1 << n
    d = {}
    for m, c in poly(t).items():
        c %= M
        if c >= M // 2:
            c -= M
        d[m] = c
    return from_poly(d)


def wrapS(n, t):
    t = _chkI(t)
    if is_c(t):
        v = cval(t) & ((1 << n) - 1)
        if v >> (n - 1):
            v -= 1 << n
        return I(v)
    lo, hi = rng(t)
    if lo is not None and hi is not None and lo >= -(1 << (n - 1)) and hi < (1 << (n - 1)):
        return t
    t2 = _redcoef(_unwrap(t, n), n)
    if t2 is not t:
        return wrapS(n, t2)
    if t.op == 'ite' and (rng(t.args[1])[0] is not None and rng(t.args[2])[0] is not None):
        return ite(t.args[0], wrapS(n, t.args[1]), wrapS(n, t.args[2]))
    return _mk('wrapS', (n, t), 'I')


def wrapU(n, t):
    t = _chkI(t)
    if is_c(t):
        return I(cval(t) & ((1 << n) - 1))
    lo, hi = rng(t)
    if lo is not None and hi is not None and lo >= 0 and hi < (1 << n):
        return t
    t2 = _redcoef(_unwrap(t, n), n)
    if t2 is not t:
        return wrapU(n, t2)
    if t.op == 'ite':
        return ite(t.args[0], wrapU(n, t.args[1]), wrapU(n, t.args[2]))
    return _mk('wrapU', (n, t), 'I')


# ------------------------------------------------------------------ booleans
TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')


def B(b):
    return TRUE if b else FALSE


def le0(p):
    """p <= 0"""
    if is_c(p):
        return B(cval(p) <= 0)
    lo, hi = rng(p)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    d = poly(p)
    c0 = d.pop((), 0)
    g = 0
    for c in d.values():
        g = math.gcd(g, c)
    if g > 1:
        # g*q + c0 <= 0  <=> q <= floor(-c0/g)
        d = {m: c // g for m, c in d.items()}
        c0 = -((-c0) // g)
    if c0:
        d[()] = c0
    return _mk('le0', (from_poly(d),), 'B')


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if isinstance(a, int):
        a = I(a)
    if isinstance(b, int):
        b = I(b)
    if a is b:
        return TRUE
    if a.sort == 'B':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort != 'I':
        if a.id > b.id:
            a, b = b, a
        return _mk('same', (a, b), 'B')
    p = sub(a, b)
    if is_c(p):
        return B(cval(p) == 0)
    lo, hi = rng(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    d = poly(p)
    # ite with constant branches against constant
    nz = [m for m in d if m != ()]
    if len(nz) == 1 and len(nz[0]) == 1 and nz[0][0].op == 'ite':
        t = nz[0][0]
        c = d[nz[0]]
        c0 = d.get((), 0)
        if is_c(t.args[1]) or is_c(t.args[2]):
            if (-c0) % c:
                return FALSE
            v = I((-c0) // c)
            return or_(and_(t.args[0], eq(t.args[1], v)), and_(not_(t.args[0]), eq(t.args[2], v)))
    c0 = d.pop((), 0)
    g = 0
    for c in d.values():
        g = math.gcd(g, c)
    if c0 % g:
        return FALSE
    first = sorted(d.items(), key=lambda mc: (len(mc[0]), tuple(a.id for a in mc[0])))[0]
    if first[1] < 0:
        g = -g
    d = {m: c // g for m, c in d.items()}
    if c0:
        d[()] = c0 // g
    return _mk('eq0', (from_poly(d),), 'B')


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'le0':
        return le0(sub(ONE, a.args[0]))
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    return _mk('not', (a,), 'B')


def and_(*ts):
    out = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == 'and':
            st.extend(t.args)
        else:
            out[t.id] = t
    for t in out.values():
        n = not_(t)
        if n.id in out:
            return FALSE
    # absorb: x and (x or y) -> x
    res = []
    for t in out.values():
        if t.op == 'or':
            if any(a.id in out for a in t.args):
                continue
            na = [a for a in t.args if not_(a).id not in out]
            if len(na) != len(t.args):
                return and_(*[x for x in out.values() if x is not t], or_(*na))
        res.append(t)
    out = res
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out = sorted(out, key=lambda t: t.id)
    return _mk('and', tuple(out), 'B')


def or_(*ts):
    out = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.op == 'or':
            st.extend(t.args)
        else:
            out[t.id] = t
    for t in out.values():
        n = not_(t)
        if n.id in out:
            return TRUE
    res = []
    for t in out.values():
        if t.op == 'and':
            if any(a.id in out for a in t.args):
                continue
            na = [a for a in t.args if not_(a).id not in out]
            if len(na) != len(t.args):
                return or_(*[x for x in out.values() if x is not t], and_(*na))
        res.append(t)
    out = res
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out = sorted(out, key=lambda t: t.id)
    return _mk('or', tuple(out), 'B')


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if isinstance(a, int):
        a = I(a)
    if isinstance(b, int):
        b = I(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a is b:
        return a
    # canonical orientation for le0 conditions: prefer the smaller id of c / not c
    n = not_(c)
    if n.op != 'not' and n.id < c.id:
        c, a, b = n, b, a
    return _mk('ite', (c, a, b), a.sort)


def bvar(name):
    return _mk('bvar', (name,), 'B')


def fresh_b(prefix):
    _fresh[0] += 1
    return bvar('%s!%d' % (prefix, _fresh[0]))


# ------------------------------------------------------------------ floats
def fbits(v, sort):
    if sort == 'F':
        return struct.unpack('<I', struct.pack('<f', v))[0]
    return struct.unpack('<Q', struct.pack('<d', v))[0]


def fconst(v, sort):
    if sort == 'F':
        v = float(np.float32(v))
        if v != v:
            bits = 0x7fc00000
        else:
            bits = fbits(v, 'F')
    else:
        v = float(v)
        bits = fbits(v, 'D') if v == v else 0x7ff8000000000000
    return _mk('fc', (bits,), sort)


def fc_val(t):
    if t.sort == 'F':
        return struct.unpack('<f', struct.pack('<I', t.args[0]))[0]
    return struct.unpack('<d', struct.pack('<Q', t.args[0]))[0]


def np_of(v, sort):
    return np.float32(v) if sort == 'F' else np.float64(v)


def fop(op, a, b):
    """op in fadd fsub fmul fdiv frem"""
    sort = a.sort
    assert a.sort == b.sort, (op, a, b)
    if a.op == 'fc' and b.op == 'fc' and op != 'frem':
        return fconst(np_fop(op, np_of(fc_val(a), sort), np_of(fc_val(b), sort)), sort)
    if op in ('fadd', 'fmul') and a.id > b.id:
        a, b = b, a
    return _mk(op, (a, b), sort)


def np_fop(op, x, y):
    with np.errstate(all='ignore'):
        if op == 'fadd':
            return x + y
        if op == 'fsub':
            return x - y
        if op == 'fmul':
            return x * y
        return x / y


def fneg(a):
    if a.op == 'fc':
        return fconst(-fc_val(a), a.sort)
    if a.op == 'fneg':
        return a.args[0]
    return _mk('fneg', (a,), a.sort)


def fext(a):
    if a.sort == 'D':
        return a
    if a.op == 'fc':
        return fconst(fc_val(a), 'D')
    if a.op == 'fneg':
        # widening is exact: it commutes with the sign
        return fneg(fext(a.args[0]))
    return _mk('fext', (a,), 'D')


def ftrunc(a):
    if a.sort == 'F':
        return a
    if a.op == 'fc':
        with np.errstate(all='ignore'):
            return fconst(np.float32(fc_val(a)), 'F')
    if a.op == 'fext':
        return a.args[0]
    if a.op == 'itof':
        lo, hi = rng(a.args[0])
        if lo is not None and hi is not None and lo >= -(1 << 53) and hi <= (1 << 53):
            return _mk('itof', (a.args[0],), 'F')
    return _mk('ftrunc', (a,), 'F')


def itof(a, sort):
    if is_c(a):
        return fconst(float(np.float64(cval(a))) if sort == 'D' else _i2f32(cval(a)), sort)
    if sort == 'D':
        lo, hi = rng(a)
        if lo is not None and hi is not None and -(1 << 24) <= lo and hi <= (1 << 24):
            return fext(_mk('itof', (a,), 'F'))
    return _mk('itof', (a,), sort)


def _i2f32(n):
    return float(np.float32(np.int64(n))) if -(1 << 63) <= n < (1 << 63) else float(np.float32(np.uint64(n)))


def ftoi(a):
    """truncation toward zero, as a mathematical integer"""
    if a.op == 'fc':
        v = fc_val(a)
        if v == v and abs(v) != float('inf'):
            return I(int(v))
    x = a
    while x.op == 'fext':
        x = x.args[0]
    if x.op == 'itof':
        lo, hi = rng(x.args[0])
        lim = 1 << (24 if x.sort == 'F' else 53)
        if lo is not None and hi is not None and -lim <= lo and hi <= lim:
            return x.args[0]
    return _mk('ftoi', (x,), 'I')


def fcmp(op, a, b):
    """op in lt le feq uno"""
    if a.op == 'fc' and b.op == 'fc':
        x, y = fc_val(a), fc_val(b)
        return B({'lt': x < y, 'le': x <= y, 'feq': x == y, 'uno': x != x or y != y}[op])
    if a is b:
        if op == 'lt':
            return FALSE
    if a.op == 'fext' and b.op == 'fext':
        return fcmp(op, a.args[0], b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op == 'fext' and y.op == 'fc' and y.sort == 'D':
            v = fc_val(y)
            if v != v or float(np.float32(v)) == v:
                y2 = fconst(v, 'F')
                return fcmp(op, x.args[0], y2) if x is a else fcmp(op, y2, x.args[0])
    # exact integer comparisons

    def ex(x):
        if x.op == 'itof':
            lo, hi = rng(x.args[0])
            lim = 1 << (24 if x.sort == 'F' else 53)
            if lo is not None and hi is not None and -lim <= lo and hi <= lim:
                return x.args[0]
        if x.op == 'fc':
            v = fc_val(x)
            if v == v and abs(v) < (1 << 53) and v == int(v):
                return I(int(v))
        if x.op == 'fext':
            return ex(x.args[0])
        return None
    xa, xb = ex(a), ex(b)
    if xa is not None and xb is not None:
        if op == 'lt':
            return lt(xa, xb)
        if op == 'le':
            return le(xa, xb)
        if op == 'feq':
            return eq(xa, xb)
        return FALSE

    def never_nan(x):
        return x.op == 'itof' or (x.op == 'fc' and fc_val(x) == fc_val(x)) or (x.op == 'fext' and never_nan(x.args[0]))
    if op == 'uno' and never_nan(a) and never_nan(b):
        return FALSE
    if op == 'uno':
        if never_nan(a):
            a = b
        elif never_nan(b):
            b = a
    if op in ('feq', 'uno') and a.id > b.id:
        a, b = b, a
    return _mk(op, (a, b), 'B')


def call(name, args, sort):
    return _mk('call', (name,) + tuple(args), sort)


# ------------------------------------------------------------------ binders
def bq(lvl):
    return _mk('bq', (lvl,), 'I')


def ba(lvl, sort):
    return _mk('ba', (lvl,), sort)


def _blevel(*ts):
    return 1 + max([_mxlvl(t) for t in ts] + [0])


def _mxlvl(t):
    return t.lvl


def fold(n, init, q, acc, body, acc_rng=None):
    """acc_0 = init; acc_{i+1} = body[q:=i, acc:=acc_i]; the value acc_n.
    q, acc are variable terms free in body."""
    n = _chkI(n)
    if n is ZERO:
        return init
    if body is acc:
        return init
    lvl = 1 + body.lvl
    m = {q: bq(lvl)}
    m[acc] = ba(lvl, acc.sort)
    b = subst(body, m)
    while b.lvl + 1 != lvl:
        lvl = b.lvl + 1
        b = subst(body, {q: bq(lvl), acc: ba(lvl, acc.sort)})
    t = _mk('fold', (n, init, b, lvl), init.sort)
    return t


def fold_open(t, q, acc):
    n, init, b, lvl = t.args
    return subst(b, {bq(lvl): q, ba(lvl, init.sort): acc})


def exists(n, q, body):
    n = _chkI(n)
    if n is ZERO or body is FALSE:
        return FALSE
    if is_c(n) and cval(n) <= 12:
        return or_(*[subst(body, {q: I(i)}) for i in range(max(0, cval(n)))])
    lvl = 1 + body.lvl
    b = subst(body, {q: bq(lvl)})
    return _mk('exists', (n, b, lvl), 'B')


def exists_open(t, q):
    n, b, lvl = t.args
    return subst(b, {bq(lvl): q})


# ------------------------------------------------------------------ traversal
def children(t):
    if t.op == 'poly':
        out = []
        for m, c in t.args:
            out.extend(m)
        return out
    return [a for a in t.args if isinstance(a, T)]


def free_vars(t):
    """frozenset of var/bvar atoms occurring in t"""
    if t.free is not None:
        return t.free
    stack = [t]
    while stack:
        x = stack[-1]
        if x.free is not None:
            stack.pop()
            continue
        ch = children(x)
        pend = [c for c in ch if c.free is None]
        if pend:
            stack.extend(pend)
            continue
        s = set()
        if x.op in ('var', 'bvar', 'bq', 'ba') or (x.op == 'app' and x.args[0].startswith('el:hvx')):
            s.add(x)
        for c in ch:
            s |= c.free
        x.free = frozenset(s)
        stack.pop()
    return t.free


def rebuild(t, args):
    op = t.op
    if op == 'div':
        return div(*args)
    if op == 'mod':
        return mod(*args)
    if op == 'tdiv':
        return tdiv(*args)
    if op == 'trem':
        return trem(*args)
    if op == 'wrapS':
        return wrapS(t.args[0], args[0])
    if op == 'wrapU':
        return wrapU(t.args[0], args[0])
    if op == 'ite':
        return ite(*args)
    if op == 'le0':
        return le0(args[0])
    if op == 'eq0':
        return eq(args[0], ZERO)
    if op == 'same':
        return eq(args[0], args[1])
    if op == 'not':
        return not_(args[0])
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        return fop(op, *args)
    if op == 'fneg':
        return fneg(args[0])
    if op == 'fext':
        return fext(args[0])
    if op == 'ftrunc':
        return ftrunc(args[0])
    if op == 'itof':
        return itof(args[0], t.sort)
    if op == 'ftoi':
        return ftoi(args[0])
    if op in ('lt', 'le', 'feq', 'uno'):
        return fcmp(op, *args)
    if op == 'call':
        return call(t.args[0], args, t.sort)
    if op == 'app':
        return app(t.args[0], args, t.sort, *(t.rng if t.rng else (None, None)))
    if op == 'fold':
        n, init, b = args
        if n is ZERO:
            return init
        return _mk('fold', (n, init, b, t.args[3]), t.sort)
    if op == 'exists':
        n, b = args
        if n is ZERO or b is FALSE:
            return FALSE
        if is_c(n) and cval(n) <= 12:
            return or_(*[subst(b, {bq(t.args[2]): I(i)}) for i in range(max(0, cval(n)))])
        return _mk('exists', (n, b, t.args[2]), 'B')
    raise Exception('rebuild ' + op)


def subst(t, m, memo=None):
    if not m:
        return t
    keys = frozenset(m)
    if memo is None:
        memo = {}
    fk = all(k.op in ('var', 'bvar', 'bq', 'ba') for k in keys)
    return _subst(t, m, memo, keys if fk else None)


def _subst(t, m, memo, keys):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if keys is not None and not (free_vars(t) & keys):
        return t
    op = t.op
    if op in ('c', 'var', 'bvar', 'fc', 'true', 'false', 'bq', 'ba'):
        return t
    if op == 'poly':
        acc = {}
        chg = False
        for mo, c in t.args:
            fs = []
            for a in mo:
                a2 = _subst(a, m, memo, keys)
                if a2 is not a:
                    chg = True
                fs.append(a2)
            p = mul(I(c), *fs)
            for mm, cc in poly(p).items():
                acc[mm] = acc.get(mm, 0) + cc
        r = from_poly(acc) if chg else t
    else:
        ch = children(t)
        args = [_subst(a, m, memo, keys) for a in ch]
        if all(x is y for x, y in zip(args, ch)):
            r = t
        else:
            if op in ('fold', 'exists'):
                r = _rebuild_binder(t, args)
            else:
                r = rebuild(t, args)
    memo[t] = r
    return r


def _rebuild_binder(t, args):
    """levels may clash after substitution: re-level"""
    if t.op == 'fold':
        n, init, b = args
        lvl = t.args[3]
        if b.lvl + 1 != lvl:
            q = fresh('rq')
            a = fresh('ra', init.sort)
            b = subst(b, {bq(lvl): q, ba(lvl, t.sort): a})
            return fold(n, init, q, a, b)
        return rebuild(t, args)
    n, b = args
    lvl = t.args[2]
    if b.lvl + 1 != lvl:
        q = fresh('rq')
        return exists(n, q, subst(b, {bq(lvl): q}))
    return rebuild(t, args)


def atoms(t, pred, acc=None, seen=None):
    """collect subterms satisfying pred"""
    if acc is None:
        acc = []
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if pred(x):
            acc.append(x)
        st.extend(children(x))
    return acc


def size(t, seen=None):
    return len(atoms(t, lambda x: True))


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if d > 14:
        return '...'
    op = t.op
    if op == 'c':
        return str(t.args[0])
    if op in ('var', 'bvar'):
        return t.args[0]
    if op == 'bq':
        return '$q%d' % t.args[0]
    if op == 'ba':
        return '$a%d' % t.args[0]
    if op == 'fc':
        return repr(fc_val(t)) + ('f' if t.sort == 'F' else '')
    if op == 'poly':
        s = []
        for m, c in t.args:
            f = '*'.join(show(a, d + 1) for a in m)
            if m == ():
                s.append(str(c))
            elif c == 1:
                s.append(f)
            elif c == -1:
                s.append('-' + f)
            else:
                s.append('%d*%s' % (c, f))
        return '(' + ' + '.join(s) + ')'
    if op == 'app':
        return '%s[%s]' % (t.args[0], ','.join(show(a, d + 1) for a in t.args[1:]))
    if op == 'fold':
        return 'fold%d(n=%s,init=%s,%s)' % (t.args[3], show(t.args[0], d + 1), show(t.args[1], d + 1), show(t.args[2], d + 1))
    if op == 'exists':
        return 'exists%d(<%s,%s)' % (t.args[2], show(t.args[0], d + 1), show(t.args[1], d + 1))
    return '%s(%s)' % (op, ','.join(show(a, d + 1) if isinstance(a, T) else str(a) for a in t.args))


def let(e):
    """opaque name for an integer expression (keeps polynomials small)"""
    if e.op in ('c', 'var', 'app', 'let', 'fold', 'div', 'mod'):
        return e
    t = _mk('let', (e,), 'I')
    if t.rng is False:
        t.rng = rng(e)
    return t


def unlet(t):
    """expand every let"""
    ls = atoms(t, lambda x: x.op == 'let')
    if not ls:
        return t
    return subst(t, {l: unlet(l.args[0]) for l in ls})


_old_rebuild = rebuild


def rebuild(t, args):  # noqa
    if t.op == 'let':
        return let(args[0])
    return _old_rebuild(t, args)
