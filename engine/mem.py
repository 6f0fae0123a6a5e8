"""Memory objects of the symbolic executor."""
from terms import *
import terms as tm
from prover import Ctx, prove_eq


class Unsupported(Exception):
    """the verifier cannot handle this construct: a limit of the tool, not an alarm"""


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=ZERO):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%r,%s)' % (self.obj, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off is o.off

    def __hash__(self):
        return hash((self.obj, self.off.id))

    def isnull(self):
        return self.obj is None


NULL = Ptr(None, ZERO)


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Poison:
    """content of a loop temporary at a point where the verifier does not track it"""
    def __repr__(self):
        return 'POISON'


POISON = Poison()


class Blob:
    """bytes of a small struct moved through an integer register"""
    __slots__ = ('size', 'pieces')

    def __init__(self, size, pieces):
        self.size = size
        self.pieces = pieces      # tuple of (off, size, val)

    def __repr__(self):
        return 'Blob%r' % (self.pieces,)

    def __eq__(self, o):
        return isinstance(o, Blob) and self.size == o.size and self.pieces == o.pieces

    def __hash__(self):
        return hash(self.pieces)


def veq(a, b):
    return a is b or (isinstance(a, (Ptr, Blob)) and a == b)


def vsubst(v, m, memo=None):
    if isinstance(v, T):
        return subst(v, m, memo)
    if isinstance(v, Ptr):
        return Ptr(v.obj, subst(v.off, m, memo))
    if isinstance(v, Blob):
        return Blob(v.size, tuple((o, s, vsubst(x, m, memo)) for o, s, x in v.pieces))
    return v


def vfree(v):
    if isinstance(v, T):
        return free_vars(v)
    if isinstance(v, Ptr):
        return free_vars(v.off)
    if isinstance(v, Blob):
        s = set()
        for _, _, x in v.pieces:
            s |= vfree(x)
        return s
    return frozenset()


def vite(c, a, b):
    if veq(a, b):
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj is not None:
        return Ptr(a.obj, ite(c, a.off, b.off))
    raise Unsupported('conditional pointer value')


class Point:
    __slots__ = ('idx', 'val')

    def __init__(self, idx, val):
        self.idx = idx
        self.val = val

    def subst(self, m, memo):
        return Point(subst(self.idx, m, memo), vsubst(self.val, m, memo))

    def __repr__(self):
        return '[%s]:=%s' % (self.idx, self.val)


class Range:
    """for q in [0,K): the items in order.  items: list of (cond, layer)"""
    __slots__ = ('q', 'K', 'items')

    def __init__(self, q, K, items):
        self.q = q
        self.K = K
        self.items = items

    def subst(self, m, memo):
        m2 = {k: v for k, v in m.items() if k is not self.q}
        if m2 is m or len(m2) == len(m):
            mm = memo
        else:
            mm = {}
        q2 = fresh('q')
        m3 = dict(m2)
        m3[self.q] = q2
        memo2 = {}
        return Range(q2, subst(self.K, m, memo), [(subst(c, m3, memo2), l.subst(m3, memo2)) for c, l in self.items])

    def __repr__(self):
        return 'for %s<%s: %r' % (self.q, self.K, self.items)


class Item:
    """flattened array write family"""
    __slots__ = ('binders', 'cond', 'idx', 'val')

    def __init__(self, binders, cond, idx, val):
        self.binders = binders
        self.cond = cond
        self.idx = idx
        self.val = val


def flatten(layer, binders=(), cond=TRUE):
    if isinstance(layer, Point):
        return [Item(binders, cond, layer.idx, layer.val)]
    out = []
    for c, l in layer.items:
        out.extend(flatten(l, binders + ((layer.q, layer.K),), and_(cond, c)))
    return out


class Obj:
    __slots__ = ('id', 'kind', 'name', 'size', 'alive', 'tag', 'ety', 'es', 'cells', 'layers', 'base', 'ro', 'array', 'site', 'lock')

    def __init__(self, id, kind, name, size, tag=None):
        self.id = id
        self.kind = kind        # stack heap input global
        self.name = name
        self.size = size        # Term
        self.alive = True
        self.tag = tag          # allocator family
        self.ety = None
        self.es = None
        self.cells = {}
        self.layers = ()
        self.base = None        # None = uninitialised; else function idx -> value
        self.ro = False
        self.array = not is_c(size)
        self.site = None
        self.lock = 0

    def copy(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(o, s, getattr(self, s))
        o.cells = dict(self.cells)
        return o


class AppBase:
    """initial content of an input array: name[idx]"""

    def __init__(self, name, sort, lo=None, hi=None):
        self.name = name
        self.sort = sort
        self.lo = lo
        self.hi = hi

    def __call__(self, idx):
        return app(self.name, (idx,), self.sort, self.lo, self.hi)


class FnBase:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, idx):
        return self.fn(idx)


# --------------------------------------------------------------- owner solving
def coords_of(t, binders):
    """decompose the polynomial t into base + sum W*u with u an atom made of binder variables.
    returns (base, [(u, W)]) or None"""
    bs = set(b for b, _ in binders)
    d = poly(t)
    base = {}
    co = {}
    for m, c in d.items():
        inv = []
        dep = []
        for a in m:
            (dep if (free_vars(a) & bs) else inv).append(a)
        if not dep:
            base[m] = c
            continue
        if len(dep) != 1:
            return None
        u = dep[0]
        w = co.setdefault(u, {})
        w[tuple(inv)] = w.get(tuple(inv), 0) + c
    return from_poly(base), [(u, from_poly(w)) for u, w in co.items()]


def digit_view(u, binders):
    """u as a digit of a binder: (b, P, R)  (R None: top digit, no modulus)"""
    bm = dict(binders)
    if u in bm:
        return (u, ONE, None)
    if u.op == 'mod':
        x, R = u.args
        v = digit_view(x, binders) if x.op in ('var', 'div') else None
        if v and v[2] is None:
            return (v[0], v[1], R)
        return None
    if u.op == 'div':
        x, P = u.args
        if x in bm:
            return (x, P, None)
        if x.op == 'mod' and x.args[0] in bm:
            # (b mod M) div P : digits above P up to M
            q, r = split_div(x.args[1], P)
            if r is ZERO:
                return (x.args[0], P, q)
    return None


def solve_owner(ctx, item, e):
    """find binder values with item.idx == e.  returns (subst map, cond) or None if provably no owner;
    raises Unsupported when it cannot be inverted"""
    if not item.binders:
        return {}, eq(item.idx, e)
    bm = dict(item.binders)
    r = coords_of(item.idx, item.binders)
    if r is None:
        # try simplification first
        c2 = ctx.copy()
        for b, K in item.binders:
            c2.assume(le(ZERO, b)).assume(lt(b, K))
        r = coords_of(c2.simp(item.idx), item.binders)
        if r is None:
            raise Unsupported('write index not linear: %s' % item.idx)
    base, co = r
    views = []
    for u, W in co:
        v = digit_view(u, item.binders)
        if v is None:
            raise Unsupported('write index coordinate %s' % u)
        b, P, R = v
        K = bm[b]
        if R is None:
            if P is ONE:
                R = K
            else:
                R = add(tm.div(sub(K, ONE), P), ONE) if False else None
                q, rem = split_div(K, P)
                if rem is ZERO:
                    R = q
        views.append([u, W, b, P, R])
    # order by weight, smallest first
    c2 = ctx.copy()
    rest = list(views)
    # drop coordinates of radix one
    chain = []
    conds = []
    cur = None
    while rest:
        pick = None
        for v in rest:
            if all(split_div(o[1], v[1])[1] is ZERO for o in rest if o is not v):
                ok = True
                if cur is not None and cur[4] is not None:
                    ok = ctx.quick(le(mul(cur[1], cur[4]), v[1])) or ctx.yes(le(mul(cur[1], cur[4]), v[1]))
                if ok:
                    # prefer weight exactly the product
                    if pick is None or (cur is not None and v[1] is mul(cur[1], cur[4] or ONE)):
                        pick = v
        if pick is None and len(rest) > 1:
            # general order by provable comparison
            for v in rest:
                if all(o is v or ctx.yes(le(v[1], o[1])) for o in rest):
                    if cur is None or cur[4] is None or ctx.yes(le(mul(cur[1], cur[4]), v[1])):
                        pick = v
                        break
        if pick is None:
            if len(rest) == 1 and cur is None:
                pick = rest[0]
            else:
                raise Unsupported('write weights of %s not a mixed radix' % item.idx)
        chain.append(pick)
        rest.remove(pick)
        cur = pick
    t = sub(e, base)
    val = {}
    for u, W, b, P, R in reversed(chain):
        if W is ONE:
            q, rm = t, ZERO
        elif ctx.quick(lt(ZERO, W)) or ctx.yes(lt(ZERO, W)):
            q, rm = ctx.cdivmod(t, W)
        elif ctx.yes(lt(W, ZERO)) and len(chain) == 1:
            q, rm = ctx.cdivmod(neg(t), neg(W))
            rm = rm
        else:
            raise Unsupported('weight sign %s' % W)
        val[u] = q
        t = rm
        conds.append(le(ZERO, q))
        if R is not None:
            conds.append(lt(q, R))
    conds.append(eq(t, ZERO))
    # reconstruct binders
    m = {}
    for b, K in item.binders:
        ds = [v for v in chain if v[2] is b]
        if not ds:
            # binder not in the index: every iteration writes the same place, the last one wins
            raise Unsupported('write index independent of %s' % b)
        tot = ZERO
        ds.sort(key=lambda v: (len(poly(v[3])), max(len(mm) for mm in poly(v[3]))))
        # check digit chain: P_0 = 1, P_{i+1} = P_i*R_i
        need = ONE
        left = list(ds)
        while left:
            nx = None
            for v in left:
                if v[3] is need or ctx.quick(eq(v[3], need)):
                    nx = v
                    break
            if nx is None:
                raise Unsupported('digits of %s incomplete (need weight %s)' % (b, need))
            left.remove(nx)
            tot = add(tot, mul(val[nx[0]], nx[3]))
            if nx[4] is None:
                need = None
            else:
                need = mul(nx[3], nx[4])
        if need is not None and not (need is K or ctx.quick(le(K, need)) or ctx.yes(le(K, need))):
            raise Unsupported('digits of %s cover only %s of %s' % (b, need, K))
        tot = ctx.recombine(tot) if tot.op == 'poly' else tot
        m[b] = tot
        conds.append(le(ZERO, tot))
        conds.append(lt(tot, subst(K, m)))
    return m, and_(*conds)
