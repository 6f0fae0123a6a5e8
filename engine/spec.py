"""Contracts of the public functions of aitisa_api.

Each contract is written once, over mathematical terms, and is read three ways:
  * the verifier proves it of the real body (verify.py),
  * it stands for the function at call sites (callsite.py),
  * pyc.py compiles it to Python as the oracle of the concrete cross-check (concrete.py).
"""
import itertools, random
from terms import *
import terms as tm
from world import DT, DTS, INT_DTS, FLT_DTS

SUCCESS, TYPE_MISMATCH, DIMS_MISMATCH, INVALID, NOT_SUPPORTED, ALLOC_FAILED, OUT_OF_RANGE, INTERNAL, MATH_ERROR = range(9)
I32MIN, I32MAX = -(1 << 31), (1 << 31) - 1
I64MAX = (1 << 63) - 1
TWO = I(2)
CODE = {d: i for i, d in enumerate(DTS)}


# ------------------------------------------------------------------ element arithmetic
def bits(dt):
    return 8 * DT[dt][0]


def isint(dt):
    return DT[dt][1] == 'I'


def sgn(dt):
    return DT[dt][2]


def num(dt, x):
    """mathematical value of an integer element"""
    return x if sgn(dt) else wrapU(bits(dt), x)


def as_double(dt, x):
    if isint(dt):
        return itof(num(dt, x), 'D')
    return fext(x)


def from_int(dt, v):
    """C conversion of the integer v to dt"""
    if isint(dt):
        return wrapS(bits(dt), v)
    return itof(v, DT[dt][1])


def from_double(dt, v):
    if isint(dt):
        return wrapS(bits(dt), ftoi(v))
    return ftrunc(v) if dt == 'float' else v


def zero_of(dt):
    return ZERO if isint(dt) else fconst(0.0, DT[dt][1])


def arith(dt, op, a, b):
    """a op b in the element type (integer promotion followed by conversion back)"""
    if not isint(dt):
        return fop({'add': 'fadd', 'sub': 'fsub', 'mul': 'fmul', 'div': 'fdiv'}[op], a, b)
    n = bits(dt)
    x, y = num(dt, a), num(dt, b)
    if op == 'add':
        return wrapS(n, add(x, y))
    if op == 'sub':
        return wrapS(n, sub(x, y))
    if op == 'mul':
        return wrapS(n, mul(x, y))
    return wrapS(n, tdiv(x, y))


def fcall(name, x):
    return call(name, (x,), x.sort)


# ------------------------------------------------------------------ shapes
def prod(ds):
    return mul(*ds) if ds else ONE


def rowmajor(coords, dims):
    r = ZERO
    for i, c in enumerate(coords):
        r = add(r, mul(c, prod(dims[i + 1:])))
    return r


def strides(dims):
    return [prod(dims[i + 1:]) for i in range(len(dims))]


def bmax(a, b):
    return ite(eq(a, ONE), b, a)


# ------------------------------------------------------------------ arguments
class In:
    pass


class Ten(In):
    def __init__(self, name, dt, dims, dev=(ZERO, ZERO), style='any', ro=True):
        # ro=False: the function may write the elements; Out.muts describes them afterwards
        self.name, self.dt, self.dims, self.dev, self.style = name, dt, list(dims), dev, style
        self.ro = ro

    def el(self, idx):
        es, sort, sg = DT[self.dt]
        if sort == 'I':
            return app('el:' + self.name, (idx,), 'I', -(1 << (8 * es - 1)), (1 << (8 * es - 1)) - 1)
        return app('el:' + self.name, (idx,), sort)

    def at(self, coords):
        return self.el(rowmajor(coords, self.dims))

    @property
    def size(self):
        return prod(self.dims)


class Ref(In):
    """the same tensor passed a second time"""
    def __init__(self, ten):
        self.ten = ten


class Arr(In):
    def __init__(self, name, vals, es):
        self.name, self.vals, self.es = name, list(vals), es


class Int(In):
    def __init__(self, v, bits=64):
        self.v, self.bits = v, bits


class Dbl(In):
    def __init__(self, v):
        self.v = v


class DTy(In):
    def __init__(self, dt):
        self.dt = dt


class Dev(In):
    def __init__(self, ty, id_):
        self.ty, self.id = ty, id_


class Str(In):
    def __init__(self, s):
        self.s = s


class Null(In):
    pass


class Slot(In):
    """Tensor *output"""
    pass


class Buf(In):
    """caller-provided memory the function writes; spec gives the cells"""
    def __init__(self, name, n):
        self.name, self.n = name, n


class Owned(In):
    """heap block handed over to the library (data of aitisa_create)"""
    def __init__(self, name, dt, count):
        self.name, self.dt, self.count = name, dt, count

    def el(self, idx):
        return Ten.el(self, idx)


class OwnedTen(In):
    """Tensor* whose tensor was built by the library"""
    def __init__(self, name, dt, dims):
        self.name, self.dt, self.dims = name, dt, list(dims)

    def el(self, idx):
        return Ten.el(self, idx)


# ------------------------------------------------------------------ results
class TD:
    """described output tensor; content(coords, lin) -> element"""
    def __init__(self, dt, dims, content, mode='lin', dev=(ZERO, ZERO), adopt=None):
        self.dt, self.dims, self.content, self.mode, self.dev = dt, list(dims), content, mode, dev
        self.adopt = adopt


class Out:
    def __init__(self, guard, status, res=None, bufs=None, any_content=False, muts=None, consumed=()):
        self.guard, self.status, self.res = guard, status, res
        self.muts = muts or {}         # writable Ten name -> content(lin) afterwards
        self.consumed = tuple(consumed)  # OwnedTen handles that are released and cleared
        self.bufs = bufs or {}         # Buf name -> [(off, size, term)]
        self.any_content = any_content  # tensor present, elements unspecified


class Inst:
    def __init__(self, name, func, prop, args, outs, pre=(), quick=True, ret='status', tol=0, sampler=None, cost=1, facts=(),
                 es=8, bounded=None, styles=None, symbolic=True, concrete=True, also=()):
        self.name, self.func, self.prop, self.args, self.outs = name, func, prop, args, outs
        self.pre = list(pre)
        self.quick = quick
        self.ret = ret
        self.tol = tol
        self.sampler = sampler
        self.cost = cost
        self.facts = list(facts)       # groups of dims whose product (times es) is assumed representable
        self.es = es
        self.bounded = bounded
        self.symbolic = symbolic
        self.concrete = concrete
        self.also = also
        self.empty = False


EMPTY = frozenset()              # names of the extents that are 0 in the instances being built (see build_empty)


def dimvars(name, n, lo=1, hi=I64MAX):
    return [ZERO if '%s%d' % (name, i) in EMPTY else var('%s%d' % (name, i), 'I', lo, hi) for i in range(n)]


def i32var(name, lo=I32MIN, hi=I32MAX):
    return var(name, 'I', lo, hi)


INSTS = []


def inst(*a, **k):
    i = Inst(*a, **k)
    if EMPTY:
        zs = [d for a in i.args for d in (a.dims if isinstance(a, (Ten, OwnedTen)) else a.vals if isinstance(a, Arr) and a.name in ('dims', 'nd', 'd', 'e') else [])]
        if sum(z is ZERO for z in zs) != len(EMPTY):
            return
        i.name = '%s,empty:%s]' % (i.name[:-1], '.'.join(sorted(EMPTY)))
        i.empty = True
    INSTS.append(i)


# =================================================================== elementwise unary
RANKS = (0, 1, 2, 3, 4)
XRANKS = (5, 6)                 # further ranks, for the representative data type
LATE = 'thorough'                # handed to the verifier in the thorough tier only; the quick tier runs the bounded check


def ranks(cond):
    return RANKS + XRANKS if cond else RANKS


def quick_dt(dt, r):
    return r == 2 or dt == 'float'


def build_unary():
    for dt in DTS:
        for r in ranks(dt in ('float', 'int16')):
            ds = dimvars('d', r)
            t, i = var('t1', 'I', 0, 1), i32var('i1')
            x = Ten('x', dt, ds, (t, i))
            es = DT[dt][0]
            q = quick_dt(dt, r)
            z = zero_of(dt)

            def relu(c, l, x=x, dt=dt, z=z):
                e = x.el(l)
                if isint(dt):
                    return ite(lt(ZERO, num(dt, e)), e, ZERO)
                return ite(fcmp('lt', z, e), e, z)
            inst('relu[%s,r%d]' % (dt, r), 'aitisa_relu', 'relu', [x, Slot()], [Out(TRUE, SUCCESS, TD(dt, ds, relu, dev=(t, i)))],
                 facts=[ds], es=es, quick=q)

            def sig(c, l, x=x, dt=dt):
                e = as_double(dt, fneg(x.el(l)))
                one = fconst(1.0, 'D')
                return from_double(dt, fop('fdiv', one, fop('fadd', one, fcall('exp', e))))

            def tanh_(c, l, x=x, dt=dt):
                return from_double(dt, fcall('tanh', as_double(dt, x.el(l))))
            if not isint(dt):
                inst('sigmoid[%s,r%d]' % (dt, r), 'aitisa_sigmoid', 'sigmoid_tanh', [x, Slot()],
                     [Out(TRUE, SUCCESS, TD(dt, ds, sig, dev=(t, i)))], facts=[ds], es=es, quick=q, tol=4)
                inst('tanh[%s,r%d]' % (dt, r), 'aitisa_tanh', 'sigmoid_tanh', [x, Slot()],
                     [Out(TRUE, SUCCESS, TD(dt, ds, tanh_, dev=(t, i)))], facts=[ds], es=es, quick=q, tol=4)
            else:
                for f in ('sigmoid', 'tanh'):
                    inst('%s[%s,r%d]' % (f, dt, r), 'aitisa_' + f, 'sigmoid_tanh', [x, Slot()],
                         [Out(TRUE, NOT_SUPPORTED, TD(dt, ds, None, dev=(t, i)), any_content=True)], facts=[ds], es=es, quick=q and r == 2)

            def sq(c, l, x=x, dt=dt):
                return from_double(dt, fcall('sqrt', as_double(dt, x.el(l))))
            outs = []
            if not isint(dt) or sgn(dt):
                qv = fresh('q')
                e = x.el(qv)
                neg_ = lt(e, ZERO) if isint(dt) else fcmp('lt', e, z)
                outs.append(Out(exists(x.size, qv, neg_), MATH_ERROR, TD(dt, ds, None, dev=(t, i)), any_content=True))
            outs.append(Out(TRUE, SUCCESS, TD(dt, ds, sq, dev=(t, i))))
            inst('sqrt[%s,r%d]' % (dt, r), 'aitisa_sqrt', 'sqrt', [x, Slot()], outs, facts=[ds], es=es, quick=q, tol=0)


# =================================================================== binary
BIN = {'add': 'aitisa_add', 'sub': 'aitisa_sub', 'mul': 'aitisa_mul', 'div': 'aitisa_div'}


def bin_outs(x, y, op):
    outs = []
    if x.dev[0] is not ZERO or y.dev[0] is not ZERO:
        outs.append(Out(or_(ne(x.dev[0], ZERO), ne(y.dev[0], ZERO)), NOT_SUPPORTED))
    if x.dt != y.dt:
        return outs + [Out(TRUE, TYPE_MISMATCH)]
    if len(x.dims) != len(y.dims):
        return outs + [Out(TRUE, INVALID)]
    if x.dims and x is not y:
        outs.append(Out(or_(*[ne(a, b) for a, b in zip(x.dims, y.dims)]), INVALID))
    outs.append(Out(TRUE, SUCCESS, TD(x.dt, x.dims, lambda c, l: arith(x.dt, op, x.el(l), y.el(l)), dev=x.dev)))
    return outs


def build_binary():
    for op, fn in BIN.items():
        st = 'nonzero' if op == 'div' else 'any'
        for dt in DTS:
            sty = st
            xs = 'any'
            if isint(dt) and bits(dt) >= 32 and sgn(dt) or dt == 'uint16' and op == 'mul':
                xs = 'mid'
                sty = 'midnz' if op == 'div' else 'mid'
            elif isint(dt) and op == 'div':
                sty = 'nonzero'
            for r in ranks(dt in ('float', 'int32')):
                a, b = dimvars('d', r), dimvars('e', r)
                x, y = Ten('x', dt, a, style=xs), Ten('y', dt, b, style=sty)
                pre = []
                inst('%s[%s,r%d]' % (op, dt, r), fn, 'arith', [x, y, Slot()], bin_outs(x, y, op), pre=pre,
                     facts=[a, b], es=DT[dt][0], quick=quick_dt(dt, r), sampler='match:d,e')
            a = dimvars('d', 2)
            x = Ten('x', dt, a, style='midnz' if isint(dt) and bits(dt) >= 32 and sgn(dt) else 'nonzero' if op == 'div' else xs)
            inst('%s[%s,x op x]' % (op, dt), fn, 'arith', [x, Ref(x), Slot()], bin_outs(x, x, op), facts=[a], es=DT[dt][0],
                 quick=dt in ('float', 'int32'))
        # validation: device, data type, rank and extents
        for (d1, d2), (r1, r2) in itertools.product([('float', 'float'), ('float', 'double'), ('int32', 'float'), ('uint8', 'int8'), ('int64', 'uint64')],
                                                    [(0, 0), (0, 1), (1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (3, 2), (0, 3), (4, 4), (5, 5), (4, 5), (6, 6)]):
            a, b = dimvars('d', r1), dimvars('e', r2)
            t1, t2 = var('t1', 'I', 0, 1), var('t2', 'I', 0, 1)
            i1, i2 = i32var('i1'), i32var('i2')
            ss = 'midnz'
            x, y = Ten('x', d1, a, (t1, i1), style=ss), Ten('y', d2, b, (t2, i2), style=ss)
            inst('%s-check[%s/%s,r%d/r%d]' % (op, d1, d2, r1, r2), fn, 'binary_checks', [x, y, Slot()], bin_outs(x, y, op),
                 facts=[a, b], quick=(r1, r2) in ((1, 1), (2, 1), (2, 2), (0, 1)) or (r1 > 3 and (d1, d2) == ('float', 'float') and op in ('add', 'div')), sampler='match:d,e')


# =================================================================== creation, casting
def build_create():
    for dt in DTS:
        for r in RANKS + XRANKS:
            ds = dimvars('d', r)
            q = r == 2 or dt in ('float', 'int8')
            t, i = var('t1', 'I', 0, 1), i32var('i1')
            args = [DTy(dt), Dev(t, i), Arr('dims', ds, 8) if r else Null(), Int(I(r)), Null(), Int(var('len', 'I', 0, (1 << 32) - 1), 32), Slot()]
            inst('create[%s,r%d]' % (dt, r), 'aitisa_create', 'create', args,
                 [Out(TRUE, SUCCESS, TD(dt, ds, None, dev=(t, i)), any_content=True)], facts=[ds], es=DT[dt][0], quick=q, also=('wellformed',))
            n, ln = var('cap', 'I', 0, I64MAX), var('len', 'I', 0, (1 << 32) - 1)
            blk = Owned('blk', dt, n)
            args = [DTy(dt), Dev(t, i), Arr('dims', ds, 8) if r else Null(), Int(I(r)), blk, Int(ln, 32), Slot()]
            es = DT[dt][0]
            inst('create-data[%s,r%d]' % (dt, r), 'aitisa_create', 'create', args,
                 [Out(ne(tm.div(ln, I(es)), prod(ds)), INVALID),
                  Out(TRUE, SUCCESS, TD(dt, ds, lambda c, l, blk=blk: blk.el(l), dev=(t, i), adopt='blk'))],
                 pre=[le(ln, mul(n, I(es))), le(mul(n, I(es)), I(I64MAX)), le(mul(I(es), tm.div(ln, I(es))), ln)], facts=[ds], es=es, quick=q, sampler='createlen:%d' % es)

            v = var('el:value', 'D')
            inst('full[%s,r%d]' % (dt, r), 'aitisa_full', 'full',
                 [DTy(dt), Dev(t, i), Arr('dims', ds, 8) if r else Null(), Int(I(r)), Dbl(v), Slot()],
                 [Out(TRUE, SUCCESS, TD(dt, ds, lambda c, l, v=v, dt=dt: from_double(dt, v), dev=(t, i)))],
                 facts=[ds], es=es, quick=quick_dt(dt, r), sampler='value:' + dt)


def build_cast():
    for a in DTS:
        for b in DTS:
            for r in ranks((a, b) in (('float', 'int32'), ('int8', 'uint64'))):
                ds = dimvars('d', r)
                t, i = var('t1', 'I', 0, 1), i32var('i1')
                x = Ten('x', a, ds, (t, i), style='cast:' + b)
                if a == b:
                    outs = [Out(TRUE, SUCCESS)]
                else:
                    def f(c, l, x=x, a=a, b=b):
                        e = x.el(l)
                        if isint(a):
                            return from_int(b, num(a, e))
                        if isint(b):
                            return from_double(b, as_double(a, e))
                        return ftrunc(e) if b == 'float' else fext(e)
                    outs = [Out(TRUE, SUCCESS, TD(b, ds, f, dev=(t, i)))]
                inst('cast[%s->%s,r%d]' % (a, b, r), 'aitisa_cast', 'cast', [x, DTy(b), Slot()], outs, facts=[ds],
                     es=max(DT[a][0], DT[b][0]), quick=r == 2 or r > 4 or (a, b) == ('float', 'int32'))


def build_reshape():
    for dt in DTS:
        for r, n in list(itertools.product(RANKS, RANKS)) + ([(5, 2), (2, 5), (5, 5), (6, 3), (3, 6), (6, 6)] if dt == 'float' else []):
            ds, ns = dimvars('d', r), dimvars('n', n)
            t, i = var('t1', 'I', 0, 1), i32var('i1')
            x = Ten('x', dt, ds, (t, i))
            q = (r, n) in ((2, 3), (3, 1)) or dt == 'float'
            inst('reshape[%s,r%d->r%d]' % (dt, r, n), 'aitisa_reshape', 'reshape',
                 [x, Arr('nd', ns, 8) if n else Null(), Int(I(n)), Slot()],
                 [Out(ne(prod(ds), prod(ns)), DIMS_MISMATCH),
                  Out(TRUE, SUCCESS, TD(dt, ns, lambda c, l, x=x: x.el(l), dev=(t, i)))], facts=[ds, ns], es=DT[dt][0], quick=q,
                 sampler='reshape:d,n')


def squeeze_cases(x, drop_conds, dev):
    """one outcome per set of removed axes"""
    outs = []
    r = len(x.dims)
    for mask in itertools.product((0, 1), repeat=r):
        g = and_(*[c if m else not_(c) for m, c in zip(mask, drop_conds)])
        if g is FALSE:
            continue
        nd = [d for m, d in zip(mask, x.dims) if not m]
        outs.append(Out(g, SUCCESS, TD(x.dt, nd, lambda c, l: x.el(l), dev=dev)))
    return outs


def build_squeeze():
    for dt in DTS:
        for r in (1, 2, 3, 4, 5, 6):
            for na in (-1, 0, 1, 2, 3):
                ds = dimvars('d', r)
                t, i = var('t1', 'I', 0, 1), i32var('i1')
                x = Ten('x', dt, ds, (t, i))
                ax = [var('a%d' % k) for k in range(max(na, 0))]
                outs = []
                if na < 0:
                    outs = [Out(TRUE, INVALID)]
                else:
                    if na:
                        outs.append(Out(or_(*[or_(lt(a, ZERO), le(I(r), a)) for a in ax]), INVALID))
                        drop = [and_(or_(*[eq(a, I(j)) for a in ax]), eq(ds[j], ONE)) for j in range(r)]
                    else:
                        drop = [eq(d, ONE) for d in ds]
                    outs += squeeze_cases(x, drop, (t, i))
                if dt != 'float' and (na, r) not in ((0, 3), (2, 3)):
                    continue
                ten = 2 if na >= 2 and r >= 3 else 1
                inst('squeeze[%s,r%d,n%d]' % (dt, r, na), 'aitisa_squeeze', 'squeeze',
                     [x, Arr('axis', ax, 8) if na > 0 else Null(), Int(I(na)), Slot()], outs, facts=[ds], es=DT[dt][0],
                     quick=dt in ('float', 'int16'), sampler='squeeze:d,a,%d' % r, cost=ten,
                     symbolic=True if (dt == 'float' and r * max(na, 1) <= 6) or dt == 'int16' or na == 0 and r == 5 or na < 0 else LATE)


def build_slice():
    for dt in DTS:
        for r in (0, 1, 2, 3) + ((4, 5) if dt in ('float', 'uint8') else ()):
            ds = dimvars('d', r, hi=I32MAX)
            t, i = var('t1', 'I', 0, 1), i32var('i1')
            x = Ten('x', dt, ds, (t, i))
            bg = [i32var('begin%d' % k) for k in range(r)]
            sz = [i32var('size%d' % k) for k in range(r)]
            sp = [i32var('step%d' % k) for k in range(r)]
            outs = []
            if r:
                bad = or_(*[or_(lt(b, ZERO), le(d, b), lt(s, ZERO), lt(d, add(b, s)), lt(p, ONE)) for b, s, p, d in zip(bg, sz, sp, ds)])
                outs.append(Out(bad, INVALID))
            for mask in itertools.product((0, 1), repeat=r):
                # mask 1: axis has no element requested and is dropped
                g = and_(*[eq(s, ZERO) if m else lt(ZERO, s) for m, s in zip(mask, sz)])
                nd = [add(ONE, tm.div(sub(s, ONE), p)) for m, s, p in zip(mask, sz, sp) if not m]

                def f(c, l, x=x, mask=mask, bg=bg, sp=sp):
                    it = iter(c)
                    return x.at([b if m else add(b, mul(p, next(it))) for m, b, p in zip(mask, bg, sp)])
                outs.append(Out(g, SUCCESS, TD(dt, nd, f, mode='coords', dev=(t, i))))
            arr = lambda nm, v: Arr(nm, v, 4)
            inst('slice[%s,r%d]' % (dt, r), 'aitisa_slice', 'slice', [x, arr('begin', bg), arr('size', sz), arr('step', sp), Slot()], outs,
                 facts=[ds], es=DT[dt][0], quick=dt == 'float' or (r, dt) in ((1, 'int64'), (1, 'uint8')), symbolic=True if r <= 2 else LATE, sampler='slice:d', cost=1 + 10 * (r > 1) + 40 * (r > 2))
        for r in ranks(dt == 'float'):
            ds = dimvars('d', r, hi=I32MAX)
            t, i = var('t1', 'I', 0, 1), i32var('i1')
            x = Ten('x', dt, ds, (t, i))
            inst('duplicate[%s,r%d]' % (dt, r), 'aitisa_duplicate', 'duplicate', [x, Slot()],
                 [Out(TRUE, SUCCESS, TD(dt, ds, lambda c, l, x=x: x.el(l), dev=(t, i)))], facts=[ds], es=DT[dt][0], quick=quick_dt(dt, r), cost=1 + r,
                 symbolic=True if r <= 4 else LATE)


def build_dropout():
    for dt in DTS:
        for r in ranks(dt == 'float') if dt == 'float' else (0, 1, 2, 3):
            ds = dimvars('d', r, hi=I32MAX)
            t, i = var('t1', 'I', 0, 1), i32var('i1')
            x = Ten('x', dt, ds, (t, i))
            rate = var('el:rate', 'D')
            ok = and_(fcmp('le', fconst(0.0, 'D'), rate), fcmp('le', rate, fconst(1.0, 'D')))
            line = wrapS(32, ftoi(fop('fmul', rate, fconst(100.0, 'D'))))

            def f(c, l, x=x, dt=dt, line=line):
                rnd = app('el:rand', (var('seed', 'I', 0, (1 << 32) - 1), l), 'I', 0, I32MAX)
                return ite(le(add(trem(rnd, I(100)), ONE), line), zero_of(dt), x.el(l))
            inst('dropout[%s,r%d]' % (dt, r), 'aitisa_dropout', 'dropout', [x, Dbl(rate), Slot()],
                 [Out(not_(ok), INVALID), Out(TRUE, SUCCESS, TD(dt, ds, f, dev=(t, i)))], facts=[ds], es=DT[dt][0], quick=quick_dt(dt, r),
                 sampler='rate', cost=1 + r, symbolic=True if r <= 3 else LATE)


# =================================================================== softmax
def build_softmax():
    for dt in FLT_DTS:
        for r in (1, 2, 3, 4, 5):
            for ax in range(-2, r + 1):
                ds = dimvars('d', r)
                t, i = var('t1', 'I', 0, 1), i32var('i1')
                x = Ten('x', dt, ds, (t, i), style='exp')

                def ex(e, dt=dt):
                    return from_double(dt, fcall('exp', as_double(dt, e)))
                if ax < -1 or ax > r - 1:
                    outs = [Out(TRUE, NOT_SUPPORTED)]
                elif ax == -1:
                    def f(c, l, x=x, dt=dt, ex=ex):
                        q, acc = fresh('q'), fresh('acc', 'D')
                        tot = fold(x.size, fconst(0.0, 'D'), q, acc, fop('fadd', acc, as_double(dt, ex(x.el(q)))))
                        return from_double(dt, fop('fdiv', as_double(dt, ex(x.el(l))), tot))
                    outs = [Out(TRUE, SUCCESS, TD(dt, ds, f, dev=(t, i)))]
                else:
                    def f(c, l, x=x, dt=dt, ex=ex, ax=ax):
                        q, acc = fresh('q'), fresh('acc', 'D')
                        tot = fold(x.dims[ax], fconst(0.0, 'D'), q, acc, fop('fadd', acc, as_double(dt, ex(x.at(c[:ax] + [q] + c[ax + 1:])))))
                        return from_double(dt, fop('fdiv', as_double(dt, ex(x.at(c))), tot))
                    outs = [Out(TRUE, SUCCESS, TD(dt, ds, f, mode='coords', dev=(t, i)))]
                inst('softmax[%s,r%d,axis%d]' % (dt, r, ax), 'aitisa_softmax', 'softmax', [x, Int(I(ax), 32), Slot()], outs, facts=[ds],
                     es=DT[dt][0], quick=r <= 3 or dt == 'float', tol=64, cost=[1, 1, 4, 20, 80, 200][r] if 0 <= ax < r else 1,
                     symbolic=True if r <= 2 or (r == 3 and dt == 'float') or not 0 <= ax < r else LATE)
            ax = i32var('axis')
            ds = dimvars('d', r)
            x = Ten('x', dt, ds, style='exp')
            inst('softmax-axis[%s,r%d]' % (dt, r), 'aitisa_softmax', 'softmax', [x, Int(ax, 32), Slot()],
                 [Out(TRUE, NOT_SUPPORTED)], pre=[or_(lt(ax, I(-1)), lt(I(r - 1), ax))], facts=[ds], es=DT[dt][0], sampler='axisbad:%d' % r)


# =================================================================== broadcast, matmul, dot
def bc_fail(a, b):
    k = min(len(a), len(b))
    return or_(*[and_(ne(x, ONE), ne(y, ONE), ne(x, y)) for x, y in zip(a[len(a) - k:], b[len(b) - k:])])


def bc_dims(a, b):
    n = max(len(a), len(b))
    a = [None] * (n - len(a)) + list(a)
    b = [None] * (n - len(b)) + list(b)
    return [y if x is None else x if y is None else ite(eq(x, ONE), y, x) for x, y in zip(a, b)]


def build_broadcast():
    for n, m in itertools.product(range(0, 7), repeat=2):
        a, b = dimvars('d', n), dimvars('e', m)
        k = max(n, m)
        # extents of a partially written result are unspecified on failure
        inst('broadcast[%d,%d]' % (n, m), 'aitisa_broadcast_array', 'broadcast',
             [Arr('d', a, 8), Int(I(n)), Arr('e', b, 8), Int(I(m)), Buf('o', 8 * k), Int(I(k))],
             [Out(bc_fail(a, b), DIMS_MISMATCH), Out(TRUE, SUCCESS, bufs={'o': [(8 * i, 8, d) for i, d in enumerate(bc_dims(a, b))]})],
             quick=True, sampler='bcast:d,e')


def mm_sum(dt, K, f):
    q, acc = fresh('q'), fresh('acc', DT[dt][1], *((-(1 << (bits(dt) - 1)), (1 << (bits(dt) - 1)) - 1) if isint(dt) else ()))
    a, b = f(q)
    if isint(dt):
        body = wrapS(bits(dt), add(num(dt, acc), mul(num(dt, a), num(dt, b))))
    else:
        body = fop('fadd', acc, fop('fmul', a, b))
    return fold(K, zero_of(dt), q, acc, body)


def mm_outs(x, y, dot=False):
    """aitisa_matmul"""
    n, m = len(x.dims), len(y.dims)
    a, b, dt = x.dims, y.dims, x.dt
    outs = []
    if x.dev[0] is not ZERO or y.dev[0] is not ZERO:
        outs.append(Out(or_(ne(x.dev[0], ZERO), ne(y.dev[0], ZERO)), NOT_SUPPORTED))
    if x.dt != y.dt:
        return outs + [Out(TRUE, NOT_SUPPORTED if dot else TYPE_MISMATCH)]
    if n == 0 or m == 0:
        return outs + [Out(TRUE, INVALID)]
    K = a[-1]
    outs.append(Out(ne(K, b[-2] if m >= 2 else b[0]), DIMS_MISMATCH))
    ba_, bb_ = a[:-2] if n >= 2 else [], b[:-2] if m >= 2 else []
    if n >= 2 and m >= 2 and bc_fail(ba_, bb_) is not FALSE:
        outs.append(Out(bc_fail(ba_, bb_), DIMS_MISMATCH))
    bd = bc_dims(ba_, bb_)
    rows = [a[-2]] if n >= 2 else []
    cols = [b[-1]] if m >= 2 else []
    if (n, m) == (1, 1):
        rows = [ONE]
    nd = bd + rows + cols

    def f(c, l):
        k = len(bd)
        bc = c[:k]

        def pick(dims, rank):
            off = k - len(dims)
            return [ite(eq(d, ONE), ZERO, bc[off + i]) if rank >= 2 and len(ba_) and len(bb_) and k else bc[off + i] for i, d in enumerate(dims)]
        ca, cb = pick(ba_, n), pick(bb_, m)
        rest = c[k:]

        def el(q):
            if (n, m) == (1, 1):
                return x.at([q]), y.at([q])
            i = rest[0] if n >= 2 else None
            j = rest[-1] if m >= 2 else None
            return x.at(ca + ([i] if n >= 2 else []) + [q]), y.at(cb + [q] + ([j] if m >= 2 else []))
        return mm_sum(dt, K, el)
    outs.append(Out(TRUE, SUCCESS, TD(dt, nd, f, mode='coords', dev=x.dev)))
    return outs


def build_matmul():
    for dt in DTS:
        for n, m in list(itertools.product(range(0, 5), repeat=2)) + ([(5, 1), (1, 5), (5, 2), (2, 5), (5, 3), (3, 5), (5, 4), (4, 5), (5, 5), (6, 3), (3, 6)] if dt == 'float' else []):
            a, b = dimvars('d', n), dimvars('e', m)
            t1, t2, i1, i2 = var('t1', 'I', 0, 1), var('t2', 'I', 0, 1), i32var('i1'), i32var('i2')
            x, y = Ten('x', dt, a, (t1, i1), style='acc'), Ten('y', dt, b, (t2, i2), style='acc')
            outs = mm_outs(x, y)
            nd = outs[-1].res.dims if outs[-1].res else []
            big = n >= 3 or m >= 3
            q = (dt == 'float' and not big) or (n, m) in ((1, 1),) or (dt == 'int32' and (n, m) == (2, 2)) or n == 0 or m == 0
            q = q or (dt == 'float' and (n, m) in ((3, 1), (1, 3), (3, 3)))
            if dt != 'float' and (n == 0 or m == 0) and (n, m) != (0, 1):
                continue
            inst('matmul[%s,r%d,r%d]' % (dt, n, m), 'aitisa_matmul', 'matmul', [x, y, Slot()], outs, facts=[a, b, nd],
                 es=8, quick=q or dt == 'float', symbolic=True if q else LATE, sampler='matmul:d,e', cost=1 + 8 * (n > 1 and m > 1) + (50 if big else 0))
        for d2 in DTS:
            if d2 != dt:
                a, b = dimvars('d', 2), dimvars('e', 2)
                x, y = Ten('x', dt, a), Ten('y', d2, b)
                inst('matmul-type[%s,%s]' % (dt, d2), 'aitisa_matmul', 'matmul', [x, y, Slot()], mm_outs(x, y), facts=[a, b],
                     quick=dt in ('float', 'int8'))


def dot_outs(x, y):
    n, m = len(x.dims), len(y.dims)
    a, b, dt = x.dims, y.dims, x.dt
    if (n, m) == (2, 2):
        o = mm_outs(x, y, dot=True)
        return o
    outs = []
    if x.dev[0] is not ZERO or y.dev[0] is not ZERO:
        outs.append(Out(or_(ne(x.dev[0], ZERO), ne(y.dev[0], ZERO)), NOT_SUPPORTED))
    if x.dt != y.dt:
        return outs + [Out(TRUE, NOT_SUPPORTED)]
    if (n, m) == (1, 1):
        outs.append(Out(ne(a[0], b[0]), DIMS_MISMATCH))
        outs.append(Out(TRUE, SUCCESS, TD(dt, [ONE], lambda c, l: mm_sum(dt, a[0], lambda q: (x.at([q]), y.at([q]))), dev=x.dev)))
    elif n == 0 or m == 0:
        big = x if n > m else y
        sc = y if n > m else x
        # the device of the result is the device type CPU; its id comes from the first factor
        outs.append(Out(TRUE, SUCCESS, TD(dt, big.dims, lambda c, l: arith(dt, 'mul', sc.el(ZERO), big.el(l)), dev=x.dev)))
    elif m == 1:
        outs.append(Out(ne(a[-1], b[0]), INVALID))
        outs.append(Out(TRUE, SUCCESS, TD(dt, a[:-1], lambda c, l: mm_sum(dt, a[-1], lambda q: (x.at(c + [q]), y.at([q]))),
                                         mode='coords', dev=x.dev)))
    elif n > 2 and m > 2:
        outs.append(Out(ne(a[-1], b[-2]), INVALID))

        def f(c, l):
            ca, cb = c[:n - 1], c[n - 1:]
            return mm_sum(dt, a[-1], lambda q: (x.at(ca + [q]), y.at(cb[:-1] + [q] + cb[-1:])))
        outs.append(Out(TRUE, SUCCESS, TD(dt, a[:-1] + b[:-2] + b[-1:], f, mode='coords', dev=x.dev)))
    else:
        outs.append(Out(TRUE, INVALID))
    return outs


def build_dot():
    for dt in DTS:
        for n, m in list(itertools.product(range(0, 4), repeat=2)) + ([(4, 0), (0, 4), (5, 0), (4, 1), (5, 1), (4, 2), (2, 4), (4, 3), (3, 4), (4, 4), (5, 3), (1, 4)] if dt in ('float', 'int32') else []):
            a, b = dimvars('d', n, hi=I32MAX), dimvars('e', m, hi=I32MAX)
            t1, t2, i1, i2 = var('t1', 'I', 0, 1), var('t2', 'I', 0, 1), i32var('i1'), i32var('i2')
            x, y = Ten('x', dt, a, (t1, i1), style='acc'), Ten('y', dt, b, (t2, i2), style='acc')
            outs = dot_outs(x, y)
            nd = outs[-1].res.dims if outs[-1].res else []
            q = dt == 'float' or (n, m) in ((1, 1), (0, 2)) or (dt == 'int16' and (n, m) == (2, 1))
            inst('dot[%s,r%d,r%d]' % (dt, n, m), 'aitisa_dot', 'dot', [x, y, Slot()], outs, facts=[a, b, nd], es=8, quick=q,
                 sampler='matmul:d,e', cost=1 + 10 * (n > 1) + 60 * (n > 2 and m > 2), symbolic=True if n < 4 and m < 4 and n + m < 6 else LATE)
        for d2 in DTS:
            if d2 != dt:
                a, b = dimvars('d', 1), dimvars('e', 1)
                x, y = Ten('x', dt, a), Ten('y', d2, b)
                inst('dot-type[%s,%s]' % (dt, d2), 'aitisa_dot', 'dot', [x, y, Slot()], dot_outs(x, y), facts=[a, b], quick=dt in ('float', 'int8'))


# =================================================================== convolution
def build_conv():
    for sd in (2, 3):
        r = sd + 2
        fn = 'aitisa_conv%dd' % sd
        for dt in DTS:
            for fdt in (['float', 'double', 'int32'] if dt == 'float' else [dt]):
                for fr in (r - 1, r, r + 1):
                    if dt != 'float' and fr != r:
                        continue
                    hi = (1 << 20)
                    ds, fs = dimvars('d', r, hi=hi), dimvars('f', fr, hi=hi)
                    t, i = var('t1', 'I', 0, 1), i32var('i1')
                    x, w = Ten('x', dt, ds, (t, i), style='acc'), Ten('w', fdt, fs, style='acc')
                    st = [i32var('stride%d' % k, 1, hi) for k in range(sd)]
                    pd = [i32var('pad%d' % k, 0, hi) for k in range(sd)]
                    dl = [i32var('dil%d' % k, 1, hi) for k in range(sd)]
                    outs = []
                    nd = []
                    if dt != 'float':
                        outs = [Out(TRUE, NOT_SUPPORTED)]
                    elif fdt != 'float':
                        outs = [Out(TRUE, TYPE_MISMATCH)]
                    elif fr != r:
                        outs = [Out(TRUE, DIMS_MISMATCH)]
                    else:
                        outs.append(Out(ne(ds[1], fs[1]), DIMS_MISMATCH))
                        win = [add(mul(dl[k], sub(fs[2 + k], ONE)), ONE) for k in range(sd)]
                        ext = [add(ds[2 + k], mul(TWO, pd[k])) for k in range(sd)]
                        outs.append(Out(or_(*[lt(e, v) for e, v in zip(ext, win)]), INVALID))
                        od = [add(tm.div(sub(ext[k], win[k]), st[k]), ONE) for k in range(sd)]
                        nd = [ds[0], fs[0]] + od

                        def f(c, l, x=x, w=w, ds=ds, fs=fs, st=st, pd=pd, dl=dl, sd=sd):
                            b, oc = c[0], c[1]
                            ic, a1 = fresh('q'), fresh('acc', 'F')
                            k, a2 = fresh('q'), fresh('acc', 'F')
                            # kernel coordinates of the flat index k
                            kc = []
                            for j in range(sd):
                                kc.append(tm.mod(tm.div(k, prod(fs[3 + j:])), fs[2 + j]))
                            pos = [add(sub(mul(c[2 + j], st[j]), pd[j]), mul(dl[j], kc[j])) for j in range(sd)]
                            inside = and_(*[and_(le(ZERO, p), lt(p, ds[2 + j])) for j, p in enumerate(pos)])
                            term = fop('fmul', x.at([b, ic] + pos), w.at([oc, ic] + kc))
                            inner = fold(prod(fs[2:]), a1, k, a2, ite(inside, fop('fadd', a2, term), a2))
                            return fold(ds[1], fconst(0.0, 'F'), ic, a1, inner)
                        outs.append(Out(TRUE, SUCCESS, TD(dt, nd, f, mode='coords', dev=(t, i))))
                    A = lambda nm, v: Arr(nm, v, 4)
                    inst('conv%dd[%s/%s,r%d]' % (sd, dt, fdt, fr), fn, 'conv',
                         [x, w, A('stride', st), Int(I(sd), 32), A('pad', pd), Int(I(sd), 32), A('dil', dl), Int(I(sd), 32), Int(ONE, 32), Slot()],
                         outs, facts=[ds, fs, nd], es=8, quick=True, sampler='conv:%d' % sd, cost=200 if nd else 1, also=())
        # wrong input rank
        for rr in (1, 2, 3, 4, 5, 6):
            if rr == r:
                continue
            ds, fs = dimvars('d', rr), dimvars('f', r)
            x, w = Ten('x', 'float', ds), Ten('w', 'float', fs)
            A = lambda nm: Arr(nm, [ONE] * sd, 4)
            inst('conv%dd-rank[%d]' % (sd, rr), fn, 'conv', [x, w, A('s'), Int(I(sd), 32), Arr('p', [ZERO] * sd, 4), Int(I(sd), 32), A('l'), Int(I(sd), 32), Int(ONE, 32), Slot()],
                 [Out(TRUE, DIMS_MISMATCH)], facts=[ds, fs])


# =================================================================== pooling
def build_pooling():
    for mode in (b'avg', b'max'):
        for dt in DTS:
            for sd in (1, 2, 3):
                r = sd + 2
                hi = 1 << 20
                ds = dimvars('d', r, hi=hi)
                t, i = var('t1', 'I', 0, 1), i32var('i1')
                x = Ten('x', dt, ds, (t, i), style='pool')
                ks = [i32var('k%d' % k, 1, hi) for k in range(sd)]
                st = [i32var('stride%d' % k, 1, hi) for k in range(sd)]
                pd = [i32var('pad%d' % k, 0, hi) for k in range(sd)]
                dl = [i32var('dil%d' % k, 1, hi) for k in range(sd)]
                win = [add(mul(dl[k], sub(ks[k], ONE)), ONE) for k in range(sd)]
                ext = [add(ds[2 + k], mul(TWO, pd[k])) for k in range(sd)]
                outs = [Out(or_(*[lt(e, v) for e, v in zip(ext, win)]), INVALID)]
                nd = ds[:2] + [add(tm.div(sub(ext[k], win[k]), st[k]), ONE) for k in range(sd)]

                def f(c, l, x=x, dt=dt, ds=ds, ks=ks, st=st, pd=pd, dl=dl, sd=sd, mode=mode):
                    qs = [fresh('q') for _ in range(sd)]
                    ac = [fresh('acc', 'D') for _ in range(sd)]
                    pos = [add(sub(mul(c[2 + j], st[j]), pd[j]), mul(dl[j], qs[j])) for j in range(sd)]
                    inside = and_(*[and_(le(ZERO, p), lt(p, ds[2 + j])) for j, p in enumerate(pos)])
                    e = as_double(dt, x.at(c[:2] + pos))
                    a = ac[-1]
                    z = fconst(0.0, 'D')
                    if mode == b'avg':
                        b = ite(inside, fop('fadd', a, e), a)
                    else:
                        b = ite(inside, ite(fcmp('lt', a, e), e, a), ite(fcmp('lt', a, z), z, a))
                    for j in reversed(range(sd)):
                        init = ac[j - 1] if j else (z if mode == b'avg' else fconst(float('-inf'), 'D'))
                        b = fold(ks[j], init, qs[j], ac[j], b)
                    if mode == b'avg':
                        b = fop('fdiv', b, itof(prod(ks), 'D'))
                    return from_double(dt, b)
                outs.append(Out(TRUE, SUCCESS, TD(dt, nd, f, mode='coords', dev=(t, i))))
                A = lambda nm, v: Arr(nm, v, 4)
                inst('pooling[%s,%s,r%d]' % (mode.decode(), dt, r), 'aitisa_pooling', 'pooling',
                     [x, Str(mode), A('ksize', ks), A('stride', st), A('pad', pd), A('dil', dl), Slot()], outs, facts=[ds, nd], es=8,
                     pre=[le(prod(ks), I(1 << 40))] if sd > 1 else [], quick=True, symbolic=True if sd == 1 else LATE, sampler='pool:%d' % sd,
                     cost=30 * sd * sd)
    for rr in (0, 1, 2, 6):
        ds = dimvars('d', rr)
        x = Ten('x', 'float', ds)
        A = lambda nm: Arr(nm, [ONE] * 4, 4)
        for mode in (b'avg', b'max'):
            inst('pooling-rank[%s,%d]' % (mode.decode(), rr), 'aitisa_pooling', 'pooling', [x, Str(mode), A('k'), A('s'), A('p'), A('l'), Slot()],
                 [Out(TRUE, DIMS_MISMATCH)], facts=[ds])
    for mode in (b'', b'min', b'avgx', b'a', b'MAX', b'maximum'):
        for rr in (2, 3, 4):
            ds = dimvars('d', rr)
            x = Ten('x', 'float', ds)
            A = lambda nm: Arr(nm, [ONE] * 4, 4)
            inst('pooling-mode[%s,r%d]' % (mode.decode(), rr), 'aitisa_pooling', 'pooling', [x, Str(mode), A('k'), A('s'), A('p'), A('l'), Slot()],
                 [Out(TRUE, INVALID)], facts=[ds])


# =================================================================== batch normalisation
def build_bn():
    def bn(name, dt, r, ax, dts=None, ranks=None, quick=True, cost=1, axt=None, valid=True, bounded=None, dims=None):
        dts = dts or [dt] * 4
        ranks = ranks or [1] * 4
        ds = dims or dimvars('d', r, hi=I32MAX)
        x = Ten('x', dt, ds, style='dy')
        ps = [Ten(nm, t, dimvars(nm, k), style='var' if nm == 'vr' else 'dy') for nm, t, k in zip(('sc', 'bi', 'me', 'vr'), dts, ranks)]
        sc, bi, me, vr = ps
        eps = var('el:eps', 'D')
        outs = []
        if r < 2 or r > 5:
            outs = [Out(TRUE, DIMS_MISMATCH)]
        elif axt is not None:
            outs = [Out(TRUE, INVALID)]
        elif dts[0] != dt or dts[1] != dt:
            outs = [Out(TRUE, TYPE_MISMATCH)]
        else:
            ch = ds[ax]
            outs.append(Out(or_(ne(sc.size, ch), ne(bi.size, ch)), DIMS_MISMATCH))
            if ranks[0] != 1 or ranks[1] != 1:
                outs.append(Out(TRUE, DIMS_MISMATCH))
            elif dts[2] != dt or dts[3] != dt:
                outs.append(Out(TRUE, TYPE_MISMATCH))
            else:
                outs.append(Out(or_(ne(me.size, ch), ne(vr.size, ch)), DIMS_MISMATCH))
                if ranks[2] != 1 or ranks[3] != 1:
                    outs.append(Out(TRUE, DIMS_MISMATCH))
                else:
                    outs.append(Out(fcmp('lt', eps, fconst(0.0, 'D')), INVALID))
                    e = from_double(dt, eps)

                    def f(c, l):
                        k = c[ax]
                        den = from_double(dt, fcall('sqrt', as_double(dt, arith(dt, 'add', vr.el(k), e))))
                        z = arith(dt, 'div', arith(dt, 'sub', x.at(c), me.el(k)), den)
                        return arith(dt, 'add', arith(dt, 'mul', sc.el(k), z), bi.el(k))
                    qv = fresh('q')
                    neg_ = fcmp('lt', arith(dt, 'add', vr.el(qv), e), zero_of(dt))
                    if ZERO not in ds:
                        outs.append(Out(exists(ch, qv, neg_), MATH_ERROR, TD(dt, ds, None), any_content=True))
                    outs.append(Out(TRUE, SUCCESS, TD(dt, ds, f, mode='coords')))
        inst(name, 'aitisa_batch_norm', 'batch_norm', [x, Int(axt if axt is not None else I(ax), 32), sc, bi, me, vr, Dbl(eps), Slot()], outs,
             facts=[[d for d in ds if not is_c(d)]] + [p.dims for p in ps], es=8, quick=quick, sampler='bn:%d' % (ax if ax is not None else 0), cost=cost,
             bounded=bounded, pre=([and_(ne(axt, ONE), ne(axt, I(r - 1)))] if axt is not None else []), tol=0)
    for dt in FLT_DTS:
        bn('batch_norm[%s,r2]' % dt, dt, 2, 1, cost=20)
        for r in (3, 4, 5):
            for ax in (1, r - 1):
                bn('batch_norm[%s,r%d,axis%d]' % (dt, r, ax), dt, r, ax, quick=True, cost=60)
        for r in (0, 1, 6):
            bn('batch_norm-rank[%s,%d]' % (dt, r), dt, r, 1)
        for r in (2, 3, 4, 5):
            bn('batch_norm-axis[%s,r%d]' % (dt, r), dt, r, None, axt=i32var('axis'))
        o = 'double' if dt == 'float' else 'float'
        for k in range(4):
            bn('batch_norm-type[%s,%d]' % (dt, k), dt, 3, 1, dts=[dt] * k + [o] + [dt] * (3 - k))
            for kr in (0, 2):
                bn('batch_norm-prank[%s,%d,%d]' % (dt, k, kr), dt, 3, 1, ranks=[1] * k + [kr] + [1] * (3 - k), quick=dt == 'float')


# =================================================================== index helpers
def build_index():
    for r in RANKS + XRANKS:
        ds = dimvars('d', r)
        x = Ten('x', 'float', ds)
        stv = strides(ds)
        for k in range(r):
            inst('get_stride[r%d,%d]' % (r, k), 'aitisa_get_stride', 'index', [x, Int(I(k))], [Out(TRUE, stv[k])], facts=[ds], ret='i64')
        inst('get_all_strides[r%d]' % r, 'aitisa_get_all_strides', 'index', [x, Buf('o', 8 * r)],
             [Out(TRUE, None, bufs={'o': [(8 * i, 8, s) for i, s in enumerate(stv)]})], facts=[ds], ret='void')
        cs = [var('c%d' % i, 'I', 0, I64MAX) for i in range(r)]
        pre = [lt(c, d) for c, d in zip(cs, ds)]
        for fn in ('aitisa_coords_to_linidx', 'aitisa_coords_to_offset'):
            inst('%s[r%d]' % (fn[7:], r), fn, 'index', [x, Arr('c', cs, 8), Int(I(r))], [Out(TRUE, rowmajor(cs, ds))], facts=[ds], pre=pre,
                 ret='i64', sampler='coords:d,c')
        if EMPTY:
            continue
        ix = var('ix', 'I', 0, I64MAX)
        for fn in ('aitisa_linidx_to_coords', 'aitisa_offset_to_coords'):
            inst('%s[r%d]' % (fn[7:], r), fn, 'index', [x, Int(ix), Buf('o', 8 * r)],
                 [Out(TRUE, None, bufs={'o': [(8 * i, 8, tm.mod(tm.div(ix, s), d)) for i, (s, d) in enumerate(zip(stv, ds))]})],
                 facts=[ds], pre=[lt(ix, prod(ds))], ret='void', sampler='linidx:d')


# =================================================================== typed element access
def build_types():
    for dt in DTS:
        es = DT[dt][0]
        n = var('n', 'I', 1, I64MAX)
        ix = var('ix', 'I', 0, I64MAX)
        x = Ten('x', dt, [n])
        inst('typed_get[%s]' % dt, 'cl_get', 'types', [x, Buf('o', es)], [Out(TRUE, SUCCESS, bufs={'o': [(0, es, x.el(ZERO))]})], facts=[[n]], es=es)
        inst('typed_get_array[%s]' % dt, 'cl_geta', 'types', [x, Int(ix), Buf('o', es)], [Out(TRUE, SUCCESS, bufs={'o': [(0, es, x.el(ix))]})],
             facts=[[n]], es=es, pre=[lt(ix, n)], sampler='elem')
        x = Ten('x', dt, [n], ro=False)
        v = Ten('v', dt, [])
        at = lambda l, i, x=x, v=v: ite(eq(l, i), v.el(ZERO), x.el(l))
        inst('typed_set[%s]' % dt, 'cl_set', 'types', [x, v], [Out(TRUE, SUCCESS, muts={'x': lambda l, at=at: at(l, ZERO)})], facts=[[n]], es=es)
        for nm, fn in (('typed_set_array', 'cl_seta'), ('set_item', 'cl_item')):
            inst('%s[%s]' % (nm, dt), fn, 'types', [x, Int(ix), v], [Out(TRUE, SUCCESS, muts={'x': lambda l, at=at: at(l, ix)})], facts=[[n]], es=es,
                 pre=[lt(ix, n)], sampler='elem')
        d = var('el:value', 'D')
        inst('typed_castto[%s]' % dt, 'cl_cast', 'types', [x, Dbl(d)],
             [Out(TRUE, SUCCESS, muts={'x': lambda l, x=x, dt=dt: ite(eq(l, ZERO), from_double(dt, d), x.el(l))})], facts=[[n]], es=es, sampler='value:' + dt)


# =================================================================== life cycle, description of tensors, client lemmas
def build_life():
    for dt in DTS:
        es = DT[dt][0]
        for r in RANKS + XRANKS:
            ds = dimvars('d', r)
            t, i = var('t1', 'I', 0, 1), i32var('i1')
            q = r == 2 or dt in ('float', 'int8')
            arr = Arr('dims', ds, 8) if r else Null()
            inst('create_destroy[%s,r%d]' % (dt, r), 'cl_create_destroy', 'destroy', [DTy(dt), Dev(t, i), arr, Int(I(r)), Buf('o', 16)],
                 [Out(TRUE, SUCCESS, bufs={'o': [(0, 8, ONE), (8, 8, ZERO)]})], facts=[ds], es=es, quick=q)
            inst('destroy[%s,r%d]' % (dt, r), 'cl_destroy', 'destroy', [OwnedTen('x', dt, ds), Buf('o', 24)],
                 [Out(TRUE, SUCCESS, bufs={'o': [(0, 8, ONE), (8, 8, ZERO), (16, 8, ONE)]}, consumed=['x'])], facts=[ds], es=es, quick=q)
            x = Ten('x', dt, ds, (t, i))
            sz = prod(ds)
            ln = wrapU(32, mul(I(es), wrapU(32, sz)))
            inst('resolve[%s,r%d]' % (dt, r), 'cl_resolve', 'resolve', [x, Buf('o', 64)],
                 [Out(TRUE, SUCCESS, bufs={'o': [(8 * k, 8, v) for k, v in enumerate([I(CODE[dt]), I(es), t, i, I(r), mul(I(es), sz), ONE, ONE])]})],
                 facts=[ds], es=es, pre=[le(mul(I(es), sz), I((1 << 32) - 1))], quick=q)
            inst('fields[%s,r%d]' % (dt, r), 'cl_fields', 'resolve', [x, Buf('o', 64 + 8 * r)],
                 [Out(TRUE, SUCCESS, bufs={'o': [(8 * k, 8, v) for k, v in enumerate([I(r), sz, I(CODE[dt]), I(es), t, i, ZERO, I(r)] + ds)]})],
                 facts=[ds], es=es, quick=q)
        for r in (0, 1, 2, 3):
            ds = dimvars('d', r, hi=I32MAX)
            x = OwnedTen('x', dt, ds)
            inst('duplicate-outlives[%s,r%d]' % (dt, r), 'cl_dup_outlives', 'duplicate', [x, Slot()],
                 [Out(TRUE, SUCCESS, TD(dt, ds, lambda c, l, x=x: x.el(l)), consumed=['x'])], facts=[ds], es=es,
                 quick=r <= 2 and dt in ('float', 'uint8', 'int64'), cost=1 + r)
        for r, n in ((0, 0), (1, 1), (2, 1), (2, 2), (1, 2), (2, 3), (3, 2)):
            ds, ns = dimvars('d', r), dimvars('n', n)
            t, i = var('t1', 'I', 0, 1), i32var('i1')
            x = Ten('x', dt, ds, (t, i))
            inst('reshape-back[%s,r%d->r%d]' % (dt, r, n), 'cl_reshape_back', 'reshape', [x, Arr('nd', ns, 8) if n else Null(), Int(I(n)), Slot()],
                 [Out(ne(prod(ds), prod(ns)), DIMS_MISMATCH), Out(TRUE, SUCCESS, TD(dt, ds, lambda c, l, x=x: x.el(l), dev=(t, i)))],
                 facts=[ds, ns], es=es, quick=dt == 'float', sampler='reshape:d,n')
    for r in (1, 2, 3, 4, 5, 6) if not EMPTY else ():
        ds = dimvars('d', r)
        x = Ten('x', 'float', ds)
        cs = [var('c%d' % i, 'I', 0, I64MAX) for i in range(r)]
        ix = var('ix', 'I', 0, I64MAX)
        inst('roundtrip-linidx[r%d]' % r, 'cl_roundtrip_lin', 'index', [x, Int(ix), Buf('o', 8 * r)], [Out(TRUE, ix)],
             facts=[ds], pre=[lt(ix, prod(ds))], ret='i64', sampler='linidx:d')
        inst('roundtrip-coords[r%d]' % r, 'cl_roundtrip_coords', 'index', [x, Arr('c', cs, 8), Buf('o', 8 * r)],
             [Out(TRUE, SUCCESS, bufs={'o': [(8 * i, 8, c) for i, c in enumerate(cs)]})], facts=[ds], pre=[lt(c, d) for c, d in zip(cs, ds)],
             sampler='coords:d,c')


def build_empty():
    """the same contracts for tensors without elements: every choice of extents that are 0 (extents are at least 1 everywhere else)"""
    global EMPTY, DTS, FLT_DTS, RANKS, XRANKS
    keep = DTS, FLT_DTS, RANKS, XRANKS
    sub = lambda names: [c for k in range(1, len(names) + 1) for c in itertools.combinations(names, k)]
    N = lambda p, n: ['%s%d' % (p, i) for i in range(n)]
    d3 = sub(N('d', 3))
    plans = [(build_create, d3), (build_cast, d3), (build_reshape, sub(N('d', 3) + N('n', 3))), (build_squeeze, d3 + [('d3',), ('d1', 'd3')]),
             (build_slice, d3 + [('d3',)]), (build_dropout, d3), (build_unary, d3), (build_binary, sub(N('d', 3) + N('e', 3))), (build_softmax, d3 + [('d3',)]),
             (build_broadcast, sub(N('d', 3) + N('e', 3))), (build_matmul, sub(N('d', 3) + N('e', 3)) + [('d3',), ('e3',)]),
             (build_dot, sub(N('d', 3) + N('e', 3))), (build_conv, sub(N('d', 4) + ['f0', 'f1']) + [('d4',)]), (build_pooling, sub(N('d', 4)) + [('d4',)]),
             (build_bn, sub(N('d', 4)) + [('d1', 'sc0', 'bi0', 'me0', 'vr0')]), (build_index, d3), (build_life, d3)]
    try:
        FLT_DTS, RANKS, XRANKS = ('float',), (0, 1, 2, 3), ()
        for f, sets in plans:
            DTS = ('float', 'int32') if f is build_cast else ('float',)
            for z in sets:
                EMPTY = frozenset(z)
                n = len(INSTS)
                f()
                for i in INSTS[n:]:
                    # at most one empty axis per operand in the quick tier
                    per = {}
                    for v in z:
                        per[v[0]] = per.get(v[0], 0) + 1
                    i.quick = i.quick and (max(per.values()) == 1 and (len(z) == 1 or f not in (build_conv, build_pooling)) or len(z) > 4) and not i.name.startswith(('sub', 'mul'))
                top = 5 if f in (build_conv, build_pooling, build_bn) else 4 if any('3' in v for v in z) else 3
                INSTS[n:] = [i for i in INSTS[n:] if all(len(a.dims) <= top for a in i.args if isinstance(a, (Ten, OwnedTen))) and
                             all(len(a.vals) <= top for a in i.args if isinstance(a, Arr)) and
                             not (i.prop == 'index' and not i.name.startswith('get_')) and not i.name.startswith('cast[int32') and
                             not (i.prop == 'binary_checks' and not i.name.startswith('add-check[float/float')) and
                             not (i.prop == 'conv' and '[float/float,r%d' % (4 if '2d' in i.name else 5) not in i.name) and
                             not (i.prop in ('batch_norm', 'pooling') and not i.name.startswith(i.prop + '['))]
    finally:
        DTS, FLT_DTS, RANKS, XRANKS = keep
        EMPTY = frozenset()


def build():
    if INSTS:
        return INSTS
    build_create()
    build_cast()
    build_reshape()
    build_squeeze()
    build_slice()
    build_dropout()
    build_unary()
    build_binary()
    build_softmax()
    build_broadcast()
    build_matmul()
    build_dot()
    build_conv()
    build_pooling()
    build_bn()
    build_index()
    build_types()
    build_life()
    build_empty()
    names = [i.name for i in INSTS]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:5]
    return INSTS
