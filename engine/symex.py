"""Symbolic executor over the LLVM IR of the real sources."""
import sys, time
from terms import *
import terms as tm
from prover import Ctx, prove_eq, STATS
from mem import *
import ir
sys.setrecursionlimit(20000)

I64MAX = (1 << 63) - 1

ELEM_PREFIX = 'el:'
_taint = {}


def tainted(t):
    """does the value depend on tensor element data?"""
    r = _taint.get(t.id)
    if r is None:
        if t.op == 'app':
            r = t.args[0].startswith(ELEM_PREFIX)
        elif t.op == 'var':
            r = t.args[0].startswith(ELEM_PREFIX)
        elif t.op in ('ftoi', 'call', 'itof') :
            r = any(tainted(c) for c in children(t)) if t.op != 'call' else True
        elif t.op in ('ba',):
            r = False
        else:
            r = any(tainted(c) for c in children(t))
        _taint[t.id] = r
    return r


def compact(v):
    """name a compound integer that contains a division (keeps later polynomials small)"""
    if v.op != 'poly' or len(v.args) < 2 or tainted(v):
        return v
    if not any(a.op in ('div',) for m, c in v.args for a in m):
        return v
    if any('!' in x.args[0] for x in free_vars(v)):
        return v
    return let(v)


class NeedSummary(Exception):
    pass


SEED = var('seed', 'I', 0, (1 << 32) - 1)


class ForkOn(Exception):
    """split the current state on these mutually exclusive, exhaustive conditions"""

    def __init__(self, conds):
        self.conds = conds


class PathEnd(Exception):
    pass


class Budget(Exception):
    pass


class State:
    __slots__ = ('mem', 'ctx', 'own', 'flags', 'path')

    def __init__(self):
        self.mem = {}
        self.ctx = Ctx()
        self.own = set()
        self.flags = {}
        self.path = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.ctx = self.ctx.copy()
        s.own = set()
        self.own = set()
        s.flags = dict(self.flags)
        s.path = self.path
        return s

    def w(self, oid):
        """writable object"""
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        return o


class Failure:
    def __init__(self, kind, where, goal, detail, result, model=None, path=()):
        self.kind = kind
        self.where = where
        self.goal = goal
        self.detail = detail
        self.result = result
        self.model = model
        self.path = path

    def __repr__(self):
        return 'FAIL[%s @%s:%s] %s (%s) %s' % (self.kind, self.where[0], self.where[1], str(self.goal)[:300], self.result,
                                            str(self.detail)[:800])


class Exec:
    MAXUNROLL = 24

    def __init__(self, prog, contracts=None, deadline=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.failures = []
        self.obl = {}            # kind -> [total, discharged]
        self.nobj = 0
        self.quiet = 0           # discovery mode: obligations assumed silently
        self.cur = ('?', 0)
        self.alloc_fail = False  # explore allocation failure
        self.deadline = deadline
        self.used_funcs = set()
        self.used_contracts = {}
        self.globals_ready = {}
        self.reads_uninit = 0
        self.steps = 0
        self.summaries = 0
        self.vocab = []
        self.depth = 0
        self.fn_objs = {}
        self.log = []
        self.checked_overflow = True
        self.loadlog = None      # constant cells read since the last loop probe
        self.guardprobe = None
        self.modcache = {}
        self.havoc = {}          # names of unknown arrays -> summary
        self.lemmas = set()

    # ------------------------------------------------------------ objects
    def new_obj(self, st, kind, name, size, tag=None):
        self.nobj += 1
        o = Obj(self.nobj, kind, name, size, tag)
        st.mem[o.id] = o
        st.own.add(o.id)
        return o

    def global_ptr(self, st, mod, name):
        f = self.prog.resolve(mod, name)
        if f is not None:
            return Ptr(('fn', f), ZERO)
        g = self.prog.resolve_global(mod, name)
        if g is None:
            return Ptr(('ext', name), ZERO)
        gm, gd = g
        key = (gm.path, name)
        oid = self.globals_ready.get(key)
        if oid is None:
            self.nobj += 1
            oid = self.globals_ready[key] = self.nobj
        if oid not in st.mem:
            o = Obj(oid, 'global', name, I(gd['ty'].size))
            o.ro = gd['const']
            st.mem[oid] = o
            st.own.add(oid)
            self.init_global(st, gm, o, 0, gd['ty'], gd['init'])
        return Ptr(oid, ZERO)

    def init_global(self, st, mod, o, off, ty, init):
        k = init[0]
        if k == 'agg':
            if ty.kind == 'array':
                for i, (ety, v) in enumerate(init[1]):
                    self.init_global(st, mod, o, off + i * ety.size, ety, v)
            else:
                for fo, (ety, v) in zip(ty.offs, init[1]):
                    self.init_global(st, mod, o, off + fo, ety, v)
        elif k == 'str':
            for i, b in enumerate(init[1]):
                o.cells[off + i] = (1, wrapS(8, I(b)))
        elif k == 'zero':
            if ty.kind == 'array':
                for i in range(ty.n):
                    self.init_global(st, mod, o, off + i * ty.elem.size, ty.elem, init)
            elif ty.kind == 'struct':
                for fo, f in zip(ty.offs, ty.fields):
                    self.init_global(st, mod, o, off + fo, f, init)
            elif ty.kind == 'ptr':
                o.cells[off] = (8, NULL)
            elif ty.kind in ('float', 'double'):
                o.cells[off] = (ty.size, fconst(0.0, 'F' if ty.kind == 'float' else 'D'))
            else:
                o.cells[off] = (ty.size, ZERO)
        elif k == 'undef':
            pass
        else:
            o.cells[off] = (ty.size, self.const(st, mod, ty, init))

    def const(self, st, mod, ty, v):
        k = v[0]
        if k == 'int':
            if ty.bits == 1:
                return B(v[1] & 1)
            return wrapS(ty.bits, I(v[1]))
        if k == 'fp':
            return fconst(v[1], 'F' if ty.kind == 'float' else 'D')
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.global_ptr(st, mod, v[1][1:])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            if ty.kind == 'ptr':
                return NULL
            if ty.kind in ('float', 'double'):
                return fconst(0.0, 'F' if ty.kind == 'float' else 'D')
            return ZERO
        if k == 'gepc':
            base = self.const(st, mod, ir.PTR, v[2])
            return self.gep(st, v[1], base, [(t, self.const(st, mod, t, x)) for t, x in v[3]])
        raise Unsupported('constant ' + k)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, kind, detail=''):
        """proof obligation at the current location; afterwards the goal is assumed"""
        if self.quiet:
            st.ctx.assume(goal)
            if st.ctx.dead:
                raise PathEnd()
            return True
        c = self.obl.setdefault(kind, [0, 0])
        c[0] += 1
        if goal is TRUE:
            c[1] += 1
            return True
        r = st.ctx.prove(goal)
        if r != 'yes' and st.ctx.prove(FALSE) == 'yes':
            # the path itself is infeasible
            c[0] -= 1
            st.ctx.dead = True
            raise PathEnd()
        if r == 'yes':
            c[1] += 1
            st.ctx.assume(goal)
            return True
        self.fail(st, kind, goal, detail, r)
        if goal is FALSE:
            raise PathEnd()
        st.ctx.assume(goal)
        if st.ctx.dead:
            raise PathEnd()
        return False

    def discharge(self, kind):
        c = self.obl.setdefault(kind, [1, 0])
        c[1] = min(c[0], c[1] + 1)

    def fail(self, st, kind, goal, detail, result):
        """an obligation the solver did not discharge: recorded only after a last attempt with every known fact"""
        if self.quiet:
            return
        key = (kind, self.cur, str(goal)[:200] if isinstance(goal, T) else str(goal)[:200])
        for f in self.failures:
            if (f.kind, f.where, str(f.goal)[:200]) == key:
                return
        r, model = 'unk', None
        if st.ctx.prove(FALSE) == 'yes':
            r = 'yes'
        else:
            g = goal if isinstance(goal, T) and goal.sort == 'B' else FALSE
            try:
                r, model = st.ctx.status(g, 6000)
            except Exception:
                r, model = 'unk', None
            if r == 'yes' and g is not FALSE:
                # the goal follows after all
                self.discharge(kind)
                st.ctx.assume(goal)
                return
        if r == 'yes':
            self.discharge(kind)
            st.ctx.dead = True
            raise PathEnd()
        if r == 'no' and not (isinstance(goal, T) and goal.sort == 'B'):
            r = result
        self.failures.append(Failure(kind, self.cur, goal, detail, r, model, st.path[-40:]))

    # ------------------------------------------------------------ memory access
    def sort_of(self, ty):
        if ty.kind == 'int':
            return 'I'
        if ty.kind == 'float':
            return 'F'
        if ty.kind == 'double':
            return 'D'
        return 'P'

    def deref(self, st, p, what):
        if isinstance(p, Undef):
            self.fail(st, 'uninit', '%s through an indeterminate pointer' % what, '', 'no')
            raise PathEnd()
        if not isinstance(p, Ptr):
            raise Unsupported('pointer value %r' % (p,))
        if p.obj is None:
            self.oblige(st, FALSE, 'null-deref', what)
            raise PathEnd()
        if isinstance(p.obj, tuple):
            raise Unsupported('data access to function pointer')
        o = st.mem.get(p.obj)
        if o is None or not o.alive:
            self.oblige(st, FALSE, 'use-after-free', '%s of %s' % (what, o.name if o else '?'))
            raise PathEnd()
        return o

    def const_off(self, st, o, off, n):
        """constant offset inside a constant-size object, forking when symbolic"""
        off = off if is_c(off) else st.ctx.simp(off)
        if is_c(off):
            return cval(off)
        sz = cval(o.size)
        cands = [c for c in range(0, sz - n + 1, n)]
        if len(cands) > 64:
            raise Unsupported('symbolic offset in large constant object')
        for c in cands:
            if eq(off, I(c)).id in st.ctx.fset:
                return c
        poss = [c for c in cands if not st.ctx.yes(ne(off, I(c)))]
        if len(poss) == 1:
            return poss[0]
        if not poss:
            raise PathEnd()
        raise ForkOn([eq(off, I(c)) for c in poss])

    def load(self, st, p, ty):
        o = self.deref(st, p, 'read')
        n = ty.size
        self.oblige(st, and_(le(ZERO, p.off), le(add(p.off, I(n)), o.size)), 'bounds-read', 'read of %d bytes at %s of %s (size %s)' % (n, p.off, o.name, o.size))
        if not o.array:
            off = self.const_off(st, o, p.off, n)
            if self.loadlog is not None:
                self.loadlog.add((o.id, off))
            c = o.cells.get(off)
            if c is not None and isinstance(c[1], Poison):
                if self.quiet and ty.kind != 'ptr':
                    return self.unknown(ty)
                raise Unsupported('untracked loop temporary %s+%d' % (o.name, off))
            if c is not None and c[0] == n:
                return self.conv_load(st, c[1], ty)
            if o.base is not None and o.es == n and off % n == 0:
                return o.base(I(off // n))
            # struct bytes through an integer register
            pieces = []
            for k in sorted(o.cells):
                sz, v = o.cells[k]
                if isinstance(v, Poison) and k + sz > off and k < off + n:
                    raise Unsupported('untracked loop temporary %s+%d' % (o.name, off))
                if k >= off and k + sz <= off + n:
                    pieces.append((k - off, sz, v))
                elif k + sz > off and k < off + n:
                    raise Unsupported('partial read of a cell')
            if pieces and ty.kind == 'int':
                return Blob(n, tuple(pieces))
            return self.uninit(st, o, ty, 'offset %d' % off)
        idx = self.index_of(st, o, p.off, ty)
        return self.read_array(st, o, idx, ty)

    def conv_load(self, st, v, ty):
        if isinstance(v, Blob):
            return v
        if ty.kind == 'ptr':
            if isinstance(v, Ptr):
                return v
            raise Unsupported('pointer type pun')
        if isinstance(v, Ptr):
            raise Unsupported('integer read of a pointer')
        if isinstance(v, Undef):
            return v
        s = self.sort_of(ty)
        if v.sort == 'B':
            v = ite(v, ONE, ZERO)
        if v.sort != s:
            raise Unsupported('type pun %s as %s' % (v.sort, s))
        if s == 'I':
            lo, hi = rng(v)
            if not (lo is not None and hi is not None and lo >= -(1 << (ty.bits - 1)) and hi < (1 << (ty.bits - 1))):
                pass
        return v

    def undef_use(self, st, what):
        self.fail(st, 'uninit', '%s uses an indeterminate value' % what, '', 'no')
        if not self.quiet:
            self.obl.setdefault('uninit', [0, 0])[0] += 1
        raise PathEnd()

    def uninit(self, st, o, ty, what):
        if o.kind == 'stack' and not o.array:
            return UNDEF            # reported where the value is used
        if not self.quiet:
            c = self.obl.setdefault('uninit', [0, 0])
            c[0] += 1
            self.fail(st, 'uninit', 'read of uninitialised memory', '%s %s' % (o.name, what), 'no')
        self.reads_uninit += 1
        s = self.sort_of(ty)
        if s == 'P':
            return UNDEF
        return fresh('uninit', s)

    def index_of(self, st, o, off, ty):
        n = ty.size
        if o.es is None:
            o = st.w(o.id)
            o.es = n
            o.ety = ty
        if o.es != n:
            raise Unsupported('access of %d bytes in array of %d-byte elements (%s)' % (n, o.es, o.name))
        off = st.ctx.simp(off)
        if n == 1:
            return off
        q, r = split_div(off, I(n))
        if r is ZERO:
            return q
        q, r = st.ctx.cdivmod(off, I(n))
        if r is ZERO:
            return q
        if st.ctx.yes(eq(r, ZERO)):
            return q
        raise Unsupported('misaligned element access %s' % off)

    def read_array(self, st, o, idx, ty):
        """value of element idx; resolves the write layers"""
        conds = []
        ctx = st.ctx
        for layer in reversed(o.layers):
            for it in reversed(flatten(layer)):
                try:
                    r = solve_owner(ctx, it, idx)
                except Unsupported:
                    if self.quiet:
                        return self.unknown(ty)
                    raise
                if r is None:
                    continue
                m, c0 = r
                # the range / equality part decides whether the element was written
                c = and_(c0, vsubst(it.cond, m))
                c = self.simp_bool(ctx, c)
                if c is FALSE:
                    continue
                v = vsubst(it.val, m)
                conds.append((c, v))
                if c is TRUE:
                    break
            if conds and conds[-1][0] is TRUE:
                break
        if conds and conds[-1][0] is TRUE:
            v = conds[-1][1]
            rest = conds[:-1]
        else:
            if o.base is None:
                if not conds:
                    return self.uninit(st, o, ty, 'index %s' % idx)
                # every path must have been written
                g = or_(*[c for c, _ in conds])
                if not self.quiet:
                    cc = self.obl.setdefault('uninit', [0, 0])
                    cc[0] += 1
                    r = ctx.prove(g)
                    if r == 'yes':
                        cc[1] += 1
                    else:
                        self.fail(st, 'uninit', g, 'element %s of %s may be unwritten' % (idx, o.name), r)
                v = conds[-1][1]
                rest = conds[:-1]
            else:
                v = o.base(idx)
                if v is None:
                    raise Unsupported('unknown array content')
                rest = conds
        for c, x in reversed(rest):
            v = vite(c, x, v)
        return self.conv_load(st, v, ty)

    def unknown(self, ty):
        """an unknown value met on a quiet discovery run"""
        s = self.sort_of(ty)
        if s == 'P':
            raise Unsupported('unknown pointer')
        if s == 'I':
            v = fresh('el:hvx', 'I', -(1 << (ty.bits - 1)), (1 << (ty.bits - 1)) - 1)
        else:
            v = fresh('el:hvx', s)
        return v

    def simp_bool(self, ctx, c):
        if c is TRUE or c is FALSE:
            return c
        if c.op == 'and':
            out = []
            for a in c.args:
                x = self.simp_bool(ctx, a)
                if x is FALSE:
                    return FALSE
                out.append(x)
            c2 = and_(*out)
            if c2.op == 'and' and ctx.prove(not_(c2)) == 'yes':
                return FALSE
            return c2
        if ctx.prove(c) == 'yes':
            return TRUE
        if ctx.prove(not_(c)) == 'yes':
            return FALSE
        return c

    def store(self, st, p, v, ty):
        o = self.deref(st, p, 'write')
        n = ty.size
        self.oblige(st, and_(le(ZERO, p.off), le(add(p.off, I(n)), o.size)), 'bounds-write', 'write of %d bytes at %s of %s (size %s)' % (n, p.off, o.name, o.size))
        if o.ro and not self.quiet:
            self.obl.setdefault('frame', [0, 0])[0] += 1
            self.fail(st, 'frame', 'write to an object the contract leaves unchanged', o.name, 'no')
        if isinstance(v, T) and v.sort == 'B' and ty.kind == 'int' and ty.bits != 1:
            v = ite(v, ONE, ZERO)
        if not o.array:
            off = self.const_off(st, o, p.off, n)
            o = st.w(o.id)
            self.clear_cells(o, off, n)
            if isinstance(v, Blob):
                for po, ps, pv in v.pieces:
                    o.cells[off + po] = (ps, pv)
            elif isinstance(v, Undef):
                pass
            else:
                if isinstance(v, T) and v.op == 'poly' and n == 8:
                    v = compact(v)
                o.cells[off] = (n, v)
            return
        idx = self.index_of(st, o, p.off, ty)
        if isinstance(v, Undef):
            self.undef_use(st, 'element store')
        if isinstance(v, Blob):
            raise Unsupported('store of struct bytes in an array')
        self.write_array(st, o, idx, v, ty)

    def write_array(self, st, o, idx, v, ty):
        o = st.w(o.id)
        if o.ety is None:
            o.ety = ty
            o.es = ty.size
        ls = list(o.layers)
        # replace an earlier write of the same element when nothing in between
        if len(ls) > o.lock and isinstance(ls[-1], Point) and ls[-1].idx is idx:
            ls.pop()
        ls.append(Point(idx, v))
        o.layers = tuple(ls)

    def clear_cells(self, o, off, n):
        if off in o.cells and o.cells[off][0] == n:
            del o.cells[off]
            return
        for k in list(o.cells):
            sz, v = o.cells[k]
            if k < off + n and k + sz > off:
                del o.cells[k]
                # leftover bytes of a partially overwritten cell are unreadable
                if k < off:
                    o.cells[k] = (off - k, POISON)
                if k + sz > off + n:
                    o.cells[off + n] = (k + sz - off - n, POISON)

    def memcpy(self, st, d, s, n):
        n = st.ctx.simp(n)
        if n is ZERO:
            return
        so = self.deref(st, s, 'memcpy source')
        do = self.deref(st, d, 'memcpy destination')
        self.oblige(st, and_(le(ZERO, s.off), le(add(s.off, n), so.size)), 'bounds-read', 'memcpy source %s+%s of %s (%s)' % (s.off, n, so.name, so.size))
        self.oblige(st, and_(le(ZERO, d.off), le(add(d.off, n), do.size)), 'bounds-write', 'memcpy dest %s+%s of %s (%s)' % (d.off, n, do.name, do.size))
        if do.ro and not self.quiet:
            self.fail(st, 'frame', 'memcpy to an object the contract leaves unchanged', do.name, 'no')
        if is_c(n) and not so.array and not do.array and so.base is None and do.base is None:
            soff = self.const_off(st, so, s.off, cval(n))
            doff = self.const_off(st, do, d.off, cval(n))
            N = cval(n)
            take = []
            for k in sorted(so.cells):
                sz, v = so.cells[k]
                if k >= soff and k + sz <= soff + N:
                    take.append((k - soff, sz, v))
                elif k + sz > soff and k < soff + N:
                    raise Unsupported('memcpy splits a cell')
            do = st.w(do.id)
            self.clear_cells(do, doff, N)
            for k, sz, v in take:
                do.cells[doff + k] = (sz, v)
            return
        ety = so.ety if so.ety is not None else do.ety
        if ety is None:
            # single element through a typed scratch cell
            if is_c(n):
                for ob, pp in ((so, s), (do, d)):
                    if not ob.array and is_c(pp.off):
                        c = ob.cells.get(cval(pp.off))
                        if c and c[0] == cval(n):
                            ety = self.ty_of_val(c[1], c[0])
            if ety is None:
                raise Unsupported('memcpy of untyped memory')
        if is_c(n) and cval(n) == ety.size:
            v = self.load(st, s, ety)
            self.store(st, d, v, ety)
            return
        # whole range, element by element
        es = ety.size
        cnt, r = st.ctx.cdivmod(n, I(es))
        if r is not ZERO and not st.ctx.yes(eq(r, ZERO)):
            raise Unsupported('memcpy length not a multiple of the element')
        if not do.array or not so.array:
            if is_c(cnt) and cval(cnt) <= 64:
                for i in range(cval(cnt)):
                    v = self.load(st, Ptr(s.obj, add(s.off, I(i * es))), ety)
                    self.store(st, Ptr(d.obj, add(d.off, I(i * es))), v, ety)
                return
            raise Unsupported('memcpy between cells and array')
        si = self.index_of(st, so, s.off, ety)
        di = self.index_of(st, do, d.off, ety)
        q = fresh('k')
        st2 = st.copy()
        st2.ctx.assume(le(ZERO, q)).assume(lt(q, cnt))
        v = self.read_array(st2, so, add(si, q), ety)
        do = st.w(do.id)
        do.layers = do.layers + (Range(q, cnt, [(TRUE, Point(add(di, q), v))]),)
        if do.ety is None:
            do.ety = ety
            do.es = es

    def ty_of_val(self, v, n):
        if isinstance(v, Ptr):
            return ir.PTR
        if isinstance(v, T):
            if v.sort == 'F':
                return ir.FLOAT
            if v.sort == 'D':
                return ir.DOUBLE
            return ir.IntTy(8 * n)
        return None

    def memset(self, st, d, c, n):
        n = st.ctx.simp(n)
        if n is ZERO:
            return
        do = self.deref(st, d, 'memset')
        self.oblige(st, and_(le(ZERO, d.off), le(add(d.off, n), do.size)), 'bounds-write', 'memset %s+%s of %s' % (d.off, n, do.name))
        if not (is_c(c) and cval(c) == 0):
            raise Unsupported('memset nonzero')
        if not do.array and is_c(n) and is_c(d.off):
            do = st.w(do.id)
            off, N = cval(d.off), cval(n)
            self.clear_cells(do, off, N)
            for k in range(off, off + N, 8):
                if off + N - k >= 8:
                    do.cells[k] = (8, ZERO)
                else:
                    raise Unsupported('memset odd')
            return
        ety = do.ety
        if ety is None:
            # unknown element type: defer with a zero base
            do = st.w(do.id)
            if d.off is ZERO and n is do.size and not do.layers:
                do.base = ZeroBase(do)
                return
            raise Unsupported('memset untyped')
        es = ety.size
        cnt, r = st.ctx.cdivmod(n, I(es))
        if r is not ZERO:
            raise Unsupported('memset partial')
        di = self.index_of(st, do, d.off, ety)
        q = fresh('k')
        do = st.w(do.id)
        do.layers = do.layers + (Range(q, cnt, [(TRUE, Point(add(di, q), self.zero_of(ety)))]),)

    def zero_of(self, ty):
        if ty.kind == 'ptr':
            return NULL
        if ty.kind == 'int':
            return ZERO
        return fconst(0.0, 'F' if ty.kind == 'float' else 'D')

    # ------------------------------------------------------------ pointers
    def gep(self, st, ty, base, idx):
        if isinstance(base, Undef):
            self.fail(st, 'uninit', 'address computed from an indeterminate pointer', '', 'no')
            raise PathEnd()
        if not isinstance(base, Ptr):
            raise Unsupported('gep base %r' % (base,))
        off = base.off
        cur = ty
        for n, (ity, v) in enumerate(idx):
            if isinstance(v, Undef):
                raise Unsupported('undef index')
            if n == 0:
                off = add(off, mul(v, I(cur.size)))
                continue
            if cur.kind == 'struct':
                i = cval(v)
                off = add(off, I(cur.offs[i]))
                cur = cur.fields[i]
            elif cur.kind == 'array':
                off = add(off, mul(v, I(cur.elem.size)))
                cur = cur.elem
            else:
                raise Unsupported('gep into %r' % cur)
        return Ptr(base.obj, off)

    # ------------------------------------------------------------ functions
    def call_func(self, st, f, args, top=False):
        """returns list of (state, value)"""
        if not top and f.name in self.contracts and not f.internal:
            c = self.contracts[f.name]
            self.used_contracts[f.name] = self.used_contracts.get(f.name, 0) + 1
            return c(self, st, args)
        self.used_funcs.add((f.mod.path, f.name))
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Unsupported('recursion')
        try:
            regs = {}
            local = []
            for (r, ty, at), v in zip(f.params, args):
                if 'byval' in at:
                    # callee gets a private copy
                    bt = at['byval']
                    o = self.new_obj(st, 'stack', f.name + r, I(bt.size))
                    local.append(o.id)
                    self.memcpy(st, Ptr(o.id), v, I(bt.size))
                    v = Ptr(o.id)
                regs[r] = v
            regs['$locals'] = tuple(local)
            out = []
            for kind, x in self.region(st, f, regs, f.order[0], None, None):
                if kind != 'ret':
                    raise Unsupported('fell out of function')
                s, rg, v = x
                for oid in rg['$locals']:
                    s.mem.pop(oid, None)
                out.append((s, v))
            return out
        finally:
            self.depth -= 1

    def val(self, st, f, regs, ty, v):
        if v[0] == 'reg':
            try:
                return regs[v[1]]
            except KeyError:
                raise Unsupported('register %s' % v[1])
        return self.const(st, f.mod, ty, v)

    def region(self, st, f, regs, block, prev, stop, loopblocks=None):
        """execute from block until `stop` header is reached again, a block outside loopblocks is reached, or return.
        yields ('ret',(st,regs,val)) | ('head',(st,regs,prev)) | ('exit',(st,regs,block,prev))"""
        out = []
        work = [(st, regs, block, prev, 0, True)]
        loops = ir.find_loops(f)
        while work:
            st, regs, block, prev, ip, fresh_entry = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Budget('deadline')
            if fresh_entry and ip == 0:
                if stop is not None and block == stop and prev != '$start':
                    out.append(('head', (st, regs, prev)))
                    continue
                if loopblocks is not None and block not in loopblocks:
                    out.append(('exit', (st, regs, block, prev)))
                    continue
                if block in loops and not (stop is not None and block == stop):
                    for kind, x in self.loop(st, f, regs, block, prev, loops[block]):
                        if kind == 'ret':
                            out.append((kind, x))
                        else:
                            s2, r2, b2, p2 = x
                            work.append((s2, r2, b2, p2, 0, True))
                    continue
            try:
                self.run_block(st, f, regs, block, prev, ip, work, out, loopblocks, stop)
            except PathEnd:
                pass
        return out

    def run_block(self, st, f, regs, block, prev, ip, work, out, loopblocks, stop):
        instrs = f.blocks[block].instrs
        real_prev = regs.get('$entryprev') if prev == '$start' else prev
        # phis read simultaneously
        if ip == 0:
            vals = []
            while instrs[ip].op == 'phi':
                i = instrs[ip]
                for v, pb in i.a[0]:
                    if pb == real_prev:
                        vals.append((i.res, self.val(st, f, regs, i.ty, v)))
                        break
                else:
                    raise Unsupported('phi without predecessor %s' % real_prev)
                ip += 1
            for r, v in vals:
                regs[r] = v
        while True:
            i = instrs[ip]
            self.cur = (f.name, i.line)
            self.steps += 1
            op = i.op
            try:
                if op == 'call':
                    res = self.do_call(st, f, regs, i)
                    if len(res) == 1:
                        st2, v = res[0]
                        st = st2
                        if i.res:
                            regs[i.res] = v
                        ip += 1
                        continue
                    for s2, v in res:
                        if s2.ctx.dead:
                            continue
                        r2 = dict(regs)
                        if i.res:
                            r2[i.res] = v
                        work.append((s2, r2, block, prev, ip + 1, False))
                    return
                if op == 'br':
                    work.append((st, regs, i.a[0], block, 0, True))
                    return
                if op == 'cbr':
                    self.branch(st, f, regs, i, block, work, loopblocks)
                    return
                if op == 'switch':
                    v = self.val(st, f, regs, i.ty, i.a[0])
                    if isinstance(v, Undef):
                        self.undef_use(st, 'switch')
                    if isinstance(v, Blob):
                        raise Unsupported('switch on undef')
                    neg = []
                    for n, tgt in i.a[2]:
                        c = eq(v, wrapS(i.ty.bits, I(n)))
                        if c is FALSE:
                            continue
                        s2 = st.copy()
                        s2.ctx.assume(and_(*neg))
                        s2.ctx.assume(c)
                        if c is not TRUE or neg:
                            s2.path = s2.path + ((self.cur, True, and_(c, *neg)),)
                        if not s2.ctx.dead and (c is TRUE or s2.ctx.prove(FALSE) != 'yes'):
                            work.append((s2, dict(regs), tgt, block, 0, True))
                        if c is TRUE:
                            return
                        neg.append(not_(c))
                    s2 = st.copy()
                    s2.ctx.assume(and_(*neg))
                    if neg:
                        s2.path = s2.path + ((self.cur, True, and_(*neg)),)
                    if not s2.ctx.dead and s2.ctx.prove(FALSE) != 'yes':
                        work.append((s2, dict(regs), i.a[1], block, 0, True))
                    return
                if op == 'ret':
                    v = None
                    if i.a[0] is not None:
                        v = self.val(st, f, regs, i.ty, i.a[0])
                    out.append(('ret', (st, regs, v)))
                    return
                if op == 'unreachable':
                    raise PathEnd()
                r = self.simple(st, f, regs, i)
                if i.res:
                    regs[i.res] = r
                ip += 1
            except ForkOn as fk:
                for c in fk.conds:
                    s2 = st.copy()
                    s2.ctx.assume(c)
                    if s2.ctx.dead:
                        continue
                    s2.path = s2.path + ((self.cur, True, c),)
                    work.append((s2, dict(regs), block, prev, ip, False))
                return

    def branch(self, st, f, regs, i, block, work, loopblocks):
        c = self.val(st, f, regs, ir.IntTy(1), i.a[0])
        if isinstance(c, Undef):
            self.fail(st, 'uninit', 'branch on an indeterminate value', '', 'no')
            raise PathEnd()
        if c.sort == 'I':
            c = ne(c, ZERO)
        t, e = i.a[1], i.a[2]
        if t == e:
            work.append((st, regs, t, block, 0, True))
            return
        probe = regs.get('$probe')
        if probe is not None and loopblocks is probe['blocks'] and not probe['seen']:
            if (t not in loopblocks) or (e not in loopblocks):
                if c is not TRUE and c is not FALSE:
                    c = st.ctx.simp(c)
                if c is not TRUE and c is not FALSE:
                    raise NeedSummary()
                probe['seen'] = True
                probe['cells'] = set(self.loadlog or ())
        if c is not TRUE and c is not FALSE:
            if st.ctx.maybe(c):
                c = TRUE
            elif st.ctx.maybe(not_(c)):
                c = FALSE
        gp = self.guardprobe
        if gp is not None and gp[0] == block and loopblocks is gp[1]:
            import loops
            if t in loopblocks and e not in loopblocks:
                raise loops.GuardResult(c)
            if e in loopblocks and t not in loopblocks:
                raise loops.GuardResult(not_(c))
        if c is TRUE:
            work.append((st, regs, t, block, 0, True))
            return
        if c is FALSE:
            work.append((st, regs, e, block, 0, True))
            return
        s2 = st.copy()
        s2.ctx.assume(not_(c))
        s2.path = st.path + ((self.cur, False, c),)
        st.ctx.assume(c)
        st.path = st.path + ((self.cur, True, c),)
        if not s2.ctx.dead:
            work.append((s2, dict(regs), e, block, 0, True))
        if not st.ctx.dead:
            work.append((st, regs, t, block, 0, True))

    # ------------------------------------------------------------ instructions
    def in_range(self, n, t):
        return and_(le(I(-(1 << (n - 1))), t), le(t, I((1 << (n - 1)) - 1)))

    def arith(self, st, n, t, nsw, what):
        """result of an n-bit operation with exact value t"""
        if is_c(t):
            if nsw and not (-(1 << (n - 1)) <= cval(t) < (1 << (n - 1))):
                self.oblige(st, FALSE, 'overflow', what)
            return wrapS(n, t)
        if tainted(t):
            return wrapS(n, t)
        w = wrapS(n, t)
        if w is t:
            return t
        if nsw:
            self.oblige(st, self.in_range(n, t), 'overflow', '%s = %s in %d bits' % (what, t, n))
            return t
        if st.ctx.prove(self.in_range(n, t)) == 'yes':
            return t
        return w

    def simple(self, st, f, regs, i):
        op = i.op
        if op == 'alloca':
            cnt = ONE
            if i.a[0] is not None:
                cnt = self.val(st, f, regs, i.a[0][0], i.a[0][1])
                cnt = wrapU(i.a[0][0].bits, cnt)
            o = self.new_obj(st, 'stack', '%s:%s' % (f.name, i.res), mul(cnt, I(i.ty.size)))
            regs['$locals'] = regs['$locals'] + (o.id,)
            return Ptr(o.id)
        if op == 'load':
            return self.load(st, self.val(st, f, regs, ir.PTR, i.a[0]), i.ty)
        if op == 'store':
            v = self.val(st, f, regs, i.ty, i.a[0])
            self.store(st, self.val(st, f, regs, ir.PTR, i.a[1]), v, i.ty)
            return None
        if op == 'gep':
            base = self.val(st, f, regs, ir.PTR, i.a[0])
            return self.gep(st, i.ty, base, [(t, self.val(st, f, regs, t, v)) for t, v in i.a[1]])
        if op == 'icmp':
            return self.icmp(st, f, regs, i)
        if op == 'fcmp':
            pred, a, b = i.a
            a = self.val(st, f, regs, i.ty, a)
            b = self.val(st, f, regs, i.ty, b)
            if isinstance(a, Undef) or isinstance(b, Undef):
                self.undef_use(st, 'comparison')
            return self.fcmp(pred, a, b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a = self.val(st, f, regs, i.ty, i.a[0])
            b = self.val(st, f, regs, i.ty, i.a[1])
            if isinstance(a, Undef) or isinstance(b, Undef):
                self.undef_use(st, 'arithmetic')
            return fop(op, a, b)
        if op == 'fneg':
            return fneg(self.val(st, f, regs, i.ty, i.a[0]))
        if op in ir.BIN:
            return self.binop(st, f, regs, i)
        if op in ir.CAST:
            return self.cast(st, f, regs, i)
        if op == 'select':
            c = self.val(st, f, regs, ir.IntTy(1), i.a[0])
            a = self.val(st, f, regs, i.ty, i.a[1])
            b = self.val(st, f, regs, i.ty, i.a[2])
            if st.ctx.prove(c) == 'yes':
                return a
            if st.ctx.prove(not_(c)) == 'yes':
                return b
            if isinstance(a, T) and isinstance(b, T):
                return ite(c, a, b)
            raise ForkOn([c, not_(c)])
        if op == 'freeze':
            return self.val(st, f, regs, i.ty, i.a[0])
        raise Unsupported('instruction ' + op)

    def fcmp(self, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise Unsupported('fcmp undef')
        lt_, le_ = fcmp('lt', a, b), fcmp('le', a, b)
        gt_, ge_ = fcmp('lt', b, a), fcmp('le', b, a)
        eq_, un = fcmp('feq', a, b), fcmp('uno', a, b)
        return {'oeq': lambda: eq_, 'ogt': lambda: gt_, 'oge': lambda: ge_, 'olt': lambda: lt_, 'ole': lambda: le_,
                'one': lambda: and_(not_(eq_), not_(un)), 'ord': lambda: not_(un), 'uno': lambda: un,
                'ueq': lambda: or_(eq_, un), 'ugt': lambda: not_(le_), 'uge': lambda: not_(lt_),
                'ult': lambda: not_(ge_), 'ule': lambda: not_(gt_), 'une': lambda: not_(eq_),
                'true': lambda: TRUE, 'false': lambda: FALSE}[pred]()

    def icmp(self, st, f, regs, i):
        pred, a, b = i.a
        a = self.val(st, f, regs, i.ty, a)
        b = self.val(st, f, regs, i.ty, b)
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.fail(st, 'uninit', 'comparison of an indeterminate value', '', 'no')
            raise PathEnd()
        if i.ty.kind == 'ptr':
            return self.pcmp(st, pred, a, b)
        if isinstance(a, Blob) or isinstance(b, Blob):
            raise Unsupported('icmp blob')
        if a.sort == 'B':
            a = ite(a, ONE, ZERO)
        if b.sort == 'B':
            b = ite(b, ONE, ZERO)
        n = i.ty.bits
        if n > 1 and pred in ('ugt', 'uge', 'ult', 'ule'):
            a = self.nwrapU(st, n, a)
            b = self.nwrapU(st, n, b)
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return ne(a, b)
        return {'sgt': gt, 'ugt': gt, 'sge': ge, 'uge': ge, 'slt': lt, 'ult': lt, 'sle': le, 'ule': le}[pred](a, b)

    def nwrapU(self, st, n, t):
        w = wrapU(n, t)
        if w is t or is_c(w):
            return w
        if not tainted(t) and st.ctx.prove(le(ZERO, t)) == 'yes':
            return t
        return w

    def pcmp(self, st, pred, a, b):
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('pointer comparison')
        if pred in ('eq', 'ne'):
            if a.obj == b.obj:
                r = eq(a.off, b.off)
            else:
                r = FALSE
            return r if pred == 'eq' else not_(r)
        if a.obj == b.obj and a.obj is not None:
            return {'u': {'gt': gt, 'ge': ge, 'lt': lt, 'le': le}, 's': {'gt': gt, 'ge': ge, 'lt': lt, 'le': le}}[pred[0]][pred[1:]](a.off, b.off)
        raise Unsupported('pointer order across objects')

    def binop(self, st, f, regs, i):
        op = i.op
        a = self.val(st, f, regs, i.ty, i.a[0])
        b = self.val(st, f, regs, i.ty, i.a[1])
        n = i.ty.bits
        if isinstance(a, Blob):
            return self.blobop(op, a, b, n)
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.undef_use(st, 'arithmetic')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('arithmetic on pointers')
        if n == 1:
            a = a if a.sort == 'B' else ne(a, ZERO)
            b = b if b.sort == 'B' else ne(b, ZERO)
            if op == 'and' or op == 'mul':
                return and_(a, b)
            if op == 'or':
                return or_(a, b)
            if op in ('xor', 'add', 'sub'):
                return not_(eq(a, b))
            raise Unsupported('i1 ' + op)
        nsw = 'nsw' in i.flags
        if op == 'add':
            return self.arith(st, n, add(a, b), nsw, 'add')
        if op == 'sub':
            return self.arith(st, n, sub(a, b), nsw, 'sub')
        if op == 'mul':
            return self.arith(st, n, mul(a, b), nsw, 'mul')
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if op[0] == 'u':
                a = self.nwrapU(st, n, a)
                b = self.nwrapU(st, n, b)
            if tainted(b):
                st.ctx.assume(ne(b, ZERO))      # precondition: no integer division by zero in the data
            else:
                self.oblige(st, ne(b, ZERO), 'div-zero', 'divisor %s' % b)
            if not tainted(a) and not tainted(b):
                if op[0] == 's':
                    self.oblige(st, or_(ne(a, I(-(1 << (n - 1)))), ne(b, I(-1))), 'overflow', 'INT_MIN / -1')
                if is_c(b) and cval(b) < 0:
                    pass
                elif st.ctx.yes(le(ZERO, a)) and st.ctx.yes(lt(ZERO, b)):
                    return st.ctx.cdiv(a, b) if op.endswith('div') else st.ctx.cmod(a, b)
            r = tdiv(a, b) if op.endswith('div') else trem(a, b)
            return wrapS(n, r)
        if op in ('shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            if is_c(a) and is_c(b):
                x, y = cval(a) & ((1 << n) - 1), cval(b) & ((1 << n) - 1)
                if op == 'shl':
                    r = x << y
                elif op == 'lshr':
                    r = x >> y
                elif op == 'ashr':
                    r = cval(a) >> y
                elif op == 'and':
                    r = x & y
                elif op == 'or':
                    r = x | y
                else:
                    r = x ^ y
                return wrapS(n, I(r))
            if is_c(b) and 0 <= cval(b) < n:
                if op == 'shl':
                    return self.arith(st, n, mul(a, I(1 << cval(b))), nsw, 'shl')
                if op == 'ashr':
                    return st.ctx.cdiv(a, I(1 << cval(b)))
                if op == 'lshr':
                    return wrapS(n, st.ctx.cdiv(self.nwrapU(st, n, a), I(1 << cval(b))))
            if op == 'and':
                for x, y in ((a, b), (b, a)):
                    if is_c(y) and cval(y) >= 0 and (cval(y) & (cval(y) + 1)) == 0:
                        return st.ctx.cmod(x, I(cval(y) + 1))
                    if is_c(y) and cval(y) == -1:
                        return x
            if op == 'xor' and is_c(b) and cval(b) == -1:
                return sub(neg(a), ONE)
            # bit operations on 0/1 integers
            ra, rb = rng(a), rng(b)
            if ra == (0, 1) and rb == (0, 1):
                x, y = ne(a, ZERO), ne(b, ZERO)
                if op == 'and':
                    return ite(and_(x, y), ONE, ZERO)
                if op == 'or':
                    return ite(or_(x, y), ONE, ZERO)
                if op == 'xor':
                    return ite(eq(x, y), ZERO, ONE)
            return wrapS(n, call('bit_' + op + str(n), (a, b), 'I'))
        raise Unsupported('binop ' + op)

    def blobop(self, op, a, b, n):
        if op == 'lshr' and is_c(b) and cval(b) % 8 == 0:
            k = cval(b) // 8
            return Blob(a.size, tuple((o - k, s, v) for o, s, v in a.pieces if o >= k))
        raise Unsupported('arithmetic on struct bytes')

    def cast(self, st, f, regs, i):
        op = i.op
        v, fty = i.a
        v = self.val(st, f, regs, fty, v)
        ty = i.ty
        if isinstance(v, Undef):
            self.undef_use(st, 'conversion')
        if isinstance(v, Blob):
            if op == 'trunc':
                if ty.size < v.size or True:
                    for o, s, x in v.pieces:
                        if o == 0 and s == ty.size:
                            return x
                    return Blob(ty.size, tuple((o, s, x) for o, s, x in v.pieces if o + s <= ty.size))
            if op == 'zext':
                return Blob(ty.size, v.pieces)
            raise Unsupported('cast of struct bytes')
        if op in ('sext', 'zext'):
            if v.sort == 'B':
                return ite(v, I(-1) if op == 'sext' else ONE, ZERO)
            if op == 'sext':
                return v
            return self.nwrapU(st, fty.bits, v)
        if op == 'trunc':
            if ty.bits == 1:
                if v.sort == 'B':
                    return v
                return eq(st.ctx.cmod(v, I(2)), ONE)
            w = wrapS(ty.bits, v)
            if w is v or is_c(w) or tainted(v):
                return w
            if st.ctx.prove(self.in_range(ty.bits, v)) == 'yes':
                return v
            return w
        if op == 'sitofp':
            if v.sort == 'B':
                v = ite(v, I(-1), ZERO)
            return itof(v, 'F' if ty.kind == 'float' else 'D')
        if op == 'uitofp':
            if v.sort == 'B':
                v = ite(v, ONE, ZERO)
            else:
                v = self.nwrapU(st, fty.bits, v)
            return itof(v, 'F' if ty.kind == 'float' else 'D')
        if op in ('fptosi', 'fptoui'):
            return self.fptoint(st, op, v, ty)
        if op == 'fpext':
            return fext(v)
        if op == 'fptrunc':
            return ftrunc(v)
        if op == 'bitcast':
            return v
        if op in ('ptrtoint', 'inttoptr'):
            raise Unsupported(op)
        raise Unsupported(op)

    def fptoint(self, st, op, v, ty):
        r = self.fp_lemma(st, v)
        if r is None:
            r = ftoi(v)
        n = ty.bits
        w = wrapS(n, r)
        if w is r or tainted(r) or r.op == 'ftoi':
            return w
        if st.ctx.prove(self.in_range(n, r)) == 'yes':
            return r
        return w

    def fp_lemma(self, st, v):
        """exact integer value of floor/ceil/trunc of double arithmetic on bounded integers (lemmas fp-ceil-div, fp-floor-div)"""
        import fplemma
        return fplemma.to_int(st.ctx, v)

    # ------------------------------------------------------------ calls
    def do_call(self, st, f, regs, i):
        callee, args = i.a
        cv = self.val(st, f, regs, ir.PTR, callee)
        vals = []
        for t, v, at in args:
            vals.append(self.val(st, f, regs, t, v))
        # by-value structs at the call boundary are handled by the callee
        if isinstance(cv, Undef):
            self.undef_use(st, 'call')
        if not isinstance(cv, Ptr):
            raise Unsupported('call through %r' % (cv,))
        if cv.obj is None:
            self.oblige(st, FALSE, 'null-deref', 'call through a null function pointer')
            raise PathEnd()
        if not isinstance(cv.obj, tuple):
            raise Unsupported('call of data')
        kind, tgt = cv.obj
        if kind == 'fn':
            return self.call_func(st, tgt, vals)
        return self.extern(st, tgt, vals, i)

    def alloc(self, st, tag, n):
        n = st.ctx.simp(n)
        out = []
        site = self.cur
        if self.alloc_fail and not self.quiet_alloc():
            s2 = st.copy()
            s2.flags['allocfail'] = True
            s2.path = s2.path + ((self.cur, 'alloc-fail', TRUE),)
            out.append((s2, NULL))
        self.oblige(st, le(ZERO, n), 'alloc-size', 'allocation size %s' % n)
        o = self.new_obj(st, 'heap', '%s@%s:%s' % (tag, site[0], site[1]), n, tag)
        o.site = site
        out.append((st, Ptr(o.id)))
        return out

    def quiet_alloc(self):
        return False

    def dealloc(self, st, tag, p):
        if isinstance(p, Undef):
            self.fail(st, 'uninit', 'free of an indeterminate pointer', '', 'no')
            raise PathEnd()
        if p.obj is None:
            return [(st, None)]
        o = st.mem.get(p.obj)
        if o is None or not o.alive:
            self.oblige(st, FALSE, 'double-free', o.name if o else '?')
            raise PathEnd()
        if o.kind == 'input' and o.tag is None or o.kind in ('stack', 'global'):
            self.oblige(st, FALSE, 'bad-free', 'free of %s' % o.name)
            raise PathEnd()
        self.oblige(st, eq(p.off, ZERO), 'bad-free', 'free of an interior pointer')
        if not self.quiet:
            c = self.obl.setdefault('free-match', [0, 0])
            c[0] += 1
            if o.tag != tag:
                self.fail(st, 'free-match', 'block from %s released with %s' % (o.tag, tag), o.name, 'no')
            else:
                c[1] += 1
            if o.ro:
                self.fail(st, 'frame', 'input object freed', o.name, 'no')
        o = st.w(o.id)
        o.alive = False
        return [(st, None)]

    MATH1 = {'exp', 'sqrt', 'tanh', 'log', 'sin', 'cos', 'fabs', 'expf', 'sqrtf', 'tanhf', 'fabsf', 'exp2', 'pow', 'powf',
             'expm1', 'log1p', 'fmax', 'fmin', 'fmaxf', 'fminf', 'round', 'trunc', 'rint', 'logf', 'cbrt', 'sinh', 'cosh', 'fma', 'fmaf', 'erf'}

    def extern(self, st, name, a, i):
        if any(isinstance(x, Undef) for x in a):
            self.undef_use(st, 'argument of ' + name)
        if name == 'malloc' or name == '$raw_alloc':
            n = a[0]
            if not is_c(n):
                n = self.nwrapU(st, 64, n)
            return self.alloc(st, 'malloc' if name == 'malloc' else 'raw', n)
        if name == 'calloc':
            n = st.ctx.simp(mul(a[0], a[1]))
            res = self.alloc(st, 'malloc', n)
            for s, p in res:
                if p.obj is not None:
                    o = s.w(p.obj)
                    if o.array:
                        o.base = ZeroBase(o)
                    else:
                        raise Unsupported('calloc of constant size')
            return res
        if name == 'free' or name == '$raw_dealloc':
            return self.dealloc(st, 'malloc' if name == 'free' else 'raw', a[0])
        if name.startswith('llvm.memcpy') or name in ('memcpy', 'memmove') or name.startswith('llvm.memmove'):
            self.memcpy(st, a[0], a[1], a[2])
            return [(st, a[0])]
        if name.startswith('llvm.memset') or name == 'memset':
            self.memset(st, a[0], a[1], a[2])
            return [(st, a[0])]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name in ('llvm.stackrestore.p0',):
            return [(st, None)]
        if name.startswith('llvm.stacksave'):
            return [(st, NULL)]
        if name in ('ceil', 'floor', 'llvm.ceil.f64', 'llvm.floor.f64', 'ceilf', 'floorf', 'llvm.ceil.f32', 'llvm.floor.f32'):
            nm = 'ceil' if 'ceil' in name else 'floor'
            x = a[0]
            if x.op == 'fc':
                import math
                return [(st, fconst(getattr(math, nm)(fc_val(x)), x.sort))]
            return [(st, call(nm, (x,), x.sort))]
        if name in ('abs', 'labs', 'llabs'):
            return [(st, ite(lt(a[0], ZERO), neg(a[0]), a[0]))]
        base = name[5:].split('.')[0] if name.startswith('llvm.') else name
        if base in self.MATH1:
            if all(isinstance(x, T) for x in a):
                return [(st, call(base, tuple(a), a[0].sort))]
        if name == 'strcmp':
            return [(st, self.strcmp(st, a[0], a[1]))]
        if name == 'strlen':
            s = self.cstr(st, a[0])
            return [(st, I(len(s)))]
        if name in ('__assert_fail', 'abort', 'exit', '_exit'):
            self.oblige(st, FALSE, 'abort', 'reachable call of %s' % name)
            raise PathEnd()
        if name in ('printf', 'fprintf', 'puts', 'fputs', 'putchar', 'fflush'):
            return [(st, fresh('io', 'I', -(1 << 31), (1 << 31) - 1))]
        if name == 'rand':
            o = self.rand_obj(st)
            cnt = o.cells[0][1]
            strm = o.cells[8][1]
            o = st.w(o.id)
            o.cells[0] = (8, add(cnt, ONE))
            return [(st, app(ELEM_PREFIX + 'rand', (strm, cnt), 'I', 0, (1 << 31) - 1))]
        if name == 'srand':
            o = self.rand_obj(st)
            first = o.cells[0][1] is ZERO and not st.flags.get('seeded')
            st.flags = dict(st.flags, seeded=True)
            o = st.w(o.id)
            # the contract is over an arbitrary stream: the seed itself is irrelevant
            o.cells[0] = (8, ZERO)
            o.cells[8] = (8, SEED if first else fresh('seed', 'I', 0, (1 << 32) - 1))
            return [(st, None)]
        if name == 'time':
            if isinstance(a[0], Ptr) and a[0].obj is not None:
                raise Unsupported('time(&x)')
            return [(st, fresh('time', 'I', 0, I64MAX))]
        raise Unsupported('external function ' + name)

    def rand_obj(self, st):
        oid = self.globals_ready.get('$rand')
        if oid is None:
            self.nobj += 1
            oid = self.globals_ready['$rand'] = self.nobj
        if oid not in st.mem:
            o = Obj(oid, 'global', '$rand', I(16))
            o.cells[0] = (8, ZERO)
            o.cells[8] = (8, SEED)
            st.mem[oid] = o
            st.own.add(oid)
        return st.mem[oid]

    def cstr(self, st, p):
        o = self.deref(st, p, 'string read')
        if not is_c(p.off):
            raise Unsupported('string offset')
        out = []
        k = cval(p.off)
        while True:
            c = o.cells.get(k)
            if c is None:
                raise Unsupported('symbolic string')
            if not is_c(c[1]):
                raise Unsupported('symbolic string')
            if cval(c[1]) == 0:
                return bytes(out)
            out.append(cval(c[1]) & 255)
            k += 1

    def strcmp(self, st, p, q):
        a, b = self.cstr(st, p), self.cstr(st, q)
        return I(0 if a == b else (-1 if a < b else 1))

    # ------------------------------------------------------------ loops
    def loop(self, st, f, regs, header, prev, blocks):
        """returns list of ('ret',..) | ('exit',(st,regs,block,prev))"""
        import loops
        return loops.run_loop(self, st, f, regs, header, prev, blocks)


class ZeroBase:
    def __init__(self, o):
        self.o = o

    def __call__(self, idx):
        raise Unsupported('zero base')
