"""Loop rule of the verifier.

A loop whose exit test is constant is executed concretely.  Any other loop is summarised: every location the body can
modify gets a closed form in the iteration number k (unchanged, linear, mixed-radix digit, fold, temporary); the closed
forms are the loop invariant.  They are inferred on quiet runs and then *checked*: the body is executed once more from
the invariant at a generic k with every obligation switched on, and each head state must re-establish the invariant at
k+1.  Array writes become a family indexed by the iteration number.
"""
from terms import *
import terms as tm
from prover import Ctx, prove_eq
from mem import *
import ir
import time


class GuardResult(Exception):
    def __init__(self, c):
        self.c = c


class Slot:
    __slots__ = ('key', 'size', 'c0', 'v', 'kind', 'data', 'deps', 'sort', 'ptrobj')

    def __init__(self, key):
        self.key = key        # ('c', oid, off) | ('a', oid, idx)
        self.size = None
        self.c0 = None        # entry value or None (uninitialised)
        self.v = None         # variable standing for the value at the start of iteration k
        self.kind = None
        self.data = None
        self.ptrobj = None

    def __repr__(self):
        return 'Slot(%s,%s,%s)' % (self.key, self.kind, self.data)


def run_loop(ex, st, f, regs, header, prev, blocks):
    snap = (len(ex.failures), {k: list(v) for k, v in ex.obl.items()})
    from symex import NeedSummary
    try:
        return unroll(ex, st, f, regs, header, prev, blocks)
    except NeedSummary:
        del ex.failures[snap[0]:]
        ex.obl.clear()
        ex.obl.update(snap[1])
    return Summary(ex, st, f, regs, header, prev, blocks).run()


def clean(regs):
    r = dict(regs)
    r.pop('$probe', None)
    return r


def unroll(ex, st0, f, regs0, header, prev0, blocks):
    from symex import NeedSummary
    out = []
    work = [(st0.copy(), dict(regs0), prev0, 0)]
    paths = 0
    while work:
        st, regs, prev, n = work.pop()
        if n >= ex.MAXUNROLL or paths > 3000:
            raise NeedSummary()
        saved = regs.get('$probe')
        probe = {'blocks': blocks, 'seen': False, 'cells': None}
        regs['$probe'] = probe
        regs['$entryprev'] = prev
        oldlog = ex.loadlog
        ex.loadlog = set()
        before = st.copy()
        try:
            res = ex.region(st, f, regs, header, '$start', header, blocks)
        finally:
            log = ex.loadlog
            ex.loadlog = oldlog
            if oldlog is not None:
                oldlog |= log
        for kind, x in res:
            paths += 1
            x[1].pop('$probe', None)
            if saved is not None:
                x[1]['$probe'] = saved
            if kind == 'head':
                s2, r2, p2 = x
                cells = probe['cells']
                if cells is not None:
                    same = True
                    for oid, off in cells:
                        a, b = before.mem.get(oid), s2.mem.get(oid)
                        if a is None or b is None:
                            same = False
                            break
                        va, vb = a.cells.get(off), b.cells.get(off)
                        if va is None or vb is None or not veq(va[1], vb[1]):
                            same = False
                            break
                    if same and (n >= 1 or len(res) > 1):
                        raise NeedSummary()
                work.append((s2, r2, p2, n + 1))
            else:
                out.append((kind, x))
    return out


# ---------------------------------------------------------------------------------------------------- summaries
class Outcome:
    __slots__ = ('kind', 'st', 'regs', 'x', 'conds', 'vals', 'layers', 'rot', 'vec', 'cond')


class Summary:
    def __init__(self, ex, st, f, regs, header, prev, blocks):
        self.ex = ex
        self.S0 = st
        self.f = f
        self.regs = clean(regs)
        self.header = header
        self.prev = prev
        self.blocks = blocks
        self.k = fresh('k')
        self.slots = {}
        self.arrays = {}       # oid -> items list (q-var is self.k) or None when unknown
        self.hvnames = set()
        self.hv = set()        # havoc variables / apps
        self.where = (f.name, f.blocks[header].instrs[-1].line)
        self.N = None
        self.Kfact = None
        self.digits = None
        self.hist = []         # secondary exit conditions in terms of k
        self.touched_new = False
        ex.summaries += 1

    # ------------------------------------------------------------------ generic iteration
    def start(self, k, quiet, fold_vars=True):
        """state at the start of iteration k"""
        st = self.S0.copy()
        for s in self.slots.values():
            v = self.value(s, k, fold_vars)
            self.put(st, s, v)
        for oid, items in self.arrays.items():
            o = st.w(oid)
            if any(s.key[0] == 'a' and s.key[1] == oid for s in self.slots.values()):
                continue
            if items is None:
                o.base = HavocBase(self, o.ety)
                o.layers = ()
            else:
                q = fresh('q')
                m = {self.k: q}
                memo = {}
                its = [(subst(c, m, memo), l.subst(m, memo)) for c, l in items]
                o.layers = tuple(o.layers) + ((Range(q, k, its),) if its else ())
            o.lock = len(o.layers)
        # element slots on top
        for s in self.slots.values():
            if s.key[0] == 'a':
                o = st.w(s.key[1])
                v = self.value(s, k, fold_vars)
                if v is not None:
                    o.layers = tuple(o.layers) + (Point(s.key[2], v),)
                o.lock = len(o.layers)
        st.ctx.assume(le(ZERO, k))
        if self.Kfact is not None:
            st.ctx.assume(le(k, self.Kfact))
        if self.hist and not quiet:
            q = fresh('q')
            st.ctx.assume(not_(exists(k, q, subst(or_(*self.hist), {self.k: q}))))
        return st

    def put(self, st, s, v):
        if s.key[0] != 'c':
            return
        o = st.w(s.key[1])
        if v is None:
            o.cells[s.key[2]] = (s.size, POISON)
        else:
            o.cells[s.key[2]] = (s.size, v)

    def value(self, s, k, fold_vars=True):
        """value of the slot at the start of iteration k"""
        kd = s.kind
        if kd is None:
            return s.v
        if kd == 'same':
            return s.c0
        if kd == 'linear':
            if s.ptrobj is not None:
                return Ptr(s.ptrobj, add(s.c0.off, mul(s.data, k)))
            return add(s.c0, mul(s.data, k))
        if kd == 'temp':
            return None
        if kd == 'digit':
            return self.digit(s, k)
        if kd == 'affine':
            d, c = s.data
            return add(self.value(d, k, fold_vars), c)
        if kd == 'fold':
            if fold_vars:
                return s.v
            return self.fold_at(s, k)
        raise Exception(kd)

    def digit(self, s, k):
        r, dl, P, R = s.data
        return add(r, mul(dl, self.dig(k, P, R)))

    def dig(self, k, P, R):
        if self.N is not None and k is self.N and self.odo_exit:
            return sub(R, ONE)
        return tm.mod(tm.div(k, P), R)

    odo_exit = False

    def fold_at(self, s, n):
        body = s.data
        q, acc = fresh('q'), fresh('acc', s.sort)
        m = {self.k: q, s.v: acc}
        # other folds inside the body
        for o in self.slots.values():
            if o is not s and o.kind == 'fold' and o.v in free_vars(body):
                m[o.v] = self.fold_at(o, q)
        t = fold(n, s.c0, q, acc, subst(body, m))
        if s.sort == 'I' and t.op == 'fold' and t.rng is False and s.v.rng is not False:
            t.rng = s.v.rng
        return t

    # ------------------------------------------------------------------ one run
    def iterate(self, k, quiet, fold_vars=True, extra=()):
        ex = self.ex
        st = self.start(k, quiet, fold_vars)
        for e in extra:
            st.ctx.assume(e)
        regs = dict(self.regs)
        regs['$entryprev'] = self.prev
        base_path = len(st.path)
        if quiet:
            ex.quiet += 1
        try:
            begin = st.copy()
            res = ex.region(st, self.f, regs, self.header, '$start', self.header, self.blocks)
        finally:
            if quiet:
                ex.quiet -= 1
        outs = []
        for kind, x in res:
            s2 = x[0]
            if s2.ctx.dead:
                continue
            o = Outcome()
            o.kind = kind
            o.st = s2
            o.regs = x[1]
            o.x = x
            o.rot = False
            o.conds = [c if pol else not_(c) for (_, pol, c) in s2.path[base_path:]]
            o.cond = and_(*o.conds)
            o.vec = None
            outs.append(o)
            if kind == 'head':
                g = self.guard_status(s2, x[1], x[2])
                if g is FALSE:
                    o.rot = True
        self.begin = begin
        return outs

    def guard_status(self, st, regs, prev):
        """continue-condition of the first exit test at the head state: TRUE/FALSE/term/None"""
        hb = self.f.blocks[self.header]
        last = hb.instrs[-1]
        if last.op != 'cbr':
            return None
        if last.a[1] in self.blocks and last.a[2] in self.blocks:
            return None
        ex = self.ex
        ex.quiet += 1
        oldg = ex.guardprobe
        ex.guardprobe = (self.header, self.blocks)
        try:
            s = st.copy()
            r = dict(regs)
            r['$entryprev'] = prev
            work, out = [], []
            try:
                ex.run_block(s, self.f, r, self.header, '$start', 0, work, out, self.blocks, None)
            except GuardResult as g:
                return g.c
            except Exception:
                return None
            return None
        finally:
            ex.quiet -= 1
            ex.guardprobe = oldg

    # ------------------------------------------------------------------ discovery
    def discover(self):
        ex = self.ex
        cache = ex.modcache.setdefault((id(self.f), self.header), set())
        # seed from an earlier summary of the same loop
        for rd in range(12):
            outs = self.iterate(self.k, True)
            new = False
            for o in outs:
                if o.kind == 'head' or o.rot:
                    new |= self.collect(o)
            if not new:
                return outs
        raise Unsupported('loop modifications do not stabilise')

    def collect(self, o):
        new = False
        b = self.begin
        for oid, ob in b.mem.items():
            oe = o.st.mem.get(oid)
            if oe is None:
                raise Unsupported('object vanished in loop')
            if oe is ob:
                continue
            if oe.alive != ob.alive:
                raise Unsupported('loop frees an object it did not allocate (%s)' % ob.name)
            for off, (sz, v) in oe.cells.items():
                c = ob.cells.get(off)
                if c is not None and c[0] == sz and veq(c[1], v):
                    continue
                key = ('c', oid, off)
                if key not in self.slots:
                    # was it in the entry state?
                    self.add_slot(key, sz, v)
                    new = True
            for off in ob.cells:
                if off not in oe.cells:
                    key = ('c', oid, off)
                    if key not in self.slots:
                        raise Unsupported('cell disappears in loop')
            if oe.layers != ob.layers and oid not in self.arrays:
                self.arrays[oid] = None
                new = True
        return new

    def add_slot(self, key, sz, v):
        s = Slot(key)
        s.size = sz
        o = self.S0.mem[key[1]]
        c = o.cells.get(key[2])
        if c is not None and c[0] == sz:
            s.c0 = c[1]
        elif c is not None:
            raise Unsupported('cell size change in loop')
        self.mkvar(s, v)
        self.slots[key] = s

    def mkvar(self, s, v):
        ref = s.c0
        if ref is None:
            s.v = None
            s.kind = 'temp'
            return
        if isinstance(ref, Ptr):
            if isinstance(v, Ptr) and v.obj == ref.obj and ref.obj is not None:
                s.ptrobj = ref.obj
                off = fresh('hv')
                self.hv.add(off)
                s.v = Ptr(ref.obj, off)
            else:
                s.v = None
                s.kind = 'temp'
            return
        if not isinstance(ref, T):
            s.v = None
            s.kind = 'temp'
            return
        if ref.sort == 'B':
            ref = ite(ref, ONE, ZERO)
            s.c0 = ref
        s.sort = ref.sort
        if ref.sort == 'I':
            n = 8 * s.size
            name = 'hv'
            if self.taint_of(ref, v):
                name = 'el:hv'
            s.v = fresh(name, 'I', -(1 << (n - 1)), (1 << (n - 1)) - 1)
        else:
            s.v = fresh('el:hv', ref.sort)
        self.hv.add(s.v)

    def taint_of(self, a, b):
        from symex import tainted
        return tainted(a) or (isinstance(b, T) and tainted(b))

    # ------------------------------------------------------------------ classification
    def free_hv(self, t):
        fv = vfree(t)
        return [x for x in fv if self.is_hv(x)]

    def is_hv(self, x):
        return x in self.hv or (x.op in ('var', 'app') and x.args[0].startswith(('el:hvx', 'uninit!')))

    def invariant(self, t):
        fv = vfree(t)
        if self.k in fv:
            return False
        return not any(self.is_hv(x) for x in fv)

    def slotvals(self, o):
        r = {}
        for key, s in self.slots.items():
            ob = o.st.mem.get(key[1])
            if key[0] == 'c':
                c = ob.cells.get(key[2])
                r[key] = c[1] if c is not None else None
            else:
                if ob.layers == self.begin.mem[key[1]].layers:
                    r[key] = s.v
                else:
                    r[key] = self.ex_read(o.st, ob, key[2])
            v = r[key]
            if isinstance(v, Poison):
                r[key] = None
            if isinstance(v, T) and v.sort == 'B':
                r[key] = ite(v, ONE, ZERO)
        return r

    def ex_read(self, st, ob, idx):
        self.ex.quiet += 1
        try:
            return self.ex.read_array(st, ob, idx, ob.ety)
        finally:
            self.ex.quiet -= 1

    def infer(self):
        """rounds of: run quietly, classify"""
        outs = self.discover()
        for rd in range(10):
            prog = self.classify(outs)
            if prog == 'done':
                return outs
            if prog is False:
                break
            # rerun with what is known; new modifications may show up
            outs = self.discover()
        und = [s for s in self.slots.values() if s.kind is None]
        raise Unsupported('loop at %s:%s: no closed form for %s' % (self.where[0], self.where[1], [self.sname(s) for s in und]))

    def sname(self, s):
        o = self.S0.mem[s.key[1]]
        return '%s+%s' % (o.name, s.key[2])

    def classify(self, outs):
        heads = [o for o in outs if o.kind == 'head']
        conts = [o for o in heads if not o.rot]
        if not heads:
            # the body never comes back: no loop
            for s in self.slots.values():
                if s.kind is None:
                    s.kind = 'temp'
            self.outs = outs
            return 'done'
        changed = False
        vals = {}
        for o in heads:
            o.vals = self.slotvals(o)
        # 1. unchanged, linear, flags
        for key, s in self.slots.items():
            if s.kind is not None:
                continue
            es = [o.vals[key] for o in conts]
            al = [o.vals[key] for o in heads]
            if s.v is None:
                s.kind = 'temp'
                changed = True
                continue
            if s.ptrobj is not None:
                if any(not (isinstance(e, Ptr) and e.obj == s.ptrobj) for e in es):
                    s.kind, s.ptrobj = 'temp', None
                    s.v = None
                    changed = True
                    continue
                if es and all(self.invariant(sub(e.off, s.v.off)) for e in es):
                    ds = set(sub(e.off, s.v.off) for e in es)
                    if len(ds) == 1:
                        s.kind, s.data = 'linear', ds.pop()
                        changed = True
                continue
            if any(e is None or isinstance(e, (Ptr, Undef)) for e in al):
                s.kind = 'temp'
                s.v = None
                changed = True
                continue
            if es and all(e is s.v for e in es):
                s.kind = 'same'
                changed = True
                continue
            if s.sort == 'I' and es:
                ds = set(sub(e, s.v) for e in es)
                if len(ds) == 1:
                    d = ds.pop()
                    if self.invariant(d):
                        s.kind, s.data = 'linear', d
                        changed = True
                        continue
                # a flag: unchanged or set to constants that end the loop
                if is_c(s.c0):
                    # unchanged on some path, the rest sets constants
                    un = [e for e in al if e is s.v]
                    cs = [e for e in al if is_c(e)]
                    if un and cs and len(un) + len(cs) == len(al) and any(not eq(e, s.c0) is TRUE for e in cs):
                        if self.guards_exit(s, [o for o in heads if is_c(o.vals[key]) and o.vals[key] is not s.c0]):
                            s.kind = 'same'
                            changed = True
                            continue
                    # or always a constant equal to the entry value on continuing paths
                if all(e is s.c0 for e in es):
                    s.kind = 'same'
                    changed = True
                    continue
            elif es and all(e is s.c0 for e in es):
                s.kind = 'same'
                changed = True
                continue
        if changed:
            return True
        # 2. digits
        if self.find_digits(heads):
            return True
        # 3. affine companions
        for key, s in self.slots.items():
            if s.kind is None and s.sort == 'I' and s.ptrobj is None:
                for d in self.slots.values():
                    if d is s or d.kind not in ('digit',):
                        continue
                    c = sub(s.c0, d.c0)
                    if not self.invariant(c):
                        continue
                    if all(isinstance(o.vals[key], T) and (o.vals[key] is s.v and o.vals[d.key] is self.begin_val(d) or sub(o.vals[key], o.vals[d.key]) is c) for o in heads):
                        s.kind, s.data = 'affine', (d, c)
                        break
                if s.kind == 'affine':
                    return True
        # 4. temporaries: never read
        used = self.used_vars(heads, outs)
        for key, s in self.slots.items():
            if s.kind is None:
                own = set()
                vv = s.v.off if isinstance(s.v, Ptr) else s.v
                if vv in used:
                    continue
                if all(vv not in vfree(o.vals[key]) for o in heads):
                    s.kind = 'temp'
                    changed = True
        if changed:
            return True
        # 5. folds (all what is left, when the dependencies are acyclic)
        left = [s for s in self.slots.values() if s.kind is None]
        if left:
            # array element slots may still appear: settle arrays first
            if self.settle_arrays(outs, heads):
                return True
            order = []
            vs = {}
            for s in left:
                if s.ptrobj is not None:
                    return False
                vs[s.v] = s
            merged = {}
            for s in left:
                merged[s] = self.merge(conts if conts else heads, s.key)
            done = set()
            rest = list(left)
            while rest:
                nx = None
                for s in rest:
                    dep = [vs[x] for x in self.free_hv(merged[s]) if x in vs and vs[x] is not s]
                    if all(d in done for d in dep):
                        nx = s
                        break
                if nx is None:
                    return False
                other = [x for x in self.free_hv(merged[nx]) if x not in vs]
                if other:
                    return False
                rest.remove(nx)
                done.add(nx)
            for s in left:
                s.kind = 'fold'
                s.data = merged[s]
            return True
        # folds may have been recorded with an older body: refresh
        for s in self.slots.values():
            if s.kind == 'fold':
                b = self.merge(conts if conts else heads, s.key)
                if b is not s.data:
                    s.data = b
                    changed = True
        if self.settle_arrays(outs, heads):
            return True
        if changed:
            return True
        self.outs = outs
        return 'done'

    def begin_val(self, d):
        return self.value(d, self.k)

    def guards_exit(self, s, outs):
        """would the loop stop at the next test in each of these states?"""
        for o in outs:
            if o.rot:
                continue
            return False
        return True

    def used_vars(self, heads, outs):
        u = set()
        for o in outs:
            for c in o.conds:
                u |= vfree(c)
            if o.kind != 'head':
                continue
            for key, s in self.slots.items():
                if s.kind == 'temp':
                    continue
                v = o.vals[key]
                if v is not None and not isinstance(v, Undef):
                    fv = vfree(v)
                    vv = s.v.off if isinstance(s.v, Ptr) else s.v
                    if s.kind is None and vv is not None and v is not s.v:
                        # own variable inside its own update counts as use
                        u |= fv
                    elif s.kind is None and v is s.v:
                        pass
                    else:
                        u |= fv
            for oid in self.arrays:
                ob = o.st.mem[oid]
                lb = self.begin.mem[oid].layers
                for l in ob.layers[len(lb):]:
                    u |= lfree(l)
        return u

    def merge(self, outs, key):
        """value of the slot after the iteration as one expression"""
        pairs = [(o.cond, o.vals[key], o) for o in outs]
        return self.merge_pairs(pairs)

    def merge_pairs(self, pairs):
        # group equal values
        groups = []
        for c, v, o in pairs:
            for g in groups:
                if veq(g[1], v):
                    g[0] = or_(g[0], c)
                    g[2].append(o)
                    break
            else:
                groups.append([c, v, [o]])
        if len(groups) > 1 and len(groups) <= 8:
            # absorb a group whose value equals another group's value under its own path condition
            i = 0
            while i < len(groups) and len(groups) > 1:
                c, v, os = groups[i]
                hit = False
                if isinstance(v, T) and not self.fold_touch(v):
                    for j, g in enumerate(groups):
                        if j == i or not isinstance(g[1], T):
                            continue
                        if all(prove_eq(o.st.ctx, v, g[1], 4)[0] == 'yes' for o in os):
                            g[0] = or_(g[0], c)
                            g[2].extend(os)
                            del groups[i]
                            hit = True
                            break
                if not hit:
                    i += 1
        # the group with the simplest condition last
        groups.sort(key=lambda g: -len(str(g[0])) if False else 0)
        v = groups[-1][1]
        for c, x, _ in reversed(groups[:-1]):
            v = vite(c, x, v)
        return v

    def fold_touch(self, v):
        return v.sort != 'I'

    # ------------------------------------------------------------------ arrays
    def settle_arrays(self, outs, heads):
        """derive the write family of each written array; True when something changed"""
        changed = False
        for oid in list(self.arrays):
            fam = []
            inv_idx = set()
            dep = False
            bl = self.begin.mem[oid].layers
            for o in heads:
                ls = o.st.mem[oid].layers[len(bl):]
                if o.st.mem[oid].layers[:len(bl)] != bl:
                    raise Unsupported('layers of %s rewritten: %s -> %s (lock %s)' % (self.S0.mem[oid].name, bl, o.st.mem[oid].layers, self.begin.mem[oid].lock))
                fam.append((o, ls))
                for l in ls:
                    if isinstance(l, Point) and self.invariant(l.idx):
                        inv_idx.add(l.idx)
                    else:
                        dep = True
            have = set(s.key[2] for s in self.slots.values() if s.key[0] == 'a' and s.key[1] == oid)
            if inv_idx and dep:
                raise Unsupported('mixed invariant and moving writes')
            if inv_idx - have:
                for idx in inv_idx - have:
                    s = Slot(('a', oid, idx))
                    ob = self.S0.mem[oid]
                    e = None
                    for o, ls in fam:
                        for l in ls:
                            if l.idx is idx:
                                e = l.val
                    s.size = ob.es or self.begin.mem[oid].es
                    try:
                        s.c0 = self.entry_elem(ob, idx, oid)
                    except Unsupported:
                        raise
                    self.mkvar(s, e)
                    self.slots[s.key] = s
                    changed = True
                continue
            if have:
                continue
            # one family of writes per iteration
            conts = [x for x in fam if not x[0].rot] or fam
            items = self.merge_layers(conts)
            old = self.arrays[oid]
            if old is None or not same_items(old, items):
                self.arrays[oid] = items
                changed = True
        return changed

    def entry_elem(self, ob, idx, oid):
        st = self.S0.copy()
        o = st.mem[oid]
        if o.base is None:
            # is it written at entry?
            try:
                conds = []
                for layer in o.layers:
                    for it in flatten(layer):
                        r = solve_owner(st.ctx, it, idx)
                        conds.append(and_(r[1], vsubst(it.cond, r[0])))
                if not conds or st.ctx.prove(or_(*conds)) != 'yes':
                    return None
            except Unsupported:
                return None
        self.ex.quiet += 1
        try:
            ety = o.ety or self.begin.mem[oid].ety
            return self.ex.read_array(st, o, idx, ety)
        finally:
            self.ex.quiet -= 1

    def merge_layers(self, fam):
        ls0 = [x[1] for x in fam]
        n = set(len(l) for l in ls0)
        if len(fam) == 1:
            return [(TRUE, l) for l in fam[0][1]]
        if len(n) == 1:
            out = []
            ok = True
            for pos in range(n.pop()):
                col = [l[pos] for l in ls0]
                if all(isinstance(c, Point) for c in col) and all(c.idx is col[0].idx for c in col):
                    v = self.merge_pairs([(o.cond, l[pos].val, o) for o, l in fam])
                    out.append((TRUE, Point(col[0].idx, v)))
                elif all(c is col[0] or layer_same(c, col[0]) for c in col):
                    out.append((TRUE, col[0]))
                elif all(isinstance(c, Point) for c in col):
                    # same element under each path condition?
                    gi = None
                    for cand in col:
                        if all(c.idx is cand.idx or prove_eq(o.st.ctx, c.idx, cand.idx, 4)[0] == 'yes' for (o, _), c in zip(fam, col)):
                            gi = cand.idx
                            break
                    if gi is None:
                        ok = False
                        break
                    v = self.merge_pairs([(o.cond, l[pos].val, o) for o, l in fam])
                    out.append((TRUE, Point(gi, v)))
                else:
                    ok = False
                    break
            if ok:
                return out
        out = []
        for o, ls in fam:
            for l in ls:
                out.append((o.cond, l))
        return out

    # ------------------------------------------------------------------ digits
    def find_digits(self, heads):
        cand = []
        for key, s in self.slots.items():
            if s.kind is not None or s.ptrobj is not None or s.sort != 'I' or s.v is None:
                continue
            kinds = {}
            dl, r = set(), set()
            ok = True
            for o in heads:
                e = o.vals[key]
                if e is s.v:
                    kinds[id(o)] = 'U'
                elif self.invariant(sub(e, s.v)):
                    kinds[id(o)] = 'I'
                    dl.add(sub(e, s.v))
                elif self.invariant(e):
                    kinds[id(o)] = 'R'
                    r.add(e)
                else:
                    ok = False
                    break
            if ok and len(dl) == 1 and len(r) == 1:
                r0 = r.pop()
                if r0 is s.c0 or self.S0.ctx.yes(eq(r0, s.c0)):
                    cand.append((s, kinds, dl.pop(), r0))
        if not cand:
            return False
        # a slot that just follows another one (k_tail = k_head + C) is not a digit of its own
        uniq = []
        for c in cand:
            dup = False
            for u in uniq:
                if c[1] == u[1] and c[2] is u[2]:
                    # which one carries the test literal?
                    if self.wrap_literal(c[0], c[1], heads) is None:
                        dup = True
                    elif self.wrap_literal(u[0], u[1], heads) is None:
                        uniq.remove(u)
                    else:
                        dup = False
                    break
            if not dup:
                uniq.append(c)
        cand = [c for c in uniq if self.wrap_literal(c[0], c[1], heads) is not None]
        if not cand:
            return False
        # order: innermost first = least often unchanged
        ids = [id(o) for o in heads]
        vecs = []
        cand.sort(key=lambda c: sum(1 for i in ids if c[1][i] == 'U'))
        n = len(cand)
        for i in ids:
            vec = ''.join(c[1][i] for c in cand)
            ok = False
            for j in range(n + 1):
                if vec == 'R' * j + ('I' + 'U' * (n - j - 1) if j < n else ''):
                    ok = True
            if not ok:
                return False
            vecs.append(vec)
        P = ONE
        plan = []
        ctx = self.S0.ctx
        for s, kinds, dl, r in cand:
            if not (ctx.yes(lt(ZERO, dl))):
                return False
            R = self.radix(s, kinds, dl, r, heads)
            if R is None:
                return False
            R = name_int(ctx.simp(R))
            plan.append((s, r, dl, P, R))
            P = mul(P, R)
        for s, r, dl, P_, R in plan:
            s.kind = 'digit'
            s.data = (r, dl, P_, R)
            s.c0 = r
        self.digits = (plan, P)
        return True

    def wrap_literal(self, s, kinds, heads):
        """a literal of the increment paths, mentioning v linearly, whose negation holds on the reset paths"""
        inc = [o for o in heads if kinds[id(o)] == 'I']
        res = [o for o in heads if kinds[id(o)] == 'R']
        if not inc:
            return None
        for l in inc[0].conds:
            if l.op == 'and':
                continue
            if s.v not in vfree(l):
                continue
            if not all(l in o.conds for o in inc):
                continue
            nl = not_(l)
            if all(nl in o.conds for o in res):
                return l
        return None

    def radix(self, s, kinds, dl, r, heads):
        l = self.wrap_literal(s, kinds, heads)
        if l is None:
            return None
        neg = False
        if l.op == 'not':
            neg = True
            l = l.args[0]
        p = poly(l.args[0]) if l.op in ('le0', 'eq0') else None
        if p is None:
            return None
        a = p.get((s.v,), 0)
        if a == 0 or any(s.v in m and m != (s.v,) for m in p):
            return None
        b = from_poly({m: c for m, c in p.items() if m != (s.v,)})
        if not self.invariant(b):
            return None
        ctx = self.S0.ctx
        if l.op == 'le0' and not neg and a > 0:
            # continue incrementing iff a*v + b <= 0
            X = sub(neg_(b), mul(I(a), r))
            D = mul(I(a), dl)
            return add(ctx.cdiv(X, D), I(2))
        if l.op == 'eq0' and neg and dl is ONE:
            if abs(a) != 1:
                return None
            last = neg_(b) if a == 1 else b         # value of v at which it wraps
            return add(sub(last, r), ONE)
        return None

    # ------------------------------------------------------------------ exits
    def solve_first(self, o):
        """smallest k >= 0 at which the exit is taken, from a condition linear in k"""
        lits = []
        for c in o.conds:
            lits.extend(c.args if c.op == 'and' else [c])
        moving = [l for l in lits if not self.invariant(l)]
        if len(moving) != 1 or len(moving) != len(lits):
            return None
        l = moving[0]
        if l.op == 'le0':
            p = poly(l.args[0])
            # exit iff p <= 0 ; p = -a k + b with a > 0
            A = from_poly({tm._mono_div(m, (self.k,)): c for m, c in p.items() if self.k in m})
            Bp = from_poly({m: c for m, c in p.items() if self.k not in m})
            if self.k in vfree(A) or not self.invariant(A) or not self.invariant(Bp):
                return None
            A = neg_(A)
            ctx = self.S0.ctx
            if is_c(A) and cval(A) <= 0:
                return None
            if not ctx.yes(lt(ZERO, A)):
                return None
            # smallest k with b <= a k : ceil(b/a)
            if A is ONE:
                return Bp
            return ctx.cdiv(add(Bp, sub(A, ONE)), A)
        if l.op == 'eq0':
            p = poly(l.args[0])
            a = p.get((self.k,), 0)
            if abs(a) != 1 or any(self.k in m and m != (self.k,) for m in p):
                return None
            b = from_poly({m: c for m, c in p.items() if m != (self.k,)})
            if not self.invariant(b):
                return None
            return neg_(b) if a == 1 else b
        return None

    def run(self):
        from symex import NeedSummary, PathEnd
        ex = self.ex
        self.infer()
        outs = self.outs
        heads = [o for o in outs if o.kind == 'head']
        exits = [o for o in outs if o.kind != 'head' or o.rot]
        if not [o for o in heads if not o.rot]:
            # executes at most once: no summary needed
            return self.once()
        K0 = None
        prim = []
        sec = []
        lits = None
        for o in exits:
            if o.rot and self.digits is not None and self.all_reset(o):
                t = sub(self.digits[1], ONE)
                if K0 is None or K0 is t:
                    K0 = t
                    self.odo_exit = True
                    prim.append(o)
                    continue
            t = None
            if not (self.odo_exit):
                t = self.solve_first(o)
            if t is not None and (K0 is None or K0 is t):
                K0 = t
                lits = o.cond
                prim.append(o)
                continue
            sec.append(o)
        if K0 is None:
            raise Unsupported('loop at %s:%s: no trip count' % self.where)
        K0 = self.S0.ctx.simp(K0)
        S0 = self.S0
        result = []
        if self.odo_exit:
            for s, r, dl, P, R in self.digits[0]:
                ex.oblige(S0, le(ONE, R), 'loop-inv', 'digit radix positive: %s' % R)
        elif S0.ctx.prove(le(ZERO, K0)) != 'yes':
            if S0.ctx.prove(le(K0, ZERO)) == 'yes':
                K0 = ZERO
            else:
                s2 = S0.copy()
                s2.ctx.assume(le(K0, ZERO))
                s2.path = s2.path + ((self.where, True, le(K0, ZERO)),)
                S0.path = S0.path + ((self.where, False, le(K0, ZERO)),)
                S0.ctx.assume(lt(ZERO, K0))
                if not s2.ctx.dead and s2.ctx.prove(FALSE) != 'yes':
                    result.extend(self.zero(s2))
                if S0.ctx.dead or S0.ctx.prove(FALSE) == 'yes':
                    return result
        if not self.odo_exit and K0 is ZERO:
            return result + self.zero(S0)
        self.N = K0
        # digits also need radix >= 1 when driven by a counter
        if self.digits is not None and not self.odo_exit:
            for s, r, dl, P, R in self.digits[0]:
                ex.oblige(S0, le(ONE, R), 'loop-inv', 'digit radix positive: %s' % R)
        self.hist = [self.close(o.cond, self.k) for o in sec]
        # -------- verified run at a generic iteration
        self.Kfact = K0 if self.odo_exit else sub(K0, ONE) if not any(o.kind != 'head' and False for o in prim) else K0
        if not self.odo_exit:
            # generic iterations are those that pass the primary exit test: k < K0
            self.Kfact = sub(K0, ONE)
        final = self.iterate(self.k, False)
        fheads = [o for o in final if o.kind == 'head']
        fex = [o for o in final if o.kind != 'head']
        for o in fheads:
            o.vals = self.slotvals(o)
            o.rot = self.guard_status(o.st, o.regs, o.x[2]) is FALSE
        conts = [o for o in fheads if not o.rot]
        self.check_step(conts, fheads)
        self.check_new_objects(fheads)
        self.check_arrays(conts or fheads)
        # -------- exits
        # secondary exits at a generic iteration
        for o in fex + [o for o in fheads if o.rot and not (self.odo_exit)]:
            self.finish_generic(o, result)
        # primary exit
        result.extend(self.primary(K0, fheads))
        return result

    def all_reset(self, o):
        for s, r, dl, P, R in self.digits[0]:
            e = o.vals.get(s.key) if o.vals else None
            if e is None:
                return False
            if not (e is r or veq(e, r)):
                return False
        return True

    def once(self):
        ex = self.ex
        st = self.S0
        regs = dict(self.regs)
        regs['$entryprev'] = self.prev
        res = ex.region(st, self.f, regs, self.header, '$start', self.header, self.blocks)
        out = []
        for kind, x in res:
            if kind == 'head':
                s2, r2, p2 = x
                r2['$entryprev'] = p2
                for k2, x2 in ex.region(s2, self.f, r2, self.header, '$start', self.header, self.blocks):
                    if k2 == 'head':
                        raise Unsupported('loop did not stop')
                    out.append((k2, x2))
            else:
                out.append((kind, x))
        return out

    def zero(self, st):
        """no iteration: the header exits at once"""
        regs = dict(self.regs)
        regs['$entryprev'] = self.prev
        out = []
        for kind, x in self.ex.region(st, self.f, regs, self.header, '$start', self.header, self.blocks):
            if kind == 'head':
                if x[0].ctx.prove(FALSE) == 'yes':
                    continue
                raise Unsupported('loop runs although its trip count is zero')
            out.append((kind, x))
        return out

    def close(self, t, k):
        """replace fold variables by the folds at k"""
        m = {}
        for s in self.slots.values():
            if s.kind == 'fold' and s.v in vfree(t):
                m[s.v] = self.fold_at(s, k)
        t = vsubst(t, m) if m else t
        if k is not self.k:
            t = vsubst(t, {self.k: k})
        return t

    def check_step(self, conts, heads):
        ex = self.ex
        k1 = add(self.k, ONE)
        for o in heads:
            ctx = o.st.ctx
            ex.cur = self.where
            for key, s in self.slots.items():
                e = o.vals[key]
                if s.kind in ('temp',):
                    continue
                if s.kind == 'digit':
                    self.check_digit(o, s, e)
                    continue
                if o.rot:
                    continue
                if s.kind == 'fold':
                    # by construction of the fold body from these very paths
                    continue
                want = self.value(s, k1)
                if veq(e, want):
                    self.count('loop-inv', True)
                    continue
                if s.kind == 'affine':
                    d, c = s.data
                    ok = isinstance(e, T) and prove_eq(ctx, e, add(o.vals[d.key], c))[0] == 'yes'
                elif isinstance(e, Ptr) and isinstance(want, Ptr) and e.obj == want.obj:
                    ok = ctx.prove(eq(e.off, want.off)) == 'yes'
                elif isinstance(e, T) and isinstance(want, T):
                    ok = prove_eq(ctx, e, want)[0] == 'yes'
                else:
                    ok = False
                if not ok:
                    raise Unsupported('loop invariant %s not preserved: %s vs %s' % (self.sname(s), e, want))
                self.count('loop-inv', True)
        # fold bodies must describe exactly these paths
        for s in self.slots.values():
            if s.kind == 'fold':
                b = self.merge(conts or heads, s.key)
                if b is not s.data:
                    s.data = b
                    if any(x for x in self.free_hv(b) if not self.is_fold_var(x)):
                        raise Unsupported('fold body')
                self.count('loop-inv', True)

    def is_fold_var(self, x):
        return any(s.kind == 'fold' and s.v is x for s in self.slots.values())

    def count(self, kind, ok):
        if self.ex.quiet:
            return
        c = self.ex.obl.setdefault(kind, [0, 0])
        c[0] += 1
        if ok:
            c[1] += 1

    def check_digit(self, o, s, e):
        """odometer lemma: see DESIGN (lemmas odometer-step, odometer-last)"""
        plan, total = self.digits
        ctx = o.st.ctx
        pos = [i for i, p in enumerate(plan) if p[0] is s][0]
        r, dl, P, R = s.data
        d = self.dig(self.k, P, R)

        def ismax(i):
            _, r_, dl_, P_, R_ = plan[i]
            return eq(self.dig(self.k, P_, R_), sub(R_, ONE))
        v = self.value(s, self.k)
        if e is v or prove_eq(ctx, e, v)[0] == 'yes' and not (R is ONE):
            # unchanged: some lower digit is not at its maximum
            g = or_(*[not_(ismax(i)) for i in range(pos)])
            if ctx.prove(g) == 'yes':
                self.count('loop-inv', True)
                return
        if prove_eq(ctx, e, r)[0] == 'yes':
            g = and_(*[ismax(i) for i in range(pos + 1)])
            if ctx.prove(g) == 'yes':
                self.count('loop-inv', True)
                return
        if prove_eq(ctx, e, add(v, dl))[0] == 'yes':
            g = and_(not_(ismax(pos)), *[ismax(i) for i in range(pos)])
            if ctx.prove(g) == 'yes':
                self.count('loop-inv', True)
                return
        raise Unsupported('odometer step of %s: %s' % (self.sname(s), e))

    def check_new_objects(self, heads):
        ex = self.ex
        for o in heads:
            for oid, ob in o.st.mem.items():
                if oid in self.S0.mem or not ob.alive or ob.kind in ('global',):
                    continue
                if ob.kind == 'stack':
                    continue
                if self.referenced(o.st, oid):
                    raise Unsupported('object %s allocated per iteration survives' % ob.name)
                ex.cur = self.where
                ex.oblige(o.st, FALSE, 'leak', 'block %s allocated in the loop is never released' % ob.name) if not ex.quiet else None

    def referenced(self, st, oid):
        for o2, ob in st.mem.items():
            if not ob.alive or o2 == oid:
                continue
            if ob.kind == 'stack' and False:
                continue
            for off, (sz, v) in ob.cells.items():
                if isinstance(v, Ptr) and v.obj == oid:
                    if ob.kind == 'stack' and ('c', o2, off) in self.slots and self.slots[('c', o2, off)].kind == 'temp' and not self.live_after(o2):
                        continue
                    return True
            for l in ob.layers:
                for it in flatten(l):
                    if isinstance(it.val, Ptr) and it.val.obj == oid:
                        return True
        return False

    def live_after(self, oid):
        return False

    def check_arrays(self, conts):
        for oid in self.arrays:
            if any(s.key[0] == 'a' and s.key[1] == oid for s in self.slots.values()):
                continue
            bl = self.begin.mem[oid].layers
            fam = []
            for o in conts:
                if o.st.mem[oid].layers[:len(bl)] != bl:
                    raise Unsupported('layers rewritten')
                fam.append((o, o.st.mem[oid].layers[len(bl):]))
            items = self.merge_layers(fam)
            self.arrays[oid] = [(self.close(c, self.k), self.close_layer(l)) for c, l in items]
            self.check_hv(oid)

    def close_layer(self, l):
        m = {}
        fv = lfree(l)
        for s in self.slots.values():
            if s.kind == 'fold' and s.v in fv:
                m[s.v] = self.fold_at(s, self.k)
        return l.subst(m, {}) if m else l

    def check_hv(self, oid):
        for c, l in self.arrays[oid]:
            bad = [x for x in (vfree(c) | lfree(l)) if self.is_hv(x)]
            if self.ex.quiet:
                # unknown contents at the start of an enclosing iteration are that loop's business
                bad = [x for x in bad if x in self.hv or x.args[0] in self.hvnames]
            if bad:
                raise Unsupported('write family mentions unknown values %s' % bad)

    def end_mem(self, st, K, after):
        """fill temporaries in a state at the head of iteration K"""

    def finish_generic(self, o, result):
        """secondary exit during iteration k (a fresh constant)"""
        st = o.st
        m = {}
        for s in self.slots.values():
            if s.kind == 'fold':
                m[s.v] = self.fold_at(s, self.k)
        if m:
            st = subst_state(st, m)
        self.drop_garbage(st)
        if o.kind == 'head':
            # rotated: run the header, it exits
            r2 = o.regs
            r2['$entryprev'] = o.x[2]
            for k2, x2 in self.ex.region(st, self.f, r2, self.header, '$start', self.header, self.blocks):
                if k2 == 'head':
                    raise Unsupported('rotated exit')
                result.append((k2, x2))
        elif o.kind == 'ret':
            result.append(('ret', (st, o.regs, vsubst(o.x[2], m) if m else o.x[2])))
        else:
            result.append(('exit', (st, o.regs, o.x[2], o.x[3])))

    def drop_garbage(self, st):
        pass

    def primary(self, K0, fheads):
        """the iteration that leaves the loop"""
        ex = self.ex
        result = []
        if not self.odo_exit:
            self.Kfact = K0
            st = self.start(K0, False)
            self.fill_temps(st, K0, fheads)
            m = {}
            for s in self.slots.values():
                if s.kind == 'fold':
                    m[s.v] = self.fold_at(s, K0)
            if m:
                st = subst_state(st, m)
            g = self.exit_fact(K0)
            if g is not None:
                st.ctx.assume(g)
            regs = dict(self.regs)
            regs['$entryprev'] = self.prev
            if self.hist:
                q = fresh('q')
                st.path = st.path + ((self.where, True, not_(exists(K0, q, subst(or_(*self.hist), {self.k: q})))),)
            self.unlock(st)
            for kind, x in ex.region(st, self.f, regs, self.header, '$start', self.header, self.blocks):
                if kind == 'head':
                    if x[0].ctx.prove(FALSE) == 'yes':
                        continue
                    raise Unsupported('primary exit not taken')
                result.append((kind, x))
            return result
        # odometer: iteration K0 = total-1 runs completely and then stops
        self.Kfact = K0
        outs = self.iterate(K0, True)
        for o in outs:
            if o.kind != 'head':
                if o.st.ctx.prove(FALSE) == 'yes':
                    continue
                raise Unsupported('exit inside the last iteration')
            o.vals = self.slotvals(o)
            if not o.rot:
                if o.st.ctx.prove(FALSE) == 'yes':
                    continue
                raise Unsupported('last iteration does not stop')
        outs = [o for o in outs if o.rot]
        # merge into one state: all last-iteration paths behave as the generic iteration at k = total-1
        total = self.digits[1]
        conts = [o for o in fheads if not o.rot] or fheads
        st = self.S0.copy()
        st.ctx.assume(le(ONE, total))
        finals = {}
        for key, s in self.slots.items():
            if s.kind == 'temp':
                v = None
            elif s.kind in ('digit',):
                v = s.data[0]
            elif s.kind == 'fold':
                v = self.fold_at(s, total)
                # the last iteration must follow the same body
                for o in outs:
                    want = subst(s.data, {self.k: K0})
                    if prove_eq(o.st.ctx, o.vals[key], want)[0] != 'yes':
                        raise Unsupported('last iteration differs in %s: %s vs %s' % (self.sname(s), o.vals[key], want))
            else:
                vs = []
                for o in outs:
                    e = o.vals[key]
                    e = self.close(e, K0) if isinstance(e, (T, Ptr)) else e
                    if not any(veq(e, x) for x in vs):
                        vs.append(e)
                if len(vs) == 1:
                    v = vs[0]
                elif s.kind == 'affine':
                    v = add(s.data[0].data[0], s.data[1])
                elif all(isinstance(e, T) and prove_eq(outs[0].st.ctx, e, vs[0])[0] == 'yes' for e in vs):
                    v = vs[0]
                else:
                    raise Unsupported('last iteration values')
                if not isinstance(v, (T, Ptr)):
                    v = None
            finals[key] = v
        for key, s in self.slots.items():
            self.put(st, s, finals[key])
        for oid in self.arrays:
            o = st.w(oid)
            sl = [s for s in self.slots.values() if s.key[0] == 'a' and s.key[1] == oid]
            if sl:
                for s in sl:
                    o.layers = tuple(o.layers) + (Point(s.key[2], finals[s.key]),)
                continue
            items = self.arrays[oid]
            # the last iteration's writes = the family at K0
            bl = None
            for oo in outs:
                bl = self.begin.mem[oid].layers
                ls = oo.st.mem[oid].layers[len(bl):]
                exp = [(subst(c, {self.k: K0}), l.subst({self.k: K0}, {})) for c, l in items]
                exp = [(self.simp_c(oo.st.ctx, c), l) for c, l in exp]
                exp = [l for c, l in exp if c is not FALSE]
                if len(exp) != len(ls):
                    raise Unsupported('last iteration writes differ')
                for a, b in zip(ls, exp):
                    if not self.layer_eq(oo.st.ctx, self.close_layer_at(a, K0), b):
                        raise Unsupported('last iteration writes differ: %s vs %s' % (a, b))
            q = fresh('q')
            m = {self.k: q}
            memo = {}
            its = [(subst(c, m, memo), l.subst(m, memo)) for c, l in items]
            if its:
                o.layers = tuple(o.layers) + (Range(q, total, its),)
            bo = self.begin.mem[oid]
            if o.ety is None:
                o.ety, o.es = bo.ety or outs[0].st.mem[oid].ety, bo.es or outs[0].st.mem[oid].es
        if self.hist:
            q = fresh('q')
            h = not_(exists(total, q, subst(or_(*self.hist), {self.k: q})))
            st.ctx.assume(h)
            st.path = st.path + ((self.where, True, h),)
        regs = dict(outs[0].regs) if outs else dict(self.regs)
        regs['$entryprev'] = outs[0].x[2] if outs else self.prev
        for kind, x in ex.region(st, self.f, regs, self.header, '$start', self.header, self.blocks):
            if kind == 'head':
                raise Unsupported('odometer loop continues')
            result.append((kind, x))
        return result

    def simp_c(self, ctx, c):
        return self.ex.simp_bool(ctx, c)

    def close_layer_at(self, l, K):
        m = {}
        fv = lfree(l)
        for s in self.slots.values():
            if s.kind == 'fold' and s.v in fv:
                m[s.v] = self.fold_at(s, K)
        return l.subst(m, {}) if m else l

    def layer_eq(self, ctx, a, b):
        if isinstance(a, Point) and isinstance(b, Point):
            if prove_eq(ctx, a.idx, b.idx)[0] != 'yes':
                return False
            if isinstance(a.val, T) and isinstance(b.val, T):
                return prove_eq(ctx, a.val, b.val)[0] == 'yes'
            return veq(a.val, b.val)
        if isinstance(a, Range) and isinstance(b, Range):
            if prove_eq(ctx, a.K, b.K)[0] != 'yes' or len(a.items) != len(b.items):
                return False
            q = fresh('q')
            c2 = ctx.plus(le(ZERO, q), lt(q, a.K))
            for (c, l), (d, m) in zip(a.items, b.items):
                if subst(c, {a.q: q}) is not subst(d, {b.q: q}):
                    return False
                if not self.layer_eq(c2, l.subst({a.q: q}, {}), m.subst({b.q: q}, {})):
                    return False
            return True
        return False

    def exit_fact(self, K0):
        """the exit test at K0 (true by the choice of K0)"""
        for o in self.outs:
            if o.kind != 'head' and self.solve_first(o) is not None:
                t = self.S0.ctx.simp(self.solve_first(o))
                if t is K0:
                    return subst(o.cond, {self.k: K0})
        return None

    def fill_temps(self, st, K, fheads):
        """temporaries keep the value of the last iteration"""
        conts = [o for o in fheads if not o.rot] or fheads
        km1 = sub(K, ONE)
        pos = st.ctx.prove(le(ONE, K)) == 'yes'
        for key, s in self.slots.items():
            if s.kind != 'temp' or not conts:
                continue
            if key[0] == 'c' and self.S0.mem[key[1]].kind == 'stack' and s.c0 is None and not pos:
                continue
            try:
                v = self.merge(conts, key)
            except (Unsupported, AttributeError):
                continue
            if v is None or isinstance(v, (Undef, Blob)):
                continue
            if isinstance(v, Ptr) and v.obj is not None and not isinstance(v.obj, tuple) and v.obj not in self.S0.mem:
                continue
            # a temporary that copies a fold slot
            got = None
            if isinstance(v, T):
                for d in self.slots.values():
                    if d.kind == 'fold' and (v is d.data):
                        got = self.fold_at(d, K)
            if got is None:
                got = self.close(v, self.k)
                got = vsubst(got, {self.k: km1})
            if any(self.is_hv(x) for x in vfree(got)):
                continue
            if not pos:
                if s.c0 is None:
                    continue
                try:
                    got = vite(le(ONE, K), got, s.c0)
                except Unsupported:
                    continue
            if key[0] == 'c':
                self.put(st, s, got)
            else:
                o = st.w(key[1])
                o.layers = tuple(o.layers) + (Point(key[2], got),)

    def unlock(self, st):
        for oid in self.arrays:
            o = st.w(oid)
            o.lock = len(o.layers)
            b = self.begin.mem[oid]
            if o.ety is None:
                o.ety, o.es = b.ety, b.es
            for q in self.outs:
                e = q.st.mem.get(oid)
                if o.ety is None and e is not None and e.ety is not None:
                    o.ety, o.es = e.ety, e.es


def neg_(t):
    return neg(t)


def name_int(t):
    """compact name for a radix that is not a single atom"""
    if t.op in ('c', 'var', 'app', 'let', 'div', 'mod'):
        return t
    if any(m and len(m) >= 1 and any(a.op == 'div' for a in m) for m in poly(t)):
        return let(t)
    return t


def lfree(l):
    if isinstance(l, Point):
        return vfree(l.idx) | vfree(l.val)
    s = set(vfree(l.K))
    for c, x in l.items:
        s |= vfree(c)
        s |= lfree(x)
    s.discard(l.q)
    return s


def layer_same(a, b):
    if a is b:
        return True
    if isinstance(a, Point) and isinstance(b, Point):
        return a.idx is b.idx and veq(a.val, b.val)
    if isinstance(a, Range) and isinstance(b, Range):
        if a.K is not b.K or len(a.items) != len(b.items):
            return False
        q = fresh('q')
        for (c, l), (d, m) in zip(a.items, b.items):
            if subst(c, {a.q: q}) is not subst(d, {b.q: q}):
                return False
            if not layer_same(l.subst({a.q: q}, {}), m.subst({b.q: q}, {})):
                return False
        return True
    return False


def same_items(a, b):
    return len(a) == len(b) and all(c is d and layer_same(x, y) for (c, x), (d, y) in zip(a, b))


def subst_state(st, m):
    s = st.copy()
    memo = {}
    for oid in list(s.mem):
        o = s.mem[oid]
        ch = {}
        for off, (sz, v) in o.cells.items():
            v2 = vsubst(v, m, memo)
            if v2 is not v and not veq(v2, v):
                ch[off] = (sz, v2)
        nl = None
        if o.layers and any(set(m) & lfree(l) for l in o.layers):
            nl = tuple(l.subst(m, memo) if set(m) & lfree(l) else l for l in o.layers)
        if ch or nl is not None:
            o = s.w(oid)
            o.cells.update(ch)
            if nl is not None:
                o.layers = nl
    c = Ctx()
    old = s.ctx
    c.wits = list(old.wits)
    for f in old.facts:
        c.assume(subst(f, m, memo))
    c.dead = c.dead or old.dead
    s.ctx = c
    s.path = tuple((a, b, subst(x, m, memo)) for a, b, x in s.path)
    return s


class HavocBase:
    def __init__(self, summary, ety):
        self.s = summary
        self.ety = ety
        self.name = None

    def __call__(self, idx):
        ety = self.ety
        if ety is None or not self.s.ex.quiet:
            return None
        if self.name is None:
            self.name = fresh('el:hvx').args[0]
            self.s.hvnames.add(self.name)
        s = self.s.ex.sort_of(ety)
        if s == 'P':
            raise Unsupported('unknown pointer')
        if s == 'I':
            return app(self.name, (idx,), 'I', -(1 << (ety.bits - 1)), (1 << (ety.bits - 1)) - 1)
        return app(self.name, (idx,), s)
