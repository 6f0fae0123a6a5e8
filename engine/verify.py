"""Discharge of a contract instance against the real function body."""
import sys, os, time, traceback
from terms import *
import terms as tm
from mem import *
from symex import *
from world import World, DT
from prover import prove_eq
import prover, ir
import spec as S


class Result:
    def __init__(self, name):
        self.name = name
        self.verdict = 'proved'      # proved | failed | unsupported | timeout
        self.obl = {}
        self.failures = []           # (kind, where, goal, detail, result, model)
        self.why = ''
        self.time = 0
        self.funcs = set()
        self.contracts = {}
        self.paths = 0
        self.lemmas = set()
        self.z3 = (0, 0.0)


def arg_world(w, inst):
    """symbolic pre-state: C argument values and the slot / buffer pointers"""
    slot, bufs, vals = None, {}, []
    made = {}
    facts = inst.facts
    for g in facts:
        g = [d for d in g if not is_c(d)]
        if g:
            w.size_facts(g, inst.es)
    for p in inst.pre:
        w.st.ctx.assume(p)
    for a in inst.args:
        if isinstance(a, S.Ten):
            v = made[a.name] = w.tensor(a.name, a.dt, a.dims, a.dev[0], a.dev[1])
            if not a.ro:
                w.st.mem[w.tensors[a.name]['data']].ro = False
        elif isinstance(a, S.OwnedTen):
            before = set(w.st.mem)
            h = w.tensor(a.name, a.dt, a.dims, ZERO, ZERO)
            for k in set(w.st.mem) - before:
                o = w.st.mem[k]
                o.kind, o.tag, o.ro = 'heap', 'raw', False
            so = w.obj(a.name + '.handle', I(8), None, False)
            so.cells[0] = (8, h)
            v = Ptr(so.id)
            w.handles = getattr(w, 'handles', {})
            w.handles[a.name] = v
        elif isinstance(a, S.Ref):
            v = made[a.ten.name]
        elif isinstance(a, S.Arr):
            v = w.int_array(a.name, a.vals, es=a.es)
        elif isinstance(a, S.Int):
            v = a.v
            if a.bits == 32:
                v = wrapS(32, v)
        elif isinstance(a, S.Dbl):
            v = a.v
        elif isinstance(a, S.DTy):
            v = w.dtype(a.dt)
        elif isinstance(a, S.Dev):
            v = w.device(a.ty, a.id)
        elif isinstance(a, S.Str):
            o = w.obj('str', I(len(a.s) + 1))
            for k, ch in enumerate(a.s + b'\0'):
                o.cells[k] = (1, wrapS(8, I(ch)))
            v = Ptr(o.id)
        elif isinstance(a, S.Null):
            v = NULL
        elif isinstance(a, S.Slot):
            v = slot = w.slot()
        elif isinstance(a, S.Buf):
            o = w.obj(a.name, I(a.n), None, False)
            v = bufs[a.name] = Ptr(o.id)
        elif isinstance(a, S.Owned):
            es = DT[a.dt][0]
            o = w.obj(a.name, mul(I(es), a.count), 'raw', False)
            o.kind = 'heap'
            o.array = True
            o.base = w.elem_base(a.name, a.dt)
            o.es = es
            o.ety = elem_ty(a.dt)
            v = Ptr(o.id)
            w.owned = getattr(w, 'owned', {})
            w.owned[a.name] = o.id
        else:
            raise TypeError(a)
        vals.append(v)
    return vals, slot, bufs


def elem_ty(dt):
    return ir.IntTy(8 * DT[dt][0]) if DT[dt][1] == 'I' else (ir.FLOAT if dt == 'float' else ir.DOUBLE)


class Checker:
    def __init__(self, w, inst):
        self.w, self.inst, self.ex, self.L = w, inst, w.ex, w.L

    def goal(self, st, g, kind, detail):
        """obligation on a final state (not assumed afterwards when it fails)"""
        ex = self.ex
        c = ex.obl.setdefault(kind, [0, 0])
        c[0] += 1
        if g is TRUE or st.ctx.prove(g) == 'yes':
            c[1] += 1
            return True
        r = st.ctx.prove(g)
        ex.fail(st, kind, g, detail, r)
        return False

    def fact(self, st, ok, kind, detail):
        c = self.ex.obl.setdefault(kind, [0, 0])
        c[0] += 1
        if ok:
            c[1] += 1
        else:
            self.ex.fail(st, kind, detail, detail, 'no')
        return ok

    def eqv(self, st, a, b, kind, detail):
        c = self.ex.obl.setdefault(kind, [0, 0])
        c[0] += 1
        r, why = prove_eq(st.ctx, a, b)
        if r == 'yes':
            c[1] += 1
            return True
        self.ex.fail(st, kind, eq(a, b) if a.sort == 'I' else detail, '%s: %s' % (detail, why), r)
        return False

    # ------------------------------------------------------------
    def final(self, st, ret):
        ctx = st.ctx
        for out in self.inst.outs:
            c = ctx.plus(out.guard)
            if not (c.dead or c.prove(FALSE) == 'yes'):
                s2 = st.copy()
                s2.ctx = c
                self.outcome(s2, ret, out)
            if out.guard is TRUE:
                break
            ctx = ctx.plus(not_(out.guard))
            if ctx.dead or ctx.prove(FALSE) == 'yes':
                break
            st = st.copy()
            st.ctx = ctx

    def outcome(self, st, ret, out):
        inst, w = self.inst, self.w
        self.ex.cur = ('post:' + inst.func, 0)
        if st.flags.get('allocfail'):
            return self.alloc_outcome(st, ret, out)
        if inst.ret == 'status':
            if not isinstance(ret, T):
                self.fact(st, False, 'status', 'no status returned')
                return
            if not self.goal(st, eq(ret, I(out.status)), 'status', 'returned %s, contract says %s' % (ret, out.status)):
                return
        elif inst.ret == 'i64':
            self.eqv(st, ret, out.status, 'result', 'returned value')
        for name, cells in out.bufs.items():
            o = st.mem[w.bufs[name].obj]
            for off, sz, t in cells:
                v = o.cells.get(off)
                if v is None or v[0] != sz or not isinstance(v[1], T):
                    self.fact(st, False, 'result', '%s+%d not written' % (name, off))
                else:
                    self.eqv(st, v[1], t, 'result', '%s[%d]' % (name, off // sz))
        for name, f in out.muts.items():
            o = st.mem[w.tensors[name]['data']]
            ten = next(a for a in inst.args if isinstance(a, S.Ten) and a.name == name)
            self.content(st, o, S.TD(ten.dt, ten.dims, lambda c, l, f=f: f(l)), S.prod(ten.dims))
        for name in out.consumed:
            v = st.mem[w.handles[name].obj].cells.get(0, (8, None))[1]
            self.fact(st, v == NULL, 'meta', 'the handle of a destroyed tensor is cleared')
        reach = set()
        if w.slot_ptr is not None:
            v = st.mem[w.slot_ptr.obj].cells.get(0, (8, None))[1]
            if out.res is None:
                self.fact(st, v is UNDEF, 'no-output', '*output must stay untouched on status %s' % out.status)
            else:
                reach = self.tensor(st, v, out) or set()
        # ownership of inputs handed over
        for name, oid in getattr(w, 'owned', {}).items():
            if out.res is None or out.res.adopt != name:
                o = st.mem[oid]
                self.fact(st, o.alive, 'ownership', 'caller keeps %s on failure' % name)
                reach.add(oid)
        self.leaks(st, reach)
        self.frame(st)

    def leaks(self, st, reach, kind='leak'):
        left = [o for k, o in st.mem.items() if o.kind == 'heap' and o.alive and k not in reach]
        self.fact(st, not left, kind, 'blocks still allocated: %s' % ', '.join(sorted(o.name for o in left))[:200])

    def frame(self, st):
        """no read-only input object changed (also reported at the write)"""
        ok = all(o.alive for o in st.mem.values() if o.kind == 'input' and o.ro)
        self.fact(st, ok, 'frame', 'an input was released')

    def alloc_outcome(self, st, ret, out):
        """after a failed allocation: ALLOC_FAILED is reported, or the function proceeded without needing it"""
        if self.inst.ret != 'status':
            return
        if not isinstance(ret, T):
            self.fact(st, False, 'alloc-status', 'no status returned')
            return
        okst = or_(eq(ret, I(S.ALLOC_FAILED)), eq(ret, I(out.status)) if out.status != S.SUCCESS and out.status is not None else FALSE)
        self.goal(st, okst, 'alloc-status', 'status after a failed allocation is %s' % ret)
        if self.w.slot_ptr is not None:
            v = st.mem[self.w.slot_ptr.obj].cells.get(0, (8, None))[1]
            if v is not UNDEF:
                # a tensor handed out in spite of the failure must be a complete one
                try:
                    ids, _ = self.fields(st, v)
                    self.fact(st, ids is not None, 'alloc-output', '*output is not a complete tensor')
                except Unsupported:
                    self.fact(st, False, 'alloc-output', '*output is not a complete tensor')
        if self.inst.func == 'aitisa_create':
            self.leaks(st, set(getattr(self.w, 'owned', {}).values()), 'alloc-leak')
        self.frame(st)

    def cell(self, o, off, n):
        c = o.cells.get(off)
        if c is None or c[0] != n:
            raise Unsupported('field %s+%d not written as %d bytes' % (o.name, off, n))
        return c[1]

    def fields(self, st, v):
        L = self.L
        if not isinstance(v, Ptr) or v.obj is None or v.off is not ZERO:
            return None, None
        o = st.mem[v.obj]
        if not o.alive:
            return None, None
        sh = L['off_TensorImpl__shape']
        ly = sh + L['off_Shape_layout']
        f = {}
        f['size'] = self.cell(o, L['off_TensorImpl__size'], 8)
        f['offset'] = self.cell(o, L['off_TensorImpl__offset'], 8)
        f['ndim'] = self.cell(o, sh + L['off_Shape_ndim'], 8)
        f['dims'] = self.cell(o, sh + L['off_Shape_dims'], 8)
        f['layout'] = self.cell(o, ly + L['off_Layout_type'], 4)
        f['min2maj'] = self.cell(o, ly + L['off_Layout_min2maj'], 8)
        sp = self.cell(o, L['off_TensorImpl__storage'], 8)
        if not isinstance(sp, Ptr) or sp.obj is None:
            return None, None
        s = st.mem[sp.obj]
        so = L['off_StorageImpl__dtype']
        f['code'] = self.cell(s, so + L['off_DataType_code'], L['fs_dtypecode'])
        f['es'] = self.cell(s, so + L['off_DataType_size'], L['fs_dtypesize'])
        do = L['off_StorageImpl__device']
        f['dev'] = self.cell(s, do + L['off_Device_type'], 4)
        f['devid'] = self.cell(s, do + L['off_Device_id'], 4)
        f['ssize'] = self.cell(s, L['off_StorageImpl__size'], 8)
        f['data'] = self.cell(s, L['off_StorageImpl__data'], 8)
        ids = [v.obj, sp.obj]
        for k in ('dims', 'min2maj', 'data'):
            p = f[k]
            if isinstance(p, Ptr) and p.obj is not None:
                if not st.mem[p.obj].alive:
                    return None, None
                ids.append(p.obj)
        return ids, f

    def tensor(self, st, v, out):
        """the handed-out tensor is complete, fresh, dense row-major, and has the described contents"""
        ex, w, L = self.ex, self.w, self.L
        td = out.res
        K = 'meta'
        if v is UNDEF or v is None:
            self.fact(st, False, K, '*output not set')
            return None
        ids, f = self.fields(st, v)
        if not self.fact(st, ids is not None, K, '*output is a live, complete tensor'):
            return None
        n = len(td.dims)
        objs = [st.mem[i] for i in ids]
        own = set(getattr(w, 'owned', {}).values())
        self.fact(st, len(set(ids)) == len(ids), 'fresh', 'blocks of the result are distinct')
        self.fact(st, all(o.kind == 'heap' and o.tag == 'raw' for o in objs), 'fresh', 'the result owns blocks from the library allocator, none shared with an input')
        if td.adopt:
            self.fact(st, isinstance(f['data'], Ptr) and f['data'].obj == w.owned[td.adopt] and f['data'].off is ZERO, K, 'data block adopted')
        else:
            self.fact(st, not (own & set(ids)), 'fresh', 'no caller block adopted')
        sz = S.prod(td.dims)
        E = lambda a, b, d: self.eqv(st, a, b, K, d)
        E(f['size'], sz, 'size')
        E(f['offset'], ZERO, 'offset')
        E(f['ndim'], I(n), 'rank')
        E(f['layout'], I(L['lay_DENSE']), 'layout')
        E(f['code'], I(w.code(td.dt)), 'data type code')
        E(wrapU(8, f['es']), I(DT[td.dt][0]), 'element size')
        E(f['dev'], td.dev[0], 'device type')
        E(f['devid'], td.dev[1], 'device id')
        E(f['ssize'], sz, 'storage size')
        if n:
            for nm, vals in (('dims', td.dims), ('min2maj', [I(n - 1 - i) for i in range(n)])):
                p = f[nm]
                if not self.fact(st, isinstance(p, Ptr) and p.obj is not None and p.off is ZERO, K, nm + ' array'):
                    return set(ids)
                o = st.mem[p.obj]
                self.goal(st, le(I(8 * n), o.size), K, nm + ' array large enough')
                for i, x in enumerate(vals):
                    c = o.cells.get(8 * i)
                    if c is None or c[0] != 8:
                        if o.array:
                            val = ex.read_array(st, o, I(i), ir.IntTy(64))
                        else:
                            self.fact(st, False, K, '%s[%d] not written' % (nm, i))
                            continue
                    else:
                        val = c[1]
                    E(val, x, '%s[%d]' % (nm, i))
        else:
            self.fact(st, f['dims'] == NULL and f['min2maj'] == NULL, K, 'a scalar has no dims')
        p = f['data']
        if not self.fact(st, isinstance(p, Ptr) and p.obj is not None and p.off is ZERO, K, 'data block'):
            return set(ids)
        es = DT[td.dt][0]
        d = st.mem[p.obj]
        self.goal(st, le(mul(I(es), sz), d.size), K, 'data block holds every element')
        if td.content is not None and not out.any_content:
            self.content(st, d, td, sz)
        return set(ids)

    def content(self, st, d, td, sz):
        ex = self.ex
        es = DT[td.dt][0]
        s2 = st.copy()
        # arbitrary element
        if td.mode == 'lin':
            if sz is ONE:
                lin = ZERO
            else:
                lin = fresh('ix', 'I', 0, I64MAX)
                s2.ctx.assume(lt(lin, sz))
            want = td.content(None, lin)
        else:
            cs = []
            for x in td.dims:
                if x is ONE:
                    cs.append(ZERO)
                else:
                    c = fresh('ix', 'I', 0, I64MAX)
                    s2.ctx.assume(lt(c, x))
                    cs.append(c)
            if s2.ctx.dead:
                return
            lin = S.rowmajor(cs, td.dims)
            want = td.content(cs, lin)
            # the linear index of in-range coordinates is below the size (lemma rowmajor-range)
            s2.ctx.assume(lt(lin, sz))
        if s2.ctx.dead or s2.ctx.prove(FALSE) == 'yes':
            return
        fails = len(ex.failures)
        try:
            got = ex.load(s2, Ptr(d.id, mul(I(es), lin)), elem_ty(td.dt))
        except PathEnd:
            if len(ex.failures) == fails:
                self.fact(s2, False, 'value', 'element not readable')
            return
        except ForkOn as e:
            for c in e.conds:
                s3 = s2.copy()
                s3.ctx.assume(c)
                if s3.ctx.dead or s3.ctx.prove(FALSE) == 'yes':
                    continue
                got = ex.load(s3, Ptr(d.id, mul(I(es), lin)), elem_ty(td.dt))
                self.eqv(s3, got, want, 'value', 'element at %s' % lin)
            return
        if not isinstance(got, T):
            self.fact(s2, False, 'value', 'element value is not a number')
            return
        self.eqv(s2, got, want, 'value', 'element at %s' % lin)


def verify(prog, inst, deadline=None, alloc_fail=False, contracts=None, custom=None):
    R = Result(inst.name)
    t0 = time.time()
    z0 = (prover.STATS['z3_calls'], prover.STATS['z3_time'])
    w = World(prog, contracts, deadline)
    w.ex.alloc_fail = alloc_fail
    try:
        args, slot, bufs = arg_world(w, inst)
        w.slot_ptr, w.bufs = slot, bufs
        if not hasattr(w, 'owned'):
            w.owned = {}
        f = prog.funcs[inst.func]
        ck = Checker(w, inst)
        finals = w.ex.call_func(w.st, f, args, top=True)
        for st, ret in finals:
            if st.ctx.dead or st.ctx.prove(FALSE) == 'yes':
                continue
            R.paths += 1
            try:
                ck.final(st, ret)
            except PathEnd:
                pass
        if not R.paths and not w.ex.failures:
            R.verdict, R.why = 'unsupported', 'no path reaches the end'
    except Budget as e:
        R.verdict, R.why = 'timeout', str(e)
    except Unsupported as e:
        R.verdict, R.why = 'unsupported', '%s @%s' % (e, w.ex.cur)
    except (PathEnd, ForkOn, NeedSummary) as e:
        R.verdict, R.why = 'unsupported', 'control flow: %s %s' % (type(e).__name__, e)
    except RecursionError as e:
        R.verdict, R.why = 'unsupported', 'term depth'
    except Exception as e:
        R.verdict, R.why = 'unsupported', 'tool: %s %s' % (type(e).__name__, traceback.format_exc()[-700:])
    R.obl = {k: list(v) for k, v in w.ex.obl.items()}
    R.failures = [(x.kind, x.where, str(x.goal)[:400], str(x.detail)[:900], x.result,
                   None if x.model is None else {str(k): v for k, v in x.model.items() if k.op in ('var',)}) for x in w.ex.failures]
    if R.failures:
        R.verdict = 'failed'
    R.funcs = sorted(set('%s:%s' % (a, b) for a, b in w.ex.used_funcs))
    R.contracts = dict(w.ex.used_contracts)
    R.lemmas = sorted(w.ex.lemmas)
    R.time = time.time() - t0
    R.z3 = (prover.STATS['z3_calls'] - z0[0], prover.STATS['z3_time'] - z0[1])
    return R


if __name__ == '__main__':
    import re
    prog = ir.load(os.environ.get('VREPO', '/repo'))
    pat = re.compile(sys.argv[1])
    lim = float(sys.argv[2]) if len(sys.argv) > 2 else 60
    af = 'af' in sys.argv[3:]
    for i in S.build():
        if pat.search(i.name):
            r = verify(prog, i, time.time() + lim, alloc_fail=af)
            print('%-40s %-12s %6.1fs paths %d obl %s %s' % (i.name, r.verdict, r.time, r.paths, sum(v[0] for v in r.obl.values()), r.why), flush=True)
            for f in r.failures[:6]:
                print('      ', f)
