"""construction of symbolic inputs for the real functions"""
from terms import *
import terms as tm
from mem import *
import ir
from symex import Exec, State, I64MAX

DT = {  # name: (es, sort, signed)
    'int8': (1, 'I', True), 'uint8': (1, 'I', False), 'int16': (2, 'I', True), 'uint16': (2, 'I', False),
    'int32': (4, 'I', True), 'uint32': (4, 'I', False), 'int64': (8, 'I', True), 'uint64': (8, 'I', False),
    'float': (4, 'F', None), 'double': (8, 'D', None)}
DTS = list(DT)
INT_DTS = [d for d in DTS if DT[d][1] == 'I']
FLT_DTS = ['float', 'double']


class World:
    def __init__(self, prog, contracts=None, deadline=None):
        self.prog = prog
        self.L = prog.layout
        self.ex = Exec(prog, contracts, deadline)
        self.st = State()
        self.allocator()
        self.tensors = {}

    def code(self, dt):
        return self.L['ty_' + dt]

    def allocator(self):
        ex, st = self.ex, self.st
        for m in self.prog.mods:
            if '_g_default_cpu_allocator' in m.globals and not m.globals['_g_default_cpu_allocator']['ext']:
                p = ex.global_ptr(st, m, '_g_default_cpu_allocator')
                o = st.w(p.obj)
                o.cells[0] = (8, Ptr(('ext', '$raw_alloc'), ZERO))
                o.cells[8] = (8, Ptr(('ext', '$raw_dealloc'), ZERO))
                return
        raise Unsupported('allocator global not found')

    def obj(self, name, size, tag='raw', ro=True, kind='input'):
        o = self.ex.new_obj(self.st, kind, name, size, tag)
        o.ro = ro
        return o

    def slot(self, name='out'):
        """a caller-owned Tensor variable"""
        o = self.obj(name, I(8), None, False)
        o.tag = None
        o.cells[0] = (8, UNDEF)
        return Ptr(o.id)

    def dtype_pieces(self, code, es):
        L = self.L
        return [(L['off_DataType_code'], L['fs_dtypecode'], code), (L['off_DataType_size'], L['fs_dtypesize'], es)]

    def dtype(self, dt):
        es = DT[dt][0]
        return Blob(self.L['sz_DataType'], tuple(self.dtype_pieces(I(self.code(dt)), I(es))))

    def dtype_raw(self, code, es):
        return Blob(self.L['sz_DataType'], tuple(self.dtype_pieces(code, es)))

    def device(self, ty, id_=ZERO):
        L = self.L
        return Blob(L['sz_Device'], ((L['off_Device_type'], 4, ty), (L['off_Device_id'], 4, id_)))

    def int_array(self, name, vals, es=8, tag='raw', ro=True):
        """constant-length array of integers"""
        o = self.obj(name, I(es * len(vals)), tag, ro)
        for i, v in enumerate(vals):
            o.cells[es * i] = (es, v)
        return Ptr(o.id)

    def elem_base(self, name, dt):
        es, sort, sg = DT[dt]
        if sort == 'I':
            lo, hi = -(1 << (8 * es - 1)), (1 << (8 * es - 1)) - 1
            return AppBase('el:' + name, 'I', lo, hi)
        return AppBase('el:' + name, sort)

    def tensor(self, name, dt, dims, device=ZERO, devid=ZERO, size=None, null_data=False):
        """an input tensor with the given dims (list of terms); facts about the dims are the caller's business"""
        L, st = self.L, self.st
        es = DT[dt][0]
        n = len(dims)
        sz = mul(*dims) if dims else ONE
        t = self.obj(name, I(L['sz_TensorImpl']))
        s = self.obj(name + '.storage', I(L['sz_StorageImpl']))
        if n:
            dp = self.int_array(name + '.dims', dims)
            mp = self.int_array(name + '.min2maj', [I(n - 1 - i) for i in range(n)])
        else:
            dp = mp = NULL
        d = self.obj(name + '.data', mul(sz, I(es)))
        d.array = True
        d.base = self.elem_base(name, dt)
        d.es = es
        d.ety = ir.IntTy(8 * es) if DT[dt][1] == 'I' else (ir.FLOAT if dt == 'float' else ir.DOUBLE)
        sh = L['off_TensorImpl__shape']
        ly = sh + L['off_Shape_layout']
        t.cells[L['off_TensorImpl__size']] = (8, sz)
        t.cells[L['off_TensorImpl__offset']] = (8, ZERO)
        t.cells[sh + L['off_Shape_ndim']] = (8, I(n))
        t.cells[sh + L['off_Shape_dims']] = (8, dp)
        t.cells[ly + L['off_Layout_type']] = (4, I(L['lay_DENSE']))
        t.cells[ly + L['off_Layout_min2maj']] = (8, mp)
        t.cells[L['off_TensorImpl__storage']] = (8, Ptr(s.id))
        o = L['off_StorageImpl__dtype']
        for po, ps, pv in self.dtype_pieces(I(self.code(dt)), I(es)):
            s.cells[o + po] = (ps, pv)
        o = L['off_StorageImpl__device']
        s.cells[o + L['off_Device_type']] = (4, device)
        s.cells[o + L['off_Device_id']] = (4, devid)
        s.cells[L['off_StorageImpl__size']] = (8, sz)
        s.cells[L['off_StorageImpl__data']] = (8, Ptr(d.id))
        self.tensors[name] = dict(name=name, dt=dt, dims=list(dims), device=device, devid=devid, size=sz, obj=t.id, data=d.id)
        return Ptr(t.id)

    def dims(self, name, n, es=8, lo=1, hi=None):
        ds = [var('%s%d' % (name, i), 'I', lo, hi or I64MAX) for i in range(n)]
        self.size_facts(ds, es)
        return ds

    def size_facts(self, ds, es=8):
        if ds:
            self.st.ctx.assume(le(mul(I(es), *ds), I(I64MAX)))
            # consequences of dims >= 1: every sub-product is bounded by the whole
            import itertools
            n = len(ds)
            for r in range(1, n + 1):
                for c in itertools.combinations(ds, r):
                    self.st.ctx.assume(le(mul(I(es), *c), I(I64MAX)))

    def run(self, fname, args):
        f = self.prog.funcs[fname]
        return self.ex.call_func(self.st, f, args, top=True)
