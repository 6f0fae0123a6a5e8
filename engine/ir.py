"""Front end: compile the real sources of /repo with clang -O0 and parse the LLVM IR text."""
import os, re, subprocess, glob, hashlib

CLANG = None
for c in ('/usr/lib/llvm-18/bin/clang', '/usr/bin/clang-18', '/usr/bin/clang'):
    if os.path.exists(c):
        CLANG = c
        break


class ParseError(Exception):
    pass


class Ty:
    """LLVM type: kind in int,float,double,ptr,struct,array,void"""
    __slots__ = ('kind', 'bits', 'fields', 'n', 'elem', 'size', 'align', 'offs', 'name')

    def __init__(self, kind, **kw):
        self.kind = kind
        self.bits = kw.get('bits')
        self.fields = kw.get('fields')
        self.n = kw.get('n')
        self.elem = kw.get('elem')
        self.name = kw.get('name')
        self.layout()

    def layout(self):
        k = self.kind
        self.offs = None
        if k == 'int':
            self.size = (self.bits + 7) // 8
            s = 1
            while s < self.size:
                s *= 2
            self.align = s
        elif k == 'float':
            self.size = self.align = 4
        elif k == 'double':
            self.size = self.align = 8
        elif k == 'ptr':
            self.size = self.align = 8
        elif k == 'void':
            self.size = self.align = 0
        elif k == 'array':
            self.size = self.n * self.elem.size
            self.align = self.elem.align
        elif k == 'struct':
            off = 0
            al = 1
            self.offs = []
            for f in self.fields:
                off = (off + f.align - 1) // f.align * f.align
                self.offs.append(off)
                off += f.size
                al = max(al, f.align)
            self.size = (off + al - 1) // al * al
            self.align = al
        else:
            self.size = self.align = 0

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.bits
        if self.kind == 'array':
            return '[%d x %r]' % (self.n, self.elem)
        if self.kind == 'struct':
            return self.name or '{%s}' % ','.join(map(repr, self.fields))
        return self.kind


_int = {}


def IntTy(n):
    if n not in _int:
        _int[n] = Ty('int', bits=n)
    return _int[n]


FLOAT = Ty('float')
DOUBLE = Ty('double')
PTR = Ty('ptr')
VOID = Ty('void')
OTHER = Ty('other')

TOK = re.compile(r'\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|[%@!#][-A-Za-z0-9_.$]+|[-A-Za-z0-9_.$+]+|\.\.\.|[^\s])')


def tokenize(s):
    return TOK.findall(s)


class P:
    """token stream over one line"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, *xs):
        if self.peek() in xs:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ParseError('expected %r got %r in %s' % (x, y, ' '.join(self.t)))

    def type(self):
        t = self.next()
        if t is None:
            raise ParseError('type expected: ' + ' '.join(self.t))
        if re.fullmatch(r'i\d+', t):
            ty = IntTy(int(t[1:]))
        elif t == 'float':
            ty = FLOAT
        elif t == 'double':
            ty = DOUBLE
        elif t == 'ptr':
            ty = PTR
        elif t == 'void':
            ty = VOID
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            ty = Ty('array', n=n, elem=e)
        elif t == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            ty = Ty('struct', fields=fs)
        elif t.startswith('%'):
            ty = self.mod.named_type(t)
        elif t in ('x86_fp80', 'metadata', 'label', 'half', 'fp128', 'token'):
            ty = Ty('other', name=t)
        elif t == '<':
            raise ParseError('vector type')
        else:
            raise ParseError('unknown type %r in %s' % (t, ' '.join(self.t)))
        # function type?
        if self.peek() == '(':
            self.skip_parens()
        return ty

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            t = self.next()
            if t is None:
                raise ParseError('parens')
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1

    PARAM_ATTRS = {'noundef', 'signext', 'zeroext', 'noalias', 'nonnull', 'nocapture', 'readonly', 'readnone',
                   'writeonly', 'returned', 'inreg', 'immarg', 'noreturn', 'dead_on_unwind', 'writable', 'noreturn', 'noescape', 'noinline', 'nest', 'allocptr'}

    def attrs(self):
        """skip parameter attributes, returning dict of byval/sret"""
        out = {}
        while True:
            t = self.peek()
            if t in self.PARAM_ATTRS:
                self.i += 1
            elif t in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                self.i += 1
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.i += 1
            elif t in ('byval', 'sret', 'byref', 'inalloca', 'elementtype', 'preallocated'):
                self.i += 1
                self.expect('(')
                out[t] = self.type()
                self.expect(')')
            else:
                return out

    def value(self, ty):
        """operand: ('reg',name) ('int',n) ('fp',x) ('null',) ('glob',name) ('undef',) ('zero',) ('agg',[..]) ('str',b) ('gepc',...)"""
        t = self.next()
        if t.startswith('%'):
            return ('reg', t)
        if t.startswith('@'):
            return ('glob', t)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t.startswith('c"'):
            return ('str', _unesc(t[2:-1]))
        if t in ('[', '{'):
            close = {'[': ']', '{': '}'}[t]
            els = []
            if not self.accept(close):
                while True:
                    ety = self.type()
                    els.append((ety, self.value(ety)))
                    if self.accept(close):
                        break
                    self.expect(',')
            return ('agg', els)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            base_ty = self.type()
            self.expect(',')
            self.type()
            base = self.value(PTR)
            idx = []
            while self.accept(','):
                ity = self.type()
                idx.append((ity, self.value(ity)))
            self.expect(')')
            return ('gepc', base_ty, base, idx)
        if t == 'inttoptr' or t == 'ptrtoint':
            raise ParseError(t)
        if ty.kind in ('float', 'double'):
            import struct
            if t.startswith('0x'):
                h = t[2:]
                if h[0] in 'KLMHR':
                    raise ParseError('fp const')
                v = struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
                return ('fp', v)
            return ('fp', float(t))
        if re.fullmatch(r'-?\d+', t):
            return ('int', int(t))
        raise ParseError('value %r in %s' % (t, ' '.join(self.t)))


def _unesc(s):
    out = bytearray()
    i = 0
    b = s.encode('utf-8')
    while i < len(b):
        if b[i] == 0x5c:
            if b[i + 1] == 0x5c:
                out.append(0x5c)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'flags')

    def __init__(self, op, res, ty, a, line, flags=()):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.line = line
        self.flags = flags

    def __repr__(self):
        return '%s=%s %r %r' % (self.res, self.op, self.ty, self.a)


class Block:
    def __init__(self, name):
        self.name = name
        self.instrs = []


class Func:
    def __init__(self, name, mod):
        self.name = name
        self.mod = mod
        self.params = []     # (reg, Ty, attrs)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.internal = False
        self.loops = None

    def succs(self, b):
        i = self.blocks[b].instrs[-1]
        if i.op == 'br':
            return [i.a[0]]
        if i.op == 'cbr':
            return [i.a[1], i.a[2]]
        if i.op == 'switch':
            return [i.a[1]] + [x[1] for x in i.a[2]]
        return []


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.typetext = {}
        self.funcs = {}
        self.globals = {}
        self.decls = {}
        self.dbg = {}

    def named_type(self, n):
        if n in self.types:
            return self.types[n]
        txt = self.typetext.get(n)
        if txt is None:
            raise ParseError('type ' + n)
        if txt.strip() == 'opaque':
            ty = Ty('other', name=n)
        else:
            ty = P(tokenize(txt), self).type()
            ty.name = n
        self.types[n] = ty
        return ty


def strip_meta(line):
    """remove trailing ', !dbg !N' etc, return (line, dbgid)"""
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
    line = re.sub(r', ![A-Za-z.]+ !\d+', '', line)
    line = re.sub(r' #\d+$', '', line)
    return line, dbg


def parse_module(text, path):
    mod = Module(path)
    lines = text.split('\n')
    for l in lines:
        m = re.match(r'(%[-A-Za-z0-9_.$"]+) = type (.*)$', l)
        if m:
            mod.typetext[m.group(1)] = m.group(2)
        m = re.match(r'!(\d+) = !DILocation\(line: (\d+)', l)
        if m:
            mod.dbg[int(m.group(1))] = int(m.group(2))
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('@'):
            parse_global(mod, l)
        elif l.startswith('define'):
            i = parse_func(mod, lines, i)
        elif l.startswith('declare'):
            m = re.search(r'@([-A-Za-z0-9_.$]+)\(', l)
            mod.decls[m.group(1)] = l
        i += 1
    return mod


def parse_global(mod, l):
    m = re.match(r'@([-A-Za-z0-9_.$]+) = (.*)$', l)
    name, rest = m.group(1), m.group(2)
    rest, _ = strip_meta(rest)
    toks = tokenize(rest)
    p = P(toks, mod)
    ext = False
    const = False
    internal = False
    while True:
        t = p.peek()
        if t in ('private', 'internal'):
            internal = True
            p.next()
        elif t in ('external', 'extern_weak'):
            ext = True
            p.next()
        elif t == 'constant':
            const = True
            p.next()
            break
        elif t == 'global':
            p.next()
            break
        elif t is None:
            return
        else:
            p.next()
            if p.peek() == '(':
                p.skip_parens()
    ty = p.type()
    init = None
    if not ext:
        init = p.value(ty)
    mod.globals[name] = dict(ty=ty, init=init, const=const, internal=internal, ext=ext)


def parse_func(mod, lines, i):
    l = lines[i]
    m = re.search(r'@([-A-Za-z0-9_.$]+)\(', l)
    name = m.group(1)
    f = Func(name, mod)
    f.internal = ' internal ' in l[:m.start()]
    toks = tokenize(strip_meta(l)[0])
    # return type: the token(s) just before @name
    k = toks.index('@' + name)
    # find params
    p = P(toks, mod)
    p.i = 1
    while True:
        t = p.peek()
        if t in ('dso_local', 'internal', 'private', 'hidden', 'default', 'noundef', 'signext', 'zeroext', 'linkonce_odr',
                 'weak', 'available_externally', 'noalias', 'protected', 'local_unnamed_addr'):
            p.next()
        else:
            break
    p.attrs()
    f.ret = p.type()
    p.i = k + 1
    p.expect('(')
    n = 0
    if not p.accept(')'):
        while True:
            if p.peek() == '...':
                p.next()
                p.expect(')')
                break
            ty = p.type()
            at = p.attrs()
            t = p.peek()
            if t and t.startswith('%'):
                p.next()
                reg = t
            else:
                reg = '%' + str(n)
            n += 1
            f.params.append((reg, ty, at))
            if p.accept(')'):
                break
            p.expect(',')
    entry = '%' + str(len(f.params))
    cur = Block(entry)
    f.blocks[entry] = cur
    f.order.append(entry)
    i += 1
    first = True
    while not lines[i].startswith('}'):
        l = lines[i]
        i += 1
        s = l.strip()
        if not s or s.startswith(';'):
            continue
        m = re.match(r'^([-A-Za-z0-9_.$]+|"[^"]*"):', l)
        if m:
            nm = '%' + m.group(1)
            if first and not cur.instrs:
                del f.blocks[entry]
                f.order.pop()
            cur = Block(nm)
            f.blocks[nm] = cur
            f.order.append(nm)
            first = False
            continue
        first = False
        # multi-line switch
        if re.match(r'^\s+switch ', l) and ']' not in l:
            while ']' not in lines[i]:
                l += ' ' + lines[i].strip()
                i += 1
            l += ' ' + lines[i].strip()
            i += 1
        cur.instrs.append(parse_instr(mod, l))
    mod.funcs[name] = f
    return i


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint',
        'inttoptr', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg'}


def parse_instr(mod, l):
    s, dbg = strip_meta(l.strip())
    line = mod.dbg.get(dbg)
    res = None
    toks = tokenize(s)
    if len(toks) > 2 and toks[1] == '=':
        res = toks[0]
        toks = toks[2:]
    p = P(toks, mod)
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                cty = p.type()
                cnt = (cty, p.value(cty))
        return Instr('alloca', res, ty, [cnt], line)
    if op == 'load':
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        p.type()
        return Instr('load', res, ty, [p.value(PTR)], line)
    if op == 'store':
        p.accept('volatile')
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.type()
        return Instr('store', None, ty, [v, p.value(PTR)], line)
    if op == 'getelementptr':
        fl = []
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            fl.append(p.next())
        ty = p.type()
        p.expect(',')
        p.type()
        base = p.value(PTR)
        idx = []
        while p.accept(','):
            ity = p.type()
            idx.append((ity, p.value(ity)))
        return Instr('gep', res, ty, [base, idx], line, tuple(fl))
    if op in BIN:
        fl = []
        while p.peek() in FLAGS:
            fl.append(p.next())
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Instr(op, res, ty, [a, b], line, tuple(fl))
    if op == 'fneg':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        return Instr('fneg', res, ty, [p.value(ty)], line)
    if op in CAST:
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        v = p.value(ty)
        p.expect('to')
        t2 = p.type()
        return Instr(op, res, t2, [v, ty], line)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Instr(op, res, ty, [pred, a, b], line)
    if op == 'br':
        if p.accept('label'):
            return Instr('br', None, None, [p.next()], line)
        ty = p.type()
        c = p.value(ty)
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        return Instr('cbr', None, None, [c, a, p.next()], line)
    if op == 'switch':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cs = []
        while not p.accept(']'):
            t = p.type()
            n = p.value(t)
            p.expect(',')
            p.expect('label')
            cs.append((n[1], p.next()))
        return Instr('switch', None, ty, [v, d, cs], line)
    if op == 'ret':
        ty = p.type()
        if ty.kind == 'void':
            return Instr('ret', None, ty, [None], line)
        return Instr('ret', None, ty, [p.value(ty)], line)
    if op == 'unreachable':
        return Instr('unreachable', None, None, [], line)
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            inc.append((v, p.next()))
            p.expect(']')
            if not p.accept(','):
                break
        return Instr('phi', res, ty, [inc], line)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        cty = p.type()
        c = p.value(cty)
        p.expect(',')
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        p.type()
        b = p.value(ty)
        return Instr('select', res, ty, [c, a, b], line)
    if op == 'freeze':
        ty = p.type()
        return Instr('freeze', res, ty, [p.value(ty)], line)
    if op in ('extractvalue',):
        ty = p.type()
        v = p.value(ty)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr('extractvalue', res, ty, [v, idx], line)
    if op == 'insertvalue':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        t2 = p.type()
        v2 = p.value(t2)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr('insertvalue', res, ty, [v, t2, v2, idx], line)
    if op == 'call':
        while p.peek() in FLAGS or p.peek() in ('noundef', 'signext', 'zeroext', 'noalias', 'nonnull', 'fastcc', 'ccc'):
            p.next()
        p.attrs()
        ty = p.type()
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = p.type()
                at = p.attrs()
                if t.kind == 'other':
                    # metadata argument
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        d += (x == '(') - (x == ')')
                    v = ('undef',)
                else:
                    v = p.value(t)
                args.append((t, v, at))
                if p.accept(')'):
                    break
                p.expect(',')
        return Instr('call', res, ty, [callee, args], line)
    raise ParseError('instr ' + s)


# ------------------------------------------------------------------ loops
def find_loops(f):
    """natural loops: header -> set(blocks)"""
    if f.loops is not None:
        return f.loops
    preds = {b: [] for b in f.order}
    for b in f.order:
        for s in f.succs(b):
            preds[s].append(b)
    # dominators (iterative)
    allb = set(f.order)
    dom = {b: set(allb) for b in f.order}
    entry = f.order[0]
    dom[entry] = {entry}
    reach = set()
    st = [entry]
    while st:
        b = st.pop()
        if b in reach:
            continue
        reach.add(b)
        st.extend(f.succs(b))
    chg = True
    while chg:
        chg = False
        for b in f.order[1:]:
            if b not in reach:
                continue
            ps = [dom[p] for p in preds[b] if p in reach]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]:
                dom[b] = n
                chg = True
    loops = {}
    for b in f.order:
        if b not in reach:
            continue
        for s in f.succs(b):
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in preds[x] if p in reach)
    # irreducible check: every retreating edge must be a back edge
    f.loops = loops
    return loops


class Program:
    def __init__(self):
        self.mods = []
        self.funcs = {}     # external name -> Func
        self.globals = {}   # name -> (mod, dict)
        self.layout = {}
        self.digest = None

    def resolve(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return f
        return self.funcs.get(name)

    def resolve_global(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and not g['ext']:
            return (mod, g)
        return self.globals.get(name)


PROBE = r'''
#include <stddef.h>
#include "src/core/tensor.h"
#include "src/core/allocator.h"
#define F(T,f) const unsigned long off_##T##_##f = offsetof(T,f);
typedef struct _TensorImpl TensorImpl_;
typedef struct { char c; __typeof__(*((Storage)0)) s; } SI_;
typedef __typeof__(*((Storage)0)) StorageImpl_;
const unsigned long sz_TensorImpl = sizeof(TensorImpl_);
const unsigned long sz_StorageImpl = sizeof(StorageImpl_);
const unsigned long sz_DataType = sizeof(DataType);
const unsigned long sz_Device = sizeof(Device);
const unsigned long sz_Shape = sizeof(Shape);
const unsigned long sz_Layout = sizeof(Layout);
F(TensorImpl_,size) F(TensorImpl_,offset) F(TensorImpl_,shape) F(TensorImpl_,storage)
F(Shape,ndim) F(Shape,dims) F(Shape,layout)
F(Layout,type) F(Layout,min2maj)
F(StorageImpl_,dtype) F(StorageImpl_,device) F(StorageImpl_,size) F(StorageImpl_,data)
F(DataType,code) F(DataType,size) F(Device,type) F(Device,id)
const unsigned long st_SUCCESS = STATUS_SUCCESS, st_TYPE_MISMATCH = STATUS_TYPE_MISMATCH,
 st_DIMENSIONS_MISMATCH = STATUS_DIMENSIONS_MISMATCH, st_INVALID_ARGUMENT = STATUS_INVALID_ARGUMENT,
 st_NOT_SUPPORTED = STATUS_NOT_SUPPORTED, st_ALLOC_FAILED = STATUS_ALLOC_FAILED,
 st_OUT_OF_RANGE = STATUS_OUT_OF_RANGE, st_INTERNAL_ERROR = STATUS_INTERNAL_ERROR, st_MATH_ERROR = STATUS_MATH_ERROR;
const unsigned long dev_CPU = DEVICE_CPU, dev_CUDA = DEVICE_CUDA, lay_DENSE = LAYOUT_DENSE;
const unsigned long ty_int8=TYPE_INT8, ty_uint8=TYPE_UINT8, ty_int16=TYPE_INT16, ty_uint16=TYPE_UINT16, ty_int32=TYPE_INT32,
 ty_uint32=TYPE_UINT32, ty_int64=TYPE_INT64, ty_uint64=TYPE_UINT64, ty_float=TYPE_FLOAT, ty_double=TYPE_DOUBLE, ty_NTYPES=TYPE_NTYPES;
const unsigned long fs_dtypecode = sizeof(((DataType*)0)->code), fs_dtypesize = sizeof(((DataType*)0)->size);
'''


def compile_ll(src, repo, extra=()):
    cmd = [CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-std=gnu11', '-ffp-contract=off',
           '-fno-builtin', '-fwrapv-pointer' if False else '-w', '-S', '-emit-llvm', '-I' + repo, '-o', '-', src] + list(extra)
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=repo)
    if r.returncode:
        raise ParseError('clang failed on %s:\n%s' % (src, r.stderr[-2000:]))
    return r.stdout


def strip_debug(t):
    out = []
    for l in t.splitlines():
        if l.startswith(('!', ';', 'source_filename')) or 'llvm.dbg' in l:
            continue
        out.append(re.sub(r', !\w+ !\d+|!dbg !\d+| #\d+', '', l))
    return '\n'.join(out)


def load(repo='/repo'):
    prog = Program()
    srcs = sorted(glob.glob(os.path.join(repo, 'src', '**', '*.c'), recursive=True))
    srcs.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'driver', 'clients.c'))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        texts = list(ex.map(lambda s: compile_ll(s, repo), srcs))
    h = hashlib.sha256()
    for s, t in zip(srcs, texts):
        h.update(strip_debug(t).encode())
        m = parse_module(t, os.path.relpath(s, repo))
        prog.mods.append(m)
        for n, f in m.funcs.items():
            if not f.internal:
                prog.funcs[n] = f
        for n, g in m.globals.items():
            if not g['ext'] and not g['internal']:
                prog.globals[n] = (m, g)
    # layout probe against the real headers
    import tempfile
    with tempfile.NamedTemporaryFile('w', suffix='.c', delete=False) as tf:
        tf.write(PROBE)
    try:
        t = compile_ll(tf.name, repo)
    finally:
        os.unlink(tf.name)
    for m in re.finditer(r'@((?:off|sz|st|dev|lay|ty|fs)_\w+) = .*?constant i64 (\d+)', t):
        prog.layout[m.group(1)] = int(m.group(2))
    prog.digest = h.hexdigest()
    return prog


if __name__ == '__main__':
    p = load()
    print(len(p.mods), len(p.funcs), sum(len(m.funcs) for m in p.mods))
    print(p.layout)
