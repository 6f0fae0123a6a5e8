"""Terms compiled to Python: the executable reading of a specification (oracle of the concrete cross-check)."""
import math, ctypes, struct
import terms as tm
from terms import T, children, fc_val, is_c, cval

_f32 = ctypes.c_float


def r32(x):
    return _f32(x).value


def _div(a, b):
    return a // b if b else 0


def _mod(a, b):
    return a % b if b else 0


def _tdiv(a, b):
    if not b:
        return 0
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _trem(a, b):
    return a - b * _tdiv(a, b) if b else 0


def _ws(n, x):
    x &= (1 << n) - 1
    return x - (1 << n) if x >> (n - 1) else x


def _wu(n, x):
    return x & ((1 << n) - 1)


def _fd(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a != a or a == 0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)


def _fmul(a, b):
    return a * b


def _frem(a, b):
    try:
        return math.fmod(a, b)
    except ValueError:
        return math.nan


def _ftoi(x):
    if x != x or x in (math.inf, -math.inf):
        return 0
    return int(x)


def _itof(x):
    return float(x)


def _itof32(x):
    # correctly rounded int -> float32
    if abs(x) < (1 << 53):
        return r32(float(x))
    import numpy as np
    if -(1 << 63) <= x < (1 << 63):
        return float(np.float32(np.int64(x)))
    return float(np.float32(np.uint64(x)))


def _call(name, *a):
    try:
        if name == 'exp':
            return math.exp(a[0])
        if name == 'sqrt':
            return math.sqrt(a[0]) if a[0] >= 0 or a[0] != a[0] else math.nan
        if name == 'tanh':
            return math.tanh(a[0])
        if name == 'fabs':
            return abs(a[0])
        if name == 'ceil':
            return float(math.ceil(a[0])) if abs(a[0]) < 2**52 else a[0]
        if name == 'floor':
            return float(math.floor(a[0])) if abs(a[0]) < 2**52 else a[0]
    except OverflowError:
        return math.inf
    raise KeyError('no executable reading of ' + name)


def _el(arr, i):
    if 0 <= i < len(arr):
        return arr[i]
    return arr[0] * 0 if len(arr) else 0


NS = dict(r32=r32, _div=_div, _mod=_mod, _tdiv=_tdiv, _trem=_trem, _ws=_ws, _wu=_wu, _fd=_fd, _fmul=_fmul, _frem=_frem,
          _ftoi=_ftoi, _itof=_itof, _itof32=_itof32, _call=_call, _el=_el, inf=math.inf, nan=math.nan, math=math)


class Comp:
    def __init__(self, params):
        self.params = params       # list of var terms that are positional parameters
        self.lines = []
        self.names = {}
        self.vars = {}
        self.arrs = {}
        self.n = 0

    def new(self):
        self.n += 1
        return 't%d' % self.n

    def emit(self, ind, s):
        self.lines.append('    ' * ind + s)

    def go(self, t, ind, scope):
        """scope: dict term.id -> python name, chained: list of dicts innermost last"""
        for s in reversed(scope):
            if t.id in s:
                return s[t.id]
        op = t.op
        if op == 'c':
            return repr(t.args[0]) if t.args[0] >= 0 else '(%d)' % t.args[0]
        if op == 'fc':
            v = fc_val(t)
            if v != v:
                return 'nan'
            if v in (math.inf, -math.inf):
                return '(inf)' if v > 0 else '(-inf)'
            return '(%r)' % v
        if op == 'true':
            return 'True'
        if op == 'false':
            return 'False'
        if op == 'var' or op == 'bvar':
            nm = t.args[0]
            k = self.vars.setdefault(nm, 'v%d' % len(self.vars))
            return k
        # which scope level does the value belong to (deepest binder it depends on)
        lvl_scope = scope[-1]
        if op == 'fold':
            n, init, body, lvl = t.args
            nn = self.go(n, ind, scope)
            ii = self.go(init, ind, scope)
            acc, q = self.new(), self.new()
            self.emit(ind, '%s = %s' % (acc, ii))
            self.emit(ind, 'for %s in range(%s):' % (q, nn))
            inner = {tm.bq(lvl).id: q, tm.ba(lvl, init.sort).id: acc}
            r = self.go(body, ind + 1, scope + [inner])
            self.emit(ind + 1, '%s = %s' % (acc, r))
            lvl_scope[t.id] = acc
            return acc
        if op == 'exists':
            n, body, lvl = t.args
            nn = self.go(n, ind, scope)
            acc, q = self.new(), self.new()
            self.emit(ind, '%s = False' % acc)
            self.emit(ind, 'for %s in range(%s):' % (q, nn))
            inner = {tm.bq(lvl).id: q}
            r = self.go(body, ind + 1, scope + [inner])
            self.emit(ind + 1, 'if %s:' % r)
            self.emit(ind + 2, '%s = True' % acc)
            self.emit(ind + 2, 'break')
            lvl_scope[t.id] = acc
            return acc
        g = lambda x: self.go(x, ind, scope)
        if op == 'poly':
            parts = []
            for m, c in t.args:
                fs = [g(a) for a in m]
                if c != 1 or not fs:
                    fs.insert(0, '(%d)' % c)
                parts.append('*'.join(fs))
            e = ' + '.join(parts)
        elif op == 'ite' and (t.args[1].op in ('fold',) or t.args[2].op in ('fold',) or self.heavy(t.args[1]) or self.heavy(t.args[2])):
            r = self.new()
            c = g(t.args[0])
            self.emit(ind, 'if %s:' % c)
            a = self.go(t.args[1], ind + 1, scope + [{}])
            self.emit(ind + 1, '%s = %s' % (r, a))
            self.emit(ind, 'else:')
            b = self.go(t.args[2], ind + 1, scope + [{}])
            self.emit(ind + 1, '%s = %s' % (r, b))
            lvl_scope[t.id] = r
            return r
        elif op == 'app':
            nm = t.args[0]
            k = self.arrs.setdefault(nm, 'a%d' % len(self.arrs))
            e = '_el(%s, %s)' % (k, g(t.args[-1]))
        elif op == 'let':
            return g(t.args[0])
        elif op in ('div', 'mod', 'tdiv', 'trem'):
            e = '_%s(%s, %s)' % (op, g(t.args[0]), g(t.args[1]))
        elif op == 'wrapS':
            e = '_ws(%d, %s)' % (t.args[0], g(t.args[1]))
        elif op == 'wrapU':
            e = '_wu(%d, %s)' % (t.args[0], g(t.args[1]))
        elif op == 'le0':
            e = '%s <= 0' % g(t.args[0])
        elif op == 'eq0':
            e = '%s == 0' % g(t.args[0])
        elif op == 'same':
            a, b = g(t.args[0]), g(t.args[1])
            e = '(%s == %s or (%s != %s and %s != %s))' % (a, b, a, a, b, b)
        elif op == 'not':
            e = 'not %s' % g(t.args[0])
        elif op == 'and':
            e = ' and '.join([g(x) for x in t.args])
        elif op == 'or':
            e = ' or '.join([g(x) for x in t.args])
        elif op == 'ite':
            c, a, b = [g(x) for x in t.args]
            e = '%s if %s else %s' % (a, c, b)
        elif op in ('fadd', 'fsub', 'fmul'):
            s = {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op]
            e = '%s %s %s' % (g(t.args[0]), s, g(t.args[1]))
            if t.sort == 'F':
                e = 'r32(%s)' % e
        elif op == 'fdiv':
            e = '_fd(%s, %s)' % (g(t.args[0]), g(t.args[1]))
            if t.sort == 'F':
                e = 'r32(%s)' % e
        elif op == 'frem':
            e = '_frem(%s, %s)' % (g(t.args[0]), g(t.args[1]))
        elif op == 'fneg':
            e = '-%s' % g(t.args[0])
        elif op == 'fext':
            return g(t.args[0])
        elif op == 'ftrunc':
            e = 'r32(%s)' % g(t.args[0])
        elif op == 'itof':
            e = ('_itof(%s)' if t.sort == 'D' else '_itof32(%s)') % g(t.args[0])
        elif op == 'ftoi':
            e = '_ftoi(%s)' % g(t.args[0])
        elif op in ('lt', 'le'):
            e = '%s %s %s' % (g(t.args[0]), '<' if op == 'lt' else '<=', g(t.args[1]))
        elif op == 'feq':
            e = '%s == %s' % (g(t.args[0]), g(t.args[1]))
        elif op == 'uno':
            a, b = g(t.args[0]), g(t.args[1])
            e = '%s != %s or %s != %s' % (a, a, b, b)
        elif op == 'call':
            e = '_call(%r, %s)' % (t.args[0], ', '.join(g(x) for x in t.args[1:]))
            if t.sort == 'F':
                e = 'r32(%s)' % e
        else:
            raise KeyError('pyc: ' + op)
        r = self.new()
        self.emit(ind, '%s = %s' % (r, e))
        lvl_scope[t.id] = r
        return r

    def heavy(self, t):
        return False


def compile_terms(ts, params=()):
    """returns f(env, *params) -> tuple of values; env: dict name -> number | list (arrays by 'el:..' name)"""
    c = Comp(params)
    scope = [{p.id: 'p%d' % i for i, p in enumerate(params)}]
    outs = [c.go(t, 1, scope) for t in ts]
    hdr = ['def build(env):']
    for nm, k in c.vars.items():
        hdr.append('  %s = env[%r]' % (k, nm))
    for nm, k in c.arrs.items():
        hdr.append('  %s = env[%r]' % (k, nm))
    hdr.append('  def f(%s):' % ', '.join('p%d' % i for i in range(len(params))))
    body = ['  ' + l for l in c.lines]
    body.append('      return (%s)' % ''.join(o + ', ' for o in outs))
    src = '\n'.join(hdr + body + ['  return f'])
    ns = dict(NS)
    exec(src, ns)
    ns['build'].__src__ = src
    return ns['build']
