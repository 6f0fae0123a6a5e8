"""Concrete cross-check: the contracts' executable reading against the compiled library.

Random inputs of every contract instance are run through the real objects of /repo/src
(driver.c) and the observed behaviour is compared with what the contract says.  The
role in the framework: a refuted or undischarged obligation is replayed here to get a
failing input, and the trusted core of the verifier (term semantics, contracts) is
cross-examined on every run.  Nothing found here counts as proved."""
import math, os, random, select, shutil, struct, subprocess, sys, tempfile, threading, glob
from concurrent.futures import ThreadPoolExecutor
from terms import *
import terms as tm
import spec as S
from spec import Ten, Ref, Arr, Int, Dbl, DTy, Dev, Str, Null, Slot, Buf, Owned, OwnedTen
from world import DT
import pyc

HERE = os.path.dirname(os.path.abspath(__file__))
FMT = {'int8': 'b', 'uint8': 'B', 'int16': 'h', 'uint16': 'H', 'int32': 'i', 'uint32': 'I', 'int64': 'q', 'uint64': 'Q', 'float': 'f', 'double': 'd'}
SFMT = {'int8': 'b', 'uint8': 'b', 'int16': 'h', 'uint16': 'h', 'int32': 'i', 'uint32': 'i', 'int64': 'q', 'uint64': 'q', 'float': 'f', 'double': 'd'}


class BuildError(Exception):
    pass


def build_driver(repo, out):
    """compile /repo's current sources with the driver; nothing is reused between runs"""
    srcs = sorted(glob.glob(os.path.join(repo, 'src', '**', '*.c'), recursive=True))
    fl = ['-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address', '-fsanitize=bounds', '-fno-sanitize-recover=bounds', '-w', '-I', repo]

    def one(a):
        i, s = a
        o = os.path.join(out, 'o%d.o' % i)
        r = subprocess.run(['gcc'] + fl + ['-c', s, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('%s: %s' % (s, r.stderr[:500]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, enumerate(srcs + [os.path.join(HERE, '..', 'driver', 'driver.c')])))
    exe = os.path.join(out, 'driver')
    w = ','.join('--wrap=' + f for f in ('malloc', 'free', 'calloc', 'realloc', 'rand', 'srand', 'time'))
    r = subprocess.run(['gcc', '-fsanitize=address,bounds'] + objs + ['-Wl,' + w, '-lm', '-o', exe], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('link: ' + r.stderr[:500])
    return exe


class Driver:
    def __init__(self, exe, tmp):
        self.exe, self.tmp = exe, tmp
        self.p = None
        self.crashes = 0

    def start(self):
        self.err = open(os.path.join(self.tmp, 'err%d' % id(self)), 'w+b')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:symbolize=1', UBSAN_OPTIONS='exitcode=99')
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.tmp)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.stdout.close()
            except OSError:
                pass
            self.p.kill()
            self.p.wait()
            self.err.close()
            self.p = None

    def run(self, data):
        """-> dict of what the driver observed"""
        if self.p is None:
            self.start()
        res = {'muts': [], 'modified': [], 'owned': {}, 'bufs': {}, 'rand': [], 'notes': [], 'out': None, 'leak': 0, 'end': False}
        try:
            self.p.stdin.write(struct.pack('<I', len(data)) + data)
            self.p.stdin.flush()
            while True:
                ln = self.p.stdout.readline()
                if not ln:
                    break
                w = ln.decode().split()
                if not w:
                    continue
                k = w[0]
                if k == 'END':
                    res['end'] = True
                    return res
                if k == 'RET':
                    res['ret'] = (int(w[1]), int(w[2]))
                elif k == 'ALLOC':
                    res['nalloc'], res['afailed'] = int(w[1]), int(w[2])
                elif k == 'MODIFIED':
                    res['modified'].append(' '.join(w[1:]))
                elif k == 'MUT':
                    res['muts'].append(bytes.fromhex(w[2]) if len(w) > 2 else b'')
                elif k == 'OWNED':
                    res['owned'][int(w[1])] = int(w[2])
                elif k == 'BUF':
                    res['bufs'][int(w[1])] = bytes.fromhex(w[2]) if len(w) > 2 else b''
                elif k == 'RAND':
                    res['rand'] = [int(x) for x in w[1:]]
                elif k == 'OUT':
                    res['out'] = w[1]
                    if w[1] == 'tensor':
                        t, i = {}, 2
                        while w[i] != 'dims':
                            t[w[i]] = int(w[i + 1])
                            i += 2
                        j = w.index('m')
                        t['dims'] = [int(x) for x in w[i + 1:j]]
                        kk = w.index('nulls')
                        t['m'] = [int(x) for x in w[j + 1:kk]]
                        t['nulls'] = int(w[kk + 1])
                        res['t'] = t
                elif k == 'DATA':
                    res['data'] = bytes.fromhex(w[1]) if len(w) > 1 else b''
                elif k == 'LEAK':
                    res['leak'] = int(w[1])
                elif k == 'NOTE':
                    res['notes'].append(' '.join(w[1:]))
                elif k == 'DESTROY':
                    res['destroy'] = tuple(int(x) for x in w[1:4])
                elif k == 'TIMEOUT':
                    res['timeout'] = True
        except (BrokenPipeError, OSError):
            pass
        self.p.wait()
        self.err.flush()
        self.err.seek(0)
        txt = self.err.read().decode(errors='replace')
        res['crash'] = self.describe(txt, self.p.returncode)
        self.crashes += 1
        self.stop()
        return res

    @staticmethod
    def describe(txt, rc):
        lines = [l.strip() for l in txt.splitlines()]
        head = next((l for l in lines if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'Assertion' in l), '')
        fr = [l for l in lines if l.startswith('#') and '/src/' in l][:3]
        head = head.split('ERROR: ')[-1]
        import re
        head = re.sub(r' (on|at)? ?(unknown )?address 0x[0-9a-f]+.*', '', head)
        return ('exit %s: %s | %s' % (rc, head, ' < '.join(' '.join(l.split()[3:])[-90:] for l in fr)))[:500]


# ------------------------------------------------------------------ values
def ival(rng, lo, hi):
    k = rng.random()
    if k < .15:
        return rng.choice([lo, hi])
    if k < .3:
        return rng.choice([max(lo, min(hi, v)) for v in (-1, 0, 1)])
    if k < .7:
        return rng.randint(max(lo, -10), min(hi, 10))
    return rng.randint(lo, hi)


def values(rng, dt, style, n):
    es, sort, sg = DT[dt]
    b = 8 * es
    if sort == 'I':
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
        if style in ('mid', 'midnz') or style == 'pool' and b == 64:
            m = (1 << (b // 2 - 1)) - 1
            lo, hi = max(lo, -m), min(hi, m)
        elif style == 'exp':
            lo, hi = max(lo, -5), 5
        elif style in ('acc', 'dy'):
            lo, hi = max(lo, -4), 4 if sg else 7
        elif style == 'var':
            lo, hi = 1, 4
        elif style.startswith('cast:'):
            t = style[5:]
            if DT[t][1] == 'I' and rng.random() < .7:
                tb = 8 * DT[t][0]
                tl, th = (-(1 << (tb - 1)), (1 << (tb - 1)) - 1) if DT[t][2] else (0, (1 << tb) - 1)
                if max(lo, tl) <= min(hi, th):
                    lo, hi = max(lo, tl), min(hi, th)
        r = [ival(rng, lo, hi) for _ in range(n)]
        if style.endswith('nz') or style == 'nonzero':
            r = [v if v else rng.choice([1, 2, 3] if not sg else [-3, -1, 1, 2]) for v in r]
        return [v - (1 << b) if v >= 1 << (b - 1) else v for v in r]
    neg = rng.random() < .5

    def one():
        if style in ('acc', 'pool'):
            return rng.randint(-8, 8) / 4
        if style == 'dy':
            return rng.randint(-16, 16) / 4
        if style == 'var':
            v = rng.choice([0.25, 1.0, 4.0, 2.25, 0.0625, 9.0, 16.0, 2.0, 0.5])
            return v
        if style == 'exp':
            return rng.uniform(-6, 6)
        if style.startswith('cast:') and DT[style[5:]][1] == 'I':
            t = style[5:]
            tb = 8 * DT[t][0]
            tl, th = (-(1 << (tb - 1)), (1 << (tb - 1)) - 1) if DT[t][2] else (0, (1 << tb) - 1)
            k = rng.random()
            v = rng.uniform(max(tl, -100), min(th, 100)) if k < .5 else rng.uniform(tl * .9, th * .9)
            return v
        k = rng.random()
        if k < .6:
            v = rng.uniform(-10, 10)
            return v if neg else abs(v)
        if k < .75:
            return float(rng.randint(-3, 3)) if neg else float(rng.randint(0, 3))
        if k < .85:
            return rng.choice([0.0, -0.0, math.inf, math.nan, 1e-40, 5e-324] + ([-math.inf] if neg else []))
        return rng.uniform(0, 1) * 10.0 ** rng.randint(-20, 20)
    r = [one() for _ in range(n)]
    if dt == 'float':
        r = [pyc.r32(v) for v in r]
    if style in ('nonzero', 'midnz'):
        r = [v if v else 1.5 for v in r]
    return r


class Tiled:
    """a long array that repeats a short random pattern"""
    def __init__(self, base, n):
        self.base, self.n = base, n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[k] for k in range(*i.indices(self.n))]
        if not 0 <= i < self.n:
            raise IndexError(i)
        return self.base[i % len(self.base)]


def pack(dt, vals):
    if isinstance(vals, Tiled):
        b = pack(dt, vals.base)
        return (b * (vals.n // len(vals.base) + 1))[:vals.n * DT[dt][0]]
    return struct.pack('<%d%s' % (len(vals), SFMT[dt]), *vals)


def unpack(dt, b):
    n = len(b) // DT[dt][0]
    return list(struct.unpack('<%d%s' % (n, SFMT[dt]), b[:n * DT[dt][0]]))


# ------------------------------------------------------------------ compiled instances
def collect_vars(ts):
    seen, out = set(), {}
    st = list(ts)
    while st:
        t = st.pop()
        if not isinstance(t, T) or t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'var':
            out[t.args[0]] = t
        st.extend(tm.children(t))
    return out


NO_DATA = ('index', 'broadcast')
LIN = var('$lin', 'I', 0, S.I64MAX)


class CInst:
    """an instance with its terms compiled"""
    def __init__(self, inst):
        self.inst = inst
        ts = []
        self.tens = []
        for a in inst.args:
            if isinstance(a, (Ten, OwnedTen)):
                self.tens.append(a)
                ts += a.dims + (list(a.dev) if isinstance(a, Ten) else [])
            elif isinstance(a, Arr):
                ts += a.vals
            elif isinstance(a, Int):
                ts.append(a.v)
            elif isinstance(a, Dev):
                ts += [a.ty, a.id]
            elif isinstance(a, Owned):
                ts.append(a.count)
        self.argterms = ts
        v = collect_vars(ts + list(inst.pre))
        for a in inst.args:
            if isinstance(a, Dbl):
                v.update(collect_vars([a.v]))
        self.vars = v
        self.pre = pyc.compile_terms(list(inst.pre)) if inst.pre else None
        self.argf = pyc.compile_terms(ts) if ts else None
        self.dbl = [pyc.compile_terms([a.v]) for a in inst.args if isinstance(a, Dbl)]
        self.guards = [pyc.compile_terms([o.guard]) for o in inst.outs]
        self._res = {}

    def res(self, k):
        if k in self._res:
            return self._res[k]
        o = self.inst.outs[k]
        r = {'status': pyc.compile_terms([o.status]) if isinstance(o.status, T) else None}
        r['bufs'] = {n: (pyc.compile_terms([t for _, _, t in cells]), cells) for n, cells in o.bufs.items()}
        r['muts'] = {n: pyc.compile_terms([f(LIN)], [LIN]) for n, f in o.muts.items()}
        td = o.res
        if td is not None:
            r['dims'] = pyc.compile_terms(list(td.dims) + list(td.dev))
            if td.content is not None and not o.any_content:
                if td.mode == 'lin':
                    p = var('$lin', 'I', 0, S.I64MAX)
                    r['content'] = pyc.compile_terms([td.content(None, p)], [p])
                else:
                    ps = [var('$c%d' % i, 'I', 0, S.I64MAX) for i in range(len(td.dims))]
                    r['content'] = pyc.compile_terms([td.content(list(ps), S.rowmajor(ps, td.dims))], ps)
        self._res[k] = r
        return r


class Case:
    def __init__(self, ci, env):
        self.ci, self.env = ci, env
        self.fail_at = -1


def names(prefix, env):
    return None


def group(v, p):
    return sorted([n for n in v if n[:-1] == p and n[-1].isdigit()], key=lambda n: int(n[len(p):]))


def lo_(t):
    return t.rng[0] if t.rng else None


WIDE = [7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]
SMALL = [1, 1, 2, 2, 3, 3, 4, 5]


def huge(d, env, rng):
    """now and then, extents far beyond what could be allocated (for functions that look at the shape only)"""
    if d and rng.random() < .4:
        room = 44
        for n in rng.sample(d, len(d)):
            k = rng.randint(0, min(room, 33))
            env[n] = rng.randint(1, 1 << k)
            room -= k


def sample(ci, rng, long=False):
    """assignment of the scalar variables; None when the precondition is not met"""
    inst = ci.inst
    v = ci.vars
    env = {}
    tag = inst.sampler or ''
    kind, _, par = tag.partition(':')
    ndv = [n for n in v if v[n].sort == 'I' and lo_(v[n]) == 1]
    big = SMALL if len(ndv) <= 4 else [1, 1, 2, 2, 3]
    for n, t in v.items():
        if t.sort == 'I':
            if lo_(t) == 1:
                env[n] = rng.choice(big)
            elif n in ('t1', 't2'):
                env[n] = 0 if rng.random() < .8 else 1
            elif n in ('i1', 'i2'):
                env[n] = rng.choice([0, 0, 1, 7, -1])
            else:
                lo, hi = t.rng or (None, None)
                env[n] = rng.randint(max(lo if lo is not None else -3, -3), min(hi if hi is not None else 5, 5))
        else:
            env[n] = rng.choice([0.0, 1.0, -1.5, 2.25, 0.001, 7.75])
    wide = None
    if ndv and rng.random() < .06:
        wide = rng.choice(ndv)
        env[wide] = rng.choice(WIDE if len(ndv) > 2 or rng.random() < .9 else [1000, 1024, 2048, 3999])
    long_ = None
    if long:
        # one very long axis, all others of extent 1
        ax = [n for n in ndv if n[0] == 'd' and n[1:].isdigit()]
        if ax:
            wide = None
            long_ = rng.choice(ax), rng.choice([1 << 16, 1 << 20, 1 << 24] if kind not in ('conv', 'pool', 'bn', 'matmul') else [1 << 16, 1 << 20]) + rng.choice([0, 1, 1, 3])
            for n in ax:
                env[n] = 1
            env[long_[0]] = long_[1]
    G = lambda p: group(v, p)
    if kind == 'match':
        d, e = G('d'), G('e')
        for a, b in zip(d, e):
            env[b] = env[a]
        if e and rng.random() < .25:
            env[rng.choice(e)] += 1
    elif kind == 'createlen':
        es = int(par)
        p = 1
        for n in G('d'):
            p *= env[n]
        env['len'] = max(0, p * es + rng.choice([0, 0, 0, 0, es, -es, -1, es - 1, 1]))
        env['cap'] = (env['len'] + es - 1) // es + rng.choice([0, 0, 2])
    elif kind == 'value':
        val = values(rng, par if S.isint(par) else 'double', 'any', 1)[0] if S.isint(par) else rng.choice([0.0, 1.5, -3.25, 1e30, 0.1])
        if S.isint(par) and not S.sgn(par):
            val &= (1 << S.bits(par)) - 1
        if S.isint(par) and S.bits(par) == 64:
            val = rng.choice([0, 1, 5, 1 << 40, (1 << 62)] + ([-1, -(1 << 50)] if S.sgn(par) else []))
        val = float(val)
        if S.isint(par) and rng.random() < .5 and 0 <= val < 100:
            val += 0.75
        env['el:value'] = val
    elif kind == 'reshape':
        d, n = G('d'), G('n')
        p = 1
        for k in d:
            p *= env[k]
        if rng.random() < .75 and n and p:
            rest = p
            for k in n[:-1]:
                f = rng.choice([q for q in range(1, min(rest, 5000) + 1) if rest % q == 0] + [rest])
                env[k] = f
                rest //= f
            env[n[-1]] = rest
    elif kind == 'squeeze':
        r = int(par.split(',')[-1])
        for n in G('d'):
            if not long_:
                env[n] = rng.choice([1, 1, 2, 3])
        for n in G('a'):
            env[n] = rng.randint(0, r - 1) if rng.random() < .9 else rng.choice([-1, r, r + 3, 1 << 40])
    elif kind == 'slice':
        for n in G('d'):
            k = n[1:]
            d = env[n]
            b = rng.randint(0, max(0, d - 1))
            s = rng.randint(0 if rng.random() < .15 else 1, d - b) if d - b > 0 else 0
            if long_ and rng.random() < .5:
                b, s = 0, d
            env['begin' + k], env['size' + k], env['step' + k] = b, s, rng.randint(1, 4)
            if long_ and rng.random() < .6:
                env['step' + k] = 1
            if rng.random() < .12:
                w = rng.choice(['begin', 'size', 'step'])
                env[w + k] = rng.choice([-1, 0, d, d + 1, S.I32MAX])
    elif kind == 'rate':
        env['el:rate'] = rng.choice([0.0, 1.0, 0.5, 0.29, 0.07, 0.999, -0.1, 1.01, math.nan, rng.random()])
    elif kind == 'axisbad':
        r = int(par)
        env['axis'] = rng.choice([-2, -5, r, r + 1, S.I32MAX, S.I32MIN])
    elif kind in ('matmul', 'bcast'):
        d, e = G('d'), G('e')
        n, m = len(d), len(e)
        if kind == 'matmul' and n and m and not inst.empty:
            env[e[-2] if m >= 2 else e[0]] = env[d[-1]]
            bd, be = d[:-2], e[:-2]
        else:
            bd, be = d, e
            if inst.empty and kind == 'matmul':
                # what is left of the shapes: keep the contracted extents equal when both are there
                x, y = [a for a in inst.args if isinstance(a, Ten)][:2]
                if x.dims and y.dims:
                    p, q = x.dims[-1], y.dims[-2 if len(y.dims) > 1 else 0]
                    if p.op == 'var' and q.op == 'var' and p is not q:
                        env[q.args[0]] = env[p.args[0]]
                bd, be = [], []
                for p, q in zip(x.dims[:-2][::-1], y.dims[:-2][::-1]):
                    if p.op == 'var' and q.op == 'var':
                        bd.insert(0, p.args[0])
                        be.insert(0, q.args[0])
        for a, b in zip(bd[::-1], be[::-1]):
            k = rng.random()
            if k < .5:
                env[b] = env[a]
            elif k < .7:
                env[b] = 1
            elif k < .9:
                env[a] = 1
        if kind == 'matmul' and e and rng.random() < .12:
            env[rng.choice(e)] += 1
    elif kind in ('conv', 'pool'):
        sd = int(par)
        ker = ['f%d' % (2 + k) for k in range(sd)] if kind == 'conv' else G('k')
        for n in ('d0', 'd1'):
            if n in env:
                env[n] = rng.randint(1, 3)
        if kind == 'conv' and 'f1' in env and 'd1' in env and rng.random() < .9:
            env['f1'] = env['d1']
        for k in range(sd):
            if 'd%d' % (2 + k) in env:
                env['d%d' % (2 + k)] = rng.randint(1, 6 if sd < 3 else 4)
            if k < len(ker) and ker[k] in env:
                env[ker[k]] = rng.randint(1, 3)
            for nm, lo, hi in (('stride', 1, 3), ('pad', 0, 2), ('dil', 1, 2)):
                if nm + str(k) in env:
                    env[nm + str(k)] = rng.randint(lo, hi)
    elif kind == 'bn':
        ch = 'd%d' % int(par)
        for n in G('d'):
            env[n] = rng.choice([1, 2, 2, 3, 3])
        for p in ('sc', 'bi', 'me', 'vr'):
            g = G(p)
            if len(g) == 1 and ch in env and rng.random() < .95:
                env[g[0]] = env[ch]
            elif len(g) == 2 and ch in env:
                env[g[0]], env[g[1]] = rng.choice([(1, env[ch]), (env[ch], 1)])
        env['el:eps'] = rng.choice([0.0, 0.25, 1e-5, 0.5, -0.5])
        if 'axis' in env:
            env['axis'] = rng.choice([0, 2, 3, -1, 7, S.I32MAX])
    elif kind == 'coords':
        huge(G('d'), env, rng)
        for a, b in zip(G('d'), G('c')):
            env[b] = rng.randint(0, env[a] - 1)
    elif kind == 'linidx':
        huge(G('d'), env, rng)
        p = 1
        for n in G('d'):
            p *= env[n]
        env['ix'] = rng.choice([rng.randint(0, p - 1), p - 1]) if p else 0
    elif kind == 'elem':
        env['ix'] = rng.randint(0, env['n'] - 1)
    if long_ and kind in ('conv', 'pool', 'bn'):
        ch = env.get(long_[0])
        env[long_[0]] = long_[1]
        for n in env:
            if kind == 'bn' and n[:-1] in ('sc', 'bi', 'me', 'vr') and int(par) == int(long_[0][1:]) or kind == 'conv' and n == 'f1' and long_[0] == 'd1':
                env[n] = long_[1]
    if wide and kind in ('conv', 'pool', 'bn') and wide[0] == 'd' and not inst.empty:
        old = env[wide]
        env[wide] = rng.choice(WIDE[:18])
        for n in env:
            if kind != 'pool' and n != wide and n[0] in 'fsbmv' and n[:-1] in ('f', 'sc', 'bi', 'me', 'vr') and env.get(n) == old and (kind == 'bn' and old > 1 or n == 'f1' and wide == 'd1'):
                env[n] = env[wide]
    if ci.pre and not all(ci.pre(env)()):
        return None
    return env


def realize(ci, env, rng, cap=4000):
    """fill in the element arrays and encode the call"""
    inst = ci.inst
    data = {}
    vals = list(ci.argf(env)()) if ci.argf else []
    pos = 0
    out = bytearray()
    ten_i = {}
    dbl = 0
    env = dict(env)
    desc = []
    for i, a in enumerate(inst.args):
        if isinstance(a, (Ten, OwnedTen)):
            nd = len(a.dims)
            dims = vals[pos:pos + nd]
            pos += nd
            if isinstance(a, Ten):
                dev = vals[pos:pos + 2]
                pos += 2
                style = a.style
            else:
                dev, style = (0, 0), 'any'
            n = 1
            for d in dims:
                n *= d
            if n < 0:
                return None
            if inst.prop in NO_DATA:
                n = min(n, 1)    # these functions look at the shape only; the extents may be as large as they like
            if n > (cap if inst.prop != 'dropout' else min(cap, 60000)) or n * DT[a.dt][0] > (1 << 26 if cap <= 100000 else 140000000):
                return None
            key = 'el:' + a.name
            if key not in env:
                env[key] = values(rng, a.dt, style, n) if n <= 20000 else Tiled(values(rng, a.dt, style, 4099), n)
                if n and style == 'var' and not S.isint(a.dt) and rng.random() < .12:
                    env[key][rng.randrange(n)] = -1.0
            b = pack(a.dt, env[key])
            out += (b'U' if isinstance(a, OwnedTen) else b'T' if a.ro else b'M') + struct.pack('<5i', S.CODE[a.dt], DT[a.dt][0], dev[0], dev[1], nd)
            out += struct.pack('<%dq' % nd, *dims) + struct.pack('<i', len(b)) + b
            ten_i[a.name] = i
            desc.append('%s=tensor(%s,%s,dev%s,data=%s)' % (a.name, a.dt, dims, list(dev), [round(x, 6) if isinstance(x, float) else x for x in env[key][:24]]))
        elif isinstance(a, Ref):
            out += b'R' + struct.pack('<B', ten_i[a.ten.name])
            desc.append('=' + a.ten.name)
        elif isinstance(a, Arr):
            v = vals[pos:pos + len(a.vals)]
            pos += len(a.vals)
            out += (b'i' if a.es == 4 else b'q') + struct.pack('<i', len(v)) + struct.pack('<%d%s' % (len(v), 'i' if a.es == 4 else 'q'), *v)
            desc.append('%s=%s' % (a.name, v))
        elif isinstance(a, Int):
            v = vals[pos]
            pos += 1
            out += b'I' + struct.pack('<q', v)
            desc.append(str(v))
        elif isinstance(a, Dbl):
            v = ci.dbl[dbl](env)()[0]
            dbl += 1
            out += b'F' + struct.pack('<d', v)
            desc.append(repr(v))
        elif isinstance(a, DTy):
            out += b'I' + struct.pack('<q', S.CODE[a.dt] | DT[a.dt][0] << 32)
            desc.append(a.dt)
        elif isinstance(a, Dev):
            t, d = vals[pos:pos + 2]
            pos += 2
            out += b'I' + struct.pack('<Ii', t, d)
            desc.append('device(%d,%d)' % (t, d))
        elif isinstance(a, Str):
            out += b's' + struct.pack('<i', len(a.s) + 1) + a.s + b'\0'
            desc.append(repr(a.s.decode()))
        elif isinstance(a, Null):
            out += b'n'
            desc.append('NULL')
        elif isinstance(a, Slot):
            out += b'O'
            desc.append('&out')
        elif isinstance(a, Buf):
            out += b'B' + struct.pack('<i', a.n)
            desc.append('&' + a.name)
        elif isinstance(a, Owned):
            cnt = vals[pos]
            pos += 1
            if cnt > cap or cnt < 0:
                return None
            env['el:' + a.name] = values(rng, a.dt, 'any', cnt)
            b = pack(a.dt, env['el:' + a.name])
            out += b'W' + struct.pack('<i', len(b)) + b
            desc.append('%s=block(%s x %d)' % (a.name, a.dt, cnt))
        else:
            raise TypeError(a)
    return env, bytes(out), '%s(%s)' % (inst.func, ', '.join(desc))


def encode(ci, payload, num, fail_at):
    nm = ci.inst.func.encode()
    return struct.pack('<i', num) + struct.pack('<B', len(nm)) + nm + struct.pack('<i', fail_at) + struct.pack('<B', len(ci.inst.args)) + payload


def close(dt, got, want, tol):
    if S.isint(dt):
        return got == want
    if got == want or (got != got and want != want):
        return True
    if got != got or want != want or math.isinf(got) or math.isinf(want):
        # overflow at the edge of the range: the oracle rounds like the C type
        return False
    if not tol:
        return False
    eps = (2.0 ** -23 if dt == 'float' else 2.0 ** -52)
    return abs(got - want) <= tol * eps * max(abs(got), abs(want)) + (1e-45 if dt == 'float' else 5e-324) * tol


def judge(ci, env, r, fail_at=-1):
    """list of (kind, text): ways in which the observed behaviour breaks the contract"""
    inst = ci.inst
    bad = []
    if r.get('crash') or r.get('timeout'):
        if r.get('timeout'):
            # big inputs may simply need longer
            return [('termination', 'no result within 10 s of processor time')] if sum(len(v) for v in env.values() if hasattr(v, '__len__')) <= 20000 else []
        return [('safety', r['crash'])]
    for n in r['notes']:
        bad.append(('safety', n))
    for m in r['modified']:
        bad.append(('frame', 'input memory %s changed' % m))
    env = dict(env)
    env['el:rand'] = r['rand']
    env.setdefault('seed', 0)
    k = 0
    while k < len(inst.outs) - 1 and not ci.guards[k](env)()[0]:
        k += 1
    o = inst.outs[k]
    res = ci.res(k)
    if fail_at >= 0 and r.get('afailed'):
        if inst.ret == 'status':
            if r['ret'][1] not in (S.ALLOC_FAILED, o.status if o.status != S.SUCCESS else S.ALLOC_FAILED):
                bad.append(('alloc', 'allocation %d failed, status is %d' % (fail_at, r['ret'][1])))
            if r['out'] == 'broken':
                bad.append(('alloc', 'allocation %d failed, *output is not a complete tensor' % fail_at))
            if inst.func == 'aitisa_create' and r['leak']:
                bad.append(('alloc', 'allocation %d failed, %d blocks lost' % (fail_at, r['leak'])))
        return bad
    if inst.ret == 'status' and r['ret'][1] != o.status:
        bad.append(('status', 'status %d, contract says %d' % (r['ret'][1], o.status)))
        if r['leak']:
            bad.append(('leak', '%d blocks not released' % r['leak']))
        return bad
    if inst.ret == 'i64':
        w = res['status'](env)()[0]
        if r['ret'][0] != w:
            bad.append(('result', 'returned %d, contract says %d' % (r['ret'][0], w)))
    bi = 0
    for a in inst.args:
        if isinstance(a, Buf):
            if a.name in o.bufs:
                f, cells = res['bufs'][a.name]
                want = f(env)()
                raw = r['bufs'][bi]
                for (off, sz, t), w in zip(cells, want):
                    if t.sort == 'I':
                        g = int.from_bytes(raw[off:off + sz], 'little', signed=True)
                        if g != w:
                            bad.append(('result', '%s+%d is %d, contract says %d' % (a.name, off, g, w)))
                    else:
                        g = struct.unpack('<' + ('f' if sz == 4 else 'd'), raw[off:off + sz])[0]
                        if not (g == w or (g != g and w != w)):
                            bad.append(('result', '%s+%d is %r, contract says %r' % (a.name, off, g, w)))
            bi += 1
    mi = 0
    for a in inst.args:
        if isinstance(a, Ten) and not a.ro:
            got = unpack(a.dt, r['muts'][mi])
            mi += 1
            f = res['muts'][a.name](env)
            for i, g in enumerate(got):
                w = f(i)[0]
                if not close(a.dt, g, w, 0):
                    bad.append(('value', 'element %d of %s is %r, contract says %r' % (i, a.name, g, w)))
                    break
    has = any(isinstance(a, Slot) for a in inst.args)
    if not has and o.consumed and r['out'] != 'null':
        bad.append(('meta', 'the handle is not cleared'))
    if has:
        if o.res is None:
            if r['out'] != 'untouched':
                bad.append(('no-output', '*output changed although the status is %d' % o.status))
        elif r['out'] != 'tensor':
            bad.append(('meta', '*output is %s' % {'input': 'one of the inputs', 'untouched': 'not set', 'null': 'NULL', 'broken': 'not a complete tensor'}[r['out']]))
            if r['out'] == 'input':
                bad.append(('fresh', '*output is one of the inputs'))
        else:
            bad += tensor(ci, env, r, o, res)
    if r['leak'] and r['out'] != 'broken':
        bad.append(('leak', '%d blocks not released' % r['leak']))
    ow = [a for a in inst.args if isinstance(a, Owned)]
    for i, a in enumerate(ow):
        if not r['owned'].get(i) and (o.res is None or o.res.adopt == a.name):
            bad.append(('ownership', 'block %s released' % a.name))
    if 'destroy' in r and r['destroy'] != (0, 0, 1):
        bad.append(('destroy', 'aitisa_destroy: status %d, %d blocks left, handle cleared %d' % r['destroy']))
    return bad


def tensor(ci, env, r, o, res):
    bad = []
    td, t = o.res, r['t']
    vals = list(res['dims'](env)())
    dims, dev = vals[:-2], vals[-2:]
    n = 1
    for d in dims:
        n *= d
    E = lambda k, w: bad.append(('meta', '%s is %s, contract says %s' % (k, t[k], w))) if t[k] != w else None
    es = DT[td.dt][0]
    E('size', n); E('offset', 0); E('ndim', len(dims)); E('layout', 0); E('code', S.CODE[td.dt]); E('es', es)
    E('dev', dev[0]); E('id', dev[1]); E('ssize', n); E('dims', list(dims)); E('m', [len(dims) - 1 - i for i in range(len(dims))])
    E('nulls', 0 if dims else 2)
    if td.adopt is None and t['owned'] >= 0 or td.adopt and t['owned'] < 0:
        bad.append(('meta', 'data block %s' % ('adopted' if t['owned'] >= 0 else 'not adopted')))
    if t['alias']:
        bad.append(('fresh', 'blocks of the result overlap'))
    if not t['fam']:
        bad.append(('fresh', 'a block of the result does not come from the library allocator'))
    if t['bytes'] < n * es:
        bad.append(('meta', 'data block of %d bytes for %d elements' % (t['bytes'], n)))
        return bad
    if bad or 'content' not in res:
        return bad
    got = memoryview(bytes(r['data'][:n * es])).cast(SFMT[td.dt])
    f = res['content'](env)
    if n > 20000:
        rg = random.Random(n)
        pick = sorted(set(list(range(200)) + list(range(n - 200, n)) + [rg.randrange(n) for _ in range(1500)]))
    else:
        pick = range(n)
    if td.mode == 'lin':
        for i in pick:
            w = f(i)[0]
            if not close(td.dt, got[i], w, ci.inst.tol):
                bad.append(('value', 'element %d is %r, contract says %r' % (i, got[i], w)))
                break
    else:
        for i in pick:
            c, k = [], i
            for d in reversed(dims):
                c.append(k % d)
                k //= d
            c.reverse()
            w = f(*c)[0]
            if not close(td.dt, got[i], w, ci.inst.tol):
                bad.append(('value', 'element %s is %r, contract says %r' % (list(c), got[i], w)))
                break
    return bad


class Fail:
    """one observed breach of a contract"""
    def __init__(self, inst, kind, text, call, payload, fail_at, status, env=None):
        self.env = env
        self.inst, self.kind, self.text, self.call, self.payload, self.fail_at, self.status = inst, kind, text, call, payload, fail_at, status

    def pack(self):
        return {'instance': self.inst, 'kind': self.kind, 'text': self.text, 'call': self.call, 'payload': self.payload.hex(), 'fail_at': self.fail_at, 'status': self.status, 'env': self.env}


def one(drv, ci, env, rng, ev=0, allocs=False, want=None, known=None, cap=4000):
    """run one assignment -> (evaluations, status, failures)"""
    z = realize(ci, env, rng, cap)
    if z is None:
        return 0, None, []
    env2, payload, desc = z
    fails = []
    n = 1

    def note(r, fa, d):
        s = r['ret'][1] if 'ret' in r else None
        for k, txt in judge(ci, env2, r, fa):
            f = Fail(ci.inst.name, k, txt, d, payload, fa, s, env2)
            if known is not None and known(f):
                continue
            if want is None or k in want:
                fails.append(f)
    r = drv.run(encode(ci, payload, ev, -1))
    note(r, -1, desc)
    if allocs and not fails and not r.get('crash') and not r.get('timeout'):
        for fa in range(min(r.get('nalloc', 0), 24)):
            r2 = drv.run(encode(ci, payload, ev, fa))
            n += 1
            note(r2, fa, desc + ' with allocation %d failing' % fa)
            if fails:
                break
    return n, (r['ret'][1] if 'ret' in r else 'crash'), fails


def exercise(drv, inst, rng, cases, allocs=False, want=None, first=True, known=None, overlay=None, cap=4000, big=False):
    """run `cases` random inputs of the instance; -> (evaluations, statuses, failures)"""
    ci = inst if isinstance(inst, CInst) else CInst(inst)
    ev, fails, stat = 0, [], {}
    tries = done = 0
    while done < cases and tries < cases * 6 + 20:
        tries += 1
        env = sample(ci, rng, big)
        if overlay:
            env = overlay(env)
        if env is None:
            continue
        n, s, f = one(drv, ci, env, rng, ev, allocs, want, known, cap)
        if not n:
            continue
        ev += n
        done += 1
        stat[s] = stat.get(s, 0) + 1
        fails += f
        if fails and first:
            break
    return ev, stat, fails


if __name__ == '__main__':
    import re, time
    pat = re.compile(sys.argv[1])
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 20
    tmp = tempfile.mkdtemp(prefix='vcon')
    try:
        exe = build_driver(os.environ.get('VREPO', '/repo'), tmp)
        d = Driver(exe, tmp)
        t0 = time.time()
        tot = 0
        for i in S.build():
            if pat.search(i.name) and i.concrete:
                ev, st, f = exercise(d, i, random.Random(1), n, allocs='af' in sys.argv)
                tot += ev
                if f or ev < n or '-v' in sys.argv:
                    print(i.name, ev, st, [(x.kind, x.text, x.call) for x in f[:3]], flush=True)
        print(tot, 'evaluations', '%.1fs' % (time.time() - t0))
        d.stop()
    finally:
        shutil.rmtree(tmp)
