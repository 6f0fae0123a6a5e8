"""Decide one property against /repo's current tree.

   python3-vt engine/check.py P13 [quick|thorough]

Every contract instance of the property is handed to the deductive verifier (verify.py); the same contracts are evaluated against
instrumented executions of the real code (concrete.py), which stands in, bounded, where the verifier does not decide, and which
supplies failing inputs."""
import sys, os, time, json, random, re, tempfile, shutil, signal, traceback, zlib, ctypes
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from multiprocessing import Process, Pipe
from multiprocessing.connection import wait
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
import ir, spec as S, props, concrete
import verify as V

REPO = os.environ.get('VREPO', '/repo')
NPROC = int(os.environ.get('VPROC', '8'))


# ------------------------------------------------------------------ workers
def fresh_verify(prog, inst, limit, alloc):
    """verify in a child of this process: the outcome does not depend on the instances verified before"""
    a, b = Pipe(False)
    pid = os.fork()
    if pid == 0:
        try:
            a.close()
            ctypes.CDLL(None).prctl(1, 9)      # end with the worker
            try:
                d = V.verify(prog, inst, time.time() + limit, alloc_fail=alloc).__dict__
            except BaseException as e:
                d = e
            b.send(d if isinstance(d, dict) else '%s %s' % (type(d).__name__, d))
        finally:
            os._exit(0)
    b.close()
    try:
        if not a.poll(limit + 15):
            os.kill(pid, signal.SIGKILL)
            raise TimeoutError('no answer within the limit')
        d = a.recv()
    except EOFError:
        raise RuntimeError('verifier process ended')
    finally:
        a.close()
        os.waitpid(pid, 0)
    if not isinstance(d, dict):
        raise RuntimeError(d)
    return d


def worker(conn, prog, exe, tmp, insts, cfg):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    drv = None
    cis = {}
    known = cfg['known']
    if exe:
        drv = concrete.Driver(exe, tmp)
    while True:
        try:
            t = conn.recv()
        except EOFError:
            break
        if t is None:
            break
        try:
            if t[0] == 'sym':
                conn.send(('sym', t[1], fresh_verify(prog, insts[t[1]], t[2], cfg['alloc'])))
            else:
                _, name, cases, seed, models = t
                ci = cis.get(name)
                if ci is None:
                    ci = cis[name] = concrete.CInst(insts[name])
                rng = random.Random(seed)
                t0 = time.time()
                ev, stat, fails, ran = 0, {}, [], []
                if models:
                    for mi, m in enumerate(models):
                        mv = {k: v for k, v in m.items() if k in ci.vars}

                        def overlay(env, mv=mv):
                            if env is None:
                                env = {k: (1 if v.sort == 'I' else 1.0) for k, v in ci.vars.items()}
                            env = {k: v for k, v in env.items() if not k.startswith('el:') or k == 'el:rate'}
                            env.update(mv)
                            for k, v in ci.vars.items():
                                if v.sort == 'I' and v.rng and k in env and not ((v.rng[0] is None or v.rng[0] <= env[k]) and (v.rng[1] is None or env[k] <= v.rng[1])):
                                    return None
                            try:
                                return env if not ci.pre or all(ci.pre(env)()) else None
                            except Exception:
                                return None
                        e, s, f = concrete.exercise(drv, ci, rng, max(3, cases // max(1, len(models))), cfg['alloc'], cfg['want'], True, known, overlay, 20000000)
                        ev += e
                        fails += f
                        if e:
                            ran.append(mi)
                        for k, v in s.items():
                            stat[k] = stat.get(k, 0) + v
                        if fails:
                            break
                else:
                    big = cases < 0
                    ev, stat, fails = concrete.exercise(drv, ci, rng, abs(cases), cfg['alloc'] and not big, cfg['want'], True, known, None, 20000000 if big else 4000, big)
                conn.send(('con', name, ev, stat, [f.pack() for f in fails], time.time() - t0, ran))
        except BaseException as e:
            conn.send(('err', t[1], '%s %s' % (type(e).__name__, traceback.format_exc()[-600:])))
    if drv:
        drv.stop()
    os._exit(0)


class Pool:
    def __init__(self, prog, exe, tmp, insts, cfg):
        self.a = (prog, exe, tmp, insts, cfg)
        self.w = {}
        for k in range(NPROC):
            self.spawn(k)

    def spawn(self, k):
        a, b = Pipe()
        d = os.path.join(self.a[2], 'w%d' % k)
        os.makedirs(d, exist_ok=True)
        p = Process(target=worker, args=(b, self.a[0], self.a[1], d, self.a[3], self.a[4]), daemon=True)
        p.start()
        b.close()
        self.w[k] = [p, a, None, 0]

    def run(self, tasks, deadline, on, slack=20):
        """tasks: iterator of (task, limit); `on(result)` -> True to stop"""
        it = iter(tasks)
        done = False
        while True:
            for k, w in self.w.items():
                if w[2] is None and not done:
                    if time.time() > deadline:
                        done = True
                        break
                    t = next(it, None)
                    if t is None:
                        done = True
                        break
                    try:
                        w[1].send(t[0])
                    except (BrokenPipeError, OSError):
                        self.restart(k)
                        self.w[k][1].send(t[0])
                        w = self.w[k]
                    w[2], w[3] = t[0], time.time() + t[1] + slack
            busy = [w for w in self.w.values() if w[2] is not None]
            if not busy:
                return
            for c in wait([w[1] for w in busy], timeout=1.0):
                k = next(k for k, w in self.w.items() if w[1] is c)
                w = self.w[k]
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    r = ('err', w[2][1], 'worker process ended')
                    self.restart(k)
                else:
                    w[2] = None
                if on(r):
                    done = True
            for k, w in list(self.w.items()):
                if w[2] is not None and time.time() > w[3]:
                    r = ('err', w[2][1], 'no answer within the limit')
                    self.restart(k)
                    on(r)

    def restart(self, k):
        w = self.w[k]
        w[0].kill()
        w[0].join()
        w[1].close()
        self.spawn(k)

    def stop(self):
        for w in self.w.values():
            try:
                w[1].send(None)
            except OSError:
                pass
        for w in self.w.values():
            w[0].join(2)
            if w[0].is_alive():
                w[0].kill()
                w[0].join()


def load_json(name, default):
    p = os.path.join(VERIF, name)
    if not os.path.exists(p):
        return default
    with open(p) as f:
        return json.load(f)


class Check:
    def __init__(self, pid, tier, seed):
        self.p = props.BY_ID[pid]
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        th = tier == 'thorough'
        self.insts = {i.name: i for i in self.p.instances(S.build(), th)}
        self.mode = 'af' if self.p.alloc else 'plain'
        self.base = load_json('engine/proved.json', {'plain': {}, 'af': {}, 'digest': ''})
        self.findings = [f for f in load_json('KNOWN_FINDINGS.json', {'findings': []})['findings'] if f['property'] == pid]
        self.hit = set()
        self.modelled, self.refuted = {}, {}
        self.sym, self.con, self.viol, self.errors = {}, {}, [], []
        self.sym_limit = 300 if th else 45
        self.sym_total = 2400 if th else 240
        self.con_total = 300 if th else 12
        self.log = lambda *a: print(*a, file=sys.stderr, flush=True)

    def match(self, inst, kind, status):
        for k, f in enumerate(self.findings):
            if re.search(f['instance'], inst) and f['kind'] == kind and (status is None or f['status'] == status):
                self.hit.add(k)
                return True
        return False

    def known(self, f):
        return self.match(f.inst, f.kind, f.status)

    def run(self):
        tmp = tempfile.mkdtemp(prefix='aitisa-%s-' % self.pid)
        pool = None
        try:
            try:
                exe = concrete.build_driver(REPO, tmp)
            except concrete.BuildError as e:
                exe = None
                self.errors.append('driver: %s' % e)
            prog = None
            try:
                prog = ir.load(REPO)
                self.digest = prog.digest
            except Exception as e:
                self.digest = None
                self.errors.append('front end: %s %s' % (type(e).__name__, str(e)[-300:]))
            if exe is None and prog is None:
                self.log('the tree does not compile:', self.errors)
                return 2
            cfg = {'alloc': self.p.alloc, 'want': self.p.ckinds, 'known': self.known}
            pool = Pool(prog, exe, tmp, self.insts, cfg)
            b = self.base[self.mode]
            if prog is not None:
                # a first look with the contracts on the real executable, then the proofs
                if exe:
                    self.concrete(pool, 20, 0, 60)
                if not self.viol:
                    order = sorted([n for n, i in self.insts.items() if i.symbolic is True or self.tier == 'thorough'], key=lambda n: -b.get(n, {}).get('time', 5))
                    # cheap instances that the verifier is known to decide come before the ones it is known not to
                    order.sort(key=lambda n: b.get(n, {}).get('verdict', 'proved') != 'proved')
                    lim = lambda n: self.sym_limit if b.get(n, {}).get('verdict', 'proved') == 'proved' or self.tier == 'thorough' else 8
                    pool.run([(('sym', n, lim(n)), lim(n)) for n in order], self.t0 + self.sym_total, self.on_sym)
                    self.after_sym(pool, exe)
            if exe and not self.viol:
                weak = [n for n in self.insts if self.sym.get(n, {}).get('verdict') != 'proved']
                if weak:
                    self.concrete(pool, 40, 300 if self.tier == 'quick' else 4000, 120 if self.tier == 'quick' else 900, weak)
                if not self.viol and len(self.insts) < 700:
                    # very long axes, on the instances of few axes
                    nm = [n for n, i in self.insts.items() if not i.empty and not any(s in n for s in (',r3', ',r4', ',r5', ',r6', '[r3', '[r4', '[r5', '[r6', 'matmul', 'dot', 'softmax', 'conv', 'pool', 'batch', '->r3', '->r4'))]
                    if nm:
                        self.concrete(pool, -2, 0, 40 if self.tier == 'quick' else 200, nm)
                if not self.viol:
                    self.concrete(pool, 30, 0, self.con_total, None, True)
        finally:
            if pool:
                pool.stop()
            shutil.rmtree(tmp, ignore_errors=True)
        return self.finish(exe is not None)

    # ---------------------------------------------------------------- symbolic
    def counted(self, failures):
        return [f for f in failures if self.p.counts(f[0])]

    def on_sym(self, r):
        if r[0] == 'err':
            self.errors.append('%s: %s' % (r[1], r[2]))
            return False
        _, n, d = r
        d['failures'] = self.counted(d['failures'])
        d['obl'] = {k: v for k, v in d['obl'].items() if self.p.counts(k)}
        if d['verdict'] == 'failed' and not d['failures']:
            # every obligation that counts for this property is discharged
            d['verdict'] = 'proved' if not d['why'] else 'unsupported'
        if d['verdict'] == 'failed':
            left = [f for f in d['failures'] if not self.match(n, f[0], None)]
            if not left:
                d['verdict'] = 'known-finding'
            d['failures'] = left
        if d['verdict'] == 'proved' and not sum(v[0] for v in d['obl'].values()):
            d['verdict'] = 'vacuous'
        self.sym[n] = d
        return False

    def after_sym(self, pool, exe):
        """failed obligations: look for the failing input; otherwise report the obligation itself"""
        b = self.base[self.mode]
        fl = [n for n, d in self.sym.items() if d['verdict'] == 'failed']
        if not fl:
            return
        if exe:
            tasks = []
            for n in fl[:40]:
                fs = self.sym[n]['failures']
                ks = sorted((k for k, f in enumerate(fs) if f[5] is not None), key=lambda k: fs[k][4] != 'no')[:6]
                if ks:
                    self.modelled[n] = ks
                    tasks.append((('con', n, 60, self.rs(n, 'model'), [fs[k][5] for k in ks]), 60))
                for k in range(4):
                    tasks.append((('con', n, 250, self.rs(n, 'deep%d' % k), None), 60))
                if not self.insts[n].empty:
                    tasks.append((('con', n, -6, self.rs(n, 'big'), None), 60))
            pool.run(tasks, time.time() + 120, self.on_con)
        if self.viol:
            return
        same = self.digest is not None and self.digest == self.base.get('digest')
        for n in fl:
            d = self.sym[n]
            was = b.get(n, {}).get('verdict')
            # a failed obligation counts when the solver has a counterexample to it that the real code, run on it, did not refute
            f = next((f for k, f in enumerate(d['failures']) if f[4] == 'no' and k not in self.refuted.get(n, ())), None)
            if was != 'proved' or same or f is None:
                d['verdict'] = 'undecided'
                continue
            self.viol.append({'instance': n, 'kind': f[0], 'where': f[1], 'obligation': f[2], 'detail': f[3], 'solver': f[4], 'model': f[5],
                              'no_input': True, 'all': [list(map(str, x[:5])) for x in d['failures'][:8]]})

    def rs(self, n, k):
        return zlib.crc32(('%d/%s/%s/%s' % (self.seed, self.pid, n, k)).encode())

    # ---------------------------------------------------------------- concrete
    def on_con(self, r):
        if r[0] == 'err':
            self.errors.append('%s: %s' % (r[1], r[2]))
            return False
        _, n, ev, stat, fails, dt, ran = r
        if n in self.modelled:
            self.refuted[n] = self.refuted.get(n, set()) | {self.modelled[n][k] for k in ran}
        c = self.con.setdefault(n, {'ev': 0, 'stat': {}})
        c['ev'] += ev
        for k, v in stat.items():
            c['stat'][k] = c['stat'].get(k, 0) + v
        for f in fails:
            if f['text'].startswith('no result within') and False:
                continue
            self.viol.append(f)
        return bool(fails)

    def concrete(self, pool, chunk, least, budget, names=None, repeat=False):
        names = list(names or self.insts)
        end = time.time() + budget
        self.round = getattr(self, 'round', 0)

        def gen():
            k = 0
            while True:
                for n in names:
                    if least and self.con.get(n, {}).get('ev', 0) >= least + 20 and k:
                        continue
                    yield (('con', n, chunk, self.rs(n, self.round), None), 60)
                self.round += 1
                k += 1
                if not repeat and (not least or k * abs(chunk) >= least):
                    return
        rd = random.Random(self.seed)
        rd.shuffle(names)
        pool.run(gen(), end, self.on_con)
        self.round += 1

    # ---------------------------------------------------------------- report
    def finish(self, ran):
        out = []
        sym, b = self.sym, self.base[self.mode]
        proved = [n for n, d in sym.items() if d['verdict'] == 'proved']
        known = [n for n, d in sym.items() if d['verdict'] == 'known-finding']
        rest = sorted(n for n in self.insts if n not in proved and n not in known)
        viol = None
        if self.viol:
            v = self.viol[0]
            os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
            path = os.path.join(VERIF, 'replay', '%s.json' % self.pid)
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'violation': v, 'how': 'python3-vt engine/replay.py %s' % path, 'tree': self.digest}, f, indent=1, default=str)
            if v.get('no_input'):
                out.append('failed obligation: %s at %s of %s' % (v['kind'], v['where'], v['instance']))
                out.append('  %s [%s] %s' % (v['obligation'], v['solver'], v['detail']))
                out.append('VIOLATION property=%s replay=%s no-failing-input-found' % (self.pid, path))
            else:
                out.append('%s: %s: %s' % (v['instance'], v['kind'], v['text']))
                out.append('  call: %s' % v['call'][:600])
                out.append('VIOLATION property=%s replay=%s' % (self.pid, path))
            viol = v
        else:
            for k, f in enumerate(self.findings):
                out.append('KNOWN-FINDING: property=%s %s%s' % (self.pid, f['what'], '' if k in self.hit else ' (not reached in this run)'))
        self.evidence(proved, known, rest)
        ev = sum(c['ev'] for c in self.con.values())
        out.insert(0, '%s (%s): %d contract instances, %d proved (%d obligations), %d bounded only, %d evaluations on the real code, %.0f s' % (
            self.pid, self.tier, len(self.insts), len(proved), sum(v[1] for n in proved for v in sym[n]['obl'].values()), len(rest), ev, time.time() - self.t0))
        for e in self.errors[:5]:
            self.log('note:', e)
        for n in rest[:60]:
            d = sym.get(n)
            out.insert(1, '  bounded: %s (%s %s)' % (n, d['verdict'] if d else 'not reached', (d['why'] or '') [:110] if d else ''))
        print('\n'.join(out), flush=True)
        if viol:
            return 1
        if not ran and rest:
            self.log('not decided:', rest[:5], self.errors[:3])
            return 2
        if not sym and not ev:
            return 2
        return 0

    def evidence(self, proved, known, rest):
        sym = self.sym
        dec = [sym[n] for n in proved + known]
        kinds = {}
        for d in dec:
            for k, v in d['obl'].items():
                a = kinds.setdefault(k, [0, 0])
                a[0] += v[0]
                a[1] += v[1]
        funcs, ext, lem = set(), {}, set()
        for d in dec:
            funcs |= set(d['funcs'])
            lem |= set(d['lemmas'])
            for k, v in d['contracts'].items():
                ext[k] = ext.get(k, 0) + v if isinstance(v, int) else 1
        z3n = sum(d['z3'][0] for d in sym.values())
        z3t = sum(d['z3'][1] for d in sym.values())
        ev = sum(c['ev'] for c in self.con.values())
        nontriv = sum(v for c in self.con.values() for k, v in c['stat'].items())
        und = {n: '%s %s' % (sym[n]['verdict'], (sym[n]['why'] or '')[:200]) if n in sym else 'not reached' for n in rest}
        lvl = LEVEL.get(self.pid, 'proof')
        cov = {
            'obligations': sum(v[0] for v in kinds.values()),
            'discharged': sum(v[1] for v in kinds.values()),
            'checker_cmd': 'python3-vt engine/check.py %s %s' % (self.pid, self.tier),
            'trusted_base': TRUSTED,
            'obligations_by_kind': {k: {'generated': v[0], 'discharged': v[1]} for k, v in sorted(kinds.items())},
            'instances': len(self.insts), 'instances_proved': len(proved), 'instances_known_finding': known,
            'instances_bounded_only': {n: {'why': w, 'evaluations': self.con.get(n, {}).get('ev', 0)} for n, w in und.items()},
            'functions_under_contract': sorted(set(self.insts[n].func for n in proved)),
            'functions_verified_inline': sorted(funcs),
            'external_functions_assumed': ext,
            'lemmas_used': sorted(lem),
            'backends': {'built-in term normaliser, interval and linear reasoner': 'all obligations first',
                         'z3': {'calls': z3n, 'seconds': round(z3t, 1)}},
            'solver_cpu_s': round(sum(d['time'] for d in sym.values()), 1),
            'evaluations': ev,
            'distinct_nontrivial': nontriv,
            'rule': 'one evaluation = one call of the real function under AddressSanitizer on inputs drawn from the instance precondition, judged against the same contract; non-trivial = the precondition held and the call returned a status',
            'statuses_seen': self.statuses(),
            'covers': sum(1 for n in self.insts if self.con.get(n, {}).get('ev')),
            'samples': sorted(self.insts)[:3] + sorted(self.insts)[-2:],
            'tree_digest': self.digest, 'notes': self.errors[:10],
            'explanation': 'contracts discharged on the LLVM IR of the current sources; instances_bounded_only lists contract instances for which the verifier gave no answer and only the bounded execution-based check stands in',
        }
        e = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': lvl, 'coverage': cov,
             'assumptions': ASSUME, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(e, f, indent=1, default=str)

    def statuses(self):
        r = {}
        for n, c in self.con.items():
            for k, v in c['stat'].items():
                k = str(k) if self.insts[n].ret == 'status' else 'value returned'
                r[k] = r.get(k, 0) + v
        return r


LEVEL = {'P23': 'other'}
TRUSTED = [
    'clang 18 -O0 as front end (the LLVM IR it emits is taken as the meaning of the C source, x86-64 layout)',
    'engine/*.py: IR semantics, memory model, loop summaries, term normaliser and interval reasoner (written for this task)',
    'z3 4.8.12 for the obligations the normaliser leaves open',
    'models of malloc/calloc/realloc/free, memcpy/memset, exp/tanh/sqrt/fabs/floor/ceil/fmin/fmax, rand/srand/time, printf, abort/exit',
]
ASSUME = [
    'element values of floating type are reals with the C rounding operations as uninterpreted but congruent functions: equality of results is equality of the same sequence of roundings',
    'tensor arguments satisfy the library representation invariant (dense layout, owned shape arrays, size = product of extents, CPU storage); extents of 0 are covered by the instances marked empty: (at most two extents at a time), all others have extents of at least 1; element counts fit the address space (at most 2^47 bytes)',
    'ranks are enumerated (0 to 6, per operation as its documentation allows); extents, values, offsets and axes are unbounded within their types except where DESIGN.md states a precondition',
    'no allocation fails unless the property is about allocation failure (P28)',
    'single-threaded calls',
]


if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(20000)
    sys.exit(Check(pid, tier, seed).run())
