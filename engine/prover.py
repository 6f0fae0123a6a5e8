"""Proof contexts: facts, bounds reasoning over polynomials, SMT back ends."""
import os, time, itertools
from terms import *
import terms as tm
import z3
import refute

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'bounds': 0, 'syntactic': 0, 'cache': 0, 'z3_yes': 0, 'z3_no': 0, 'z3_unk': 0,
         'cvc5_calls': 0, 'z3_nl': 0}
Z3_TIMEOUT = int(os.environ.get('VERIF_Z3_MS', '3000'))


def effort(s, ms):
    """limit a query by z3's own resource counter (about 3000 units per millisecond here), so that the answer does not depend on load"""
    s.set('rlimit', 3000 * ms)
    s.set('timeout', 10 * ms)


_zc = {}
_zax = {}


def _zname(t):
    return 't%d' % t.id


def z3of(t, nl):
    """translate; nl: use real multiplication (else nonlinear monomials become atoms)"""
    key = (t.id, nl)
    r = _zc.get(key)
    if r is None:
        r = _zc[key] = _z3of(t, nl)
    return r


def _z3of(t, nl):
    op = t.op
    if op == 'c':
        return z3.IntVal(t.args[0])
    if op == 'poly':
        s = []
        for m, c in t.args:
            if m == ():
                s.append(z3.IntVal(c))
                continue
            if len(m) == 1:
                x = z3of(m[0], nl)
            elif nl:
                x = z3.Product([z3of(a, nl) for a in m])
            else:
                x = z3.Int('m_' + '_'.join(str(a.id) for a in m))
            s.append(x if c == 1 else c * x)
        return s[0] if len(s) == 1 else z3.Sum(s)
    if op == 'true':
        return z3.BoolVal(True)
    if op == 'false':
        return z3.BoolVal(False)
    if op == 'le0':
        return z3of(t.args[0], nl) <= 0
    if op == 'eq0':
        return z3of(t.args[0], nl) == 0
    if op == 'not':
        return z3.Not(z3of(t.args[0], nl))
    if op == 'and':
        return z3.And([z3of(a, nl) for a in t.args])
    if op == 'or':
        return z3.Or([z3of(a, nl) for a in t.args])
    if t.sort == 'I':
        if op == 'ite':
            return z3.If(z3of(t.args[0], nl), z3of(t.args[1], nl), z3of(t.args[2], nl))
        if op == 'let':
            return z3of(t.args[0], nl)
        return z3.Int(_zname(t))
    if t.sort == 'B':
        return z3.Bool(_zname(t))
    raise Exception('z3of %s' % op)


def int_atoms(t, acc, seen):
    """atoms visible to the z3 translation (not descending into opaque ones)"""
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        op = x.op
        if op in ('c', 'true', 'false', 'fc'):
            continue
        if op in ('poly', 'le0', 'eq0', 'not', 'and', 'or', 'let') or (op == 'ite' and x.sort == 'I'):
            st.extend(children(x))
            continue
        acc.append(x)
    return acc


def atom_axioms(x):
    """facts implied by the meaning of the atom itself"""
    out = []
    lo, hi = rng(x) if x.sort == 'I' else (None, None)
    # (built raw: the normaliser would reduce a fact it can read off the range itself to TRUE)
    if lo is not None:
        out.append(tm._mk('le0', (sub(I(lo), x),), 'B'))
    if hi is not None:
        out.append(tm._mk('le0', (sub(x, I(hi)),), 'B'))
    if x.op == 'div':
        a, b = x.args
        r = tm._mk('mod', (a, b), 'I')
        pos = lt(ZERO, b)
        out.append(or_(not_(pos), eq(a, add(mul(b, x), r))))
        out.append(or_(not_(pos), le(ZERO, r)))
        out.append(or_(not_(pos), lt(r, b)))
        out.append(or_(not_(pos), lt(a, ZERO), le(ZERO, x)))
        out.append(or_(not_(pos), lt(a, ZERO), le(x, a)))
    elif x.op == 'mod':
        a, b = x.args
        q = tm._mk('div', (a, b), 'I')
        pos = lt(ZERO, b)
        out.append(or_(not_(pos), eq(a, add(mul(b, q), x))))
        out.append(or_(not_(pos), le(ZERO, x)))
        out.append(or_(not_(pos), lt(x, b)))
        out.append(or_(not_(pos), lt(a, ZERO), le(ZERO, q)))
    elif x.op in ('wrapS', 'wrapU'):
        n, a = x.args
        k = var('wk%d' % x.id)
        out.append(eq(a, add(x, mul(I(1 << n), k))))
        lo, hi = rng(x)
        out.append(or_(lt(a, I(lo)), lt(I(hi), a), eq(x, a)))
    elif x.op == 'tdiv':
        a, b = x.args
        r = tm._mk('trem', (a, b), 'I')
        nz = ne(b, ZERO)
        out.append(or_(not_(nz), eq(a, add(mul(b, x), r))))
        out.append(or_(le(b, ZERO), lt(a, ZERO), and_(le(ZERO, r), lt(r, b), le(ZERO, x))))
        out.append(or_(le(b, ZERO), le(ZERO, a), and_(le(r, ZERO), lt(neg(b), r), le(x, ZERO))))
    elif x.op == 'trem':
        a, b = x.args
        q = tm._mk('tdiv', (a, b), 'I')
        out.extend(atom_axioms(q))
    elif x.op in ('lt', 'le', 'feq') and x.sort == 'B':
        a, b = x.args
        un = fcmp('uno', a, b)
        out.append(or_(not_(x), not_(un)))
        if x.op == 'lt':
            out.append(or_(not_(x), not_(fcmp('le', b, a))))
            out.append(or_(x, un, fcmp('le', b, a)))
            out.append(or_(not_(x), fcmp('le', a, b)))
            out.append(or_(not_(x), not_(fcmp('feq', a, b))))
        elif x.op == 'le':
            out.append(or_(not_(x), not_(fcmp('lt', b, a))))
            out.append(or_(x, un, fcmp('lt', b, a)))
        else:
            out.append(or_(not_(x), and_(fcmp('le', a, b), fcmp('le', b, a))))
            out.append(or_(x, un, fcmp('lt', a, b), fcmp('lt', b, a)))
    return [a for a in out if a is not TRUE]


_ax = {}


def axioms_for(terms, depth=3):
    acc, seen = [], set()
    todo = list(terms)
    atoms_seen = set()
    out = []
    for _ in range(depth):
        nacc = []
        for t in todo:
            int_atoms(t, nacc, seen)
        todo = []
        for x in nacc:
            if x.id in atoms_seen:
                continue
            atoms_seen.add(x.id)
            a = _ax.get(x.id)
            if a is None:
                a = _ax[x.id] = atom_axioms(x)
            out.extend(a)
            todo.extend(a)
        if not todo:
            break
    return out


class Ctx:
    """an immutable-by-convention set of facts"""
    __slots__ = ('facts', 'fset', 'univ', 'wits', 'cache', 'bnd', 'simpc', 'parent', 'dead', 'pool', 'pooln')

    def __init__(self):
        self.facts = []
        self.fset = set()
        self.univ = []
        self.wits = []
        self.cache = {}
        self.bnd = None
        self.simpc = {}
        self.dead = False
        self.pool = None
        self.pooln = -1

    def copy(self):
        c = Ctx()
        c.facts = list(self.facts)
        c.fset = set(self.fset)
        c.univ = list(self.univ)
        c.wits = list(self.wits)
        # positive results stay valid when facts are added
        c.cache = {k: v for k, v in self.cache.items() if v == 'yes'}
        c.dead = self.dead
        c.pool = self.pool
        c.pooln = self.pooln
        return c

    def assume(self, f):
        """add fact in place"""
        if f is TRUE or f.id in self.fset:
            return self
        if f is FALSE:
            self.dead = True
            return self
        if f.op == 'and':
            for a in f.args:
                self.assume(a)
            return self
        if f.op == 'exists':
            w = fresh('w')
            self.wits.append(w)
            self.assume(le(ZERO, w))
            self.assume(lt(w, f.args[0]))
            self.assume(exists_open(f, w))
            self.fset.add(f.id)
            self.facts.append(f)
            return self
        if f.op == 'not' and f.args[0].op == 'exists':
            self.univ.append(f.args[0])
        if not_(f).id in self.fset:
            self.dead = True
        self.facts.append(f)
        self.fset.add(f.id)
        self.cache = {k: v for k, v in self.cache.items() if v == 'yes'}
        self.bnd = None
        self.simpc = {}
        return self

    def plus(self, *fs):
        c = self.copy()
        for f in fs:
            c.assume(f)
        return c

    # --------------------------------------------------------- bounds
    def bounds(self):
        if self.bnd is not None:
            return self.bnd
        ub, lb, nl = {}, {}, {}
        for f in self.facts:
            if f.op == 'le0':
                p = poly(f.args[0])
                self._addb(p, ub, lb)
                for m, c in p.items():
                    if len(m) > 1 and c > 0:
                        nl.setdefault(m, []).append((c, f.args[0]))
            elif f.op == 'eq0':
                p = poly(f.args[0])
                self._addb(p, ub, lb)
                self._addb({m: -c for m, c in p.items()}, ub, lb)
        self.bnd = (ub, lb, nl)
        return self.bnd

    @staticmethod
    def _addb(p, ub, lb):
        cnt = {}
        for m in p:
            for a in set(m):
                cnt[a] = cnt.get(a, 0) + 1
        for m, c in p.items():
            if len(m) == 1 and cnt[m[0]] == 1 and c in (1, -1):
                rest = from_poly({k: v for k, v in p.items() if k != m})
                if c == 1:
                    ub.setdefault(m[0], []).append(neg(rest))
                else:
                    lb.setdefault(m[0], []).append(rest)

    def ubs(self, x):
        r = list(self.bounds()[0].get(x, ()))
        if x.op == 'mod':
            r.append(sub(x.args[1], ONE))
        if x.op == 'div' and self.nonneg(x.args[0]) :
            if self.quick(lt(ZERO, x.args[1])):
                for u in self.ubs_poly(x.args[0]):
                    r.append(tm.div(u, x.args[1]))
        if x.op == 'let':
            r.append(x.args[0])
        hi = rng(x)[1]
        if hi is not None:
            r.append(I(hi))
        return r

    def ubs_poly(self, p):
        if p.op == 'poly' or p.op == 'c':
            return []
        return self.ubs(p)

    def lbs(self, x):
        r = list(self.bounds()[1].get(x, ()))
        lo = rng(x)[0]
        if lo is not None:
            r.append(I(lo))
        if x.op == 'let':
            r.append(x.args[0])
        if x.op == 'mod':
            r.append(ZERO)
        if x.op == 'div' and self.nonneg(x.args[0]):
            r.append(ZERO)
        return r

    def nonneg(self, t):
        lo = rng(t)[0]
        if lo is not None and lo >= 0:
            return True
        return self.quick(le(ZERO, t))

    def quick(self, g):
        """bounds-only proof"""
        if g is TRUE or g.id in self.fset:
            return True
        if g is FALSE:
            return self.dead
        if g.op == 'le0':
            return self.bproof(g.args[0])
        if g.op == 'eq0':
            return self.bproof(g.args[0]) and self.bproof(neg(g.args[0]))
        if g.op == 'and':
            return all(self.quick(a) for a in g.args)
        if g.op == 'or':
            return any(self.quick(a) for a in g.args)
        if g.op == 'not' and g.args[0].op == 'eq0':
            p = g.args[0].args[0]
            return self.bproof(add(p, ONE)) or self.bproof(add(neg(p), ONE))
        return False

    def bproof(self, p):
        key = ('b', p.id)
        r = self.cache.get(key)
        if r is not None:
            return r == 'yes'
        self.cache[key] = 'no'
        r = self._bproof(p, 5, [200])
        self.cache[key] = 'yes' if r else 'no'
        return r

    def _bproof(self, p, depth, fuel):
        """prove p <= 0 by substituting bounds"""
        if is_c(p):
            return cval(p) <= 0
        hi = rng(p)[1]
        if hi is not None and hi <= 0:
            return True
        if le0(p).id in self.fset:
            return True
        if self._shift(p):
            return True
        d = poly(p)
        nl = self.bounds()[2]
        for m, c in d.items():
            if len(m) > 1 and c > 0 and m in nl:
                for cf, f in nl[m]:
                    if c % cf == 0 and self._shift(sub(p, mul(I(c // cf), f))):
                        return True
                    if cf % c == 0 and cf != c and self._shift(sub(mul(I(cf // c), p), f)):
                        return True
        if depth == 0 or fuel[0] <= 0:
            return False
        fuel[0] -= 1
        # b * (a div b) = a - (a mod b)
        for m, c in d.items():
            if len(m) < 2:
                continue
            for a in m:
                if a.op == 'div':
                    b = a.args[1]
                    rest = list(m)
                    rest.remove(a)
                    if b in rest and self.quick(lt(ZERO, b)):
                        rest.remove(b)
                        rw = add(p, mul(I(-c), *m), mul(I(c), *(rest + [sub(a.args[0], tm.mod(a.args[0], b))])))
                        if self._bproof(rw, depth - 1, fuel):
                            return True
        ats = {}
        for m in d:
            for a in m:
                ats[a] = max(ats.get(a, 0), m.count(a))
        cand = []
        for a, deg in ats.items():
            if deg != 1:
                continue
            A = from_poly({tm._mono_div(m, (a,)): c for m, c in d.items() if a in m})
            Bp = from_poly({m: c for m, c in d.items() if a not in m})
            # sign of A
            if self._sign_nonneg(A, fuel):
                bs = self.ubs(a)
            elif self._sign_nonneg(neg(A), fuel):
                bs = self.lbs(a)
            else:
                continue
            for b in bs:
                if a in free_atoms(b):
                    continue
                prio = 0 if not is_c(b) else 1
                cand.append((prio, len(poly(b)), a.id, A, Bp, b))
        cand.sort(key=lambda x: x[:3])
        for prio, _, _, A, Bp, b in cand[:8]:
            if self._bproof(add(mul(A, b), Bp), depth - 1, fuel):
                return True
        return False

    def _sign_nonneg(self, A, fuel):
        if is_c(A):
            return cval(A) >= 0
        lo = rng(A)[0]
        if lo is not None and lo >= 0:
            return True
        key = ('sg', A.id)
        r = self.cache.get(key)
        if r is not None:
            return r == 'yes'
        r = self._bproof(neg(A), 2, fuel)
        self.cache[key] = 'yes' if r else 'no'
        return r

    def _shift(self, p):
        """substitute x = lo + y, y >= 0 and check every coefficient"""
        d = poly(p)
        m = {}
        ats = set()
        for mo in d:
            ats |= set(mo)
        for a in ats:
            lo = self.clo(a)
            if lo is None:
                return False
            if lo != 0:
                m[a] = lo
        if m:
            # expand
            acc = {}
            for mo, c in d.items():
                terms = {(): c}
                for a in mo:
                    n = {}
                    for mm, cc in terms.items():
                        k = tm._mm(mm, (a,))
                        n[k] = n.get(k, 0) + cc
                        if a in m:
                            n[mm] = n.get(mm, 0) + cc * m[a]
                    terms = n
                for mm, cc in terms.items():
                    acc[mm] = acc.get(mm, 0) + cc
            d = acc
        return all(c <= 0 for c in d.values())

    def clo(self, a):
        """best constant lower bound"""
        key = ('clo', a.id)
        if key in self.simpc:
            return self.simpc[key]
        best = rng(a)[0]
        if a.op == 'mod':
            best = max(best, 0) if best is not None else 0
        for b in self.bounds()[1].get(a, ()):
            lo = rng(b)[0]
            if lo is not None and (best is None or lo > best):
                best = lo
        self.simpc[key] = best
        if best is None and a.op == 'div' and self.nonneg(a.args[0]):
            best = 0
        if a.op == 'let':
            if best is None or best < 1:
                for k in (1, 0):
                    if (best is None or best < k) and self.bproof(sub(I(k), a.args[0])):
                        best = k
                        break
        self.simpc[key] = best
        return best

    # --------------------------------------------------------- prove
    def prove(self, g, smt=True, timeout=None, lin=False):
        """'yes' | 'no' | 'unk'"""
        if self.dead or g is TRUE or g.id in self.fset:
            return 'yes'
        r = self.cache.get(g.id)
        if r is not None:
            return r
        if g.op == 'and':
            worst = 'yes'
            for a in g.args:
                r = self.prove(a, smt, timeout, lin)
                if r != 'yes':
                    worst = r if worst == 'yes' else worst
                    return worst
            return 'yes'
        if self.quick(g):
            STATS['bounds'] += 1
            self.cache[g.id] = 'yes'
            return 'yes'
        if g.op == 'exists':
            for w in self.wits:
                if self.prove(and_(le(ZERO, w), lt(w, g.args[0]), exists_open(g, w)), smt, timeout) == 'yes':
                    self.cache[g.id] = 'yes'
                    return 'yes'
        if g.op == 'not' and g.args[0].op == 'exists':
            e = g.args[0]
            w = fresh('w')
            c = self.copy()
            c.wits.append(w)
            c.assume(le(ZERO, w)).assume(lt(w, e.args[0])).assume(exists_open(e, w))
            r = c.prove(FALSE, smt, timeout)
            if r == 'yes':
                self.cache[g.id] = r
            return r
        if g.op == 'or' and any(a.op in ('exists', 'not') and (a.op == 'exists' or a.args[0].op == 'exists') for a in g.args):
            for i, a in enumerate(g.args):
                if a.op == 'exists' or (a.op == 'not' and a.args[0].op == 'exists'):
                    c = self.copy()
                    for b in g.args:
                        if b is not a:
                            c.assume(not_(b))
                    r = c.prove(a, smt, timeout)
                    if r == 'yes':
                        self.cache[g.id] = r
                        return r
        if not smt:
            return 'unk'
        r = self.smt(g, timeout, lin)
        if r != 'nl':
            self.cache[g.id] = r
        return r

    def maybe(self, g):
        """cheap proof attempt for deciding a branch: nonlinear products only as opaque atoms"""
        return self.prove(g, lin=not _has_nl(g)) == 'yes'

    def yes(self, g, smt=True):
        return self.prove(g, smt) == 'yes'

    def insts(self, g):
        """instances of universal facts"""
        if not self.univ:
            return []
        cands = list(self.wits)
        vs = set()
        for t in [g] + self.facts:
            for v in free_vars(t):
                if v.op == 'var' and v.sort == 'I' and '!' in v.args[0]:
                    vs.add(v)
        for v in sorted(vs, key=lambda v: v.id)[-24:]:
            if v not in cands:
                cands.append(v)
        out = []
        for u in self.univ:
            for c in cands:
                out.append(or_(lt(c, ZERO), le(u.args[0], c), not_(exists_open(u, c))))
        return [o for o in out if o is not TRUE]

    def smt(self, g, timeout=None, lin=False):
        STATS['z3_calls'] += 1
        t0 = time.time()
        facts = [f for f in self.facts if f.op != 'exists']
        facts = facts + self.insts(g)
        facts = relevant(facts, g)
        if self.refuted(facts, g):
            STATS['refuted'] = STATS.get('refuted', 0) + 1
            STATS['z3_time'] += time.time() - t0
            return 'no'
        ax = axioms_for(facts + [g])
        res = 'unk'
        try:
            ts = facts + ax + [not_(g)]
            nonlin = any(_has_nl(t) for t in ts)
            s = z3.SolverFor('QF_LIA')
            effort(s, (100 if lin else 400) if nonlin else (timeout or Z3_TIMEOUT))
            for f in ts:
                s.add(z3of(f, False))
            r = s.check()
            if r == z3.unsat:
                res = 'yes'
            elif lin and nonlin:
                res = 'nl'
            elif not nonlin:
                res = 'no' if r == z3.sat else 'unk'
            else:
                s = z3.Solver()
                effort(s, timeout or Z3_TIMEOUT)
                for f in ts:
                    s.add(z3of(f, True))
                r = s.check()
                res = 'yes' if r == z3.unsat else ('no' if r == z3.sat else 'unk')
        finally:
            STATS['z3_time'] += time.time() - t0
            STATS['z3_' + res] += 1
        return res

    def refuted(self, facts, g):
        p = self.pool
        if p is not None and self.pooln != len(self.facts):
            # facts were added: keep the assignments that still fit
            keep = []
            for a in p:
                try:
                    if refute.holds(facts, a):
                        keep.append(a)
                except refute.Opaque:
                    pass
            p = keep
        elif p is not None:
            p = [a for a in p if self._fits(a, facts)]
        if p and refute.refuted(p, g):
            return True
        fresh_ = refute.build(facts)
        self.pool = fresh_ + (p or [])[:4]
        self.pooln = len(self.facts)
        return refute.refuted(fresh_, g)

    @staticmethod
    def _fits(a, facts):
        try:
            return refute.holds(facts, a)
        except refute.Opaque:
            return False

    def status(self, g, timeout=5000):
        """('yes', None) when every known fact together implies g, ('no', model) with a model of facts & not g over the visible
        atoms {term: value}, ('unk', None)"""
        facts = [f for f in self.facts if f.op != 'exists'] + self.insts(g)
        ax = axioms_for(facts + [g], 4)
        ts = facts + ax + [not_(g)]
        m = None
        for nl in ((False, True) if any(_has_nl(t) for t in ts) else (True,)):
            s = z3.Solver()
            effort(s, timeout)
            for f in ts:
                s.add(z3of(f, nl))
            r = s.check()
            if r == z3.unsat:
                return 'yes', None
            if r == z3.sat and nl:
                m = s.model()
        if m is None:
            return 'unk', None
        acc, seen = [], set()
        for f in ts:
            int_atoms(f, acc, seen)
        out = {}
        for a in acc:
            v = m.eval(z3of(a, True), model_completion=True)
            try:
                out[a] = v.as_long() if a.sort == 'I' else z3.is_true(v)
            except Exception:
                pass
        return 'no', out

    def model(self, g, timeout=5000):
        return self.status(g, timeout)[1]

    # --------------------------------------------------------- simplify under facts
    def simp(self, t):
        return self._simp(t)

    def _simp(self, t):
        r = self.simpc.get(t.id)
        if r is not None:
            return r
        op = t.op
        if op in ('c', 'var', 'bvar', 'fc', 'true', 'false', 'bq', 'ba'):
            return t
        if op in ('fold', 'exists'):
            r = t
            n = self._simp(t.args[0])
            if op == 'fold':
                ini = self._simp(t.args[1])
                if n is not t.args[0] or ini is not t.args[1]:
                    r = tm.rebuild(t, [n, ini, t.args[2]])
            elif n is not t.args[0]:
                r = tm.rebuild(t, [n, t.args[1]])
            self.simpc[t.id] = r
            return r
        if op == 'let':
            return t
        ch = children(t)
        args = [self._simp(a) for a in ch]
        if all(a is b for a, b in zip(args, ch)):
            r = t
        elif op == 'poly':
            r = subst(t, {a: b for a, b in zip(ch, args) if a is not b})
        else:
            r = tm.rebuild(t, args)
        op = r.op
        if op == 'ite':
            c = r.args[0]
            if self.yes(c):
                r = r.args[1]
            elif self.yes(not_(c)):
                r = r.args[2]
        elif op == 'div':
            r = self.cdiv(*r.args)
        elif op == 'mod':
            r = self.cmod(*r.args)
        elif op in ('tdiv', 'trem'):
            a, b = r.args
            if self.yes(le(ZERO, a)) and self.yes(lt(ZERO, b)):
                r = self.cdiv(a, b) if op == 'tdiv' else self.cmod(a, b)
        elif op == 'wrapS':
            n = r.args[0]
            if self.yes(and_(le(I(-(1 << (n - 1))), r.args[1]), le(r.args[1], I((1 << (n - 1)) - 1)))):
                r = r.args[1]
        elif op == 'wrapU':
            n = r.args[0]
            if self.yes(and_(le(ZERO, r.args[1]), le(r.args[1], I((1 << n) - 1)))):
                r = r.args[1]
        elif op == 'poly':
            r = self.recombine(r)
        self.simpc[t.id] = r
        return r

    def cdivmod(self, a, b):
        q, r = split_div(a, b)
        if r is ZERO:
            return q, ZERO
        if b.op == 'let':
            # the named radix may occur multiplied out
            q1, r1 = split_div(r, b.args[0])
            if q1 is not ZERO and (r1 is ZERO or (self.quick(le(ZERO, r1)) and self.quick(lt(r1, b))) or
                                   self.yes(and_(le(ZERO, r1), lt(r1, b)))):
                return add(q, q1), r1
        if self.quick(le(ZERO, r)) and self.quick(lt(r, b)):
            return q, r
        # remainder slightly negative?
        r2 = self.recombine(r) if r.op == 'poly' else r
        if r2 is not r:
            return self.cdivmod(add(mul(q, b), r2), b) if r2 is not r else (q, r)
        if self.yes(and_(le(ZERO, r), lt(r, b))):
            return q, r
        if self.quick(lt(r, ZERO)) and self.quick(le(ZERO, add(r, b))):
            return sub(q, ONE), add(r, b)
        return add(q, tm.div(r, b)), tm.mod(r, b)

    def cdiv(self, a, b):
        if b is ONE:
            return a
        if self.quick(lt(ZERO, b)):
            return self.cdivmod(a, b)[0]
        return tm.div(a, b)

    def cmod(self, a, b):
        if b is ONE:
            return ZERO
        if self.quick(lt(ZERO, b)):
            return self.cdivmod(a, b)[1]
        return tm.mod(a, b)

    def recombine(self, p):
        """x mod A + A*(x div A) -> x ;  x mod A + A*((x div A) mod B) -> x mod (A*B)"""
        for _ in range(8):
            if p.op != 'poly':
                return p
            d = poly(p)
            ats = set()
            for m in d:
                ats |= set(m)
            mods = [a for a in ats if a.op == 'mod']
            done = False
            for a in sorted(mods, key=lambda x: x.id):
                x, A = a.args
                dv = tm.div(x, A)
                partners = []
                if dv in ats or True:
                    partners.append((dv, x))
                for b in mods:
                    if b is not a and b.args[0] is dv:
                        AB = mul(A, b.args[1])
                        partners.append((b, self.cmod(x, AB)))
                for m, c in list(d.items()):
                    if a not in m:
                        continue
                    cof = mul(I(c), *tm._mono_div(m, (a,)))
                    for b, tot in partners:
                        old = mul(cof, add(a, mul(A, b)))
                        new = add(sub(p, old), mul(cof, tot))
                        if len(poly(new)) < len(d):
                            p = new
                            done = True
                            break
                    if done:
                        break
                if done:
                    break
            if not done:
                return p
        return p


def unlet_if(a):
    return a


_fa = {}


def free_atoms(p):
    s = set()
    for m in poly(p):
        s |= set(m)
    return s


_nlc = {}


def _has_nl(t):
    r = _nlc.get(t.id)
    if r is not None:
        return r
    r = False
    if t.op == 'poly':
        r = any(len(m) > 1 for m, c in t.args)
    if not r and (t.op in ('poly', 'le0', 'eq0', 'not', 'and', 'or', 'let') or (t.op == 'ite' and t.sort == 'I')):
        r = any(_has_nl(c) for c in children(t))
    _nlc[t.id] = r
    return r


_atc = {}


def vis_atoms(t):
    r = _atc.get(t.id)
    if r is None:
        acc = []
        int_atoms(t, acc, set())
        r = set(x.id for x in acc)
        # also atoms inside div/mod arguments
        for x in acc:
            if x.op in ('div', 'mod', 'tdiv', 'trem', 'wrapS', 'wrapU'):
                for a in x.args:
                    if isinstance(a, T):
                        r |= vis_atoms(a)
        _atc[t.id] = r
    return r


def relevant(facts, g):
    if g is FALSE or len(facts) < 12:
        return facts
    rel = set(vis_atoms(g))
    out = []
    rest = list(facts)
    chg = True
    rounds = 0
    while chg and rest and rounds < 6:
        chg = False
        rounds += 1
        nr = []
        add_atoms = set()
        for f in rest:
            va = vis_atoms(f)
            if va & rel:
                out.append(f)
                add_atoms |= va
                chg = True
            else:
                nr.append(f)
        rel |= add_atoms
        rest = nr
    return out


# --------------------------------------------------------------- equality of values
def split_atoms(t):
    """boolean atoms of ite conditions"""
    return t


def first_cond(ctx, a, b, limit=[0]):
    """an ite condition occurring outside binders in a or b"""
    seen = set()
    st = [a, b]
    best = None
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            c = x.args[0]
            while c.op in ('and', 'or'):
                c = c.args[0]
            if c.op == 'not':
                c = c.args[0]
            if best is None or c.id < best.id:
                best = c
        if x.op in ('fold', 'exists'):
            st.append(x.args[0])
            if x.op == 'fold':
                st.append(x.args[1])
            continue
        st.extend(children(x))
    return best


def prove_eq(ctx, a, b, depth=24):
    """('yes'|'no'|'unk', reason)"""
    if a is b or ctx.dead:
        return 'yes', ''
    if a.sort != b.sort:
        return 'no', 'sorts differ'
    a, b = ctx.simp(a), ctx.simp(b)
    if a is b:
        return 'yes', ''
    if a.sort == 'I':
        r = ctx.prove(eq(a, b))
        if r == 'yes':
            return 'yes', ''
    if depth > 0:
        c = first_cond(ctx, a, b)
        if c is not None:
            worst = ('yes', '')
            for lit in (c, not_(c)):
                k = ctx.plus(lit)
                if k.dead or k.prove(FALSE) == 'yes':
                    continue
                a2, b2 = assume_in(a, lit), assume_in(b, lit)
                r = prove_eq(k, a2, b2, depth - 1)
                if r[0] != 'yes':
                    return r
            return worst
    # congruence
    if a.op == b.op and len(a.args) == len(b.args) and a.op not in ('poly', 'fold', 'exists', 'fc', 'c', 'var'):
        if a.op in ('app', 'call', 'wrapS', 'wrapU') and a.args[0] != b.args[0]:
            pass
        else:
            pairs = [(x, y) for x, y in zip(a.args, b.args) if isinstance(x, T)]
            ok = True
            why = ('unk', '')
            for x, y in pairs:
                why = prove_eq(ctx, x, y, depth - 1)
                if why[0] != 'yes':
                    ok = False
                    break
            if ok:
                return 'yes', ''
            if a.op in ('fadd', 'fmul', 'feq', 'uno'):
                (x1, x2), (y1, y2) = a.args, b.args
                if prove_eq(ctx, x1, y2, depth - 1)[0] == 'yes' and prove_eq(ctx, x2, y1, depth - 1)[0] == 'yes':
                    return 'yes', ''
    if a.op == 'fold' and b.op == 'fold':
        if prove_eq(ctx, a.args[0], b.args[0], depth - 1)[0] == 'yes':
            r = prove_eq(ctx, a.args[1], b.args[1], depth - 1)
            if r[0] == 'yes':
                q, acc = fresh('q'), fresh('acc', a.sort)
                if a.sort == 'I':
                    ra, rb = rng(a), rng(b)
                k = ctx.plus(le(ZERO, q), lt(q, a.args[0]))
                r = prove_eq(k, fold_open(a, q, acc), fold_open(b, q, acc), depth - 1)
                if r[0] == 'yes':
                    return 'yes', ''
                return r
            return r
    if a.sort == 'I' and (a.op == 'poly' or b.op == 'poly'):
        # match atoms pairwise
        pa, pb = poly(a), poly(b)
        aa = sorted(free_atoms(a) - free_atoms(b), key=lambda x: x.id)
        bb = sorted(free_atoms(b) - free_atoms(a), key=lambda x: x.id)
        m = {}
        for x in aa:
            for y in bb:
                if x.op == y.op and prove_eq(ctx, x, y, depth - 6)[0] == 'yes':
                    m[x] = y
                    break
        if m and subst(a, m) is b:
            return 'yes', ''
        if m:
            r = ctx.prove(eq(subst(a, m), b))
            if r == 'yes':
                return 'yes', ''
    return 'unk', '%s  =/=  %s' % (str(a)[:600], str(b)[:600])


def assume_in(t, lit):
    """replace the literal by true inside t (not under binders that mention it)"""
    n = not_(lit)
    m = {lit: TRUE, n: FALSE}
    return subst(t, m)
