"""Cheap refutation of integer goals by evaluation: an assignment that satisfies the facts
and falsifies the goal saves a solver call.  Only ever answers "not provable"."""
import random
import terms as tm
from terms import children

_R = random.Random(20240607)


class Opaque(Exception):
    pass


def wrap_s(n, x):
    x &= (1 << n) - 1
    return x - (1 << n) if x >> (n - 1) else x


class Assign:
    __slots__ = ('vars', 'memo', 'scale')

    def __init__(self, scale):
        self.vars = {}
        self.memo = {}
        self.scale = scale

    def pick(self, key, rng):
        v = self.vars.get(key)
        if v is None:
            lo, hi = rng or (None, None)
            s = self.scale
            if lo is not None and lo >= 0:
                v = lo + _R.randint(0, s)
                if hi is not None and v > hi:
                    v = hi
            else:
                v = _R.randint(-1, s) if s > 1 else _R.randint(-2, 2)
                if lo is not None and v < lo:
                    v = lo
                if hi is not None and v > hi:
                    v = hi
            self.vars[key] = v
        return v

    def ev(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._ev(t)
        return r

    def _ev(self, t):
        op = t.op
        if op == 'c':
            return t.args[0]
        if op == 'poly':
            s = 0
            for m, c in t.args:
                p = c
                for a in m:
                    p *= self.ev(a)
                s += p
            return s
        if op == 'le0':
            return self.ev(t.args[0]) <= 0
        if op == 'eq0':
            return self.ev(t.args[0]) == 0
        if op == 'and':
            o = None
            for a in t.args:
                try:
                    if not self.ev(a):
                        return False
                except Opaque as e:
                    o = e
            if o:
                raise o
            return True
        if op == 'or':
            o = None
            for a in t.args:
                try:
                    if self.ev(a):
                        return True
                except Opaque as e:
                    o = e
            if o:
                raise o
            return False
        if op == 'not':
            return not self.ev(t.args[0])
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'ite':
            return self.ev(t.args[1] if self.ev(t.args[0]) else t.args[2])
        if op == 'let':
            return self.ev(t.args[0])
        if op in ('div', 'mod', 'tdiv', 'trem'):
            a, b = self.ev(t.args[0]), self.ev(t.args[1])
            if b <= 0:
                raise Opaque()
            if op == 'div':
                return a // b
            if op == 'mod':
                return a % b
            q = abs(a) // b
            q = q if a >= 0 else -q
            return q if op == 'tdiv' else a - b * q
        if op == 'wrapS':
            return wrap_s(t.args[0], self.ev(t.args[1]))
        if op == 'wrapU':
            return self.ev(t.args[1]) & ((1 << t.args[0]) - 1)
        if op in ('var', 'bvar'):
            return self.pick(t.id, t.rng)
        raise Opaque()


def solve_eqs(facts, a):
    """give the variables of equations values that satisfy them"""
    for f in facts:
        if f.op != 'eq0':
            continue
        p = f.args[0]
        lin = []
        if p.op == 'poly':
            for m, c in p.args:
                if len(m) == 1 and m[0].op == 'var' and c in (1, -1):
                    lin.append((m[0], c))
        elif p.op == 'var':
            lin.append((p, 1))
        for v, c in lin:
            if v.id in a.vars:
                continue
            # v occurs only once
            rest = 0
            try:
                if p.op == 'poly':
                    for m, k in p.args:
                        if m == (v,):
                            continue
                        q = k
                        for x in m:
                            q *= a.ev(x)
                        rest += q
            except Opaque:
                break
            if v.id in a.vars:
                continue
            val = -rest * c
            lo, hi = v.rng or (None, None)
            if (lo is not None and val < lo) or (hi is not None and val > hi):
                break
            a.vars[v.id] = val
            break


def holds(facts, a):
    for f in facts:
        if not a.ev(f):
            return False
    return True


def build(facts, n=6, tries=48):
    pool = []
    miss = 0
    for k in range(tries):
        a = Assign((1, 2, 3, 6)[k % 4])
        try:
            solve_eqs(facts, a)
            if holds(facts, a):
                pool.append(a)
                if len(pool) >= n:
                    break
        except Opaque:
            miss += 1
            if miss > 6 and not pool:
                break
    return pool


def refuted(pool, g):
    for a in pool:
        try:
            if not a.ev(g):
                return True
        except Opaque:
            pass
    return False
