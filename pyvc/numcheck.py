"""Numerical evaluation of undischarged obligations at random points: separates
refuted goals from goals that the back ends cannot decide."""
import math
import cmath
import random
from . import terms as t_
from .terms import walk, fv

BAD = ('sel', 'rank', 'el:', 'pos:', 'src:', 'len:', 'seg', 'near', 'it:')
import builtins


class Skip(Exception):
    pass


class Ev:
    def __init__(self, rng, ints, mono=()):
        self.rng, self.ints, self.mono = rng, ints, mono
        self.env = {}
        self.un = {}
        self.scale = rng.choice([.6, 1., 2.])

    def leaf(self, key, s):
        r = self.un.get(key)
        if r is None:
            if s == 'I':
                r = self.rng.randint(0, self.ints)
            elif s == 'B':
                r = self.rng.random() < .5
            else:
                r = self.rng.uniform(.05, 1.)*self.scale
                if self.rng.random() < .3:
                    r = -r
                if self.rng.random() < .06:
                    r = 0.
            self.un[key] = r
        return r

    def E(self, u, loc=None):
        memo = {}
        loc = loc or {}

        def go(u):
            r = memo.get(u)
            if r is None:
                r = self._e(u, go, loc)
                if isinstance(r, float) and (r != r or abs(r) == math.inf):
                    raise Skip()
                memo[u] = r
            return r
        return go(u)

    def _e(self, u, go, loc):
        op = u.op
        if op == 'c':
            f = u.a[0]
            return int(f) if f.denominator == 1 else f.numerator/f.denominator
        if u in loc:
            return loc[u]
        if op == 'v':
            r = {'%j': 1j, '%pi': math.pi}.get(u.a[0])
            if u.a[0] in ('%nan', '%inf'):
                raise Skip()
            return self.leaf(u, u.s) if r is None else r
        if op == '+':
            return sum((_q(v)*go(k) for k, v in u.a))
        if op == '*':
            r = _q(u.a[0].a[0])
            for b, e in u.a[1:]:
                r = r*_pw(go(b), e.a[0])
            return r
        if op == '^':
            return _pw(go(u.a[0]), u.a[1].a[0])
        if op == 'ite':
            return go(u.a[1]) if go(u.a[0]) else go(u.a[2])
        if op in ('true', 'false'):
            return op == 'true'
        if op == 'not':
            return not go(u.a[0])
        if op == 'and':
            return all(go(v) for v in u.a)
        if op == 'or':
            return any(go(v) for v in u.a)
        if op in ('le', 'lt'):
            x, y = go(u.a[0]), go(u.a[1])
            if isinstance(x, complex) or isinstance(y, complex):
                raise Skip()
            return x <= y if op == 'le' else x < y
        if op == 'eq':
            x, y = go(u.a[0]), go(u.a[1])
            if isinstance(x, (bool, int)) and isinstance(y, (bool, int)):
                return x == y
            return abs(x - y) <= 1e-9*(abs(x) + abs(y) + 1e-3)
        if op == 'red':
            kind, n, body, k = u.a
            n = go(n)
            if kind == 'int' or n > 12:
                raise Skip()
            vals = [self.E(body, {**loc, k: i}) for i in range(int(n))]
            if kind == 'sum':
                return sum(vals)
            if kind in ('all', 'any'):
                return getattr(builtins, kind)(vals)
            if not vals:
                raise Skip()
            return getattr(builtins, kind)(vals)
        if op == 'f':
            n = u.a[0]
            args = [go(v) for v in u.a[1:]]
            try:
                if n == 'exp':
                    x = args[0]
                    if abs(x) > 60:
                        raise Skip()
                    return cmath.exp(x) if isinstance(x, complex) else math.exp(x)
                if n == 'log':
                    x = args[0]
                    if isinstance(x, complex):
                        return cmath.log(x)
                    if x <= 0:
                        raise Skip()
                    return math.log(x)
                if n == 'Phi':
                    return .5*math.erfc(-args[0]/math.sqrt(2))
                if n == 'erf':
                    return math.erf(args[0])
                if n in ('sin', 'cos'):
                    return getattr(math, n)(args[0])
                if n == 're':
                    return complex(args[0]).real
                if n == 'floor':
                    return math.floor(args[0])
                if n == 'trunc':
                    return int(args[0])
                if n == 'idiv':
                    return args[0]//args[1]
                if n == 'imod':
                    return args[0] % args[1]
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                raise Skip()
            if n.startswith(BAD) or n.startswith('%'):
                raise Skip()
            if self.mono and self.mono.get(n) is not None:
                # satisfies a quantified precondition by construction
                key = (n,) + tuple(_rnd(a) for a in args)
                if key not in self.un:
                    self.un[key] = self.mono[n](self.rng)
                return self.un[key]
            if n in self.mono:
                # a strictly increasing sequence
                k = ('%mono', n)
                if k not in self.un:
                    self.un[k] = [self.rng.uniform(-.5, .5), self.rng.uniform(.2, 1.), self.rng.uniform(0, .9)]
                a, b, w = self.un[k]
                i = args[0]
                return a + b*(i + w*math.sin(i)) if abs(w) < .95 else a + b*i
            key = (n,) + tuple(_rnd(a) for a in args)
            return self.leaf(key, u.s)
        raise Skip()


def _rnd(a):
    if isinstance(a, complex):
        return complex(round(a.real, 9), round(a.imag, 9))
    return round(a, 9) if isinstance(a, float) else a


def _q(f):
    return int(f) if f.denominator == 1 else f.numerator/f.denominator


def _pw(b, e):
    try:
        if e.denominator == 1:
            return b**int(e)
        e = float(e)
        if isinstance(b, complex):
            return cmath.exp(e*cmath.log(b))
        if b < 0:
            raise Skip()
        if b == 0 and e < 0:
            raise Skip()
        return b**e
    except (ZeroDivisionError, OverflowError, ValueError):
        raise Skip()


def sample(goal, pc, want=10, tries=3000, seed=7, budget=2., mono=()):
    """('refuted', values) | ('agree', n) | ('none', n)"""
    import time
    rng = random.Random(seed)
    good = 0
    t0 = time.time()
    pc = sorted(pc, key=lambda p: len(fv(p)))
    for k in range(tries):
        if time.time() - t0 > budget:
            break
        ev = Ev(rng, rng.choice([2, 3, 5]), mono)
        try:
            _seed_pc(ev, pc, rng)
            if not all(ev.E(p) for p in pc):
                continue
            if ev.E(goal):
                good += 1
                if good >= want:
                    return 'agree', good
            else:
                return 'refuted', {str(t_.show(x) if not isinstance(x, tuple) else x): v for x, v in list(ev.un.items())[:60]}
        except (Skip, ValueError, OverflowError, TypeError, RecursionError):
            continue
    return ('agree' if good >= 6 else 'none'), good


def _seed_pc(ev, pc, rng):
    """make simple constraints on leaves (0 < x, x < n, x == y) likely"""
    for p in pc:
        if p.op in ('lt', 'le') and p.a[0].op == 'c' and p.a[1].op == 'v':
            lo = p.a[0].a[0]
            x = p.a[1]
            if x.s == 'I':
                ev.un[x] = int(lo) + (1 if p.op == 'lt' else 0) + rng.randint(0, 3)
            else:
                ev.un[x] = float(lo) + rng.uniform(.05, 1.5)
    for p in pc:
        if p.op in ('lt', 'le') and p.a[0].op == 'v' and p.a[0].s == 'I' and p.a[1].op == 'v':
            n = ev.E(p.a[1])
            ev.un[p.a[0]] = rng.randint(0, max(0, n - 1))
