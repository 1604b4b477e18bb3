"""Structural sign analysis: a sound abstract domain deciding, from the signs
of the atoms given by the path condition, the sign of an expression."""
from .terms import ZERO, ONE, T, PI, INF, J, cval

P, Z, N = 1, 2, 4
ALL = P | Z | N


def neg(s):
    return (s & Z) | (P if s & N else 0) | (N if s & P else 0)


def mul(a, b):
    r = 0
    for x in (P, Z, N):
        for y in (P, Z, N):
            if a & x and b & y:
                r |= Z if Z in (x, y) else P if x == y else N
    return r


def add(a, b):
    r = 0
    for x in (P, Z, N):
        for y in (P, Z, N):
            if a & x and b & y:
                r |= y if x == Z else x if y == Z or x == y else ALL
    return r


class Signs:
    def __init__(self, pc):
        self.f = {}
        for p in pc:
            self.learn(p)
        self.memo = {}

    def learn(self, p, val=True):
        if p.op == 'not':
            return self.learn(p.a[0], not val)
        if p.op == 'and' and val:
            for q in p.a:
                self.learn(q)
            return
        if p.op not in ('lt', 'le'):
            return
        a, b = p.a
        strict = (p.op == 'lt') == val
        if not val:
            a, b = b, a
        # now a < b or a <= b
        if a is ZERO:
            self.f[b] = self.f.get(b, ALL) & (P if strict else P | Z)
        elif b is ZERO:
            self.f[a] = self.f.get(a, ALL) & (N if strict else N | Z)

    def sign(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.sign_(t) & self.f.get(t, ALL)
        return r

    def sign_(self, t):
        op = t.op
        if op == 'c':
            v = cval(t)
            return P if v > 0 else N if v < 0 else Z
        if t is PI or t is INF:
            return P
        if op == 'v' or op == 'red':
            return ALL
        if op == '+':
            k = dict(t.a)
            c = k.get(ONE)
            if c is not None and len(k) == 2:
                (e, v), = [(e, v) for e, v in k.items() if e is not ONE]
                if v == -c and e.op == 'f' and e.a[0] == 'exp':
                    s = neg(self.sign(e.a[1]))      # sign of 1 - exp(x)
                    return s if c > 0 else neg(s)
            r = Z
            for e, v in k.items():
                s = self.sign(e)
                r = add(r, s if v > 0 else neg(s))
            return r
        if op == '*':
            v = t.a[0]
            v = v if not isinstance(v, T) else cval(v)
            r = P if v > 0 else N
            for b, e in t.a[1:]:
                r = mul(r, self.pw(b, e.a[0] if isinstance(e, T) else e))
            return r
        if op == '^':
            return self.pw(t.a[0], cval(t.a[1])) if t.a[1].op == 'c' else ALL
        if op == 'f' and t.a[0] == 'exp':
            return ALL if J in _fv(t) else P
        if op == 'f' and t.a[0] == 'Phi':
            return P
        if op == 'ite':
            return self.sign(t.a[1]) | self.sign(t.a[2])
        return ALL

    def pw(self, b, n):
        s = self.sign(b)
        if n.denominator == 1 and int(n) % 2:
            return s if n > 0 else s & ~Z
        if n.denominator == 1:
            return P if not s & Z else P | Z
        # real powers are taken of nonnegative numbers
        return P if s == P else P | Z

    def decide(self, g):
        """True, False or None"""
        if g.op == 'not':
            r = self.decide(g.a[0])
            return None if r is None else not r
        if g.op in ('lt', 'le'):
            from .terms import sub
            a, b = g.a
            if J in _fv(a) or J in _fv(b):
                return None
            s = self.sign(sub(b, a))
            if g.op == 'lt':
                return True if s == P else False if not s & P else None
            return True if not s & N else False if s == N else None
        return None


def _fv(t):
    from .terms import fv
    return fv(t)
