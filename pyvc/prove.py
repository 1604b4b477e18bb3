"""Back ends: exact ring normalisation, z3 and cvc5.

`Prover.valid(goal, pc)` decides whether the path condition pc (a list of
boolean terms) entails goal; it returns a Result with status 'proved',
'failed' (a countermodel, or a nonzero normal form, was found) or 'unknown'.
"""
from fractions import Fraction as Fr
import time
from .signs import Signs
import z3
from . import terms as t_
from .terms import (T, const, tm, var, app, add, sub, mul, div, power, neg, eq, lt, le, and_, or_, not_,
                    ite, fv, subst, walk, ZERO, ONE, TRUE, FALSE, J, NAN, INF, isc, cval, show, reduce_,
                    implies)

STATS = {'ring': [0, 0.], 'z3': [0, 0.], 'cvc5': [0, 0.], 'trivial': [0, 0.], 'signs': [0, 0.]}


def count(name, t0):
    STATS[name][0] += 1
    STATS[name][1] += time.time() - t0


class Result:
    def __init__(self, status, backend='', info='', model=None):
        self.status, self.backend, self.info, self.model = status, backend, info, model

    def __bool__(self):
        return self.status == 'proved'

    def __repr__(self):
        return 'Result(%s,%s,%s)' % (self.status, self.backend, self.info)


# ===================================================================== ring

class Ring:
    """Normal forms num/den: num is a Laurent polynomial over atoms with
    rational exponents, den a product of non-monomial polynomials.
    Denominators are taken as nonzero, fractional powers and logarithms as
    defined (their arguments nonnegative, positive)."""

    def __init__(self, pos=()):
        self.pos = set(pos)
        self.memo = {}

    # polynomials: {mono: coef}; mono: tuple of (atom, exp), sorted by atom id
    def mmul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for k, e in b:
            d[k] = d.get(k, 0) + e
        return tuple(sorted(((k, e) for k, e in d.items() if e), key=lambda ke: ke[0].id))

    def jfix(self, mono, c):
        for i, (k, e) in enumerate(mono):
            if k is J:
                if e.denominator != 1:
                    return mono, c
                n = int(e) % 4
                c = c*(1, 1, -1, -1)[n]
                rest = mono[:i] + mono[i+1:]
                if n % 2:
                    rest = self.mmul(rest, ((J, Fr(1)),))
                return rest, c
        return mono, c

    def padd(self, p, q, c=1):
        r = dict(p)
        for m, v in q.items():
            w = r.get(m, 0) + c*v
            if w:
                r[m] = w
            else:
                r.pop(m, None)
        return r

    def pmul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        r = {}
        wild = []
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mmul(m1, m2)
                m, c = self.jfix(m, c1*c2)
                bad = False
                for k, e in m:
                    if k.op == 'f' and k.a[0] == '%P' and not 0 <= e < 1:
                        bad = True
                if bad:
                    wild.append((m, c))
                    continue
                w = r.get(m, 0) + c
                if w:
                    r[m] = w
                else:
                    r.pop(m, None)
        return r, wild

    # rational forms: (num, den) with den {T: int}
    def rmul(self, a, b):
        num, wild = self.pmul(a[0], b[0])
        den = dict(a[1])
        for k, e in b[1].items():
            den[k] = den.get(k, 0) + e
        res = (num, den)
        for m, c in wild:  # integer parts of fractional powers of sums
            rest = []
            extra = ({(): Fr(c)}, dict(den))
            for k, e in m:
                if k.op == 'f' and k.a[0] == '%P' and not 0 <= e < 1:
                    n = e.numerator // e.denominator
                    if e - n:
                        rest.append((k, e - n))
                    extra = self.rmul(extra, self.rpow(self.norm(k.a[1]), n))
                else:
                    rest.append((k, e))
            extra = self.rmul(extra, ({tuple(rest): Fr(1)}, {}))
            res = self.radd(res, extra) if res[0] else extra
        return self.cancel(res)

    def cancel(self, a):
        return ({}, {}) if not a[0] else a

    def radd(self, a, b):
        if not a[0]:
            return b
        if not b[0]:
            return a
        if a[1] == b[1]:
            return self.cancel((self.padd(a[0], b[0]), a[1]))
        den = dict(a[1])
        for k, e in b[1].items():
            den[k] = max(den.get(k, 0), e)

        def lift(x):
            r = (x[0], {})
            for k, e in den.items():
                n = e - x[1].get(k, 0)
                for _ in range(n):
                    r = self.rmul(r, (self.norm(k)[0], {}))
            return r
        la, lb = lift(a), lift(b)
        # lifting may add denominators only through fractional powers
        if la[1] or lb[1]:
            s = self.radd(la, lb)
            d2 = dict(den)
            for k, e in s[1].items():
                d2[k] = d2.get(k, 0) + e
            return self.cancel((s[0], d2))
        return self.cancel((self.padd(la[0], lb[0]), den))

    def rpow(self, a, n):
        if n == 0:
            return ({(): Fr(1)}, {})
        if n < 0:
            return self.rinv(self.rpow(a, -n))
        r = a
        for _ in range(n - 1):
            r = self.rmul(r, a)
        return r

    def rinv(self, a):
        num, den = a
        if not num:
            return ({((app('%zerodiv'), Fr(1)),): Fr(1)}, {})
        if len(num) == 1:
            (m, c), = num.items()
            res = ({(): 1/Fr(c)}, {})
            inv = tuple((k, -e) for k, e in m)
            plain = ({(): Fr(1)}, {})
            res = self.rmul(res, self.rmul(plain, ({inv: Fr(1)}, {})))
            for k, e in den.items():
                res = self.rmul(res, self.rpow((self.norm(k)[0], {}), e))
            return res
        # factor out the monomial content
        m0 = self.content(num)
        lead = None
        if m0:
            inv = tuple((k, -e) for k, e in m0)
            num = {self.mmul(m, inv): c for m, c in num.items()}
        key = self.leadmono(num)
        lead = num[key]
        num = {m: c/lead for m, c in num.items()}
        dterm = self.pterm(num)
        res = ({tuple((k, -e) for k, e in m0): 1/Fr(lead)}, {dterm: 1})
        for k, e in den.items():
            res = self.rmul(res, self.rpow((self.norm(k)[0], {}), e))
        return res

    def content(self, num):
        it = iter(num)
        c = dict(next(it))
        for m in it:
            d = dict(m)
            for k in list(c):
                e = min(c[k], d.get(k, 0)) if (c[k] > 0 or d.get(k, 0) < 0 or k in d) else c[k]
                c[k] = min(c[k], d.get(k, Fr(0)))
            for k, e in d.items():
                if k not in c and e < 0:
                    c[k] = e
        return tuple(sorted(((k, e) for k, e in c.items()
                             if e and not (k is J) and not (k.op == 'f' and k.a[0] == '%P')),
                            key=lambda ke: ke[0].id))

    def leadmono(self, num):
        return max(num, key=lambda m: tuple((k.id, e) for k, e in m))

    def mterm(self, m, c=1):
        fs = []
        for k, e in m:
            if k.op == 'f' and k.a[0] == '%P':
                k = k.a[1]
            fs.append(power(k, const(e)) if e != 1 else k)
        return mul(const(c), *fs)

    def pterm(self, p):
        return add(*[self.mterm(m, c) for m, c in p.items()])

    def rterm(self, a):
        return mul(self.pterm(a[0]), *[power(k, const(-e)) for k, e in a[1].items()])

    def canon(self, t):
        """canonical term equal to t"""
        if t.s == 'B':
            return t_.rebuild(t, self.canon) if t.op not in ('le', 'lt', 'eq') else t_.rebuild(t, self.canon)
        return self.rterm(self.norm(t))

    def atom(self, t, e=1):
        return ({((t, Fr(e)),): Fr(1)}, {})

    def norm(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._norm(t)
            self.memo[t] = r
        return r

    def _norm(self, t):
        op = t.op
        if op == 'c':
            return ({(): t.a[0]} if t.a[0] else {}, {})
        if op == 'v':
            return self.atom(t)
        if op == '+':
            r = ({}, {})
            for k, v in t.a:
                a = self.norm(k)
                r = self.radd(r, ({m: c*v for m, c in a[0].items()}, a[1]))
            return r
        if op == '*':
            r = ({(): t.a[0].a[0]}, {})
            for b, e in t.a[1:]:
                r = self.rmul(r, self.npow(b, e.a[0]))
            return r
        if op == '^':
            return self.npow(t.a[0], t.a[1].a[0])
        if op == 'f':
            return self.nfun(t)
        if op == 'ite':
            c = self.canon(t.a[0])
            return self.atom_or(ite(c, self.canon(t.a[1]), self.canon(t.a[2])), t)
        if op == 'red':
            return self.nred(t)
        if t.s == 'B':
            return self.atom(ite(self.canon(t), ONE, ZERO)) if t not in (TRUE, FALSE) else self.norm(ONE if t is TRUE else ZERO)
        raise ValueError(op)

    def atom_or(self, u, t):
        if u.op in ('ite', 'red', 'v') or u.op == 'f':
            return self.atom(u)
        if u is t:
            return self.atom(u)
        return self.norm(u)

    def ispos(self, k):
        return (k in self.pos or k is t_.PI or (k.op == 'f' and k.a[0] == 'exp' and J not in fv(k))
                or (k.op == 'c' and k.a[0] > 0))

    def npow(self, b, e):
        a = self.norm(b)
        if e.denominator == 1:
            return self.rpow(a, int(e))
        num, den = a
        if not num:
            return a
        # pull out positive atoms
        out = ({(): Fr(1)}, {})
        m0 = self.content(num) if len(num) > 1 else tuple(next(iter(num)))
        pos = tuple((k, x) for k, x in m0 if self.ispos(k))
        if pos:
            inv = tuple((k, -x) for k, x in pos)
            num = {self.mmul(m, inv): c for m, c in num.items()}
            out = ({tuple((k, x*e) for k, x in pos): Fr(1)}, {})
        if den:
            # N^e with N = num/den: keep the den inside, as a positive factor cannot be assumed
            base = self.rterm((num, den))
        else:
            base = self.pterm(num)
        if base is ONE:
            return out
        if isc(base):
            v = t_.power(base, const(e))
            if isc(v):
                return self.rmul(out, self.norm(v))
            # sqrt of a rational: sqrt(n)/sqrt(d) -> atoms for primes
            return self.rmul(out, self.csqrt(cval(base), e))
        P = app('%P', base)
        self.memo.setdefault(base, (num, den))
        return self.rmul(out, self.rmul(({(): Fr(1)}, {}), ({((P, e),): Fr(1)}, {})))

    def csqrt(self, v, e):
        if v <= 0:
            return ({((app('%P', const(v)), e),): Fr(1)}, {})
        r = ({(): Fr(1)}, {})
        for n, s in ((v.numerator, 1), (v.denominator, -1)):
            p = 2
            while n > 1:
                k = 0
                while n % p == 0:
                    n //= p
                    k += 1
                if k:
                    r = self.rmul(r, ({(): Fr(1)}, {}) if False else self.rmul(
                        ({(): Fr(1)}, {}), ({((app('%P', const(p)), e*k*s),): Fr(1)}, {})))
                p += 1
                if p*p > n and n > 1:
                    p = n
        return r

    def nfun(self, t):
        n, args = t.a[0], t.a[1:]
        if n == '%P':
            return self.atom(t)
        if n == 'exp':
            return self.nexp(args[0])
        if n == 'log':
            return self.nlog(args[0])
        cargs = []
        for x in args:
            cargs.append(self.canon(x))
        if n in ('Phi', 'erf') and len(cargs) == 1 and not isc(cargs[0]):
            num, den = self.norm(cargs[0])
            if num and num[self.leadmono(num)] < 0:
                pos = self.atom(app(n, neg(cargs[0])))
                pos = self.atom(app(n, self.canon(neg(cargs[0]))))
                m = ({k: -v for k, v in pos[0].items()}, {})
                return self.radd(self.norm(ONE), m) if n == 'Phi' else m
        if n == 'Phi' and cargs[0] is ZERO:
            return self.norm(t_.HALF)
        if n == 'erf' and cargs[0] is ZERO:
            return self.norm(ZERO)
        return self.atom(app(n, *cargs, s=t.s))

    def nexp(self, x):
        num, den = self.norm(x)
        r = ({(): Fr(1)}, {})
        dt = mul(*[power(k, const(-e)) for k, e in den.items()]) if den else ONE
        for m, c in num.items():
            if not den and len(m) == 1 and m[0][0].op == 'f' and m[0][0].a[0] == 'log' and m[0][1] == 1:
                r = self.rmul(r, self.npow(m[0][0].a[1], c))
                continue
            at = app('exp', mul(self.mterm(m), dt))
            r = self.rmul(r, ({((at, Fr(c)),): Fr(1)}, {}))
        return r

    def nlog(self, x):
        num, den = self.norm(x)
        r = ({}, {})
        if len(num) == 1:
            (m, c), = num.items()
            rest = []
            for k, e in m:
                if k.op == 'f' and k.a[0] == 'exp' and J not in fv(k):
                    a = self.norm(k.a[1])
                    r = self.radd(r, ({mm: cc*e for mm, cc in a[0].items()}, a[1]))
                elif self.ispos(k):
                    r = self.radd(r, ({((app('log', k), Fr(1)),): e}, {}))
                else:
                    rest.append((k, e))
            num = {tuple(rest): c}
            if c > 0 and c != 1 and False:
                pass
        base = self.rterm((num, den))
        if base is ONE:
            return r
        return self.radd(r, self.atom(app('log', base)))

    def nred(self, t):
        kind, n, body, kk = t.a
        nn = self.canon(n)
        if kind != 'sum':
            b = self.canon(body)
            u = reduce_(kind, nn, lambda k: subst(b, {kk: k}))
            return self.atom(u) if u.op == 'red' else self.norm(u)
        # constant part of the limit
        nnum, nden = self.norm(nn)
        c0 = nnum.get((), Fr(0)) if not nden else Fr(0)
        extra = ({}, {})
        if c0 and len(nnum) > 1 and c0.denominator == 1 and abs(c0) <= 4:
            L = self.pterm({m: c for m, c in nnum.items() if m != ()})
            for j in range(abs(int(c0))):
                at = add(L, const(j)) if c0 > 0 else add(L, const(-1 - j))
                b = self.norm(subst(body, {kk: at}))
                extra = self.radd(extra, b if c0 > 0 else ({m: -c for m, c in b[0].items()}, b[1]))
            nn = L
        num, den = self.norm(body)
        kden, fden = {}, {}
        for k, e in den.items():
            (kden if kk in fv(k) else fden)[k] = e
        kinv = mul(*[power(k, const(-e)) for k, e in kden.items()]) if kden else None
        r = ({}, {})
        for m, c in num.items():
            dep = tuple((k, e) for k, e in m if kk in fv(k))
            free = tuple((k, e) for k, e in m if kk not in fv(k))
            if not dep and kinv is None:
                term = self.rmul(({free: c}, {}), self.norm(nn))
            else:
                bt = self.mterm(dep)
                if kinv is not None:
                    bt = mul(bt, kinv)
                u = reduce_('sum', nn, lambda k: subst(bt, {kk: k}))
                if u.op == 'red':
                    at = self.atom(u)
                else:
                    at = self.norm(u)
                term = self.rmul(({free: c}, {}), at)
            r = self.radd(r, term)
        r = self.radd((r[0], self._dmul(r[1], fden)), extra)
        return r

    def _dmul(self, d, e):
        d = dict(d)
        for k, n in e.items():
            d[k] = d.get(k, 0) + n
        return d

    def iszero(self, t):
        return not self.norm(t)[0]


# ======================================================================= z3

REALS = {'state', 'out'}      # functions of contracts, whose first argument is a real number


class Z3Conv:
    def __init__(self, ring=None):
        self.memo = {}
        self.ring = ring
        self.axioms = []
        self.fdecl = {}
        self.redmap = {}

    def decl(self, name, args, s):
        key = (name, tuple(a.sort() for a in args), s)
        d = self.fdecl.get(key)
        if d is None:
            rs = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}[s]
            d = z3.Function('%s/%d%s' % (name, len(self.fdecl), s), *[a.sort() for a in args], rs)
            self.fdecl[key] = d
        return d

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.conv(t)
            self.memo[t] = r
        return r

    def real(self, e):
        if z3.is_bool(e):
            return z3.If(e, z3.RealVal(1), z3.RealVal(0))
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def num(self, t, s):
        e = self(t)
        if z3.is_bool(e):
            e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
        return e if s == 'I' else self.real(e)

    def conv(self, t):
        op = t.op
        if op == 'c':
            v = t.a[0]
            return z3.IntVal(v.numerator) if v.denominator == 1 else z3.Q(v.numerator, v.denominator)
        if op == 'v':
            return {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[t.s](t.a[0])
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == '+':
            s = t.s
            return z3.Sum(*[self.num(mul(const(v), k), s) for k, v in t.a])
        if op == '*':
            s = t.s
            r = self.num(t.a[0], s) if t.a[0] is not ONE else None
            for b, e in t.a[1:]:
                x = self.num(power(b, e), s)
                r = x if r is None else r*x
            return r
        if op == '^':
            b, e = t.a[0], t.a[1].a[0]
            if e.denominator == 1:
                n = int(e)
                if n > 0:
                    x = self.num(b, t.s)
                    r = x
                    for _ in range(n - 1):
                        r = r*x
                    return r
                x = self.real(self(b))
                r = x
                for _ in range(-n - 1):
                    r = r*x
                return z3.RealVal(1)/r
            x = self.real(self(b))
            f = self.decl('pow_%s' % e, (x,), 'R')
            y = f(x)
            self.axioms.append(z3.Implies(x >= 0, y >= 0))
            self.axioms.append(z3.Implies(x > 0, y > 0))
            if e == Fr(1, 2):
                self.axioms.append(z3.Implies(x >= 0, y*y == x))
            if e > 0:
                self.axioms.append(z3.Implies(x == 0, y == 0))
            return y
        if op == 'f':
            args = [self(u) for u in t.a[1:]]
            n = t.a[0]
            if n in ('exp', 'log', 'Phi', 'erf', 're'):
                args = [self.real(a) for a in args]
            elif n in REALS:
                args[0] = self.real(args[0])
            r = self.decl(n, args, t.s)(*args)
            if n == 'exp':
                self.axioms.append(r > 0)
                self.axioms.append((r > 1) == (args[0] > 0))
                self.axioms.append((r < 1) == (args[0] < 0))
            elif n == 'Phi':
                self.axioms.append(z3.And(r >= 0, r <= 1))
            elif n == 'floor':
                self.axioms.append(z3.And(self.real(r) <= self.real(args[0]), self.real(args[0]) < self.real(r) + 1))
            elif n in ('imod', 'idiv') and isc(t.a[2]) and cval(t.a[2]) > 0:
                return args[0] % args[1] if n == 'imod' else args[0]/args[1]
            elif n == 'imod':
                a, b = args
                self.axioms.append(z3.Implies(b > 0, z3.And(r >= 0, r < b)))
                self.axioms.append(z3.Implies(z3.And(a >= 0, a < b), r == a))
            return r
        if op == 'red':
            u = t
            kind, n, body, kk = u.a
            free = sorted(fv(u), key=lambda v: v.id)
            skel = subst(u, {v: var('%%h%d' % i, v.s) for i, v in enumerate(free)})
            args = [self(v) for v in free]
            if not args:
                args = [z3.IntVal(0)]
            f = self.decl('red:' + show(skel) + str(skel.id), args, t.s)
            r = f(*args)
            self.memo[t] = r
            if kind in ('all', 'any', 'min', 'max'):
                self.redaxioms(t, r)
            return r
        if op == 'ite':
            s = t.s
            return z3.If(self(t.a[0]), self.num(t.a[1], s), self.num(t.a[2], s))
        if op == 'and':
            return z3.And(*[self(u) for u in t.a])
        if op == 'or':
            return z3.Or(*[self(u) for u in t.a])
        if op == 'not':
            return z3.Not(self(t.a[0]))
        a, b = self(t.a[0]), self(t.a[1])
        if not (z3.is_bool(a) and z3.is_bool(b)):
            s = 'I' if t.a[0].s == 'I' and t.a[1].s == 'I' else 'R'
            a, b = self.num(t.a[0], s), self.num(t.a[1], s)
        if op == 'eq':
            return a == b
        if op == 'le':
            return a <= b
        if op == 'lt':
            return a < b
        raise ValueError(op)


    def redaxioms(self, t, r):
        """definitions of all/any/min/max reductions"""
        if getattr(self, 'inq', False):
            return
        kind, n, body, kk = t.a
        t_._tmp[0] += 1
        nz = self(n)
        k = var('%%q%d' % t_._tmp[0], 'I')
        sk = var('%%k%d' % t_._tmp[0], 'I')
        n0 = len(self.axioms)
        self.inq = True
        bk = self(subst(body, {kk: k}))
        self.inq = False
        inner = self.axioms[n0:]
        del self.axioms[n0:]
        bs = self(subst(body, {kk: sk}))
        kz, sz = self(k), self(sk)
        rng, srng = z3.And(kz >= 0, kz < nz), z3.And(sz >= 0, sz < nz)
        if kind == 'all':
            self.axioms.append(z3.Implies(r, z3.ForAll([kz], z3.Implies(rng, bk))))
            self.axioms.append(z3.Implies(z3.Not(r), z3.And(srng, z3.Not(bs))))
        elif kind == 'any':
            self.axioms.append(z3.Implies(z3.Not(r), z3.ForAll([kz], z3.Implies(rng, z3.Not(bk)))))
            self.axioms.append(z3.Implies(r, z3.And(srng, bs)))
        else:
            cmp = (lambda a, b: a <= b) if kind == 'min' else (lambda a, b: a >= b)
            if z3.is_int(r) and not z3.is_int(bk):
                r = z3.ToReal(r)
            self.axioms.append(z3.ForAll([kz], z3.Implies(rng, cmp(r, bk))))
            self.axioms.append(z3.Implies(nz > 0, z3.And(srng, r == bs)))
        for a in inner:
            if kz.eq(kz) and _occurs(kz, a):
                a = z3.ForAll([kz], a)
            self.axioms.append(a)


def _occurs(v, e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def z3_sat(fs, timeout=5000, conv=None, extra=()):
    """'sat' | 'unsat' | 'unknown' and a model"""
    conv = conv or Z3Conv()
    t0 = time.time()
    s = z3.SimpleSolver() if extra else z3.Solver()
    s.set('timeout', timeout)
    if extra:
        s.set('smt.auto_config', False)   # quantifiers have patterns
        s.set('smt.mbqi', False)
    for f in fs:
        s.add(conv(f))
    for e in extra:
        s.add(e(conv) if callable(e) else e)
    for a in conv.axioms:
        s.add(a)
    r = s.check()
    count('z3', t0)
    if r == z3.sat:
        return 'sat', s.model(), s
    if r == z3.unsat:
        return 'unsat', None, s
    return 'unknown', None, s


def cvc5_unsat(solver, timeout=5):
    """second opinion on the z3 solver's assertions"""
    t0 = time.time()
    try:
        import cvc5
        smt = '(set-logic ALL)\n' + solver.to_smt2().replace('(check-sat)', '')
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        s = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        s.setOption('tlimit-per', str(int(timeout*1000)))
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, 'q')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            c.invoke(s, sm)
        r = s.checkSat()
        return r.isUnsat()
    except Exception:
        return False
    finally:
        count('cvc5', t0)


class Prover:
    def __init__(self, pos=(), timeout=8000, lemmas=(), base=None):
        self.pos = set(pos)
        self.timeout = timeout
        self.lemmas = list(lemmas)   # extra z3 facts: callables conv -> expr
        self.base = base             # the path: an incremental solver holding its condition
        if base is not None:
            self.basepc = frozenset(base.pc)
            self.nbase = len([p for p in base.pc if p is not TRUE])
        self.ring = Ring(self.pos)

    def valid(self, goal, pc=(), depth=0):
        r = self.valid_(goal, pc, depth)
        if r.status != 'proved' and depth == 0:
            from .numcheck import sample
            mono = {}
            for f in self.lemmas:
                x = getattr(f, 'sampled', ())
                mono.update(x if isinstance(x, dict) else dict.fromkeys(x))
            k, data = sample(goal, [p for p in pc if p is not TRUE], mono=mono)
            if k == 'refuted' and not all(hasattr(f, 'sampled') for f in self.lemmas):
                # the point may violate a quantified precondition: not a refutation
                r = Result(r.status, r.backend, r.info + ' (false at a random point)', r.model)
            elif k == 'refuted':
                r = Result('failed', r.backend, r.info + ' numerical counterexample', data)
            elif k == 'agree':
                r = Result('undecided', r.backend, r.info + ' (true at %d random points)' % data, None)
        return r

    def valid_(self, goal, pc=(), depth=0):
        t0 = time.time()
        pc = [p for p in pc if p is not TRUE]
        if goal is TRUE or goal in pc:
            count('trivial', t0)
            return Result('proved', 'trivial')
        if FALSE in pc:
            return Result('proved', 'trivial')
        if goal.op == 'and':
            be = 'trivial'
            for g in goal.a:
                r = self.valid_(g, pc, depth)
                if not r:
                    return r
                be = r.backend
            return Result('proved', be)
        if goal.op == 'or' and depth < 6:
            # prove the last disjunct under the negation of the others
            g = goal.a[-1]
            for u in goal.a:
                if u.op == 'eq':
                    g = u
            pc = pc + [not_(u) for u in goal.a if u is not g]
            # (conjunctions in pc are split by z3)
            return self.valid_(g, pc, depth + 1)
        if goal.op == 'eq' and goal.a[0].s != 'B':
            return self.valid_eq(goal.a[0], goal.a[1], pc)
        return self.smt(goal, pc)

    def smt(self, goal, pc, cvc=True):
        t0 = time.time()
        if goal.op in ('lt', 'le', 'not') and Signs(pc).decide(goal):
            count('signs', t0)
            return Result('proved', 'signs')
        if self.lemmas and self.ground(goal, pc):
            return Result('proved', 'z3')
        if self.inc(goal, pc) == 'unsat':
            return Result('proved', 'z3')
        quick = cvc and self.lemmas and self.timeout > 2000
        st, model, s = z3_sat(list(pc) + [not_(goal)], 1500 if quick else self.timeout, extra=self.lemmas)
        if st == 'unsat':
            return Result('proved', 'z3')
        if st == 'unknown' and cvc and cvc5_unsat(s):
            return Result('proved', 'cvc5')
        if st == 'unknown' and quick:
            st, model, s = z3_sat(list(pc) + [not_(goal)], self.timeout, extra=self.lemmas)
            if st == 'unsat':
                return Result('proved', 'z3')
        if st == 'sat':
            return Result('failed', 'z3', 'countermodel', model)
        return Result('unknown', 'z3', show(goal)[:300])

    def ground(self, goal, pc):
        """proved from the path condition, without the quantified facts?"""
        return z3_sat(list(pc) + [not_(goal)], 1000)[0] == 'unsat'

    def inc(self, c, pc):
        """'unsat' if pc entails c, decided in the solver of the path (None: not applicable)"""
        b = self.base
        if b is None:
            return None
        have = self.basepc
        extra = [p for p in pc if p not in have]
        if len(pc) - len(extra) < self.nbase:
            return None
        r = b.query(extra + [not_(c)])
        return r

    def entails(self, c, pc):
        """quick check, for simplification only"""
        r = Signs(pc).decide(c)
        if r is not None:
            return r
        r = self.inc(c, pc)
        if r is not None and r != 'unknown':
            return r == 'unsat'
        st, _, _ = z3_sat(list(pc) + [not_(c)], 1000, extra=self.lemmas)
        return st == 'unsat'

    def ites(self, t):
        """conditions of conditionals outside reductions"""
        out = []
        seen = set()
        stack = [t]
        while stack:
            u = stack.pop()
            if u in seen:
                continue
            seen.add(u)
            if u.op == 'red':
                continue
            if u.op == 'ite' and u.a[0] not in out:
                out.append(u.a[0])
            if u.op in ('and', 'or', 'not', 'le', 'lt', 'eq'):
                continue
            stack.extend(t_.subterms(u))
        return out

    def assume(self, t, c, val):
        """replace condition c by val inside t"""
        m = {c: TRUE if val else FALSE, not_(c): FALSE if val else TRUE}
        return replace_bool(t, m)

    def valid_eq(self, a, b, pc, depth=0):
        t0 = time.time()
        d = sub(a, b)
        ok = False
        try:
            ok = self.ring.iszero(d)
        except ZeroDivisionError:
            pass
        if ok:
            count('ring', t0)
            return Result('proved', 'ring')
        cs = self.ites(d)
        if cs and depth < 14:
            # choose an innermost condition
            c = cs[-1]
            res = None
            for val in (True, False):
                lit = c if val else not_(c)
                pc2 = list(pc) + [lit]
                if self.lemmas:
                    if Signs(pc).decide(not_(lit)) or self.ground(FALSE, pc2):
                        continue
                elif self.entails(not_(lit), pc):
                    continue
                r = self.valid_eq(self.assume(a, c, val), self.assume(b, c, val), pc2, depth + 1)
                if not r:
                    if self.lemmas and self.entails(not_(lit), pc):
                        continue
                    return r
                res = r
            return res or Result('proved', 'z3')
        # pointwise congruence of reductions
        r = self.congruence(a, b, pc)
        if r is not None:
            return r
        r = self.smt(eq(a, b), pc)
        if r.status != 'proved':
            n = self.ring.canon(d)
            r.info += ' difference: ' + show(n)[:4000]
            if r.status == 'unknown':
                r = Result('unknown', 'ring+z3', r.info)
        return r

    def congruence(self, a, b, pc, depth=0):
        ca, cb = self.ring.canon(a), self.ring.canon(b)
        ra = [u for u in walk(ca) if u.op == 'red']
        rb = [u for u in walk(cb) if u.op == 'red']
        if not ra or not rb:
            return None
        # maximal (outermost) reductions only
        m = {}
        for u in ra:
            if u in rb:
                continue
            for v in rb:
                if v in ra or v in m or u.a[0] != v.a[0]:
                    continue
                if self.same_red(u, v, pc):
                    m[v] = u
                    break
        if not m:
            return None
        cb2 = subst(cb, m)
        if self.ring.iszero(sub(ca, cb2)):
            return Result('proved', 'ring+z3')
        return self.smt(eq(ca, cb2), pc)

    def same_red(self, u, v, pc):
        if not self.valid_eq(u.a[1], v.a[1], pc):
            return False
        t_._tmp[0] += 1
        k = var('%%s%d' % t_._tmp[0], 'I')
        b1, b2 = subst(u.a[2], {u.a[3]: k}), subst(v.a[2], {v.a[3]: k})
        pc2 = list(pc) + [le(ZERO, k), lt(k, u.a[1])]
        if b1.s == 'B':
            g = and_(implies(b1, b2), implies(b2, b1))
            return bool(self.smt(g, pc2, cvc=False))
        return bool(self.valid_eq(b1, b2, pc2))


def replace_bool(t, m):
    memo = {}

    def R(u):
        if u in m:
            return m[u]
        if u.op in ('c', 'v', 'true', 'false'):
            return u
        r = memo.get(u)
        if r is None:
            if u.op == 'red':
                r = u
            else:
                r = t_.rebuild(u, R)
            memo[u] = r
        return r
    return R(t)
