"""Hash-consed terms: the assertion language of the verifier.

Sorts: 'R' (real or formal complex), 'I' (int), 'B' (bool).  The imaginary
unit is the constant J, with J*J == -1 applied by the ring normaliser.
"""
from fractions import Fraction as Fr
import math
import cmath

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'a', 's', 'id', '_fv', '_h', '_n', '_d')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    # convenience operators, used by the specifications
    def __add__(self, o): return add(self, tm(o))
    def __radd__(self, o): return add(tm(o), self)
    def __sub__(self, o): return sub(self, tm(o))
    def __rsub__(self, o): return sub(tm(o), self)
    def __mul__(self, o): return mul(self, tm(o))
    def __rmul__(self, o): return mul(tm(o), self)
    def __truediv__(self, o): return div(self, tm(o))
    def __rtruediv__(self, o): return div(tm(o), self)
    def __pow__(self, o): return power(self, tm(o))
    def __neg__(self): return mul(MINUS1, self)


def _mk(op, a, s):
    k = (op, a, s)
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op, t.a, t.s = op, a, s
        _cnt[0] += 1
        t.id = _cnt[0]
        t._h = hash(k)
        t._fv = None
        t._n = None
        t._d = None
        _tab[k] = t
    return t


def const(v, s=None):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (math.inf, -math.inf):
            return INF if v > 0 else mul(MINUS1, INF)
        v = Fr(repr(v)) if abs(v) < 1e15 and 'e' not in repr(v) else Fr(v)
        s = 'R'
    elif isinstance(v, complex):
        return add(const(v.real), mul(const(v.imag), J))
    v = Fr(v)
    if s is None:
        s = 'I' if v.denominator == 1 else 'R'
    # integral constants are shared by both numeric sorts
    return _mk('c', (v,), 'I' if v.denominator == 1 else 'R')


def tm(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, int, float, complex, Fr)):
        return const(x)
    t = getattr(x, 't_', None)
    if isinstance(t, T):
        return t
    raise TypeError('not a term: %r' % (x,))


def var(name, s='R'):
    return _mk('v', (name,), s)


def app(name, *args, s='R'):
    return _mk('f', (name,) + args, s)


TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')
ZERO = const(0)
ONE = const(1)
MINUS1 = const(-1)
HALF = const(Fr(1, 2))
J = _mk('v', ('%j',), 'R')
NAN = _mk('v', ('%nan',), 'R')
INF = _mk('v', ('%inf',), 'R')
PI = _mk('v', ('%pi',), 'R')


def isc(t):
    return t.op == 'c'


def cval(t):
    return t.a[0]


def has_nan(t):
    return t is NAN


# ---------------------------------------------------------------- arithmetic

def _lin(t):
    """t as {term: coef} (term ONE for constants)."""
    if t.op == 'c':
        return {ONE: t.a[0]} if t.a[0] else {}
    if t.op == '+':
        return dict(t.a)
    if t.op == '*' and t.a[0].op == 'c':
        return {_mul_from(t.a[1:]): t.a[0].a[0]}
    return {t: Fr(1)}


def _mul_from(fs):
    if len(fs) == 1:
        b, e = fs[0]
        if e is ONE:
            return b
        return _mk('^', (b, e), b.s if False else _pow_sort(b, e))
    return _mk('*', (ONE,) + tuple(fs), _mul_sort(ONE, fs))


def _pow_sort(b, e):
    return 'I' if b.s == 'I' and e.op == 'c' and e.a[0].denominator == 1 and e.a[0] >= 0 else 'R'


def _mul_sort(c, fs):
    if c.op == 'c' and c.a[0].denominator != 1:
        return 'R'
    for b, e in fs:
        if _pow_sort(b, e) != 'I':
            return 'R'
    return 'I'


def _from_lin(d):
    items = [(k, v) for k, v in d.items() if v]
    if not items:
        return ZERO
    if len(items) == 1:
        k, v = items[0]
        if k is ONE:
            return const(v)
        if v == 1:
            return k
        return _scale(k, v)
    items.sort(key=lambda kv: kv[0].id)
    s = 'I' if all(k.s == 'I' and v.denominator == 1 for k, v in items) else 'R'
    return _mk('+', tuple(items), s)


def _scale(k, v):
    """v*k with k not const, not add"""
    c = const(v)
    fs = _factors(k)[1]
    if v == 1:
        return _mul_from(fs)
    return _mk('*', (c,) + tuple(fs), _mul_sort(c, fs))


def _factors(t):
    """t -> (coef Fraction, list of (base, exponent const term))"""
    if t.op == 'c':
        return t.a[0], []
    if t.op == '*':
        return t.a[0].a[0], list(t.a[1:])
    if t.op == '^':
        return Fr(1), [(t.a[0], t.a[1])]
    return Fr(1), [(t, ONE)]


def add(*ts):
    d = {}
    for t in ts:
        if t.s == 'B':
            t = ite(t, ONE, ZERO)
        if t is NAN:
            return NAN
        for k, v in _lin(t).items():
            d[k] = d.get(k, 0) + v
    return _from_lin(d)


def neg(t):
    return mul(MINUS1, t)


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    c = Fr(1)
    fs = {}
    order = []
    sums = []
    for t in ts:
        if t.s == 'B':
            t = ite(t, ONE, ZERO)
        if t is NAN:
            return NAN
        c0, f0 = _factors(t)
        c *= c0
        for b, e in f0:
            if b not in fs:
                fs[b] = Fr(0)
                order.append(b)
            fs[b] += e.a[0]
    if c == 0:
        return ZERO
    if fs.get(J):
        n = fs[J]
        if n.denominator == 1:
            n = int(n) % 4
            c *= (1, 1, -1, -1)[n]
            fs[J] = Fr(n % 2)
    lst = [(b, const(fs[b])) for b in order if fs[b] != 0]
    if not lst:
        return const(c)
    lst.sort(key=lambda be: be[0].id)
    if len(lst) == 1 and lst[0][1] is ONE:
        b = lst[0][0]
        if b.op == '+':  # distribute constants over sums
            return _from_lin({k: v*c for k, v in b.a})
        if c == 1:
            return b
    if c == 1:
        return _mul_from(lst)
    return _mk('*', (const(c),) + tuple(lst), _mul_sort(const(c), lst))


def div(a, b):
    return mul(a, power(b, MINUS1))


def power(b, e):
    if b is NAN or e is NAN:
        return NAN
    if e.op == 'c':
        n = e.a[0]
        if n == 0:
            return ONE
        if n == 1:
            return b
        if b.op == 'c':
            v = b.a[0]
            if n.denominator == 1 and (v != 0 or n > 0):
                return const(v**int(n))
            if v == 0 and n > 0:
                return ZERO
            if v == 1:
                return ONE
            if n == Fr(1, 2) and v > 0:
                p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if p*p == v.numerator and q*q == v.denominator:
                    return const(Fr(p, q))
            return _mk('^', (b, e), 'R')
        if n.denominator == 1:
            if b.op in ('*', '^'):
                c, fs = _factors(b)
                if c != 0:
                    return mul(const(c**int(n)), *[power1(b0, e0.a[0]*n) for b0, e0 in fs])
            return power1(b, n)
        return _mk('^', (b, e), 'R')
    return fexp(mul(e, flog(b)))


def power1(b, n):
    if n == 0:
        return ONE
    if n == 1:
        return b
    return mul(_mk('^', (b, const(n)), _pow_sort(b, const(n))))


def fexp(x):
    if x is ZERO:
        return ONE
    if x is NAN:
        return NAN
    if x.op == 'f' and x.a[0] == 'log':
        return x.a[1]
    return app('exp', x)


def flog(x):
    if x is ONE:
        return ZERO
    if x is NAN:
        return NAN
    if x.op == 'f' and x.a[0] == 'exp':
        return x.a[1]
    return app('log', x)


def fsqrt(x):
    return power(x, HALF)


# ------------------------------------------------------------------- complex

def cparts(t):
    """(real, imaginary) parts; symbols without J denote reals"""
    if J not in fv(t):
        return t, ZERO
    if t is J:
        return ZERO, ONE
    if t.op != 'red' and _big(t):
        return app('re', t), app('im', t)
    if t.op == '+':
        ps = [cparts(k) for k, v in t.a]
        cs = [const(v) for k, v in t.a]
        return add(*[mul(c, p[0]) for c, p in zip(cs, ps)]), add(*[mul(c, p[1]) for c, p in zip(cs, ps)])
    if t.op == '*' or t.op == '^':
        c, fs = _factors(t)
        re, im = const(c), ZERO
        for b, e in fs:
            if e.op == 'c' and e.a[0].denominator == 1 and abs(e.a[0]) <= 4:
                n = int(e.a[0])
                x, y = cparts(b)
                if n < 0 and y is not ZERO:
                    m = add(mul(x, x), mul(y, y))
                    x, y = div(x, m), neg(div(y, m))
                    n = -n
                if y is ZERO:
                    x, n = power(x, const(n)), 1
            else:
                f = power(b, e)
                x, y = (f, ZERO) if J not in fv(f) else (app('re', f), app('im', f))
                n = 1
            for _ in range(n):
                re, im = sub(mul(re, x), mul(im, y)), add(mul(re, y), mul(im, x))
        return re, im
    if t.op == 'ite':
        a, b = cparts(t.a[1]), cparts(t.a[2])
        return ite(t.a[0], a[0], b[0]), ite(t.a[0], a[1], b[1])
    if t.op == 'f' and t.a[0] == 'exp':
        x, y = cparts(t.a[1])
        return mul(fexp(x), fcos(y)), mul(fexp(x), fsin(y))
    if t.op == 'red' and t.a[0] in ('sum', 'int'):
        kind, n, body, kk = t.a
        return (reduce_(kind, n, lambda k: cparts(subst(body, {kk: k}))[0]),
                reduce_(kind, n, lambda k: cparts(subst(body, {kk: k}))[1]))
    return app('re', t), app('im', t)


def _big(t):
    """nested roots and quotients of complex numbers are not expanded"""
    n = 0
    for u in walk(t):
        if u.op == '^' and J in fv(u.a[0]) and isc(u.a[1]) and cval(u.a[1]) not in (2, 3):
            n += 1
        elif u.op == '*':
            n += sum(1 for b, e in u.a[1:] if J in fv(b) and isc(e) and (cval(e) < 0 or cval(e).denominator > 1))
        elif u.op == 'f' and u.a[0] == 'log' and J in fv(u):
            n += 1
    return n > 2


def _lead_neg(y):
    k, v = next(iter(_lin(y).items()), (None, 1))
    return v < 0


def fcos(y):
    if y is ZERO:
        return ONE
    return app('cos', neg(y) if _lead_neg(y) else y)


def fsin(y):
    if y is ZERO:
        return ZERO
    return neg(app('sin', neg(y))) if _lead_neg(y) else app('sin', y)


def fre(t):
    return cparts(t)[0]


def fim(t):
    return cparts(t)[1]


# ------------------------------------------------------------------- boolean

def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.a[0]
    if a.op == 'le':
        return lt(a.a[1], a.a[0])
    if a.op == 'lt':
        return le(a.a[1], a.a[0])
    return _mk('not', (a,), 'B')


def and_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for u in (t.a if t.op == 'and' else (t,)):
            if u not in out:
                out.append(u)
    for u in out:
        if not_(u) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(out), 'B')


def or_(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for u in (t.a if t.op == 'or' else (t,)):
            if u not in out:
                out.append(u)
    for u in out:
        if not_(u) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk('or', tuple(out), 'B')


def implies(a, b):
    return or_(not_(a), b)


def _num(t):
    return ite(t, ONE, ZERO) if t.s == 'B' else t


def _norm_cmp(a, b):
    """a-b in light canonical form"""
    return sub(_num(a), _num(b))


def le(a, b):
    if a is NAN or b is NAN:
        return FALSE
    d = _norm_cmp(a, b)
    if isc(d):
        return TRUE if cval(d) <= 0 else FALSE
    d = _infsign(d)
    if isc(d):
        return TRUE if cval(d) <= 0 else FALSE
    return _mk('le', (_num(a), _num(b)), 'B')


def lt(a, b):
    if a is NAN or b is NAN:
        return FALSE
    d = _norm_cmp(a, b)
    if isc(d):
        return TRUE if cval(d) < 0 else FALSE
    d = _infsign(d)
    if isc(d):
        return TRUE if cval(d) < 0 else FALSE
    return _mk('lt', (_num(a), _num(b)), 'B')


def _infsign(d):
    """+-inf dominates finite terms in comparisons"""
    l = _lin(d)
    if INF in l:
        return const(1 if l[INF] > 0 else -1)
    return d


def eq(a, b):
    if a is b:
        return FALSE if a is NAN else TRUE
    if a is NAN or b is NAN:
        return FALSE
    if a.s == 'B' and b.s == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if a.id > b.id:
            a, b = b, a
        return _mk('eq', (a, b), 'B')
    d = _norm_cmp(a, b)
    if isc(d):
        return TRUE if cval(d) == 0 else FALSE
    d = _infsign(d)
    if isc(d):
        return FALSE
    a, b = _num(a), _num(b)
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', (a, b), 'B')


def ne(a, b):
    return not_(eq(a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a.s == 'B' or b.s == 'B':
        if a.s != 'B':
            a = ne(a, ZERO)
        if b.s != 'B':
            b = ne(b, ZERO)
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    s = 'I' if a.s == 'I' and b.s == 'I' else 'R'
    return _mk('ite', (c, a, b), s)


def tmin(a, b):
    return ite(le(a, b), a, b)


def tmax(a, b):
    return ite(le(b, a), a, b)


def tabs(a):
    if isc(a):
        return const(abs(cval(a)))
    return ite(le(ZERO, a), a, neg(a))


def tsign(a):
    return ite(lt(ZERO, a), ONE, ite(lt(a, ZERO), MINUS1, ZERO))


# ----------------------------------------------------------------- reductions

def _depth(t):
    if t._d is None:
        d = 0
        if t.op == 'red':
            d = 1
        t._d = d + max([_depth(x) for x in subterms(t)] or [0])
    return t._d


_tmp = [0]


def _delta(body, kk):
    """an entry of an identity matrix in the body of a sum over kk: the conditional, the value of kk"""
    seen = set()

    def go(x):
        if x in seen or x.op in ('c', 'v', 'red'):
            return None
        seen.add(x)
        if x.op == 'ite' and x.a[0].op == 'eq' and isc(x.a[1]) and isc(x.a[2]) and kk in fv(x.a[0]):
            p = sub(x.a[0].a[0], x.a[0].a[1])
            k = _lin(p).get(kk)
            if k in (1, -1):
                rest = sub(p, mul(const(k), kk))
                if kk not in fv(rest):
                    return x, (neg(rest) if k == 1 else rest)
        for y in subterms(x):
            r = go(y)
            if r is not None:
                return r
        return None
    return go(body)


def reduce_(kind, n, fn):
    """kind: 'sum','min','max','any'(count>0) ... over k in [0, n)"""
    n = tm(n)
    _tmp[0] += 1
    k = var('%%t%d' % _tmp[0], 'I')
    body = _num(fn(k)) if kind in ('sum', 'min', 'max') else fn(k)
    if body is NAN:
        return NAN
    d = max(_depth(body), _depth(n)) + 1
    kk = var('%%b%d' % d, 'I')
    body = subst(body, {k: kk})
    if isc(n) and cval(n) <= 3 and kind == 'sum':
        return add(*[subst(body, {kk: const(i)}) for i in range(int(cval(n)))])
    if isc(n) and 1 <= cval(n) <= 3 and kind in ('min', 'max'):
        xs = [subst(body, {kk: const(i)}) for i in range(int(cval(n)))]
        r = xs[0]
        for x in xs[1:]:
            r = tmin(r, x) if kind == 'min' else tmax(r, x)
        return r
    if isc(n) and cval(n) <= 3 and kind in ('any', 'all'):
        f = or_ if kind == 'any' else and_
        return f(*[subst(body, {kk: const(i)}) for i in range(int(cval(n)))])
    if kind == 'sum':
        d = _delta(body, kk)
        if d is not None:
            # sum of b(k) + [k == e]*(a(k) - b(k))
            u, e = d
            hi, lo = subst(body, {u: u.a[1]}), subst(body, {u: u.a[2]})
            hit = subst(sub(hi, lo), {kk: e})
            return add(reduce_('sum', n, lambda k: subst(lo, {kk: k})), ite(and_(le(ZERO, e), lt(e, n)), hit, ZERO))
    if kind in ('any', 'all'):
        if body in (TRUE, FALSE):
            e = lt(ZERO, n)
            if kind == 'any':
                return and_(e, body)
            return or_(not_(e), body)
        if kk not in fv(body):
            return and_(lt(ZERO, n), body) if kind == 'any' else or_(le(n, ZERO), body)
        return _mk('red', (kind, n, body, kk), 'B')
    if kind in ('min', 'max') and kk not in fv(body):
        return body
    s = body.s
    if kind == 'sum' and isc(body) and cval(body).denominator == 1:
        s = 'I'
    return _mk('red', (kind, n, body, kk), s)


def tsum(n, fn):
    return reduce_('sum', n, fn)


# ------------------------------------------------------------------ traversal

def subterms(t):
    op = t.op
    if op in ('c', 'v', 'true', 'false'):
        return ()
    if op == '+':
        return tuple(k for k, _ in t.a)
    if op == '*':
        return tuple(b for b, _ in t.a[1:])
    if op == '^':
        return (t.a[0],)
    if op == 'f':
        return t.a[1:]
    if op == 'red':
        return (t.a[1], t.a[2])
    return t.a


_EMPTY = frozenset()


def fv(t):
    if t._fv is None:
        if t.op == 'v':
            r = frozenset((t,))
        else:
            r = _EMPTY
            for u in subterms(t):
                r = r | fv(u)
            if t.op == 'red':
                r = r - {t.a[3]} | fv(t.a[1])
        t._fv = r
    return t._fv


def rebuild(t, f):
    """apply f to the immediate subterms, and rebuild with smart constructors"""
    op = t.op
    if op in ('c', 'v', 'true', 'false'):
        return t
    if op == '+':
        return add(*[mul(const(v), f(k)) for k, v in t.a])
    if op == '*':
        return mul(t.a[0], *[power(f(b), e) for b, e in t.a[1:]])
    if op == '^':
        return power(f(t.a[0]), t.a[1])
    if op == 'f':
        n = t.a[0]
        args = tuple(f(u) for u in t.a[1:])
        if n == 'exp':
            return fexp(*args)
        if n == 'log':
            return flog(*args)
        return app(n, *args, s=t.s)
    if op == 'red':
        kind, n, body, kk = t.a
        n2 = f(n)
        b2 = f(body)
        if n2 is n and b2 is body:
            return t
        return reduce_(kind, n2, lambda k: subst(b2, {kk: k}))
    if op == 'ite':
        return ite(*[f(u) for u in t.a])
    g = {'and': and_, 'or': or_, 'not': not_, 'le': le, 'lt': lt, 'eq': eq}[op]
    return g(*[f(u) for u in t.a])


def subst(t, m, memo=None):
    """capture-avoiding: bound variables are named by nesting depth, and are
    renamed by reduce_ when rebuilt"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t.op in ('c', 'true', 'false'):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if all(k.op == 'v' for k in m) and not any(k in fv(t) for k in m):
        return t
    if t.op == 'red':
        kind, n, body, kk = t.a
        n2 = subst(n, m, memo)
        m2 = {k: v for k, v in m.items() if k is not kk}

        def fn(k):
            mm = dict(m2)
            mm[kk] = k
            return subst(body, mm)
        r = reduce_(kind, n2, fn)
    else:
        r = rebuild(t, lambda u: subst(u, m, memo))
    memo[t] = r
    return r


def walk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        stack.extend(subterms(u))


def apps(t, name):
    return [u for u in walk(t) if u.op == 'f' and u.a[0] == name]


# ------------------------------------------------------------------- printing

def show(t, depth=0):
    op = t.op
    if depth > 40:
        return '...'
    d = depth + 1
    if op == 'c':
        return str(t.a[0])
    if op == 'v':
        return t.a[0]
    if op in ('true', 'false'):
        return op
    if op == 'f':
        return '%s(%s)' % (t.a[0], ', '.join(show(u, d) for u in t.a[1:]))
    if op == '+':
        return '(' + ' + '.join((show(k, d) if v == 1 else str(v) if k is ONE
                                 else '%s*%s' % (v, show(k, d))) for k, v in t.a) + ')'
    if op == '*':
        fs = [show(b, d) if e is ONE else '%s^%s' % (show(b, d), show(e, d)) for b, e in t.a[1:]]
        if t.a[0] is not ONE:
            fs = [show(t.a[0])] + fs
        return '*'.join(fs)
    if op == '^':
        return '%s^%s' % (show(t.a[0], d), show(t.a[1], d))
    if op == 'ite':
        return '(%s if %s else %s)' % (show(t.a[1], d), show(t.a[0], d), show(t.a[2], d))
    if op == 'red':
        return '%s[%s<%s](%s)' % (t.a[0], t.a[3].a[0], show(t.a[1], d), show(t.a[2], d))
    if op == 'not':
        return 'not(%s)' % show(t.a[0], d)
    sym = {'and': ' and ', 'or': ' or ', 'le': ' <= ', 'lt': ' < ', 'eq': ' == '}[op]
    return '(' + sym.join(show(u, d) for u in t.a) + ')'


# ------------------------------------------------------------ differentiation

def diff(t, x):
    memo = {}

    def D(u):
        if x not in fv(u):
            return ZERO
        if u in memo:
            return memo[u]
        op = u.op
        if op == 'v':
            r = ONE if u is x else ZERO
        elif op == '+':
            r = add(*[mul(const(v), D(k)) for k, v in u.a])
        elif op == '*':
            fs = u.a[1:]
            terms = []
            for i, (b, e) in enumerate(fs):
                db = D(b)
                if db is ZERO:
                    continue
                terms.append(mul(u.a[0], e, power(b, sub(e, ONE)), db,
                                 *[power(c, f) for j, (c, f) in enumerate(fs) if j != i]))
            r = add(*terms)
        elif op == '^':
            b, e = u.a
            r = mul(e, power(b, sub(e, ONE)), D(b))
        elif op == 'f':
            r = _dapp(u, D)
        elif op == 'ite':
            r = ite(u.a[0], D(u.a[1]), D(u.a[2]))
        elif op == 'red' and u.a[0] == 'sum':
            kind, n, body, kk = u.a
            if x in fv(n):
                raise ValueError('cannot differentiate')
            db = D(body)
            r = reduce_('sum', n, lambda k: subst(db, {kk: k}))
        else:
            raise ValueError('cannot differentiate %s' % show(u))
        memo[u] = r
        return r
    return D(t)


def _dapp(u, D):
    n, args = u.a[0], u.a[1:]
    if n == 'exp':
        return mul(u, D(args[0]))
    if n == 'log':
        return div(D(args[0]), args[0])
    if n == 'Phi':   # standard normal cdf
        return mul(normpdf(args[0]), D(args[0]))
    if n == 'erf':
        return mul(const(2), power(PI, const(Fr(-1, 2))),
                   fexp(neg(mul(args[0], args[0]))), D(args[0]))
    raise ValueError('no derivative for %s' % n)


def normpdf(x):
    return div(fexp(mul(const(Fr(-1, 2)), x, x)), fsqrt(mul(const(2), PI)))


# ------------------------------------------------------- numerical evaluation

class NoEval(Exception):
    pass


def evalf(t, env, funcs=None):
    memo = {}
    funcs = funcs or {}

    def E(u):
        r = memo.get(u)
        if r is not None:
            return r
        op = u.op
        if op == 'c':
            r = u.a[0].numerator / u.a[0].denominator if u.a[0].denominator != 1 else int(u.a[0])
        elif u in env:
            r = env[u]
        elif op == 'v':
            r = {'%j': 1j, '%pi': math.pi, '%nan': math.nan, '%inf': math.inf}.get(u.a[0])
            if r is None:
                raise NoEval(u.a[0])
        elif op == '+':
            r = sum(float(v)*E(k) for k, v in u.a)
        elif op == '*':
            r = float(u.a[0].a[0])
            for b, e in u.a[1:]:
                r = r*_pw(E(b), float(e.a[0]))
        elif op == '^':
            r = _pw(E(u.a[0]), float(u.a[1].a[0]))
        elif op == 'ite':
            r = E(u.a[1]) if E(u.a[0]) else E(u.a[2])
        elif op in ('true', 'false'):
            return op == 'true'
        elif op == 'not':
            r = not E(u.a[0])
        elif op == 'and':
            r = all(E(v) for v in u.a)
        elif op == 'or':
            r = any(E(v) for v in u.a)
        elif op == 'le':
            r = E(u.a[0]) <= E(u.a[1])
        elif op == 'lt':
            r = E(u.a[0]) < E(u.a[1])
        elif op == 'eq':
            r = E(u.a[0]) == E(u.a[1])
        elif op == 'f':
            args = [E(v) for v in u.a[1:]]
            n = u.a[0]
            if n in funcs:
                r = funcs[n](*args)
            elif n == 'exp':
                r = cmath.exp(args[0]) if isinstance(args[0], complex) else math.exp(args[0])
            elif n == 'log':
                r = cmath.log(args[0]) if isinstance(args[0], complex) else math.log(args[0])
            elif n == 'Phi':
                r = .5*math.erfc(-args[0]/math.sqrt(2))
            elif n == 'erf':
                r = math.erf(args[0])
            elif n == 're':
                r = complex(args[0]).real
            else:
                raise NoEval(n)
        else:
            raise NoEval(op)
        memo[u] = r
        return r
    return E(t)


def _pw(b, e):
    if e == int(e):
        return b**int(e)
    if isinstance(b, complex) or b < 0:
        return cmath.exp(e*cmath.log(b))
    return b**e
