"""Contracts on the functions of scipy and bisect used by the code."""
import types
from . import terms as t_
from .terms import (const, tm, app, add, sub, mul, div, neg, power, le, lt, and_, or_, not_, ite, eq, var, subst, fv,
                    ZERO, ONE, TRUE, FALSE, isc, cval, INF)
from .engine import Sym, Unsupported, ctx, D, raised, sym
from . import snp, srandom

HALF = const(t_.Fr(1, 2)) if hasattr(t_, 'Fr') else t_.HALF
SQ2PI = t_.fsqrt(mul(const(2), t_.PI))


def phi(z):
    return div(t_.fexp(neg(mul(z, z, HALF))), SQ2PI)


_pdf_norm = snp.ufunc('norm.pdf', 3, lambda x, m, s: div(phi(div(sub(x, m), s)), s), snp._rt_float)
_cdf_norm = snp.ufunc('norm.cdf', 3, lambda x, m, s: cdfterm(div(sub(x, m), s)), snp._rt_float)
_pdf_logn = snp.ufunc('lognorm.pdf', 3, lambda x, s, c: div(phi(div(t_.flog(div(x, c)), s)), mul(x, s)), snp._rt_float)
_cdf_logn = snp.ufunc('lognorm.cdf', 3, lambda x, s, c: cdfterm(div(t_.flog(div(x, c)), s)), snp._rt_float)
iv = snp.ufunc('iv', 2, lambda q, z: app('iv', q, z), snp._rt_float)
ive = snp.ufunc('ive', 2, lambda q, z: mul(app('iv', q, z), t_.fexp(neg(t_.tabs(z)))), snp._rt_float)
erf = snp.ufunc('erf', 1, lambda z: app('erf', z), snp._rt_float)
ndtr = snp.ufunc('ndtr', 1, lambda z: cdfterm(z), snp._rt_float)


def _inf_ite(z, seen=None):
    """an innermost conditional having infinity in a branch"""
    if INF not in fv(z) or z.op in ('v', 'red'):
        return None
    for x in z.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, t_.T):
                r = _inf_ite(y)
                if r is not None:
                    return r
    return z if z.op == 'ite' else None


def cdfterm(z):
    if INF in fv(z):
        i = _inf_ite(z)
        if i is not None:
            return ite(i.a[0], cdfterm(subst(z, {i: i.a[1]})), cdfterm(subst(z, {i: i.a[2]})))
        k = simp_inf(z)
        return ite(lt(ZERO, k), ONE, ite(lt(k, ZERO), ZERO, t_.NAN))
    return app('Phi', z)


def simp_inf(z):
    """z = k*inf (+ finite): the sign-carrying factor k"""
    if z.op == '+':
        r = ZERO
        for k, v in z.a:
            if INF in fv(k):
                r = add(r, mul(const(v), simp_inf(k)))
        return r
    if z is INF:
        return ONE
    if z.op == '*':
        c = z.a[0]
        fs = [c]
        for b, e in z.a[1:]:
            if b is INF:
                if e is not ONE and cval(e) != 1:
                    raise Unsupported('powers of infinity')
            else:
                fs.append(power(b, e))
        return mul(*fs)
    raise Unsupported('infinity in %s' % t_.show(z))


class _frozen:
    def std(self):
        return snp.sqrt(self.var())


class _norm(_frozen):
    def __init__(self, loc=0., scale=1.):
        self.loc, self.scale = loc, scale

    def rvs(self, size=None, random_state=None):
        g = random_state or srandom.Generator('global')
        return g.normal(self.loc, self.scale, size)

    def pdf(self, x):
        return _pdf_norm(x, self.loc, self.scale)

    def cdf(self, x):
        return _cdf_norm(x, self.loc, self.scale)

    def mean(self):
        return snp.add_uf(self.loc, 0.*snp.asarray(self.scale))

    def var(self):
        s = snp.asarray(self.scale)
        return snp.add_uf(s*s, 0.*snp.asarray(self.loc))


class norm:
    def __new__(cls, loc=0., scale=1.):
        return _norm(loc, scale)

    @staticmethod
    def pdf(x, loc=0., scale=1.):
        return _pdf_norm(x, loc, scale)

    @staticmethod
    def cdf(x, loc=0., scale=1.):
        return _cdf_norm(x, loc, scale)


class lognorm:
    @staticmethod
    def pdf(x, s=None, loc=0., scale=1.):
        if not (isinstance(loc, (int, float)) and loc == 0):
            raise Unsupported('lognorm loc')
        return _pdf_logn(x, s, scale)

    @staticmethod
    def cdf(x, s=None, loc=0., scale=1.):
        if not (isinstance(loc, (int, float)) and loc == 0):
            raise Unsupported('lognorm loc')
        return _cdf_logn(x, s, scale)


class uniform(_frozen):
    def __init__(self, loc=0., scale=1.):
        self.loc, self.scale = loc, scale

    def rvs(self, size=None, random_state=None):
        g = random_state or srandom.Generator('global')
        return g.uniform(self.loc, snp.asarray(self.loc) + snp.asarray(self.scale), size)

    def mean(self):
        return snp.asarray(self.loc) + snp.asarray(self.scale)/2

    def var(self):
        s = snp.asarray(self.scale)
        return s*s/12 + 0.*snp.asarray(self.loc)


class expon(_frozen):
    def __init__(self, loc=0., scale=1.):
        if not (isinstance(loc, (int, float)) and loc == 0):
            raise Unsupported('expon loc')
        self.scale = scale

    def rvs(self, size=None, random_state=None):
        g = random_state or srandom.Generator('global')
        return g.exponential(self.scale, size)

    def mean(self):
        return snp.asarray(self.scale) + 0

    def var(self):
        s = snp.asarray(self.scale)
        return s*s


def quad(f, a, b, **kw):
    """integral over the whole line, as a binder over the integrand"""
    if kw or not (a == -snp.inf and b == snp.inf):
        raise Unsupported('quad limits or options')
    c = ctx()

    def g(u):
        r = f(Sym(u, 'f'))
        if isinstance(r, snp.ndarray):
            if not all(snp.dims_known_eq(n, 1) or snp.decide(eq(tm(n), ONE)) for n in r.shape):
                raise raised(TypeError('only length-1 arrays can be converted to Python scalars'))
            r = r.at(*[ZERO]*r.ndim)
        return tm(r)
    u = c.fresh('%u', 'R')
    body = g(u)
    t = t_.reduce_('int', ONE, lambda k: subst(body, {u: k}))
    return Sym(t, 'f'), 0.


class interp1d:
    """interp1d(x, y, axis=0): piecewise linear or nearest interpolation on sorted abscissae"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=snp.nan,
                 assume_sorted=False):
        x, y = snp.asarray(x), snp.asarray(y)
        if x.ndim != 1:
            raise raised(ValueError('the x array must have exactly one dimension.'))
        ax = snp._axis(axis, y.ndim)
        if ax != 0:
            raise Unsupported('interp1d axis')
        if not snp.dims_known_eq(x.shape[0], y.shape[0]) and not snp.decide(eq(tm(x.shape[0]), tm(y.shape[0]))):
            raise raised(ValueError('x and y arrays must be equal in length along interpolation axis.'))
        self.x, self.y, self.kind = x, y, kind
        self.xr, self.yr = x.reader(), y.reader()
        self.copy = copy
        if bounds_error or (bounds_error is None and not isinstance(fill_value, (tuple, str, snp.ndarray))):
            raise Unsupported('interp1d bounds_error')
        if isinstance(fill_value, tuple):
            lo, hi = fill_value
        else:
            lo = hi = fill_value
        if isinstance(fill_value, str):
            raise Unsupported('interp1d extrapolate')
        rest = y.shape[1:]
        self.lo = snp.broadcast_to(snp.asarray(lo), rest).reader()
        self.hi = snp.broadcast_to(snp.asarray(hi), rest).reader()
        if not assume_sorted:
            raise Unsupported('interp1d assume_sorted')

    def seg(self, s):
        """index of the node to the right, 1 <= k <= n - 1: x[k-1] < s <= x[k] for times within range"""
        c = ctx()
        n = tm(self.x.shape[0])
        k0 = var('%seg', 'I')
        key = 'seg%d_%d' % (self.xr((k0,)).id, n.id)
        return key, app(key, s, s='I')

    def __call__(self, s):
        s = snp.asarray(s)
        sr = s.reader()
        n = tm(self.x.shape[0])
        nd = s.ndim
        x, y = self.xr, self.yr
        last = sub(n, ONE)
        if self.kind not in ('linear', 'nearest'):
            kind = self.kind
            if not isinstance(kind, str):
                raise Unsupported('interp1d kind')
            # another kind: an unspecified function of kind, nodes, values and time
            k0 = var('%seg', 'I')

            def fn(idx):
                t = sr(idx[:nd])
                inner = app('interp:%s:%d:%d' % (kind, x((k0,)).id, n.id), y((ZERO,) + idx[nd:]), t)
                return ite(lt(t, x((ZERO,))), self.lo(idx[nd:]), ite(lt(x((last,)), t), self.hi(idx[nd:]), inner))
            return snp.ndarray._np_make(fn, s.shape + self.y.shape[1:], snp.dtype(float))
        c = ctx()
        key, _ = self.seg(ZERO)
        if self.kind == 'linear':
            def node(k):
                return x((k,))
            m, lo0 = n, ONE
        else:
            def node(k):
                return div(add(x((k,)), x((add(k, ONE),))), const(2))
            key = 'near' + key
            m, lo0 = last, ZERO
        done = c.__dict__.setdefault('segs', {})
        if key not in done and not c.loopvars:
            done[key] = True

            def ax(conv, key=key):
                import z3
                sv = var('%sx', 'R')
                k = app(key, sv, s='I')
                nz = conv(n)
                if self.kind == 'linear':
                    # first node not before s, clipped to the range of right nodes
                    body = and_(le(ONE, k), le(k, last),
                                or_(eq(k, ONE), lt(node(sub(k, ONE)), sv)),
                                or_(eq(k, last), le(sv, node(k))))
                else:
                    body = and_(le(ZERO, k), le(k, last),
                                or_(eq(k, ZERO), lt(node(sub(k, ONE)), sv)),
                                or_(eq(k, last), le(sv, node(k))))
                return z3.Implies(nz >= (2 if self.kind == 'linear' else 1),
                                  z3.ForAll([conv(sv)], conv(body), patterns=[conv(k)]))
            ax.sampled = ()     # (terms with the located interval are not sampled)
            c.axiom(ax)
        kind = self.kind

        def fn(idx):
            t, r = sr(idx[:nd]), idx[nd:]
            k = app(key, t, s='I')
            if kind == 'linear':
                j = sub(k, ONE)
                slope = div(sub(y((k,) + r), y((j,) + r)), sub(x((k,)), x((j,))))
                v = add(mul(slope, sub(t, x((j,)))), y((j,) + r))
            else:
                v = y((k,) + r)
            return ite(lt(t, x((ZERO,))), self.lo(r), ite(lt(x((last,)), t), self.hi(r), v))
        dt = snp._join(self.y.dtype, snp.dtype(float)) if kind == 'linear' else self.y.dtype
        return snp.ndarray._np_make(fn, s.shape + self.y.shape[1:], dt)


class _Mod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('%s.%s has no contract' % (self.__name__, name))


def module(np):
    s = _Mod('scipy')
    s.stats, s.special, s.integrate, s.interpolate = (_Mod('scipy.' + n) for n in
                                                      ('stats', 'special', 'integrate', 'interpolate'))
    s.stats.norm, s.stats.lognorm, s.stats.uniform, s.stats.expon = norm, lognorm, uniform, expon
    s.special.iv, s.special.ive, s.special.erf, s.special.ndtr = iv, ive, erf, ndtr
    s.integrate.quad = quad
    s.interpolate.interp1d = interp1d
    return s


# --------------------------------------------------------------------- bisect

def bisect_right(a, x):
    if hasattr(a, '_bisect'):
        return a._bisect(x)
    lo, hi = 0, len(a)
    while lo < hi:
        mid = (lo + hi)//2
        if x < a[mid]:
            hi = mid
        else:
            lo = mid + 1
    return lo


def bisect_left(a, x):
    if hasattr(a, '_bisect_left'):
        return a._bisect_left(x)
    lo, hi = 0, len(a)
    while lo < hi:
        mid = (lo + hi)//2
        if a[mid] < x:
            lo = mid + 1
        else:
            hi = mid
    return lo


def insort_right(a, x):
    a.insert(bisect_right(a, x), x)


def insort_left(a, x):
    a.insert(bisect_left(a, x), x)


def bisect_module():
    m = _Mod('bisect')
    m.bisect_right = m.bisect = bisect_right
    m.bisect_left = bisect_left
    m.insort = m.insort_right = insort_right
    m.insort_left = insort_left
    return m
