"""P23: Monte Carlo statistics."""
from pyvc.api import *
from .common import *

ASSUMPTIONS = [RANK_NOTE, 'the data points seen so far enter the statistics through their number and the sums of their first '
               'four powers; floating point rounding is not modelled']
NB = 'class invariant of montecarlo'


def mc():
    return fn(I_, 'montecarlo')


class History:
    """data points seen so far, for each component: their number, and the sums of their powers"""

    def __init__(self, vs, n=None):
        self.vs, self.n = tuple(vs), ZERO if n is None else tm(n)
        self.sums = [lambda i: ZERO]*4

    @classmethod
    def arbitrary(cls, vs):
        n = dim('N', 1)
        h = cls(vs, n)
        h.sums = [lambda i, k=k: app('H%d' % k, *i) for k in range(1, 5)]
        return h

    def add(self, M, x):
        """M more points x(i, j)"""
        h = History(self.vs, add(self.n, tm(M)))
        h.sums = [lambda i, k=k: add(self.sums[k](i), t_.tsum(tm(M), lambda j: power(x(i, j), const(k + 1)))) for k in range(4)]
        return h

    def raw(self, k, i):
        return ONE if k == 0 else div(self.sums[k-1](i), self.n)

    def moment(self, k, c, i):
        """k-th moment about c"""
        from math import comb
        return add(*[mul(const(comb(k, l)), power(neg(c), const(k - l)) if k > l else ONE, self.raw(l, i)) for l in range(k + 1)])

    def central(self, k, i):
        return self.moment(k, self.raw(1, i), i)


def state(h, use='all', dtype=float, use_hist=False, **kw):
    """a montecarlo object satisfying the invariant for the history h: mean the mean, moments about an arbitrary center"""
    a = mc()(bins=None, use=use, **kw)
    # the fields come from a real update
    a.update(arr('first', h.vs + (2,)))
    n = len(h.vs)
    for f in ('_paths', '_moments', '_mean', '_center'):
        if not hasattr(a, f):
            raise Unsupported('montecarlo objects have no field %s: the invariant does not apply' % f)
    if not (isinstance(a._paths, list) and len(a._paths) == 1 and isinstance(a._moments, tuple) and len(a._moments) == 4):
        raise Unsupported('fields of montecarlo objects: the invariant does not apply')
    mk = lambda f: snp.ndarray._np_make(lambda i: f(i), h.vs, snp.dtype(dtype))
    a._paths = [D(h.n)]
    a._center = mk(lambda i: elt('center', *i))
    a._mean = mk(lambda i: h.raw(1, i))
    a._moments = tuple(mk(lambda i, k=k: h.moment(k, elt('center', *i), i)) for k in range(1, 5))
    return a


def check_invariant(nm, a, h, center):
    i = indices(h.vs, nm + '.i')
    check(nm + '-paths', eq(tm(a.paths), h.n))
    if not (check_shape(nm + '-mean-shape', a._mean.shape, h.vs) and check_shape(nm + '-center-shape', a._center.shape, h.vs)):
        return
    check_eq(nm + '-center', a._center.at(*i), center(i))
    check_eq(nm + '-mean', a._mean.at(*i), h.raw(1, i))
    check(nm + '-moments', len(a._moments) == 4)
    for k, m in enumerate(a._moments):
        check(nm + '-dtype', m.dtype.kind == 'f')
        if check_shape(nm + '-moment-shape', m.shape, h.vs):
            check_eq('%s-moment%d' % (nm, k + 1), m.at(*i), h.moment(k + 1, center(i), i))


def check_stats(nm, a, h, at=lambda i: i, vs=None):
    """the observable statistics are those of the history"""
    vs = h.vs if vs is None else vs
    check(nm + '-paths', eq(tm(a.paths), h.n))
    check_shape(nm + '-vshape', a.vshape, vs)
    check_shape(nm + '-shape', a.shape, vs + (D(h.n),))
    i = indices(vs, nm + '.i')
    q = at(i)
    get = {}
    for k in ('mean', 'var', 'std', 'skew', 'kurtosis', 'stderr', 'm', 's', 'e'):
        x = getattr(a, k)
        x = asarr(x() if callable(x) else x)
        if k in ('stderr', 'e') and not x.shape and vs and h_small(h):
            continue
        if not check_shape('%s-%s-shape' % (nm, k), x.shape, vs):
            return
        get[k] = x.at(*i)
    for k, x in a.stats.items():
        get['stats-' + k] = asarr(x).at(*i[:asarr(x).ndim])
    m1 = h.raw(1, q)
    c2, c3, c4 = (h.central(k, q) for k in (2, 3, 4))
    for k, x in get.items():
        f = k.replace('stats-', '')
        if f in ('mean', 'm'):
            check_eq('%s-%s' % (nm, k), x, m1)
        elif h_small(h):
            # one data point: null deviations
            if f in ('var', 'std', 's'):
                check_eq('%s-%s' % (nm, k), x, ZERO)
        elif f == 'var':
            check_eq('%s-%s' % (nm, k), x, c2)
        elif f in ('std', 's'):
            check_eq('%s-%s' % (nm, k), x, t_.fsqrt(c2))
        elif f in ('stderr', 'e'):
            check_eq('%s-%s' % (nm, k), x, t_.fsqrt(div(c2, sub(h.n, ONE))))
        elif f == 'skew':
            check_eq('%s-%s' % (nm, k), x, div(c3, power(c2, div(3, 2))))
        elif f == 'kurtosis':
            check_eq('%s-%s' % (nm, k), x, div(c4, mul(c2, c2)))


def h_small(h):
    return ctx().decide(lt(h.n, const(2)))


def sample(r, use, dtype, axis, name='y', M=None):
    """a sample of M data points, given along the axis; its data points"""
    vs = vdims(r)
    M = dim('M', 1) if M is None else M
    L = M if use == 'all' else D(tm(M)*2)
    ax = axis % (r + 1)
    shape = vs[:ax] + (L,) + vs[ax:]
    e = el_of(name, dtype)

    def raw(i, j):
        return e(*(i[:ax] + (j,) + i[ax:]))
    if use == 'all':
        x = raw
    else:
        s = ONE if use == 'even' else t_.MINUS1
        x = lambda i, j: div(add(raw(i, j), mul(s, raw(i, add(j, tm(M))))), const(2))
    return vs, M, arr(name, shape, dtype), x


AXES = {0: (0, -1), 1: (0, 1, -1, -2), 2: (0, 1, 2, -1, -2, -3)}


def first(r, use, dtype, axis, how, want=None):
    """base case: after the first update"""
    vs, M, y, x = sample(r, use, dtype, axis)
    kw = dict(bins=None, use=use, **({} if want is None else dict(dtype=want)))
    if how == 'init':
        a = mc()(y, axis=axis, **kw)
    else:
        a = mc()(**kw)
        check('empty', tm(a.paths) is ZERO)
        a.update(y, axis=axis) if how == 'update' else a.update(y)
    h = History(vs).add(M, x)
    if all(hasattr(a, f) for f in ('_moments', '_mean', '_center')):
        check_invariant('invariant', a, h, lambda i: h.raw(1, i))
    check_stats('stats', a, h)
    reach('end')


def step(r, use, dtype, axis):
    """induction step: any state satisfying the invariant, any sample"""
    vs, M, y, x = sample(r, use, dtype, axis)
    h = History.arbitrary(vs)
    a = state(h, use)
    a.update(y, axis=axis)
    g = h.add(M, x)
    check_invariant('invariant', a, g, lambda i: elt('center', *i))
    # the sample is left as it was
    k = indices(y.shape, 'u')
    check_eq('sample-unchanged', y.at(*k), el_of('y', dtype)(*k))
    reach('end')


def observe(r, pattern):
    """the statistics, in any state satisfying the invariant"""
    vs = vdims(r)
    h = History.arbitrary(vs)
    a = state(h)
    if pattern is None:
        check_stats('stats', a, h)
    else:
        key, rest, at = pattern(vs)
        check_stats('stats', a[key], h, at, rest)
        # the original object is as it was
        check_stats('original', a, h)
    reach('end')


def two(r, use, axis=-1):
    """two updates from scratch: the statistics of all the data points (stated on observables only)"""
    vs, M1, y1, x1 = sample(r, use, float, axis, 'y1', dim('M1', 1))
    vs, M2, y2, x2 = sample(r, use, float, axis, 'y2', dim('M2', 1))
    a = mc()(y1, axis=axis, bins=None, use=use)
    a.update(y2, axis=axis)
    check_stats('stats', a, History(vs).add(M1, x1).add(M2, x2))
    reach('end')


for _u in ('all', 'even', 'odd'):
    for _r in RANKS:
        for _ax in AXES[_r]:
            vc('P23', 'step_%s_%d_axis%d' % (_u, _r, _ax), reach=('end',))(lambda r=_r, u=_u, ax=_ax: step(r, u, float, ax))
            if _u == 'all' or _r == 1:
                vc('P23', 'first_%s_%d_axis%d' % (_u, _r, _ax), reach=('end',))(
                    lambda r=_r, u=_u, ax=_ax: first(r, u, float, ax, 'update' if ax % 2 else 'init'))
        vc('P23', 'first_%s_%d_noaxis' % (_u, _r), reach=('end',))(lambda r=_r, u=_u: first(r, u, float, -1, 'default'))
        if _r < (2 if _u == 'all' else 1):
            vc('P23', 'two_%s_%d' % (_u, _r), reach=('end',))(lambda r=_r, u=_u: two(r, u))
    for _d in ('int64', 'float32', 'uint8'):
        vc('P23', 'first_%s_%s' % (_u, _d), reach=('end',))(lambda u=_u, d=_d: first(1, u, d, -1, 'init'))
        vc('P23', 'step_%s_%s' % (_u, _d), reach=('end',))(lambda u=_u, d=_d: step(1, u, d, -1))
vc('P23', 'first_int_dtype', reach=('end',))(lambda: first(1, 'all', int, -1, 'init', want=float))

KEYS = {
    'int': (1, lambda vs: (lambda k: (Sym(k, 'i'), (), lambda i: (k,)))(index('k', vs[0]))),
    'last': (1, lambda vs: (-1, (), lambda i: (sub(tm(vs[0]), ONE),))),
    'int2': (2, lambda vs: (lambda k: (Sym(k, 'i'), vs[1:], lambda i: (k,) + i))(index('k', vs[0]))),
    'pair': (2, lambda vs: (lambda k, l: ((Sym(k, 'i'), Sym(l, 'i')), (), lambda i: (k, l)))(index('k', vs[0]), index('l', vs[1]))),
    'column': (2, lambda vs: (lambda l: ((slice(None), Sym(l, 'i')), vs[:1], lambda i: i + (l,)))(index('l', vs[1]))),
    'slice': (1, lambda vs: (slice(1, None), (D(sub(tm(vs[0]), ONE)),), lambda i: (add(i[0], ONE),))),
    'all': (1, lambda vs: (Ellipsis, vs, lambda i: i)),
}
for _r in RANKS:
    vc('P23', 'stats_%d' % _r, reach=('end',))(lambda r=_r: observe(r, None))
for _k, (_r, _f) in KEYS.items():
    vc('P23', 'component_%s' % _k, reach=('end',))(lambda r=_r, f=_f: observe(r, f))


def batches_of_odd_length():
    vs, m = vdims(1), dim('m', 0)
    L = D(tm(m)*2 + ONE)
    for use in ('even', 'odd'):
        expect_raise('first', ValueError, mc(), arr('y', vs + (L,)), use=use, bins=None)
        expect_raise('first-axis', ValueError, mc(), arr('y', (L,) + vs), axis=0, use=use, bins=None)
        expect_raise('one', ValueError, mc(), arr('y', (1,)), use=use, bins=None)
        h = History.arbitrary(vs)
        a = state(h, use)
        before = (a._paths, a._mean, a._moments, a._center)
        expect_raise('update', ValueError, a.update, arr('y', vs + (L,)))
        check_invariant('unchanged', a, h, lambda i: elt('center', *i))
        check_stats('unchanged', a, h)
    for use in ('none', None, 'Even', 1):
        expect_raise('unknown', ValueError, mc(), arr('y', (2,)), use=use, bins=None)
    reach('end')


vc('P23', 'batches_of_odd_length', reach=('end',))(batches_of_odd_length)


def scalars():
    """single numbers, and lists, as samples"""
    x = real('x')
    h = History(()).add(1, lambda i, j: term(x))
    for y in (x, [x], snp.asarray(x)):
        a = mc()(y, bins=None)
        check_stats('one', a, h)
    h2 = h.add(2, lambda i, j: ite(eq(j, ZERO), var('y'), var('z')))
    a.update([real('y'), real('z')])
    check_stats('two', a, h2)
    reach('end')


vc('P23', 'scalars', reach=('end',))(scalars)


@vc('P23', reach=('end',))
def without_data():
    """a sample without data points has no shape; with one, the standard error is not a number"""
    for bins in (None, 10):
        a = mc()(bins=bins)
        check_eq('paths', term(asarr(a.paths)), ZERO)
        expect_raise('shape', ValueError, lambda: a.vshape)
        vs = vdims(1)
        a.update(arr('y', vs + (1,))) if bins is None else None
        if bins is None:
            check_eq('one', term(asarr(a.paths)), ONE)
            check_shape('its-shape', a.vshape, vs)
            e = a.stderr()
            if asarr(e).shape == ():
                check_eq('stderr', term(asarr(e)), t_.NAN)
    reach('end')


def kept(r, how):
    """statistics handed back before are left as they were, and belong to the caller"""
    vs, M1, y1, x1 = sample(r, 'all', float, -1, 'y1', dim('M1', 2))
    vs, M2, y2, x2 = sample(r, 'all', float, -1, 'y2', dim('M2', 1))
    a = mc()(y1, bins=None)
    names = ('mean', 'var', 'std', 'skew', 'kurtosis', 'stderr')
    read = lambda: dict({k: getattr(a, k)() for k in names}, **{'stats-' + k: v for k, v in a.stats.items()}, m=a.m, s=a.s, e=a.e)
    i = indices(vs, 'i')
    got, h = read(), History(vs).add(M1, x1)
    if how == 'update':
        was = {k: asarr(v).at(*i) for k, v in got.items()}
        a.update(y2)
        for k, v in got.items():
            check_eq('unchanged-' + k, asarr(v).at(*i), was[k])
        h = h.add(M2, x2)
    else:
        for k, v in got.items():
            if isinstance(v, snp.ndarray):
                v[...] = real('written')
    check_stats('after', a, h)
    reach('end')


for _r in (0, 1, 2):
    for _h in ('update', 'write'):
        vc('P23', 'kept_%d_%s' % (_r, _h), reach=('end',))(lambda r=_r, h=_h: kept(r, h))
