"""P24: Monte Carlo histograms."""
from pyvc.api import *
from .common import *
from .p23 import mc, sample, AXES, History, state as p23_state

ASSUMPTIONS = [RANK_NOTE, 'numpy.histogram: contract in pyvc/snp.py (an unspecified number of bins for named rules); bins '
               'of any number, which may differ from one component to another', 'scipy.special.erf, interp1d: pyvc/sscipy.py']


def edge(i, k):
    return app('edge', *i, k)


def nbins(i):
    """number of bins of a component"""
    n = app('nbins', *i, s='I')
    return ite(le(ONE, n), n, ONE)


def inside(x, e, k, m):
    """x is in the k-th of m bins: the last one is closed"""
    return and_(le(e(k), x), or_(lt(x, e(add(k, ONE))), and_(eq(k, sub(m, ONE)), le(x, e(add(k, ONE))))))


def tally(x, n, e, k, m):
    return t_.tsum(tm(n), lambda j: ite(inside(x(j), e, k, m), ONE, ZERO))


def edges(i, m=None):
    n = nbins(i) if m is None else m
    return snp.ndarray._np_make(lambda k: edge(i, k[0]), (D(add(n, ONE)),), snp.dtype(float))


def given_bins(kind, vs):
    """bins argument, number of bins of a component, its edges"""
    if kind == 'array':
        m = dim('m', 1)
        return snp.ndarray._np_make(lambda i: edge(i[:-1], i[-1]), vs + (D(tm(m) + ONE),), snp.dtype(float)), lambda i: tm(m), edge
    if kind == 'objects':
        if vs:
            return snp.symobj.family(vs, lambda *i: edges(i)), nbins, edge
        o = snp.objarray(())
        o[()] = edges(())
        return o, nbins, edge
    raise ContractError(kind)


def default_edges(x, M, m, rng):
    """equally spaced, from the least to the largest data point or in the given range"""
    def e(i, k):
        lo, hi = (t_.reduce_(q, tm(M), lambda j: x(i, j)) for q in ('min', 'max')) if rng is None else map(term, rng)
        same = eq(lo, hi)
        lo, hi = ite(same, sub(lo, div(1, 2)), lo), ite(same, add(hi, div(1, 2)), hi)
        return add(lo, div(mul(k, sub(hi, lo)), m))
    return e


def component(a, i, r):
    """the montecarlo object of a component"""
    return a[tuple(Sym(k, 'i') for k in i) if r > 1 else Sym(i[0], 'i')] if r else a


def check_hist(nm, a, vs, paths, m, e, count, kind='i'):
    """the histogram of an arbitrary component"""
    r = len(vs)
    i = indices(vs, nm + '.i')
    b = component(a, i, r)
    check(nm + '-paths', eq(tm(b.paths), tm(paths)))
    n = m(i)
    got = b.histogram()
    check(nm + '-pair', isinstance(got, tuple) and len(got) == 2)
    c, bins = got
    if not (check_shape(nm + '-bins-shape', bins.shape, (D(add(n, ONE)),)) and check_shape(nm + '-counts-shape', c.shape, (D(n),))):
        return
    check(nm + '-counts-type', c.dtype.kind in kind)
    k, q = index(nm + '.k', D(n)), index(nm + '.q', D(add(n, ONE)))
    check_eq(nm + '-bins', bins.at(q), e(i, q))
    check_eq(nm + '-counts', c.at(k), count(i, k))
    out = asarr(b.outpaths)
    out = out.at(*(ZERO,)*out.ndim)
    total = t_.tsum(n, lambda k: count(i, k))
    check_eq(nm + '-all-counted', add(t_.tsum(n, lambda k: c.at(k)), out), tm(paths))
    check_eq(nm + '-outside', out, sub(tm(paths), total))
    check_eq(nm + '-outside-fraction', asarr(b.outerr()).at(*(ZERO,)*asarr(b.outerr()).ndim), div(out, tm(paths)))
    return b, c, bins


def first(r, use, how, dtype=float, axis=-1, ctype=None):
    """after the first update"""
    vs, M, y, x = sample(r, use, dtype, axis)
    kw = {}
    if how in ('array', 'objects'):
        kw['bins'], m, e = given_bins(how, vs)
    elif how == 'rule':
        kw['bins'] = 'auto'
    else:
        n = ONE*100
        if how != 'default':
            kw['bins'] = D(dim('n', 1))
            n = tm(kw['bins'])
        rng = None
        if how == 'range':
            rng = kw['range'] = (real('lo'), real('hi'))
            assume(le(*map(term, rng)))
        m, e = (lambda i: n), default_edges(x, M, n, rng)
    if ctype is not None:
        kw['ctype'] = ctype
    a = mc()(y, axis=axis, use=use, **kw)
    if how == 'rule':
        # the bins are those found
        i = indices(vs, 'i')
        c, bins = component(a, i, r).histogram()
        n = tm(bins.shape[0]) - ONE
        check('some-bins', le(ONE, n))
        k = index('k', D(n))
        check_eq('counts', c.at(k), tally(lambda j: x(i, j), M, bins.at, k, n))
        reach('end')
        return
    check_hist('hist', a, vs, M, m, e, lambda i, k: tally(lambda j: x(i, j), M, lambda q: e(i, q), k, m(i)),
               'i' if ctype is None else snp.dtype(ctype).kind)
    reach('end')


def count0(i, k):
    n = app('count', *i, k, s='I')
    return ite(le(ZERO, n), n, ZERO)


def state(vs, use='all', N=None, uniform=False):
    """a montecarlo object satisfying the invariant: any bins and counts, the other points are outside"""
    N = dim('N', 1) if N is None else N
    bins, m, e = given_bins('array' if uniform else 'objects', vs)
    a = mc()(bins=bins, use=use)
    a.update(arr('first', vs + ((2,) if use == 'all' else (4,))))
    for f in ('_paths', '_bins', '_counts', '_paths_outside'):
        if not hasattr(a, f):
            raise Unsupported('montecarlo objects have no field %s: the invariant does not apply' % f)
    if not isinstance(a._counts, snp.objarray) or not isinstance(a._paths_outside, snp.ndarray) or not isinstance(a._paths, list):
        raise Unsupported('fields of montecarlo objects: the invariant does not apply')
    a._paths = [N]
    f = lambda *i: snp.ndarray._np_make(lambda k: count0(i, k[0]), (D(m(i)),), snp.dtype(int))
    if vs:
        a._counts = snp.symobj.family(vs, f)
    else:
        a._counts = snp.objarray(())
        a._counts[()] = f()
    a._paths_outside = snp.ndarray._np_make(lambda i: sub(tm(N), t_.tsum(m(i), lambda k: count0(i, k))), vs, snp.dtype(int))
    return a, N, m, e


def step(r, use, axis=-1, dtype=float):
    vs, M, y, x = sample(r, use, dtype, axis)
    a, N, m, e = state(vs, use)
    check_hist('before', a, vs, N, m, e, count0)
    a.update(y, axis=axis)
    check_hist('after', a, vs, D(tm(N) + tm(M)), m, e,
               lambda i, k: add(count0(i, k), tally(lambda j: x(i, j), M, lambda q: e(i, q), k, m(i))))
    reach('end')


def two(r, use, how):
    """two updates from scratch"""
    vs, M1, y1, x1 = sample(r, use, float, -1, 'y1', dim('M1', 1))
    vs, M2, y2, x2 = sample(r, use, float, -1, 'y2', dim('M2', 1))
    if how == 'int':
        n = dim('n', 1)
        bins, m, e = n, lambda i: tm(n), default_edges(x1, M1, tm(n), None)
    else:
        bins, m, e = given_bins(how, vs)
    a = mc()(y1, bins=bins, use=use)
    a.update(y2)
    check_hist('hist', a, vs, D(tm(M1) + tm(M2)), m, e,
               lambda i, k: add(*[tally(lambda j: x(i, j), M, lambda q: e(i, q), k, m(i)) for x, M in ((x1, M1), (x2, M2))]))
    reach('end')


# ---------------------------------------------------------------- densities

def single(how='alone'):
    """a single histogram, with some binned sample: bins at strictly increasing edges"""
    n = dim('n', 1)
    increasing(D(tm(n) + ONE), 'edge')
    e = lambda k: elt('edge', k)
    bins = arr('edge', (D(tm(n) + ONE),))
    c = lambda k: count0((), k)
    counts = snp.ndarray._np_make(lambda k: c(k[0]), (n,), snp.dtype(int))
    N = dim('N', 1)
    a = mc()(bins=bins)
    a.update(arr('first', (2,)))
    for f in ('_paths', '_bins', '_counts', '_paths_outside'):
        if not hasattr(a, f):
            raise Unsupported('montecarlo objects have no field %s: the invariant does not apply' % f)
    if not isinstance(a._counts, snp.objarray) or a._counts.shape != () or not isinstance(a._paths, list):
        raise Unsupported('fields of montecarlo objects: the invariant does not apply')
    a._paths = [N]
    a._counts[()] = counts
    S = t_.tsum(tm(n), c)
    a._paths_outside = asarr(Sym(sub(tm(N), S), 'i'))
    assume(lt(ZERO, S))
    return a, n, e, c, S


def density(k, e, c, S):
    return div(c(k), mul(S, sub(e(add(k, ONE)), e(k))))


def query(x, shape):
    return (real('x') if shape == () else arr('x', shape)), (lambda i: var('x', 'R') if shape == () else elt('x', *i))


def at(v, i):
    v = asarr(v)
    return v.at(*i)


@vc('P24', 'density', reach=('end',))
def _density():
    a, n, e, c, S = single()
    d, b = a.density_histogram()
    if check_shape('shape', d.shape, (n,)) and check_shape('bins-shape', b.shape, (D(tm(n) + ONE),)):
        k = index('k', n)
        check_eq('bins', b.at(k), e(k))
        check_eq('last-edge', b.at(tm(n)), e(tm(n)))
        check_eq('density', d.at(k), density(k, e, c, S))
        check_eq('integrates-to-one', t_.tsum(tm(n), lambda k: mul(d.at(k), sub(e(add(k, ONE)), e(k)))), ONE)
    q = a.dh
    check_eq('shortcut', q[0].at(k), d.at(k))
    reach('end')


@vc('P24', 'interp_cdf', reach=('end',))
def _icdf():
    a, n, e, c, S = single()
    q = index('q', D(tm(n) + ONE))
    v = at(a.cdf(Sym(e(q), 'f'), method='interp'), ())
    first = ctx().decide(eq(q, ZERO))
    v = locate('edge', resolve(v), [ONE] if first else [q])
    check_eq('at-edges', subst(v, {q: ZERO}) if first else v, div(t_.tsum(ZERO if first else q, c), S))
    reach('end')


@vc('P24', 'interp_cdf_array', reach=('end',))
def _icdf_array():
    a, n, e, c, S = single()
    X = dim('X', 1)
    i = index('i', X)
    v = a.cdf(arr('x', (X,)), method='interp')
    if check_shape('shape', v.shape, (X,)):
        x = elt('x', i)
        v = v.at(i)
        last = e(tm(n))
        if ctx().decide(lt(x, e(ZERO))):
            check_eq('zero-below', v, ZERO)
        elif ctx().decide(lt(last, x)):
            check_eq('one-above', v, ONE)
    reach('end')


@vc('P24', 'interp_pdf', reach=('end',))
def _ipdf():
    a, n, e, c, S = single()
    k = index('k', n)
    mid = div(add(e(k), e(add(k, ONE))), 2)
    x = real('x')
    assume(eq(x, mid))
    ctx().decide(eq(k, ZERO))
    ctx().decide(eq(k, sub(tm(n), ONE)))
    check('edges', lt(e(k), e(add(k, ONE))))
    # neighbouring bins
    check('previous', implies(lt(ZERO, k), lt(e(sub(k, ONE)), e(k))))
    check('next', implies(lt(add(k, ONE), tm(n)), lt(e(add(k, ONE)), e(add(k, 2)))))
    v = at(a.pdf(x, method='interp'), ())
    check('inside', and_(le(e(ZERO), e(k)), le(e(add(k, ONE)), e(tm(n)))))
    v = resolve(v)
    v = locate('midpoint', v, [add(k, ONE)])
    v = resolve(v)
    v = subst(v, {tm(x): mid})
    check_eq('at-midpoints', v, density(k, e, c, S))
    reach('end')


@vc('P24', 'interp_pdf_array', reach=('end',))
def _ipdf_array():
    a, n, e, c, S = single()
    X = dim('X', 1)
    i = index('i', X)
    v = a.pdf(arr('x', (X,)), method='interp')
    if check_shape('shape', v.shape, (X,)):
        x = elt('x', i)
        if ctx().decide(or_(lt(x, e(ZERO)), lt(e(tm(n)), x))):
            check_eq('vanishes-outside', v.at(i), ZERO)
    reach('end')


@vc('P24', 'interp_pdf_ends', reach=('end',))
def _ipdf_ends():
    a, n, e, c, S = single()
    last = sub(tm(n), ONE)
    check('edges', and_(lt(e(ZERO), e(ONE)), lt(e(last), e(tm(n)))))
    for nm, x, k in (('first', e(ZERO), ONE), ('last', e(tm(n)), add(tm(n), ONE))):
        v = locate(nm, resolve(at(a.pdf(Sym(x, 'f'), method='interp'), ())), [k])
        check_eq(nm + '-edge', resolve(v), ZERO)
    reach('end')


def kde(shape, default):
    a, n, e, c, S = single()
    x, xe = query('x', shape)
    i = indices(shape, 'i')
    h = real('h')
    assume(lt(ZERO, h))
    kw = dict(bandwidth=h, method='gaussian_kde') if not default else {}
    p, q = a.pdf(x, **kw), a.cdf(x, **kw)
    h = ONE if default else tm(h)
    mid = lambda k: div(add(e(k), e(add(k, ONE))), 2)
    w = lambda k: sub(e(add(k, ONE)), e(k))
    X = xe(i)
    z = lambda k: div(sub(X, mid(k)), mul(w(k), h))
    pdf = t_.tsum(tm(n), lambda k: mul(density(k, e, c, S), w(k), div(sscipy.phi(z(k)), mul(w(k), h))))
    cdf = t_.tsum(tm(n), lambda k: mul(density(k, e, c, S), w(k), div(add(app('erf', div(z(k), t_.fsqrt(const(2)))), ONE), 2)))
    if check_shape('pdf-shape', asarr(p).shape, shape):
        check_eq('pdf', at(p, i), pdf)
    if check_shape('cdf-shape', asarr(q).shape, shape):
        check_eq('cdf', at(q, i), cdf)
        if shape == ():
            check_eq('pdf-is-derivative', at(p, i), t_.diff(at(q, i), var('x', 'R')))
            for l, g in ((ZERO, -ONE), (ONE, ONE)):
                # erf tends to -1 and 1
                m = {u: g for u in t_.walk(at(q, i)) if u.op == 'f' and u.a[0] == 'erf'}
                check_eq('limit', subst(at(q, i), m), l)
    reach('end')


for _n, _s in enumerate(((), ('X0',), ('X0', 'X1'))):
    for _d in (False, True):
        vc('P24', 'kde_%d%s' % (_n, '_default' if _d else ''), reach=('end',))(
            lambda s=_s, d=_d: kde(tuple(dim(x, 1) for x in s), d))


@vc('P24', 'errors', reach=('end',))
def _errors():
    a, n, e, c, S = single()
    for f in (a.pdf, a.cdf):
        expect_raise('unknown-method', ValueError, f, 0., method='other')
    for b in (mc()(), mc()(bins=None), mc()(arr('y', (dim('M', 1),)), bins=None)):
        expect_raise('no-data', ValueError, b.histogram)
        expect_raise('no-data-outside', ValueError, lambda: b.outpaths)
        expect_raise('no-data-density', ValueError, b.density_histogram)
    g = mc()(arr('z', (2, dim('M', 1))), bins=10)
    for f in (g.histogram, g.density_histogram, g.outerr, lambda: g.outpaths, lambda: g.pdf(0.), lambda: g.cdf(0.)):
        expect_raise('several-components', IndexError, f)
    expect_raise('bins-shape', ValueError, lambda: mc()(arr('z', (2, dim('M', 1))), bins=arr('b', (3, 5))))
    reach('end')


for _r in RANKS:
    for _u in ('all', 'even', 'odd'):
        for _h in ('int', 'array', 'objects', 'range', 'rule', 'default'):
            if _u == 'all' or _r == 1 and _h in ('int', 'array'):
                vc('P24', 'first_%s_%s_%d' % (_h, _u, _r), reach=('end',))(lambda r=_r, u=_u, h=_h: first(r, u, h))
        vc('P24', 'step_%s_%d' % (_u, _r), reach=('end',))(lambda r=_r, u=_u: step(r, u))
    if _r:
        vc('P24', 'step_axis_%d' % _r, reach=('end',))(lambda r=_r: step(r, 'all', 0))
        vc('P24', 'first_axis_%d' % _r, reach=('end',))(lambda r=_r: first(r, 'all', 'array', axis=0))
for _h in ('int', 'array'):
    vc('P24', 'two_%s_0' % _h, reach=('end',))(lambda h=_h: two(0, 'all', h))
    vc('P24', 'two_%s_1' % _h, reach=('end',))(lambda h=_h: two(1, 'all', h))
for _d in ('int64', 'uint8'):
    vc('P24', 'first_sample_%s' % _d, reach=('end',))(lambda d=_d: first(1, 'all', 'array', d))
    vc('P24', 'step_sample_%s' % _d, reach=('end',))(lambda d=_d: step(1, 'all', -1, d))
vc('P24', 'first_counts_int32', reach=('end',))(lambda: first(1, 'all', 'array', ctype='int32'))
vc('P24', 'first_counts_float', reach=('end',))(lambda: first(1, 'all', 'array', ctype=float))


def kept(r, how):
    """histograms handed back before are left as they were, and belong to the caller"""
    vs, M, y, x = sample(r, 'all', float, -1)
    a, N, m, e = state(vs, 'all')
    i = indices(vs, 'i')
    b = component(a, i, r)
    c, bins = b.histogram()
    d, dbins = b.density_histogram()
    out = asarr(b.outpaths)
    n = D(m(i))
    k, q = index('k', n), index('q', D(add(m(i), ONE)))
    if how == 'update':
        total, od = out.at(*(ZERO,)*out.ndim), d.at(k)
        a.update(y)
        check_eq('counts', c.at(k), count0(i, k))
        check_eq('bins', bins.at(q), e(i, q))
        check_eq('density-bins', dbins.at(q), e(i, q))
        check_eq('density', d.at(k), od)
        check_eq('outside', out.at(*(ZERO,)*out.ndim), total)
        check_hist('after', a, vs, D(tm(N) + tm(M)), m, e,
                   lambda i, k: add(count0(i, k), tally(lambda j: x(i, j), M, lambda q: e(i, q), k, m(i))))
    else:
        for z in (c, bins, d, dbins, b.outpaths):
            if isinstance(z, snp.ndarray):
                z[...] = 7
        check_hist('after', a, vs, N, m, e, count0)
    reach('end')


for _r in (0, 1):
    for _h in ('update', 'write'):
        vc('P24', 'kept_%d_%s' % (_r, _h), reach=('end',))(lambda r=_r, h=_h: kept(r, h))
