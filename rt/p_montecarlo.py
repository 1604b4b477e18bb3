"""P23, P24: montecarlo statistics and histograms."""
import numpy as np
import scipy.special
import scipy.integrate
from base import prop, Fail
from sdepy.infrastructure import montecarlo, process


def draw(c, vs, n, kind):
    s = vs + (n,)
    if kind == 'int':
        return c.rng.integers(-9, 20, s)
    if kind == 'u1':
        return c.rng.integers(0, 255, s).astype('u1')
    if kind == 'exp':
        return c.rng.exponential(size=s) - .2
    if kind == 'shift':
        return 50 + c.rng.normal(size=s)
    if kind == 'f4':
        return c.rng.normal(size=s).astype('f4')
    return c.rng.normal(size=s)*2


def pool(batches, use):
    """data points of the batches (paths last)"""
    out = []
    for b in batches:
        b = b.astype(float)
        n = b.shape[-1]//2
        if use == 'even':
            b = (b[..., :n] + b[..., n:])/2
        elif use == 'odd':
            b = (b[..., :n] - b[..., n:])/2
        out.append(b)
    return np.concatenate(out, axis=-1)


def stats_ok(c, a, X, tol, what=''):
    n = X.shape[-1]
    m = X.mean(axis=-1)
    d = X - m[..., None]
    v, s3, s4 = (d**2).mean(axis=-1), (d**3).mean(axis=-1), (d**4).mean(axis=-1)
    kw = dict(rtol=tol, atol=tol)
    c.ok(a.paths == n, what + 'count of data points')
    c.same(a.mean(), m, what + 'mean', **kw)
    c.same(a.m, m, what + 'm', **kw)
    if n < 2:
        return
    if np.min(v) < 1e-3:
        return
    c.same(a.var(), v, what + 'variance', **kw)
    c.same(a.std(), np.sqrt(v), what + 'standard deviation', **kw)
    c.same(a.s, np.sqrt(v), what + 's', **kw)
    c.same(a.stderr(), np.sqrt(v/(n - 1)), what + 'standard error', **kw)
    c.same(a.e, np.sqrt(v/(n - 1)), what + 'e', **kw)
    c.same(a.skew(), s3/v**1.5, what + 'skewness', rtol=tol*30, atol=tol*30)
    c.same(a.kurtosis(), s4/v**2, what + 'kurtosis', rtol=tol*100, atol=tol*100)
    st = a.stats
    c.same(st['mean'], m, what + 'stats mean', **kw)
    c.same(st['kurtosis'], s4/v**2, what + 'stats kurtosis', rtol=tol*100, atol=tol*100)


def feed(c, batches, use, bins=None, rng=None, first_axis=None, vs=()):
    axis = []
    for b in batches:
        ax = c.int(-b.ndim, b.ndim - 1)
        axis.append(ax)
    c.note(axes=axis)
    put = [np.moveaxis(b, -1, ax) for b, ax in zip(batches, axis)]
    put = [z.tolist() if c.bool(.1) else z for z in put]
    kw = dict(bins=bins, use=use)
    if rng is not None:
        kw['range'] = rng
    return put, axis, kw


@prop('P23', 250)
def batches(c):
    use = c.cycle(['all', 'even', 'odd'])
    vs = c.choice([(), (), (2,), (2, 3), (1,)])
    kind = c.choice(['normal', 'normal', 'int', 'exp', 'shift', 'f4', 'u1'])
    nb = c.choice([1, 2, 2, 3, 6])
    sizes = [c.int(1, 12) if use == 'all' else 2*c.int(1, 7) for _ in range(nb)]
    B = [draw(c, vs, n, kind) for n in sizes]
    bins = c.choice([None, None, 5, 'auto'])
    if bins == 'auto' and kind == 'u1' and use == 'all':
        bins = 5
    c.note(use=use, vshape=vs, kind=kind, sizes=sizes, bins=bins, batches=B)
    put, axis, kw = feed(c, B, use, bins)
    X = pool(B, use)
    tol = 2e-3 if kind == 'f4' else 1e-6 if kind == 'shift' else 1e-8
    c.choice([0])
    if c.bool():
        a = montecarlo(put[0], axis=axis[0], **kw)
        k = 1
    else:
        a, k = montecarlo(**kw), 0
        c.ok(a.paths == 0, 'no data')
    for j in range(k, nb):
        if j and c.bool(.3):
            stats_ok(c, a, pool(B[:j], use), tol, 'after %d updates: ' % j)
        a.update(put[j], axis=axis[j])
    stats_ok(c, a, X, tol)
    c.ok(a.vshape == vs and a.shape == vs + (X.shape[-1],), 'shapes')
    if vs:
        i = c.choice([0, -1, Ellipsis, slice(0, 1)] + ([(1, 2), (0, -1), (slice(None), 1)] if len(vs) == 2 else []))
        if bins is not None and i is Ellipsis:
            i = 0
        c.note(index=i)
        stats_ok(c, a[i], X[i] if i is not Ellipsis else X, tol, 'indexed: ')
    # same data in one go
    b = montecarlo(np.concatenate([z.astype(float) for z in B], axis=-1), use='all', bins=None)
    if use == 'all':
        stats_ok(c, b, X, tol, 'one batch: ')


@prop('P23', 30)
def one_path_and_odd(c):
    use = c.cycle(['even', 'odd'])
    n = 2*c.int(0, 4) + 1
    vs = c.choice([(), (2,)])
    x = c.rng.normal(size=vs + (n,))
    c.raises(ValueError, lambda: montecarlo(x, use=use, bins=None), 'odd length')
    a = montecarlo(c.rng.normal(size=vs + (4,)), use=use, bins=None)
    before = a.mean().copy()
    c.raises(ValueError, lambda: a.update(x), 'odd length in an update')
    c.ok(a.paths == 2, 'rejected batch is not counted')
    c.same(a.mean(), before, 'rejected batch is not used', exact=True)
    c.raises(ValueError, lambda: montecarlo(x, use=c.choice(['none', 'Even', None])), 'unknown antithetic sampling')


@prop('P23', 60)
def many_updates(c):
    """many small updates, far from the first batch"""
    n = c.int(20, 60)
    sh = c.choice([0., 5., -20.])
    B = [c.rng.normal(size=c.int(1, 3))*(1 + j % 3) + sh*j/n for j in range(n)]
    B[0] = np.array([c.uni(-1, 1)])
    a = montecarlo(bins=None)
    for b in B:
        a.update(b)
    c.note(batches=B)
    stats_ok(c, a, np.concatenate(B), 1e-7)


# ------------------------------------------------------------------- P24

def some_bins(c, vs):
    k = c.choice(['int', 'int', 'edges', 'edges', 'obj', 'str', 'range'])
    if k == 'int':
        return k, c.int(1, 12), None
    if k == 'range':
        a = c.uni(-2, 0)
        return k, c.int(1, 8), (a, a + c.uni(.5, 3))
    if k == 'str':
        return k, c.choice(['auto', 'fd', 'sturges', 'sqrt']), None
    nb = c.int(1, 6)
    if k == 'obj' and vs:
        b = np.empty(vs, dtype=object)
        for i in np.ndindex(vs):
            b[i] = np.sort(c.rng.uniform(-4, 4, nb + 1 + c.int(0, 2)))
        return k, b, None
    return 'edges', np.sort(c.rng.uniform(-4, 4, vs + (nb + 1,)), axis=-1), None


def count(x, e):
    e = np.asarray(e, float)
    k = np.searchsorted(e, x, side='right') - 1
    k = np.where(x == e[-1], len(e) - 2, k)
    ok = (x >= e[0]) & (x <= e[-1])
    return np.bincount(k[ok], minlength=len(e) - 1)


@prop('P24', 200)
def accounting(c):
    use = c.choice(['all', 'all', 'even', 'odd'])
    vs = c.choice([(), (), (2,), (2, 2)])
    kind = c.choice(['normal', 'normal', 'int', 'exp'])
    nb = c.choice([1, 2, 3, 5])
    sizes = [c.int(2, 30) if use == 'all' else 2*c.int(2, 15) for _ in range(nb)]
    B = [draw(c, vs, n, kind) for n in sizes]
    bk, bins, rng = some_bins(c, vs)
    c.note(use=use, vshape=vs, sizes=sizes, bins=bins, range=rng, batches=B)
    put, axis, kw = feed(c, B, use, bins, rng)
    a = montecarlo(**kw)
    first = None
    for j in range(nb):
        a.update(put[j], axis=axis[j])
        X = pool(B[:j+1], use)
        X1 = pool(B[:1], use)
        for i in np.ndindex(vs):
            h = a[i] if vs else a
            counts, edges = h.histogram()
            e_ref = np.histogram_bin_edges(X1[i], bins=bins, range=rng) if bk in ('int', 'range', 'str') else np.asarray(bins[i] if vs else bins, float)
            c.same(edges, e_ref, 'bins fixed by the first update', rtol=1e-12)
            n = count(X[i], edges)
            c.same(counts, n, 'counts of component %s' % (i,), exact=True)
            out = int(np.asarray(h.outpaths).reshape(-1)[0])
            c.ok(out == X.shape[-1] - n.sum(), 'samples outside the bins', outside=out)
            c.same(np.asarray(h.outerr()).reshape(-1)[0], out/X.shape[-1], 'fraction outside', rtol=1e-12)
    if vs and int(np.prod(vs)) > 1:
        c.raises(IndexError, lambda: a.histogram(), 'histogram of several components')
    for i in np.ndindex(vs):
        h = a[i] if vs else a
        counts, edges = h.histogram()
        if counts.sum() == 0:
            continue
        d, e2 = h.density_histogram()
        w = np.diff(edges)
        c.same(e2, edges, 'density bins', exact=True)
        c.same(d, counts/counts.sum()/w, 'density', rtol=1e-10)
        c.same((d*w).sum(), 1., 'density integrates to one', rtol=1e-10)
        lo, hi, W = edges[0], edges[-1], edges[-1] - edges[0]
        mid = (edges[1:] + edges[:-1])/2
        # interpolated
        far = np.array([lo - W, lo - 1e-6*W, hi + 1e-6*W, hi + 3*W])
        c.same(h.cdf(far, method='interp'), np.array([0., 0., 1., 1.]), 'interpolated cdf outside', atol=1e-9)
        c.same(h.cdf(edges, method='interp'), np.concatenate(([0.], np.cumsum(counts)/counts.sum())), 'interpolated cdf at the edges', atol=1e-9)
        c.same(h.pdf(far, method='interp'), np.zeros(4), 'interpolated pdf outside', atol=1e-12)
        c.same(h.pdf(np.array([edges[0], edges[-1]]), method='interp'), np.zeros(2), 'interpolated pdf at the outer edges', atol=1e-9)
        c.same(h.pdf(mid, method='interp'), d, 'interpolated pdf at midpoints', rtol=1e-8)
        x = c.rng.uniform(lo - W, hi + W, c.choice([(), (4,), (2, 3)]))
        c.same(h.cdf(x, method='interp'), np.interp(x, edges, np.concatenate(([0.], np.cumsum(d*w)))), 'interpolated cdf', atol=1e-9)
        # kernels
        bw = c.choice([1., .5, 2.3])
        z = (x[..., None] - mid)/(w*bw)
        ndtr = scipy.special.ndtr
        pk = (d*w*np.exp(-z**2/2)/np.sqrt(2*np.pi)/(w*bw)).sum(axis=-1)
        ck = (d*w*ndtr(z)).sum(axis=-1)
        kw = {} if bw == 1. and c.bool() else dict(bandwidth=bw)
        c.same(h.pdf(x, **kw), pk, 'kernel pdf', rtol=1e-8, atol=1e-12)
        c.same(h.cdf(x, **kw), ck, 'kernel cdf', rtol=1e-8, atol=1e-12)
        c.same(h.cdf(np.array([lo - 60*W*(1+bw), hi + 60*W*(1+bw)]), **kw), np.array([0., 1.]), 'kernel cdf tails', atol=1e-9)
        break
    c.raises(ValueError, lambda: h.pdf(0., method='other'), 'unknown method')


@prop('P24', 30)
def no_data(c):
    c.raises(ValueError, lambda: montecarlo().histogram(), 'no sample')
    a = montecarlo(np.arange(4.), bins=None)
    c.raises(ValueError, lambda: a.histogram(), 'no bins')
    vs = c.choice([(2,), (3,)])
    c.raises(ValueError, lambda: montecarlo(c.rng.normal(size=vs + (5,)), bins=np.linspace(0, 1, 4)), 'bins for another shape')
    c.raises(ValueError, lambda: montecarlo(c.rng.normal(size=(5,)), bins=np.zeros((2, 4))), 'bins for another shape')


def _values_kept(c, a, batches, read):
    """what was handed back before is left as it was by updates; writing to it changes nothing"""
    got = []
    for b in batches:
        a.update(b)
        now = read()
        got.append(([np.copy(v) for v in now], now))
    for k, (was, v) in enumerate(got):
        for x, y in zip(was, v):
            c.same(np.asarray(y), x, 'value handed back after batch %d' % k, exact=True)
    last = [np.copy(v) for v in read()]
    for v in read():
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v += 3
    for x, y in zip(last, read()):
        c.same(np.asarray(y), x, 'statistics after writing to those handed back', exact=True)


@prop('P23', 30)
def results_kept(c):
    vs = c.choice([(), (2,), (2, 3)])
    B = [c.rng.normal(size=vs + (c.int(2, 6),)) + k for k in range(c.int(2, 4))]
    c.note(batches=B)
    a = montecarlo(bins=None)
    _values_kept(c, a, B, lambda: [a.mean(), a.var(), a.std(), a.skew(), a.kurtosis(), a.stderr(), a.m, a.s, a.e] + list(a.stats.values()))


@prop('P24', 30)
def histograms_kept(c):
    B = [c.rng.normal(size=c.int(2, 9)) for k in range(c.int(2, 4))]
    c.note(batches=B)
    a = montecarlo(bins=c.choice([3, [-1., 0., 2.]]))
    _values_kept(c, a, B, lambda: [*a.histogram(), *a.density_histogram(), a.outpaths, a.outerr(), *a.h, *a.dh])
