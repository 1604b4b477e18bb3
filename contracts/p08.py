"""P08: empirical characteristic and distribution functions."""
from pyvc.api import *
from .common import *

ASSUMPTIONS = [RANK_NOTE, 'times and points given as scalars, vectors or matrices; the values of the process at given '
               'times are those of its evaluation (decided by P04); float processes']


def points(name, rank):
    if rank == 0:
        return real(name), (), lambda *i: var(name)
    sh = tuple(dim(name.upper() + '%d' % k, 0) for k in range(rank))
    return arr(name, sh), sh, lambda *i: elt(name, *i)


def estimate(what, r, tr, pr, how):
    """tr: rank of times, None: the timeline"""
    p = mkproc(rank=r)
    N, vs, P = p.shape[0], p.shape[1:-1], p.shape[-1]
    u, ush, ue = points('u', pr)
    f = getattr(p, what)
    key = {'chf': 'u', 'cdf': 'x'}[what]
    if tr is None:
        y = f(u) if how == 'positional' else f(**{key: u})
        tsh, xt = (N,), lambda i, v: elt('x', *i, *v)
    else:
        s, tsh, se = points('s', tr)
        increasing(N)
        z = asarr(p(s))
        y = f(s, u) if how == 'positional' else f(t=s, **{key: u})
        xt = lambda i, v: z.at(*i, *v)
    check('type', isinstance(y, snp.ndarray) or tsh + ush + vs == ())
    y = asarr(y)
    if not check_shape('shape', y.shape, tsh + ush + vs):
        return
    i, k, v = indices(tsh, 'i'), indices(ush, 'k'), indices(vs, 'v')
    e = y.at(*i, *k, *v)
    if what == 'chf':
        want = t_.tsum(tm(P), lambda j: t_.fexp(t_.mul(t_.J, ue(*k), xt(i, v + (j,)))))/tm(P)
    else:
        want = t_.tsum(tm(P), lambda j: ite(le(xt(i, v + (j,)), ue(*k)), ONE, ZERO))/tm(P)
    check_eq('estimate', e, want)
    reach('end')


for _w in ('chf', 'cdf'):
    for _r in RANKS:
        for _t in (None, 0, 1, 2):
            for _p in (0, 1, 2):
                vc('P08', '%s_%d_%s_%d' % (_w, _r, 'all' if _t is None else 't%d' % _t, _p), reach=('end',))(
                    lambda w=_w, r=_r, t=_t, p=_p: estimate(w, r, t, p, 'positional'))
            vc('P08', '%s_%d_%s_keywords' % (_w, _r, 'all' if _t is None else 't%d' % _t), reach=('end',))(
                lambda w=_w, r=_r, t=_t: estimate(w, r, t, 1, 'keywords'))


@vc('P08', reach=('end',))
def missing():
    p = mkproc(rank=1)
    for f in (p.chf, p.cdf):
        expect_raise('none', TypeError, f)
        expect_raise('none', TypeError, f, None)
        expect_raise('none', TypeError, f, None, None)
    reach('end')

for _n, _f in dict(chf=lambda p: p.chf(real('u')), cdf=lambda p: p.cdf(real('u')), chf_at=lambda p: p.chf(real('s'), real('u')),
                   cdf_at=lambda p: p.cdf(real('s'), real('u'))).items():
    vc('P08', 'after_change_' + _n, reach=('end',))(lambda f=_f: after_change('after', f, 1))
