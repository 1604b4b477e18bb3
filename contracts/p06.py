"""P06: summaries across paths, values and time; value reshaping."""
from pyvc.api import *
from .common import *

ASSUMPTIONS = [RANK_NOTE, 'float processes (sums, means and reshaping: complex ones also); the reductions of numpy: '
               'contracts in pyvc/snp.py, exact arithmetic']


def nest(kind, dims, f, idx=()):
    if not dims:
        return f(*idx)
    return t_.reduce_(kind, tm(dims[0]), lambda k: nest(kind, dims[1:], f, idx + (k,)))


def statistic(name, dims, f, ddof):
    """the statistic over arbitrary axes"""
    n = const(1)
    for d in dims:
        n = n*tm(d)
    if name in ('min', 'max', 'sum'):
        return nest(name, dims, f)
    m = nest('sum', dims, f)/n
    if name == 'mean':
        return m
    v = nest('sum', dims, lambda *i: (f(*i) - m)*(f(*i) - m))/(n - tm(ddof))
    return v if name == 'var' else t_.fsqrt(v)


NAMES = ('min', 'max', 'sum', 'mean', 'var', 'std')


def summary(r, ax, name, dtype=float, ddof=False, out=False):
    p = mkproc(rank=r, dtype=dtype)
    sub_ = type('subprocess', (process(),), {})
    if ddof:
        p = mkproc(rank=r, dtype=dtype, cls=sub_)
    N, vs, P = p.shape[0], p.shape[1:-1], p.shape[-1]
    e = el_of('x', dtype)
    dims = {'p': (P,), 'v': vs, 't': (N,)}[ax]
    kw, d = {}, ZERO
    if ddof:
        kw['ddof'] = real('ddof')
        d = tm(kw['ddof'])
        n = const(1)
        for k in dims:
            n = n*tm(k)
        ctx().assume(lt(d, n), check=True)
    shape = {'p': (N,) + vs + (1,), 'v': (N, P), 't': (1,) + vs + (P,)}[ax]
    if out:
        kw['out'] = arr('o', shape, dtype)
    q = getattr(p, ax + name)(**kw)
    if ax == 'p':
        f = lambda *i: statistic(name, dims, lambda *k: e(*(i[:-1] + k)), d)
    elif ax == 't':
        f = lambda *i: statistic(name, dims, lambda *k: e(*(k + i[1:])), d)
    else:
        f = lambda *i: statistic(name, dims, lambda *k: e(*(i[:1] + k + i[1:])), d)
    check_process(ax + name, q, shape, f, (lambda i: tel(ZERO)) if ax == 't' else tel)
    if out:
        idx = indices(shape, 'o')
        check_eq('out', kw['out'].at(*idx), f(*idx))
    j = indices(p.shape, 'kept')
    check_eq('unchanged', p.at(*j), e(*j))
    reach('end')


for _r in RANKS:
    for _ax in 'pvt':
        for _n in NAMES:
            vc('P06', '%s%s_%d' % (_ax, _n, _r), reach=('end',))(lambda r=_r, ax=_ax, n=_n: summary(r, ax, n))
            if _n in ('var', 'std'):
                vc('P06', '%s%s_ddof_%d' % (_ax, _n, _r), reach=('end',))(
                    lambda r=_r, ax=_ax, n=_n: summary(r, ax, n, ddof=True))
            if _r == 1:
                vc('P06', '%s%s_out' % (_ax, _n), reach=('end',))(lambda r=_r, ax=_ax, n=_n: summary(r, ax, n, out=True))
            if _r < 2 and _n in ('sum', 'mean'):
                vc('P06', '%s%s_complex_%d' % (_ax, _n, _r), reach=('end',))(
                    lambda r=_r, ax=_ax, n=_n: summary(r, ax, n, dtype=complex))

    for _d, _dt in (('', float), ('c', complex)):
        def _cum(r=_r, dt=_dt):
            p = mkproc(rank=r, dtype=dt)
            e = el_of('x', dt)
            f = lambda *i: t_.tsum(i[0] + ONE, lambda k: e(k, *i[1:]))
            check_process('tcumsum', p.tcumsum(), p.shape, f, tel)
            o = arr('o', p.shape, dt)
            check_process('tcumsum-out', p.tcumsum(out=o), p.shape, f, tel)
            idx = indices(p.shape, 'o')
            check_eq('out', o.at(*idx), f(*idx))
            # from the previous time: the next value is added
            idx = indices(p.shape, 'n')
            ctx().assume(lt(idx[0] + ONE, tm(p.shape[0])), check=True)
            reach('end')
        vc('P06', 'tcumsum_%d%s' % (_r, _d), reach=('end',))(_cum)

    for _h in range(5):
        for _how in ('shape', 'process'):
            def _shapeas(r=_r, h=_h, how=_how):
                # values of arbitrary lengths: one where axes are to be dropped
                sub_ = type('subprocess', (process(),), {})
                p = mkproc(rank=r, cls=sub_, lo=1)
                N, vs, P = p.shape[0], p.shape[1:-1], p.shape[-1]
                new = vdims(h, 1, 'W')
                arg = mkproc('y', vs=new, t='ty') if how == 'process' else new
                k = max(0, r - h)
                fits = and_(*[eq(tm(d), ONE) for d in vs[:k]])
                if not ctx().decide(fits):
                    expect_raise('error', ValueError, p.shapeas, arg)
                    reach('error')
                    return
                q = p.shapeas(arg)
                e = el_of('x', float)
                shape = (N,) + (1,)*(h - r) + vs[k:] + (P,)
                m = max(0, h - r)
                check_process('shapeas', q, shape, lambda *i: e(*(i[:1] + (ZERO,)*k + i[1 + m:])), tel, cls=sub_)
                j = indices(p.shape, 'kept')
                check_eq('unchanged', p.at(*j), e(*j))
                reach('end')
            vc('P06', 'shapeas_%d_%d_%s' % (_r, _h, _how), reach=('end',) + (('error',) if _h < _r else ()))(_shapeas)

for _n in ('pmin', 'pmax', 'psum', 'pmean', 'pvar', 'pstd', 'vmin', 'vmax', 'vsum', 'vmean', 'vvar', 'vstd', 'tmin', 'tmax', 'tsum', 'tcumsum',
           'tmean', 'tvar', 'tstd'):
    vc('P06', 'after_change_' + _n, reach=('end',))(lambda n=_n: after_change('after', lambda p: getattr(p, n)(), 1, ordered=False))
