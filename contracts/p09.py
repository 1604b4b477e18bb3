"""P09: increments of Wiener sources."""
from pyvc.api import *
from .common import *
from .laws import *

ASSUMPTIONS = [RANK_NOTE, 'numpy.random.Generator: contract in pyvc/srandom.py (fresh independent draws of the law requested, '
               'correlation matrices positive semidefinite); times and increments given as scalars, vectors or '
               'broadcastable matrices', 'the law is decided for the entries as real numbers']

TSHAPES = {'ss': (0, 0), 'sv': (0, 1), 'vs': (1, 0), 'vv': (1, 1), 'mm': (2, 2)}


def times(kind):
    """t, dt, shape, their entries"""
    a, b = TSHAPES[kind]
    A, B = dim('A', 0), dim('B', 0)
    if kind == 'mm':
        return arr('t', (A, 1)), arr('d', (B,)), (A, B), lambda i, j: elt('t', i, ZERO), lambda i, j: elt('d', j)
    sh = (A,)*max(a, b)
    t = arr('t', (A,)) if a else real('t')
    d = arr('d', (A,)) if b else real('d')
    return t, d, sh, (lambda *i: elt('t', *i)) if a else (lambda *i: var('t')), \
        (lambda *i: elt('d', *i)) if b else (lambda *i: var('d'))


def source(**kw):
    return fn(I_, 'wiener_source')(**kw)


def plain(r, kind, corr=None):
    vs, P = vdims(r), dim('P', 1)
    t, d, sh, te, de = times(kind)
    kw = {}
    C = None
    if corr == 'matrix':
        kw['corr'] = arr('C', (vs[-1], vs[-1]))
        C = lambda i, a, b: elt('C', a, b)
    elif corr == 'matrix-paths':
        kw['corr'] = arr('C', (vs[-1], vs[-1], 1))
        C = lambda i, a, b: elt('C', a, b, ZERO)
    elif corr in ('function', 'function-paths'):
        n = 2 if corr == 'function' else 3

        def f(s):
            s = term(asarr(s))
            return snp.ndarray._np_make(lambda i: app('C', s, *i[:2]), (vs[-1],)*2 + (1,)*(n - 2), snp.dtype(float))
        kw['corr'] = f
        C = lambda i, a, b: app('C', te(*i) + de(*i)/const(2), a, b)
    w = source(paths=P, vshape=vs, **kw)
    before = mark()
    y = w(t, d)
    check('type', isinstance(y, snp.ndarray))
    shape = sh + vs + (P,)
    if not check_shape('shape', y.shape, shape):
        return
    n = len(sh)

    def cov(i, j):
        a = t_.tabs(de(*i[:n]))
        if C is None:
            return ite(same_index(i, j), a, ZERO)
        return ite(same_index(i[:-2] + i[-1:], j[:-2] + j[-1:]), C(i[:n], i[-2], j[-2])*a, ZERO)
    names = gaussian('increment', y.at, shape, lambda *i: ZERO, cov, before)
    # another call: independent
    z = w(t, d)
    if check_shape('again', z.shape, shape):
        gaussian('again', z.at, shape, lambda *i: ZERO, cov, names)
    check_eq('first-unchanged', y.at(*indices(shape, 'u')), y.at(*indices(shape, 'u')))
    # times are left as they were
    for nm, x in (('t', t), ('d', d)):
        if isinstance(x, snp.ndarray):
            k = indices(x.shape, 'x')
            check_eq('arguments', x.at(*k), elt(nm, *k))
    reach('end')


for _k in TSHAPES:
    for _r in (0, 1, 2, 3):
        if _r == 3 and _k != 'vv':
            continue
        vc('P09', 'plain_%s_%d' % (_k, _r), reach=('end',))(lambda r=_r, k=_k: plain(r, k))
        if _r:
            for _c in ('matrix', 'matrix-paths', 'function', 'function-paths'):
                if _c.endswith('paths') and _r > 1:
                    continue
                vc('P09', '%s_%s_%d' % (_c, _k, _r), reach=('end',))(lambda r=_r, k=_k, c=_c: plain(r, k, c))


@vc('P09', reach=('end',))
def mismatch():
    """a correlation matrix not matching the last value axis"""
    P, V, M, W = dim('P', 1), dim('V', 1), dim('M', 1), dim('W', 1)
    C = arr('C', (M, M))
    expect_raise('scalar', ValueError, source, paths=P, vshape=(), corr=C)
    c = ctx()
    vs = (W, V) if c.choose() else (V,)
    C = arr('C', (M, M, 1)) if c.choose() else C
    if c.decide(ne(tm(M), tm(V))):
        expect_raise('matrix', ValueError, source, paths=P, vshape=vs, corr=C)
        reach('end')
    else:
        w = source(paths=P, vshape=vs, corr=C)
        check('accepted', w is not None)


@vc('P09', reach=('end',))
def mismatch_rho():
    P, V, K = dim('P', 1), dim('V', 1), dim('K', 1)
    expect_raise('scalar', ValueError, source, paths=P, vshape=(), rho=real('r'))
    c = ctx()
    if c.choose():
        if c.decide(ne(tm(V), const(2))):
            expect_raise('rho', ValueError, source, paths=P, vshape=(V,), rho=real('r'))
            reach('end')
    elif c.decide(ne(tm(V), const(2)*tm(K))):
        expect_raise('rhos', ValueError, source, paths=P, vshape=(V,), rho=arr('r', (K,)))
        reach('end')
