"""P10: increments of Poisson sources."""
from pyvc.api import *
from .common import *
from .laws import *
from .p09 import times, TSHAPES

ASSUMPTIONS = [RANK_NOTE, 'numpy.random.Generator.poisson: contract in pyvc/srandom.py; intensities not negative']


def source(**kw):
    return fn(I_, 'poisson_source')(**kw)


def intensity(how, vs, P):
    """-> lam, its value at (time, value indices + path)"""
    full = vs + (P,)

    def nonneg(a):
        ctx().assume(le(ZERO, a))
        return a
    if how == 'default':
        return None, lambda s, i: ONE
    if how == 'scalar':
        nonneg(var('lam'))
        return real('lam'), lambda s, i: var('lam')
    if how.startswith('array'):
        sh = {'array': full, 'array-last': full[-1:], 'array-one': full[:-1] + (1,)}[how]
        # not negative
        a = arr('q', sh)
        return a*a, lambda s, i: sq(elt('q', *[ZERO if d == 1 and isinstance(d, int) else k
                                              for d, k in zip(sh, i[len(i) - len(sh):])]))
    if how == 'function':
        return (lambda s: Sym(sq(app('L', term(asarr(s)))), 'f')), lambda s, i: sq(app('L', s))
    sh = full[:-1] + (1,)
    return (lambda s: snp.ndarray._np_make(lambda i: sq(app('L', term(asarr(s)), *i[:-1])), sh, snp.dtype(float))), \
        lambda s, i: sq(app('L', s, *i[:-1]))


def sq(x):
    return mul(x, x)


def counts(r, kind, how, dtype=None):
    vs, P = vdims(r), dim('P', 1)
    t, d, sh, te, de = times(kind)
    L, le_ = intensity(how, vs, P)
    kw = {} if how == 'default' else dict(lam=L)
    if dtype is not None:
        kw['dtype'] = dtype
    s = source(paths=P, vshape=vs, **kw)
    before = mark()
    y = s(t, d)
    shape = sh + vs + (P,)
    check('type', isinstance(y, snp.ndarray))
    if not check_shape('shape', y.shape, shape):
        return
    check('dtype', y.dtype == snp.dtype(dtype or int))
    n = len(sh)

    def factor(*i):
        return t_.tsign(de(*i[:n]))

    def param(*i):
        a, b = te(*i[:n]), de(*i[:n])
        return (le_(a + b/const(2), i[n:])*t_.tabs(b),)
    names = scaled_count('increment', y.at, shape, 'poisson', factor, param, before)
    z = s(t, d)
    if check_shape('again', z.shape, shape):
        scaled_count('again', z.at, shape, 'poisson', factor, param, names)
    reach('end')


for _k in TSHAPES:
    for _r in RANKS:
        for _h in ('default', 'scalar', 'array', 'array-last', 'array-one', 'function', 'function-array'):
            if _r != 1 and _h in ('default', 'array-last'):
                continue
            vc('P10', '%s_%s_%d' % (_h, _k, _r), reach=('end',))(lambda r=_r, k=_k, h=_h: counts(r, k, h))
for _r in RANKS:
    vc('P10', 'float_%d' % _r, reach=('end',))(lambda r=_r: counts(r, 'vv', 'scalar', float))


@vc('P10', reach=('last', 'axes', 'value'))
def rejected():
    """intensities which do not broadcast to vshape + (paths,)"""
    P, V, M, W = dim('P', 1), dim('V', 1), dim('M', 1), dim('W', 1)
    c = ctx()
    if c.choose():
        c.assume(and_(ne(tm(M), tm(P)), ne(tm(M), ONE)), check=True)
        vs = () if c.choose() else (V,)
        expect_raise('last', ValueError, source, paths=P, vshape=vs, lam=arr('q', (M,)))
        reach('last')
    elif c.choose():
        vs = () if c.choose() else (V,)
        sh = (M,)*len(vs) + (1, 1)
        expect_raise('axes', ValueError, source, paths=P, vshape=vs, lam=arr('q', (2,) + sh))
        c.assume(lt(ONE, tm(M)), check=True)
        expect_raise('axes', ValueError, source, paths=P, vshape=(), lam=arr('q', (M, 1)))
        reach('axes')
    else:
        c.assume(and_(ne(tm(M), tm(V)), ne(tm(M), ONE)), check=True)
        last = 1 if c.choose() else P
        expect_raise('value', ValueError, source, paths=P, vshape=(W, V), lam=arr('q', (M, last)))
        reach('value')
