"""P12: antithetic sources."""
from pyvc.api import *
from pyvc import srandom
from .common import *
from .laws import *
from .p09 import times, TSHAPES
from .p11 import jump, counting, count

ASSUMPTIONS = [RANK_NOTE, 'the laws of the plain sources: contracts of P09, P10 and P11']


def antithetic(cls, r, kind, dtype=None, corr=False):
    vs, n = vdims(r), dim('n', 1)
    P = n*2
    t, d, sh, te, de = times(kind)
    rng = srandom.Generator('given')
    kw = dict(paths=P, vshape=vs, rng=rng)
    if dtype is not None:
        kw['dtype'] = dtype
    lam = var('lam')
    if cls == 'odd_wiener_source':
        if corr:
            kw['corr'] = arr('C', (vs[-1], vs[-1]))
    elif cls == 'even_poisson_source':
        assume(le(ZERO, lam))
        kw['lam'] = Sym(lam, 'f')
    else:
        y = kw['y'] = jump()
        kw['lam'] = real('lam')
        assume(le(ZERO, lam))
    s = fn(I_, cls)(**kw)
    check('paths', eq(tm(s.paths), tm(P)))
    check('vshape', len(s.vshape) == r and all(a is b or a == b for a, b in zip(s.vshape, vs)))
    check('rng', s.rng is rng)
    ref = fn(I_, cls.replace('odd_', '').replace('even_', ''))(**dict(kw, paths=n))
    check('dtype', s.dtype == ref.dtype and (dtype is None or s.dtype is dtype or s.dtype == snp.dtype(dtype)))
    before = mark()
    z = s(t, d)
    shape = sh + vs + (P,)
    check('type', isinstance(z, snp.ndarray))
    if not check_shape('shape', z.shape, shape):
        return
    i = indices(shape[:-1] + (n,), 'i')
    first, second = z.at(*i), z.at(*i[:-1], i[-1] + tm(n))
    check_eq('mirror', resolve(second), resolve(neg_(first) if cls.startswith('odd') else first))
    half = shape[:-1] + (n,)
    m = len(sh)

    def factor(*i):
        return t_.tsign(de(*i[:m]))

    def lawof(nm, z, before):
        f = lambda *i: resolve(z.at(*i))
        if cls == 'odd_wiener_source':
            def cov(i, j):
                a = t_.tabs(de(*i[:m]))
                if not corr:
                    return ite(same_index(i, j), a, ZERO)
                return ite(same_index(i[:-2] + i[-1:], j[:-2] + j[-1:]), elt('C', i[-2], j[-2])*a, ZERO)
            return gaussian(nm, f, half, lambda *i: ZERO, cov, before)
        if cls == 'even_poisson_source':
            return scaled_count(nm, f, half, 'poisson', factor, lambda *i: (lam*t_.tabs(de(*i[:m])),), before)
        dn = s._dz.dn_value
        scaled_count(nm + '-counts', dn.at, half, 'poisson', factor, lambda *i: (lam*t_.tabs(de(*i[:m])),), before)
        q = random_sum(nm, f, half, lambda *i: mul(factor(*i), dn.at(*i)), factor, lambda *i: (), 'jump', before)
        return q and {q}
    names = lawof('first-half', z, before)
    if names is None:
        reach('none')
        return
    z = s(t, d)
    v = z.at(*indices(shape, 'again'))
    check('again-fresh', not ({x.a[0] for x in draws_of(v)} & names))
    check('all-from-generator', all(l.gen is rng for l in ctx().laws.values()))
    reach('end')


def neg_(x):
    return mul(t_.MINUS1, x)


for _c in ('odd_wiener_source', 'even_poisson_source', 'even_cpoisson_source'):
    for _k in TSHAPES:
        for _r in RANKS:
            if _k == 'mm' and _r == 2 or _k in ('sv', 'vs') and _r != 1:
                continue
            vc('P12', '%s_%s_%d' % (_c, _k, _r), reach=('end',) + (('none',) if 'cp' in _c else ()))(
                lambda c=_c, r=_r, k=_k: antithetic(c, r, k))
            if _c[0] == 'o' and _r:
                vc('P12', '%s_corr_%s_%d' % (_c, _k, _r), reach=('end',))(
                    lambda c=_c, r=_r, k=_k: antithetic(c, r, k, corr=True))
    vc('P12', '%s_float' % _c, reach=('end',) + (('none',) if 'cp' in _c else ()))(
        lambda c=_c: antithetic(c, 1, 'vv', float))

    def _odd(cls=_c):
        n = dim('n', 0)
        P = n*2 + 1
        expect_raise('odd', ValueError, fn(I_, cls), paths=P, vshape=())
        expect_raise('odd', ValueError, fn(I_, cls), paths=P, vshape=(dim('V', 1),))
        for k in (1, 3, 7):
            expect_raise('odd', ValueError, fn(I_, cls), paths=k, vshape=(2,))
        reach('end')
    vc('P12', _c + '_odd', reach=('end',))(_odd)
