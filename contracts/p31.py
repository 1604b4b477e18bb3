"""P31: correlations given as a matrix or as rho."""
from pyvc.api import *
from .common import *
from .laws import *

ASSUMPTIONS = ['the vector rho has any length; value shapes of the sources: vectors, and matrices for some conditions',
               'numpy.random.Generator: contract in pyvc/srandom.py, correlation matrices positive semidefinite']
CLASSES = ('wiener_source', 'true_wiener_source')
ALL = CLASSES + ('odd_wiener_source',)


def expected(n, r, i, j):
    """entry of the matrix for the vector r of n correlations"""
    half = lambda k: ite(lt(k, n), k, sub(k, n))
    return ite(eq(i, j), ONE, ite(eq(half(i), half(j)), r(half(i)), ZERO))


def given(form, const_=True):
    """rho, number of correlations, its entries at time s"""
    if form == 'float':
        return 0.25, 1, lambda s, k: const(Fr(1, 4))
    if form == 'scalar':
        return real('r'), 1, lambda s, k: var('r')
    if form == '0d':
        return arr('r', ()), 1, lambda s, k: elt('r')
    if form in ('one', 'one-paths'):
        sh = (1,) if form == 'one' else (1, 1)
        return arr('r', sh), 1, lambda s, k: elt('r', *(ZERO,)*len(sh))
    if form == 'list':
        a, b, c = real('r0'), real('r1'), real('r2')
        return [a, b, c], 3, lambda s, k: ite(eq(k, ZERO), term(a), ite(eq(k, ONE), term(b), term(c)))
    n = dim('n', 1)
    if form == 'vector':
        return arr('r', (n,)), n, lambda s, k: elt('r', k)
    if form == 'vector-paths':
        return arr('r', (n, 1)), n, lambda s, k: elt('r', k, ZERO)
    if form == 'function-scalar':
        return (lambda s: Sym(app('r', term(asarr(s))), 'f')), 1, lambda s, k: app('r', s)
    if form == 'function-0d':
        return (lambda s: snp.asarray(Sym(app('r', term(asarr(s))), 'f'))), 1, lambda s, k: app('r', s)
    if form in ('function-vector', 'function-paths', 'function-late'):
        sh = (n,) if form != 'function-paths' else (n, 1)

        def f(s):
            s = term(asarr(s))
            if isc(s) and form == 'function-late':
                raise ValueError('undefined at the time of the test evaluation')
            return snp.ndarray._np_make(lambda i: app('r', s, i[0]), sh, snp.dtype(float))
        return f, n, lambda s, k: app('r', s, k)
    if form == 'function-list':
        def f(s):
            s = term(asarr(s))
            return [Sym(app('r', s, const(k)), 'f') for k in range(2)]
        return f, 2, lambda s, k: app('r', s, k)
    if form.startswith('process'):
        vs = () if form == 'process-scalar' else (n,)
        N = dim('N', 1)
        p = process()(arr('t', (N,)), x=arr('p', (N,) + vs + (1,)))
        n = n if vs else 1
        return p, n, lambda s, k: resolve(asarr(p(Sym(s, 'f'))).at(*((k,) if vs else ()), ZERO))
    raise ContractError(form)


CONST = ('float', 'scalar', '0d', 'one', 'one-paths', 'list', 'vector', 'vector-paths')
TIME = ('function-late', 'function-scalar', 'function-0d', 'function-vector', 'function-paths', 'function-list', 'process-scalar', 'process-vector')


def matrix_of(cls, form):
    r, n, e = given(form)
    m = tm(n)*2
    w = fn(I_, cls)(paths=dim('P', 1), vshape=(D(m),), rho=r)
    c = w.corr
    s = var('s')
    if form in TIME:
        check('function', callable(c))
        if not callable(c):
            return
        c = c(Sym(s, 'f'))
    check('array', isinstance(c, snp.ndarray))
    if not check_shape('shape', c.shape, (m, m)):
        return
    i, j = index('i', D(m)), index('j', D(m))
    check_eq('entry', c.at(i, j), expected(tm(n), lambda k: e(s, k), i, j))
    check_eq('symmetric', c.at(i, j), c.at(j, i))
    # the argument is left as it was
    if isinstance(r, snp.ndarray) and not callable(r):
        k = indices(r.shape, 'k')
        check_eq('rho-unchanged', r.at(*k), elt('r', *k))
    reach('end')


for _c in CLASSES:
    for _f in CONST + TIME:
        vc('P31', '%s_%s' % (_c, _f), reach=('end',))(lambda c=_c, f=_f: matrix_of(c, f))


def increments(form, r, odd=False):
    """the matrix is the one increments are drawn with"""
    rho, n, e = given(form)
    m = D(tm(n)*2)
    vs = vdims(r - 1) + (m,)
    P = dim('P', 1)
    t, d = real('t'), real('d')
    if odd:
        P = D(tm(P)*2)
    w = fn(I_, ('odd_' if odd else '') + 'wiener_source')(paths=P, vshape=vs, rho=rho)
    y = w(t, d)
    shape = vs + (P,)
    if not check_shape('shape', y.shape, shape):
        return
    if odd:
        shape = vs + (D(div(tm(P), const(2))),)
    a = t_.tabs(term(d))
    s = term(t) + div(term(d), const(2))

    def cov(i, j):
        return ite(same_index(i[:-2] + i[-1:], j[:-2] + j[-1:]),
                   mul(expected(tm(n), lambda k: e(s, k), i[-2], j[-2]), a), ZERO)
    gaussian('increment', y.at, shape, lambda *i: ZERO, cov)
    reach('end')


for _f in ('scalar', 'one-paths', 'vector', 'vector-paths', 'function-scalar', 'function-vector', 'function-paths',
           'function-late'):
    for _r in (1, 2):
        vc('P31', 'increments_%s_%d' % (_f, _r), reach=('end',))(lambda f=_f, r=_r: increments(f, r))
    if _f in ('scalar', 'vector', 'function-vector'):
        vc('P31', 'increments_odd_%s' % _f, reach=('end',))(lambda f=_f: increments(f, 1, True))


def explicit(form, rho):
    """an explicit matrix, whatever rho is"""
    m = dim('m', 1)
    s = var('s')
    sh = (m, m, 1) if form.endswith('paths') else (m, m)
    if form.startswith('function'):
        def C(t):
            t = term(asarr(t))
            return snp.ndarray._np_make(lambda i: app('C', t, *i[:2]), sh, snp.dtype(float))
    elif form == 'process':
        N = dim('N', 1)
        C = process()(arr('t', (N,)), x=arr('p', (N, m, m, 1)))
    elif form == 'list':
        C = [[1, real('c')], [real('c'), 1]]
        m, sh = 2, (2, 2)
    else:
        C = arr('C', sh)
    kw = {}
    if rho == 'scalar':
        kw['rho'] = real('r')
    elif rho == 'vector':
        kw['rho'] = arr('r', (dim('n', 1),))
    elif rho == 'function':
        kw['rho'] = lambda t: t
    for cls in CLASSES:
        w = fn(I_, cls)(paths=2, vshape=(m,), corr=C, **kw)
        c, want = w.corr, C
        if form.startswith('function') or form == 'process':
            check('function', callable(c))
            c = c(Sym(s, 'f'))
            want = C(Sym(s, 'f'))
            sh = want.shape
        elif form == 'list':
            want = snp.asarray(C)
        check('array', isinstance(c, snp.ndarray))
        if check_shape('shape', c.shape, sh):
            i = indices(sh, 'i')
            check_eq('entry', c.at(*i), want.at(*i))
    reach('end')


for _f in ('matrix', 'matrix-paths', 'list', 'function', 'function-paths', 'process'):
    for _r in ('none', 'scalar', 'vector', 'function'):
        vc('P31', 'explicit_%s_%s' % (_f, _r), reach=('end',))(lambda f=_f, r=_r: explicit(f, r))


def none():
    for cls in CLASSES:
        w = fn(I_, cls)(paths=2, vshape=(dim('V', 1),))
        check('none', w.corr is None)
        w = fn(I_, cls)(paths=2, vshape=())
        check('none-scalar', w.corr is None)
    reach('end')


vc('P31', 'none', reach=('end',))(none)


def rejected():
    n, m, q = dim('n', 1), dim('m', 1), dim('q', 0)
    N, P = dim('N', 1), dim('P', 2)
    assume(ne(tm(n), tm(m)))
    assume(ne(tm(q), ONE))
    t = arr('t', (N,))
    f = lambda sh: (lambda s: snp.ndarray._np_make(lambda i: app('f', *i), sh, snp.dtype(float)))
    for cls in ALL:
        for nm, k in dict(
                rho_matrix=dict(rho=arr('r', (n, q))), rho_rank=dict(rho=arr('r', (n, 1, 1))),
                rho_rank_any=dict(rho=arr('r', (n, m, q))),
                rho_function=dict(rho=f((n, q))), rho_function_rank=dict(rho=f((n, 1, 1))),
                rho_paths=dict(rho=process()(t, x=arr('p', (N, n, P)))),
                rho_square=dict(rho=arr('r', (2, 2))),
                rho_process_rank=dict(rho=process()(t, x=arr('p', (N, n, m, 1)))),
                corr_scalar=dict(corr=real('c')), corr_vector=dict(corr=arr('c', (n,))),
                corr_rectangular=dict(corr=arr('c', (n, m))), corr_paths=dict(corr=arr('c', (n, n, q))),
                corr_rank=dict(corr=arr('c', (n, n, 1, 1))), corr_rect3=dict(corr=arr('c', (n, m, 1))),
                corr_function=dict(corr=f((n, m))), corr_function3=dict(corr=f((n, n, q))),
                corr_function_scalar=dict(corr=f(())),
                corr_process=dict(corr=process()(t, x=arr('p', (N, n, n, P)))),
                corr_process_rect=dict(corr=process()(t, x=arr('p', (N, n, m, 1)))),
                both=dict(corr=arr('c', (n, m)), rho=real('r'))).items():
            expect_raise(nm, ValueError, fn(I_, cls), paths=2, vshape=(D(tm(n)*2),), **k)
            expect_raise(nm + '-n', ValueError, fn(I_, cls), paths=2, vshape=(n,), **k)
    reach('end')


vc('P31', 'rejected', reach=('end',))(rejected)


def scalar_paths():
    """a scalar process with several paths: rejected at the latest when the matrix is needed"""
    N, P = dim('N', 1), dim('P', 2)
    p = process()(arr('t', (N,)), x=arr('p', (N, P)))

    def use():
        w = fn(I_, 'wiener_source')(paths=P, vshape=(2,), rho=p)
        w(0., 1.)
    e = None
    try:
        use()
    except ValueError as x:
        e = x
    check('rejected', e is not None)
    reach('end')


vc('P31', 'scalar_paths', reach=('end',))(scalar_paths)
