"""P14: Wiener sources with memory."""
from itertools import product
from pyvc.api import *
from pyvc import srandom
from .common import *
from .laws import *

ASSUMPTIONS = [RANK_NOTE,
               'new_outside and new_inside are called as proved for P13 (stored neighbours, all on the same side of the '
               'initial time); numpy.random.Generator: contract in pyvc/srandom.py; numpy.linalg.inv: a matrix X such '
               'that C X = X C = 1, for C invertible',
               'the law is decided for the entries as real numbers']


def matrix(form, vs, name='C'):
    """correlation, and its entries at a given time"""
    M = vs[-1] if vs else None
    if form is None:
        return {}, lambda s, a, b: ite(eq(a, b), ONE, ZERO)
    if form == 'matrix':
        return dict(corr=arr(name, (M, M))), lambda s, a, b: elt(name, a, b)
    if form == 'matrix-paths':
        return dict(corr=arr(name, (M, M, 1))), lambda s, a, b: elt(name, a, b, ZERO)
    if form == 'rho':
        r = real('rho')
        return dict(rho=r), lambda s, a, b: ite(eq(a, b), ONE, tm(r))
    if form == 'rho-function':
        return dict(rho=lambda s: Sym(app('rho', term(asarr(s))), 'f')), \
            lambda s, a, b: ite(eq(a, b), ONE, app('rho', s))
    n = 2 if form == 'function' else 3

    def f(s):
        s = term(asarr(s))
        return snp.ndarray._np_make(lambda i: app(name, s, *i[:2]), (M, M) + (1,)*(n - 2), snp.dtype(float))
    return dict(corr=f), lambda s, a, b: app(name, tm(s), tm(a), tm(b))


def make(vs, form, dtype=None):
    P = dim('P', 1)
    ctx().abstract_inverse = True
    kw, C = matrix(form, vs)
    if dtype is not None:
        kw['dtype'] = dtype
    rng = srandom.Generator('given')
    src = fn(I_, 'true_wiener_source')(paths=P, vshape=vs, rng=rng, t0=real('t0'), z0=real('z0'), **kw)
    check('no-draws', not ctx().draws)
    return src, C, tuple(vs) + (P,), rng


def covariance(form, full, K):
    """entry covariances: K(a, b) of values along the last value axis"""
    def cov(i, j):
        if form is None:
            return ite(same_index(i, j), K(ZERO, ZERO), ZERO)
        return ite(same_index(i[:-2] + i[-1:], j[:-2] + j[-1:]), K(i[-2], j[-2]), ZERO)
    return cov


def value_shapes(r, form, M):
    vs = vdims(r)
    if M is not None:
        vs = vs[:-1] + (M,)
    return vs


def outside(src, C, full, form, side, nm, before=None, w='w', future=True):
    """a value beyond the last stored one"""
    t, s = real('t' + nm), real('s' + nm)
    t0 = tm(src.t0)
    assume(and_(le(t0, tm(t)), lt(tm(t), tm(s))) if side > 0 else and_(lt(tm(s), tm(t)), le(tm(t), t0)))
    a = arr('w' + nm, full)
    z = src.new_outside(a, t, s)
    check(nm + '-type', type(z) is snp.ndarray, note=str(type(z)))
    if type(z) is not snp.ndarray or not check_shape(nm + '-shape', z.shape, full):
        raise PathEnd()
    mid = div(add(tm(t), tm(s)), const(2))
    K = lambda p, q: mul(t_.tabs(sub(tm(s), tm(t))), C(mid, p, q))
    names = gaussian(nm, z.at, full, lambda *i: elt('w' + nm, *i), covariance(form, full, K), before)
    i = indices(full, 'kept')
    check_eq(nm + '-stored-kept', a.at(*i), elt('w' + nm, *i))
    check(nm + '-new', z._np_buf is not a._np_buf)
    return names


def inside(src, C, full, form, side, nm, before=None):
    """a value between two stored ones"""
    t1, t2, s = real('t1' + nm), real('t2' + nm), real('s' + nm)
    t0 = tm(src.t0)
    assume(and_(lt(tm(t1), tm(s)), lt(tm(s), tm(t2))))
    assume(le(t0, tm(t1)) if side > 0 else le(tm(t2), t0))
    a, b = arr('a' + nm, full), arr('b' + nm, full)
    n0 = len(getattr(ctx(), 'inverses', []))
    z = src.new_inside(a, b, t1, t2, s)
    check(nm + '-type', type(z) is snp.ndarray, note=str(type(z)))
    if type(z) is not snp.ndarray or not check_shape(nm + '-shape', z.shape, full):
        raise PathEnd()
    i = indices(full, 'kept')
    check_eq(nm + '-stored-kept', a.at(*i), elt('a' + nm, *i))
    check_eq(nm + '-stored-kept', b.at(*i), elt('b' + nm, *i))
    check(nm + '-new', z._np_buf is not a._np_buf and z._np_buf is not b._np_buf)
    t1, t2, s = tm(t1), tm(t2), tm(s)
    one, two = sub(s, t1), sub(t2, s)       # lengths of the parts
    dt = sub(t2, t1)
    if form is None or form in ('matrix', 'matrix-paths', 'rho'):
        mean = lambda *i: add(mul(div(two, dt), elt('a' + nm, *i)), mul(div(one, dt), elt('b' + nm, *i)))
        K = lambda p, q: mul(div(mul(one, two), dt), C(None, p, q))
        return gaussian(nm, z.at, full, mean, covariance(form, full, K), before)
    # time-dependent: parts nearer to, and farther from, the initial time
    h = const(2)
    lo, hi = lambda p, q: C(div(add(t1, s), h), p, q), lambda p, q: C(div(add(s, t2), h), p, q)
    if side > 0:
        la, lb, ca, cb, near, far = one, two, lo, hi, 'a', 'b'
    else:
        la, lb, ca, cb, near, far = two, one, hi, lo, 'b', 'a'
    return general(nm, z, full, form, before, lambda p, q: mul(la, ca(p, q)), lambda p, q: mul(lb, cb(p, q)),
                   near + nm, far + nm, n0, side)


def general(nm, z, full, form, before, A, B, near, far, n0, side):
    """time-dependent correlation of any number of values: weight of the farther value W = A X, covariance A X B,
    with X the inverse of A + B.  By the contract of the inverse C = +-(A + B) taken by the code, C X = X C = 1, these
    are null: (C X - 1) V, (X C - 1) V, U (X C - 1)"""
    invs = getattr(ctx(), 'inverses', [])[n0:]
    if len(invs) != 1:
        raise Unsupported('%d inverse matrices' % len(invs))
    name, C, m = invs[0]
    n = tm(full[-2])
    X = lambda p, q: app(name, p, q)
    p, q = index('p' + nm, n), index('q' + nm, n)
    sgn = const(side)
    check_eq(nm + '-inverse', C((p, q)), mul(sgn, add(A(p, q), B(p, q))))
    A, B = [lambda p, q, f=f: mul(sgn, f(p, q)) for f in (A, B)]
    C = lambda p, q: add(A(p, q), B(p, q))

    def prod(U, V, p, q):
        """(U X V)(p, q)"""
        return tsum(n, lambda l: mul(tsum(n, lambda k: mul(U(p, k), X(k, l))), V(l, q)))

    def K(p, q):
        return mul(sgn, prod(A, B, p, q))

    def mean(*i):
        v = lambda u: lambda l, q: elt(u, *i[:-2], l, q)
        p, q = i[-2:]
        return add(elt(near, *i), prod(A, v(far), p, q), neg(prod(A, v(near), p, q)))

    def right(V, p, q):
        """(X C V - V)(p, q)"""
        return sub(tsum(n, lambda l: mul(tsum(n, lambda k: mul(X(p, k), C(k, l))), V(l, q))), V(p, q))

    def mean_nulls(*i):
        v = lambda u: lambda l, q: elt(u, *i[:-2], l, q)
        p, q = i[-2:]
        return [sub(prod(C, v(u), p, q), elt(u, *i)) for u in (near, far)] + [right(v(u), p, q) for u in (near, far)]

    def cov_nulls(i, j):
        same = same_index(i[:-2] + i[-1:], j[:-2] + j[-1:])
        p, q = i[-2], j[-2]
        left = [sub(prod(C, U, p, q), U(p, q)) for U in (A, B)]
        return [ite(same, u, ZERO) for u in left + [sub(prod(U, C, p, q), U(p, q)) for U in (A, B)]]

    def subs(*ixs):
        if n.op != 'c':
            return [{}]
        vs = [i[-2] for i in ixs]
        return [dict(zip(vs, map(const, c))) for c in product(range(int(n.a[0])), repeat=len(vs))]
    return gaussian(nm, z.at, full, mean, covariance(form, full, K), before, (mean_nulls, cov_nulls, subs))


FORMS = (None, 'matrix', 'matrix-paths')


def one(r, form, side, M=None, dtype=None):
    src, C, full, rng = make(value_shapes(r, form, M), form, dtype)
    n1 = outside(src, C, full, form, side, 'out', set())
    n2 = inside(src, C, full, form, side, 'in', n1)
    # again, in any order
    n3 = outside(src, C, full, form, -side, 'out2', n1 | n2)
    n4 = inside(src, C, full, form, -side, 'in2', n1 | n2 | n3)
    check('all-from-generator', all(l.gen is rng for l in ctx().laws.values()))
    reach('end')


for _r in (0, 1, 2, 3):
    for _side in (1, -1):
        sd = 'fwd' if _side > 0 else 'bwd'
        for _f in FORMS:
            if _f and (not _r or _r == 3):
                continue
            vc('P14', '%s_%d_%s' % (_f, _r, sd), reach=('end',))(lambda r=_r, f=_f, s=_side: one(r, f, s))
        if _r in (1, 2):
            for _f in ('rho', 'rho-function', 'function', 'function-paths'):
                for _M in ((2,) if 'rho' in _f else (1, None)):
                    vc('P14', '%s_%d_%s_%s' % (_f, _r, sd, _M or 'n'), reach=('end',))(
                        lambda r=_r, f=_f, s=_side, M=_M: one(r, f, s, M))
vc('P14', 'float', reach=('end',))(lambda: one(1, None, 1, dtype=float))
