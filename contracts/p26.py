"""P26: closed forms of the Gaussian and lognormal processes."""
from pyvc.api import *

A = 'analytical'
HALF = const(Fr(1, 2))


def Phi(z):
    return app('Phi', z)


def npdf(x, m, s):
    z = (x - m)/s
    return fexp(-(z*z)*HALF)/(s*fsqrt(2*PI))


def V(*names):
    return [var(n, 'R') for n in names]


def S(*ts):
    return [Sym(t, 'f') for t in ts]


def positive(*ts):
    for t in ts:
        ctx().assume(lt(ZERO, t))


def zero_t(e, t):
    return subst(e, {t: ZERO})


@vc('P26', pos=('t', 'sigma'), reach=('end',))
def wiener_moments():
    t, x0, mu, sg, x = V('t', 'x0', 'mu', 'sigma', 'x')
    kw = dict(zip(('x0', 'mu', 'sigma'), S(x0, mu, sg)))
    m = term(fn(A, 'wiener_mean')(Sym(t), **kw))
    v = term(fn(A, 'wiener_var')(Sym(t), **kw))
    check_eq('mean-start', zero_t(m, t), x0)
    check_eq('mean-ode', diff(m, t), mu)
    check_eq('var-start', zero_t(v, t), ZERO)
    check_eq('var-ode', diff(v, t), sg*sg)
    positive(t, sg)
    check_eq('std', term(fn(A, 'wiener_std')(Sym(t), **kw)), fsqrt(v))
    sd = sg*fsqrt(t)
    c = term(fn(A, 'wiener_cdf')(Sym(t), Sym(x), **kw))
    p = term(fn(A, 'wiener_pdf')(Sym(t), Sym(x), **kw))
    check_eq('cdf-form', c, Phi((x - m)/sd))
    check_eq('pdf-form', p, npdf(x, m, sd))
    check_eq('pdf-is-derivative', diff(c, x), p)
    reach('end')


@vc('P26', pos=('t', 'sigma', 'x0', 'x'), reach=('end',))
def lognorm_moments():
    t, x0, mu, sg, x = V('t', 'x0', 'mu', 'sigma', 'x')
    kw = dict(zip(('x0', 'mu', 'sigma'), S(x0, mu, sg)))
    positive(x0, x)
    m = term(fn(A, 'lognorm_mean')(Sym(t), **kw))
    v = term(fn(A, 'lognorm_var')(Sym(t), **kw))
    check_eq('mean-start', zero_t(m, t), x0)
    check_eq('mean-ode', diff(m, t), mu*m)
    check_eq('var-start', zero_t(v, t), ZERO)
    check_eq('second-moment-ode', diff(v + m*m, t), (2*mu + sg*sg)*(v + m*m))
    positive(t, sg)
    check_eq('std', term(fn(A, 'lognorm_std')(Sym(t), **kw)), fsqrt(v))
    c = term(fn(A, 'lognorm_cdf')(Sym(t), Sym(x), **kw))
    p = term(fn(A, 'lognorm_pdf')(Sym(t), Sym(x), **kw))
    ml, sl = flog(x0) + (mu - sg*sg*HALF)*t, sg*fsqrt(t)
    check_eq('cdf-form', c, Phi((flog(x) - ml)/sl))
    check_eq('pdf-form', p, npdf(flog(x), ml, sl)/x)
    check_eq('pdf-is-derivative', diff(c, x), p)
    reach('end')


def _oruh(prefix):
    t, x0, th, k, sg, x = V('t', 'x0', 'theta', 'k', 'sigma', 'x')
    kw = dict(zip(('x0', 'theta', 'k', 'sigma'), S(x0, th, k, sg)))
    positive(k)
    m = term(fn(A, prefix + '_mean')(Sym(t), **kw))
    v = term(fn(A, prefix + '_var')(Sym(t), **kw))
    check_eq('mean-start', zero_t(m, t), x0)
    check_eq('mean-ode', diff(m, t), k*(th - m))
    check_eq('var-start', zero_t(v, t), ZERO)
    check_eq('var-ode', diff(v, t), -2*k*v + sg*sg)
    positive(t, sg)
    check_eq('std', term(fn(A, prefix + '_std')(Sym(t), **kw)), fsqrt(v))
    c = term(fn(A, prefix + '_cdf')(Sym(t), Sym(x), **kw))
    p = term(fn(A, prefix + '_pdf')(Sym(t), Sym(x), **kw))
    check_eq('cdf-form', c, Phi((x - m)/fsqrt(v)))
    check_eq('pdf-form', p, npdf(x, m, fsqrt(v)))
    check_eq('pdf-is-derivative', diff(c, x), p)
    reach('end')


@vc('P26', pos=('t', 'sigma', 'k'), reach=('end',))
def oruh_moments():
    _oruh('oruh')


@vc('P26', pos=('t', 'sigma', 'k'), reach=('end',))
def hw1f_moments():
    _oruh('hw1f')


FORMS = {'vector': ((2,), lambda n, f: elt(n, const(f))),
         'factors-axis': ((2, 1), lambda n, f: elt(n, const(f), ZERO)),
         'shared': ((), lambda n, f: elt(n)),
         'one': ((1,), lambda n, f: elt(n, ZERO)),
         'axis-of-one': ((1, 1), lambda n, f: elt(n, ZERO, ZERO)),
         'leading-axis-of-one': (('L', 1, 1), lambda n, f: elt(n, var('l', 'I'), ZERO, ZERO)),
         'leading-axis': (('L', 2, 1), lambda n, f: elt(n, var('l', 'I'), const(f), ZERO))}


def _hw2f(form):
    shape, el = FORMS[form]
    t, rho, x = V('t', 'rho', 'x')
    lead = 'L' in shape
    if lead:
        L = dim('L', 1)
        l = index('l', L)
        shape = (L,) + shape[1:]
    kw = {n: arr(n, shape) for n in ('x0', 'theta', 'k', 'sigma')}
    kw['rho'] = Sym(rho)
    (x1, x2), (th1, th2), (k1, k2), (s1, s2) = [[el(n, f) for f in (0, 1)] for n in ('x0', 'theta', 'k', 'sigma')]
    positive(k1, k2)

    def val(r):
        r = asarr(r)
        if lead:
            check_shape('shape', r.shape, (L, 1))
            return r.at(l, ZERO)
        if r.shape == (1,):
            return r.at(ZERO)
        check_shape('shape', r.shape, ())
        return r.at()
    m = val(fn(A, 'hw2f_mean')(Sym(t), **kw))
    v = val(fn(A, 'hw2f_var')(Sym(t), **kw))
    # each factor is an Ornstein-Uhlenbeck process
    a, b = x1*fexp(-k1*t) + th1*(1 - fexp(-k1*t)), x2*fexp(-k2*t) + th2*(1 - fexp(-k2*t))
    check_eq('factor1-ode', diff(a, t), k1*(th1 - a))
    check_eq('factor2-ode', diff(b, t), k2*(th2 - b))
    check_eq('mean', m, a + b)
    check_eq('var-start', zero_t(v, t), ZERO)
    # moment equations of the covariances: v = v11 + v22 + 2 rho w
    v11 = s1*s1/(2*k1)*(1 - fexp(-2*k1*t))
    v22 = s2*s2/(2*k2)*(1 - fexp(-2*k2*t))
    w = s1*s2/(k1 + k2)*(1 - fexp(-(k1 + k2)*t))
    check_eq('v11-ode', diff(v11, t), -2*k1*v11 + s1*s1)
    check_eq('v22-ode', diff(v22, t), -2*k2*v22 + s2*s2)
    check_eq('v12-ode', diff(rho*w, t), -(k1 + k2)*rho*w + rho*s1*s2)
    check_eq('var', v, v11 + v22 + 2*rho*w)
    check_eq('std', val(fn(A, 'hw2f_std')(Sym(t), **kw)), fsqrt(v))
    c = val(fn(A, 'hw2f_cdf')(Sym(t), Sym(x), **kw))
    p = val(fn(A, 'hw2f_pdf')(Sym(t), Sym(x), **kw))
    check_eq('cdf-form', c, Phi((x - m)/fsqrt(v)))
    check_eq('pdf-form', p, npdf(x, m, fsqrt(v)))
    check_eq('pdf-is-derivative', diff(c, x), p)
    reach('end')


for _f in FORMS:
    vc('P26', 'hw2f_' + _f, pos=('t',), reach=('end',))(lambda f=_f: _hw2f(f))


def _hw2f_bad():
    with_shape = arr('x0', (3,))
    expect_raise('three-factors', ValueError, fn(A, 'hw2f_mean'), real('t'), x0=with_shape)
    expect_raise('three-factors-axis', ValueError, fn(A, 'hw2f_var'), real('t'), sigma=arr('s', (4, 3, 1)))
    n = dim('n', 3)
    expect_raise('n-factors', ValueError, fn(A, 'hw2f_var'), real('t'), k=arr('k', (n,)))
    reach('end')


vc('P26', 'hw2f_domain', reach=('end',))(_hw2f_bad)

E1 = dict(wiener=('x0', 'mu', 'sigma'), lognorm=('x0', 'mu', 'sigma'), oruh=('x0', 'theta', 'k', 'sigma'),
          hw1f=('x0', 'theta', 'k', 'sigma'))
for _p, _kw in E1.items():
    for _q in ('mean', 'var', 'std', 'pdf', 'cdf'):
        _args = ('t',) + (('x',) if _q in ('pdf', 'cdf') else ())
        _pats = {a: ('i', 'j', '', 'ij', 'j')[n % 5] for n, a in enumerate(_args + _kw)}
        vc('P26', 'broadcast_%s_%s' % (_p, _q), pos=('sigma',))(
            lambda p=_p, q=_q, a=_args, kw=_kw, pats=_pats: elementwise('e', fn(A, p + '_' + q), a, kw, pats))


@vc('P26', reach=('end',))
def hw2f_broadcast():
    """times along one more axis, rho and x elementwise"""
    N = dim('N', 1)
    i = index('i', N)
    ks = {n: arr(n, (2,)) for n in ('x0', 'theta', 'k', 'sigma')}
    for q in ('mean', 'var', 'std', 'pdf', 'cdf'):
        f = fn(A, 'hw2f_' + q)
        a1 = (arr('t', (N,)),) + ((arr('x', (N,)),) if q in ('pdf', 'cdf') else ())
        a2 = (Sym(elt('t', i), 'f'),) + ((Sym(elt('x', i), 'f'),) if q in ('pdf', 'cdf') else ())
        r1 = f(*a1, rho=arr('rho', (N,)), **ks)
        r2 = f(*a2, rho=Sym(elt('rho', i), 'f'), **ks)
        if check_shape(q + '-shape', r1.shape, (N,)):
            check_eq(q + '-entry', r1.at(i), term(r2))
    reach('end')
