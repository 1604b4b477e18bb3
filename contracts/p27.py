"""P27: CIR and Heston closed forms."""
from pyvc.api import *
from .p26 import V, S, positive, zero_t, HALF

A = 'analytical'


@vc('P27', pos=('t', 'k', 'x0', 'x', 'xi', 'theta'), reach=('end',))
def cir():
    t, x0, th, k, xi, x = V('t', 'x0', 'theta', 'k', 'xi', 'x')
    kw = dict(zip(('x0', 'theta', 'k', 'xi'), S(x0, th, k, xi)))
    positive(k)
    m = term(fn(A, 'cir_mean')(Sym(t), **kw))
    v = term(fn(A, 'cir_var')(Sym(t), **kw))
    check_eq('mean-start', zero_t(m, t), x0)
    check_eq('mean-ode', diff(m, t), k*(th - m))
    check_eq('var-start', zero_t(v, t), ZERO)
    check_eq('var-ode', diff(v, t), -2*k*v + xi*xi*m)
    check_eq('std', term(fn(A, 'cir_std')(Sym(t), **kw)), fsqrt(v))
    positive(t, x0, x, xi, th)
    p = term(fn(A, 'cir_pdf')(Sym(t), Sym(x), **kw))
    q = 2*k*th/(xi*xi) - 1
    c = 2*k/((1 - fexp(-k*t))*xi*xi)
    # noncentral chi-square form
    u, w = c*x0*fexp(-k*t), c*x
    check_eq('pdf-form', p, c*fexp(-u - w)*power(w/u, q*HALF)*app('iv', q, 2*c*fsqrt(x0*fexp(-k*t)*x)))
    reach('end')


def hkw():
    t, x0, mu, sg, y0, th, k, xi, rho = V('t', 'x0', 'mu', 'sigma', 'y0', 'theta', 'k', 'xi', 'rho')
    kw = dict(zip(('x0', 'mu', 'sigma', 'y0', 'theta', 'k', 'xi', 'rho'), S(x0, mu, sg, y0, th, k, xi, rho)))
    positive(k, x0)
    return t, x0, mu, sg, y0, th, k, xi, rho, kw


@vc('P27', pos=('k', 'x0', 't'), reach=('end',))
def heston_log_moments():
    t, x0, mu, sg, y0, th, k, xi, rho, kw = hkw()
    m = term(fn(A, 'heston_log_mean')(Sym(t), **kw))
    v = term(fn(A, 'heston_log_var')(Sym(t), **kw))
    check_eq('std', term(fn(A, 'heston_log_std')(Sym(t), **kw)), fsqrt(v))
    # moments of the variance process
    ey = th + (y0 - th)*fexp(-k*t)
    vy = xi*xi/k*(1 - fexp(-k*t))*(th*HALF + (y0 - th*HALF)*fexp(-k*t))
    check_eq('lemma-ey', diff(ey, t), k*(th - ey))
    check_eq('lemma-vy', diff(vy, t), -2*k*vy + xi*xi*ey)
    check_eq('lemma-vy0', zero_t(vy, t), ZERO)
    check_eq('mean-start', zero_t(m, t), flog(x0))
    check_eq('mean-ode', diff(m, t), mu - sg*sg*HALF*ey)
    # dv/dt = sigma^2*(E[y] - C), C = cov(log x, y); dC/dt = -k*C - sigma^2/2*var(y) + rho*sigma*xi*E[y]
    check_eq('var-start', zero_t(v, t), ZERO)
    s2c = sg*sg*ey - diff(v, t)
    check_eq('cov-start', zero_t(s2c, t), ZERO)
    check_eq('cov-ode', diff(s2c, t), -k*s2c - sg**4*HALF*vy + rho*sg**3*xi*ey)
    reach('end')


def _pos(names):
    def dom(v):
        for n in names:
            if n in v:
                ctx().assume(lt(ZERO, v[n].t_))
    return dom


CIR = ('x0', 'theta', 'k', 'xi')
HES = ('x0', 'mu', 'sigma', 'y0', 'theta', 'k', 'xi', 'rho')
for _n, _p in enumerate([dict(t='i', x0='j'), dict(t='j', k='i', xi='i'), dict(k='ij', theta='j'),
                         dict(t='ij', xi='j', x='i')]):
    for _q in ('cir_mean', 'cir_var', 'cir_std', 'cir_pdf'):
        def _f(q=_q, p=_p):
            elementwise('e', fn(A, q), ('t', 'x') if q == 'cir_pdf' else ('t',), CIR,
                        {k: v for k, v in p.items() if k != 'x' or q == 'cir_pdf'}, _pos(('x0', 'k', 'xi', 't', 'x')))
        vc('P27', 'broadcast_%s_%d' % (_q, _n), reach=('e',))(_f)
for _n, _p in enumerate([dict(t='i', x0='j', y0='j'), dict(t='j', k='i', xi='i', mu='j'), dict(rho='ij', theta='j'),
                         dict(t='ij', xi='j', sigma='i')]):
    for _q in ('heston_log_mean', 'heston_log_var', 'heston_log_std'):
        def _f(q=_q, p=_p):
            elementwise('e', fn(A, q), ('t',), HES, p, _pos(('x0', 'k')))
        vc('P27', 'broadcast_%s_%d' % (_q, _n), reach=('e',))(_f)
