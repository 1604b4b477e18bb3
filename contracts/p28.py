"""P28: characteristic functions, jump-diffusion means, Fourier inversion."""
from pyvc.api import *
from .p26 import V, S, positive, zero_t, HALF
from .p27 import hkw, _pos

A = 'analytical'


def levy(name, params, psi, pos=(), log=True, dom=None):
    def f():
        t, u = V('t', 'u')
        P = dict(zip(params, V(*params)))
        positive(*[P[n] for n in pos])
        if dom:
            dom(P)
        c = term(fn(A, name)(Sym(t), Sym(u), **{n: Sym(v) for n, v in P.items()}))
        x = flog(P['x0']) if log else P['x0']
        check_eq('form', c, fexp(J*u*x + t*psi(u, P)))
        check_eq('one-at-zero', subst(c, {u: ZERO}), ONE)
        check_eq('start', zero_t(c, t), fexp(J*u*x))
        reach('end')
    vc('P28', name, pos=pos, reach=('end',))(f)


def diffusion(u, P, logs):
    m = P['mu'] - P['sigma']*P['sigma']*HALF if logs else P['mu']
    return J*u*m - P['sigma']*P['sigma']*u*u*HALF


levy('wiener_chf', ('x0', 'mu', 'sigma'), lambda u, P: diffusion(u, P, False), log=False)
levy('lognorm_log_chf', ('x0', 'mu', 'sigma'), lambda u, P: diffusion(u, P, True), pos=('x0',))
# E[exp(i*u*jump)] - 1 of the documented jump laws
levy('mjd_log_chf', ('x0', 'mu', 'sigma', 'lam', 'a', 'b'),
     lambda u, P: diffusion(u, P, True) + P['lam']*(fexp(J*u*P['a'] - P['b']*P['b']*u*u*HALF) - 1), pos=('x0',))
levy('kou_log_chf', ('x0', 'mu', 'sigma', 'lam', 'a', 'b', 'pa'),
     lambda u, P: diffusion(u, P, True) + P['lam']*(P['pa']/(1 - J*u*P['a']) + (1 - P['pa'])/(1 + J*u*P['b']) - 1),
     pos=('x0', 'a', 'b'))


def mean(name, params, ej, pos=()):
    def f():
        t, = V('t')
        P = dict(zip(params, V(*params)))
        positive(*[P[n] for n in pos])
        if name == 'kou_mean':
            ctx().assume(lt(P['a'], ONE))
        m = term(fn(A, name)(Sym(t), **{n: Sym(v) for n, v in P.items()}))
        check_eq('form', m, P['x0']*fexp(t*(P['mu'] + P['lam']*(ej(P) - 1))))
        reach('end')
    vc('P28', name, pos=pos, reach=('end',))(f)


mean('mjd_mean', ('x0', 'mu', 'sigma', 'lam', 'a', 'b'), lambda P: fexp(P['a'] + P['b']*P['b']*HALF), ('x0',))
mean('kou_mean', ('x0', 'mu', 'sigma', 'lam', 'a', 'b', 'pa'),
     lambda P: P['pa']/(1 - P['a']) + (1 - P['pa'])/(1 + P['b']), ('x0', 'a', 'b'))


@vc('P28', pos=('k', 'x0', 'xi', 't', 'sigma', 'y0', 'theta'), reach=('end',), timeout=30000)
def heston_backward_equation():
    t, x0, mu, sg, y0, th, k, xi, rho, kw = hkw()
    u, = V('u')
    positive(xi, t, sg, y0, th)
    f = term(fn(A, 'heston_log_chf')(Sym(t), Sym(u), **kw))
    check_eq('start', zero_t(f, t), fexp(J*u*flog(x0)))
    dl = lambda g: x0*diff(g, x0)
    lg = flog(f) if f.op != 'f' or f.a[0] != 'exp' else f.a[1]
    # with f = exp(h): f_t/f = h_t, f_l/f = h_l, f_ll/f = h_ll + h_l^2, ...
    h = lg
    ht, hl, hy = diff(h, t), dl(h), diff(h, y0)
    check_eq('exponent', f, fexp(h))
    check_eq('pde', ht, (mu - sg*sg*y0*HALF)*hl + k*(th - y0)*hy + HALF*sg*sg*y0*(dl(hl) + hl*hl)
             + rho*sg*xi*y0*(dl(hy) + hl*hy) + HALF*xi*xi*y0*(diff(hy, y0) + hy*hy))
    check_eq('one-at-zero', subst(f, {u: ZERO}), ONE)
    reach('end')


def opaque_chf(t, u, **kw):
    """an arbitrary complex function of t and u"""
    tt, uu = term(asarr(t)), term(asarr(u))
    z = Sym(app('chf_re', tt, uu, tm(kw['p'])), 'f') + 1j*Sym(app('chf_im', tt, uu, tm(kw['p'])), 'f')
    return asarr(z)


def inversion(x, t, p):
    def body(u):
        re, im = app('chf_re', t, u, p), app('chf_im', t, u, p)
        return (fcos(u*x)*re + fsin(u*x)*im)/(2*PI)
    return reduce_('int', ONE, body)


@vc('P28', reach=('x', 't', 's'))
def fourier_inversion():
    p = real('p')
    N, M = dim('N', 1), dim('M', 1)
    i, j = index('i', N), index('j', M)
    f = fn(A, '_chf_to_pdf')
    x, t = V('x', 't')
    r = asarr(f(Sym(t), arr('x', (N,)), opaque_chf, p=p))
    check_shape('x-shape', r.shape, (N,))
    check_eq('x-entry', r.at(i), inversion(elt('x', i), t, p.t_))
    reach('x')
    r = asarr(f(arr('t', (M, N)), Sym(x), opaque_chf, p=p))
    check_shape('t-shape', r.shape, (M, N))
    check_eq('t-entry', r.at(j, i), inversion(x, elt('t', j, i), p.t_))
    reach('t')
    r = asarr(f(Sym(t), Sym(x), opaque_chf, p=p))
    check_shape('s-shape', r.shape, ())
    check_eq('s-entry', r.at(), inversion(x, t, p.t_))
    reach('s')


PDFS = {'heston_log_pdf': ('heston_log_chf', ('x0', 'mu', 'sigma', 'y0', 'theta', 'k', 'xi', 'rho')),
        'mjd_log_pdf': ('mjd_log_chf', ('x0', 'mu', 'sigma', 'lam', 'a', 'b')),
        'kou_log_pdf': ('kou_log_chf', ('x0', 'mu', 'sigma', 'lam', 'a', 'b', 'pa'))}


def _pdf(name, chf, params):
    """the density is the inversion of its own characteristic function"""
    def f():
        t, x = V('t', 'x')
        P = {n: Sym(v) for n, v in zip(params, V(*params))}
        for n in ('x0', 'a', 'b', 'k', 'xi'):
            if n in P:
                ctx().assume(lt(ZERO, P[n].t_))
        got = term(fn(A, name)(Sym(t), Sym(x), **P))
        ref = term(fn(A, '_chf_to_pdf')(Sym(t), Sym(x), fn(A, chf), **P))
        check_eq('inverts-own-chf', got, ref)
        reach('end')
    vc('P28', name, reach=('end',))(f)


for _n, (_c, _p) in PDFS.items():
    _pdf(_n, _c, _p)

BR = {'wiener_chf': ('x0', 'mu', 'sigma'), 'lognorm_log_chf': ('x0', 'mu', 'sigma'),
      'mjd_log_chf': PDFS['mjd_log_pdf'][1], 'kou_log_chf': PDFS['kou_log_pdf'][1],
      'heston_log_chf': PDFS['heston_log_pdf'][1], 'mjd_mean': PDFS['mjd_log_pdf'][1], 'kou_mean': PDFS['kou_log_pdf'][1]}
for _q, _ps in BR.items():
    for _n, _p in enumerate([dict(t='i', x0='j'), dict(u='i', sigma='j', mu='i'), dict(t='j', u='ij')]):
        def _f(q=_q, p=_p, ps=_ps):
            args = ('t',) if q.endswith('mean') else ('t', 'u')
            elementwise('e', fn(A, q), args, ps, {k: v for k, v in p.items() if k in args + ps},
                        _pos(('x0', 'a', 'b', 'k', 'xi')))
        vc('P28', 'broadcast_%s_%d' % (_q, _n), reach=('e',))(_f)
