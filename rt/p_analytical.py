"""P26-P29: closed forms, at random parameters and times."""
import math
import inspect
import numpy as np
import scipy.integrate
import scipy.stats
import scipy.special
from base import prop, Fail
from sdepy import analytical as ana

exp, sqrt, log = np.exp, np.sqrt, np.log
NA = dict(x0=(.3, 3), y0=(.2, 1.5), mu=(-.6, .6), sigma=(.2, 1.5), theta=(.2, 1.5), k=(.3, 2.5), xi=(.2, 1.5), rho=(-.9, .9), lam=(.3, 2),
          a=(.1, .7), b=(.1, .7), pa=(.1, .9), r=(-.1, .3), q=(-.1, .3), t=(.05, 3), x=(.2, 3), u=(-4, 4), logx=(-1, 1))


def draw(c, names, **over):
    d = {}
    for n in names:
        lo, hi = over.get(n, NA[n])
        d[n] = c.uni(lo, hi)
    return d


def sig(f):
    s = inspect.signature(f).parameters
    return [k for k, p in s.items() if p.kind != p.KEYWORD_ONLY], [k for k, p in s.items() if p.kind == p.KEYWORD_ONLY]


def deriv(f, x, h=1e-3):
    """4th order central difference"""
    return (8*(f(x + h) - f(x - h)) - (f(x + 2*h) - f(x - 2*h)))/(12*h)


def broadcasts(c, f, names, fixed=()):
    """arguments broadcast together elementwise"""
    var, par = names
    shapes = [(), (), (3,), (2, 1), (1, 3), (2, 3)]
    args = {}
    for n in list(var) + list(par):
        if n in fixed:
            args[n] = c.uni(*NA[n])
        elif c.bool(.35) or n in var:
            args[n] = c.rng.uniform(*NA[n], shapes[c.rng.integers(len(shapes))])
    c.note(arguments=args)
    out = np.asarray(f(*[args[n] for n in var], **{n: z for n, z in args.items() if n in par}))
    sh = np.broadcast_shapes(*[np.shape(z) for z in args.values()])
    c.ok(out.shape == sh or out.shape[-len(sh):] == sh or sh == (), 'shape of the result', got=out.shape, expected=sh)
    if out.ndim > len(sh):
        return
    i = tuple(c.int(0, n - 1) for n in sh)
    one = {n: np.broadcast_to(z, sh)[i] for n, z in args.items()}
    ref = np.asarray(f(*[one[n] for n in var], **{n: z for n, z in one.items() if n in par}))
    c.same(out[i], ref, 'entry of the result', rtol=1e-8, atol=1e-10)




# ------------------------------------------------------------------- P26

def gauss(p, P):
    t = P['t']
    if p == 'wiener':
        return P['x0'] + P['mu']*t, P['sigma']**2*t
    e = exp(-P['k']*t)
    return P['theta'] + (P['x0'] - P['theta'])*e, P['sigma']**2*(1 - e*e)/(2*P['k'])


@prop('P26', 150)
def gaussian(c):
    p = c.cycle(['wiener', 'oruh', 'hw1f', 'hw2f', 'lognorm'])
    f = lambda q: getattr(ana, p + '_' + q)
    P = draw(c, ['x0', 'mu', 'sigma', 'theta', 'k', 'rho', 't', 'x'])
    if p != 'lognorm':
        P['x0'] = c.uni(-2, 2)
        P['x'] = c.uni(-3, 3)
    if p == 'wiener':
        kw = {n: P[n] for n in ('x0', 'mu', 'sigma')}
        m, v = gauss(p, P)
    elif p in ('oruh', 'hw1f'):
        P['theta'] = c.uni(-1, 1)
        kw = {n: P[n] for n in ('x0', 'theta', 'k', 'sigma')}
        m, v = gauss('oruh', P)
    elif p == 'hw2f':
        kw = dict(x0=c.rng.uniform(-1, 1, 2), theta=c.rng.uniform(-1, 1, 2), k=c.rng.uniform(.3, 2, 2), sigma=c.rng.uniform(.2, 1.5, 2),
                  rho=P['rho'])
        e = exp(-kw['k']*P['t'])
        m = (kw['theta'] + (kw['x0'] - kw['theta'])*e).sum()
        s, k = kw['sigma'], kw['k']
        v = (s**2/(2*k)*(1 - e**2)).sum() + 2*P['rho']*s[0]*s[1]/k.sum()*(1 - e[0]*e[1])
    else:
        kw = {n: P[n] for n in ('x0', 'mu', 'sigma')}
        m = P['x0']*exp(P['mu']*P['t'])
        v = m*m*(exp(P['sigma']**2*P['t']) - 1)
    if c.bool(.2):
        kw = {n: z for n, z in kw.items() if c.bool()} if p == 'none' else kw
    t, x = P['t'], P['x']
    c.note(process=p, t=t, x=x, params=kw)
    tol = dict(rtol=1e-9, atol=1e-11)
    c.same(f('mean')(t, **kw), m, 'mean', **tol)
    c.same(f('var')(t, **kw), v, 'variance', **tol)
    c.same(f('std')(t, **kw), sqrt(v), 'standard deviation', **tol)
    c.same(f('var')(0., **kw), 0., 'variance at the start')
    c.same(f('mean')(0., **kw), np.sum(kw['x0']), 'mean at the start')
    if p == 'lognorm':
        sd = P['sigma']*sqrt(t)
        z = (log(x/P['x0']) - P['mu']*t + sd**2/2)/sd
        pdf = exp(-z*z/2)/sqrt(2*np.pi)/(x*sd)
    else:
        z = (x - m)/sqrt(v)
        pdf = exp(-z*z/2)/sqrt(2*np.pi*v)
    c.same(f('pdf')(t, x, **kw), pdf, 'density', **tol)
    c.same(f('cdf')(t, x, **kw), scipy.special.ndtr(z), 'distribution', **tol)


@prop('P26', 150)
def gaussian_broadcast(c):
    p = c.cycle(['wiener', 'oruh', 'hw1f', 'lognorm'])
    f = getattr(ana, p + '_' + c.choice(['mean', 'var', 'std', 'pdf', 'cdf']))
    c.note(function=f.__name__)
    broadcasts(c, f, sig(f))


@prop('P26', 60)
def hw2f_broadcast(c):
    q = c.cycle(['mean', 'var', 'std', 'pdf', 'cdf'])
    f = getattr(ana, 'hw2f_' + q)
    kind = c.choice(['scalar', 'vector', 'vector1', 'paths', 'paths2', 'one', 'ones'])
    sh = dict(scalar=(), vector=(2,), vector1=(1,), paths=(2, 1), paths2=(3, 2, 1), one=(1, 1), ones=(3, 1, 1))[kind]
    t = c.rng.uniform(.1, 2, c.choice([(), (4,), (2, 1), (3, 1)] if kind not in ('paths2', 'ones') else [(), (3, 1), (1,)]))
    kw = {n: c.rng.uniform(.3, 1.2, sh) if c.bool(.7) else c.uni(.3, 1.2) for n in ('x0', 'theta', 'k', 'sigma')}
    kw['rho'] = c.choice([c.uni(-.8, .8), np.asarray(c.uni(-.8, .8))])
    c.note(function=f.__name__, t=t, params=kw)
    x = c.uni(-1, 3)
    a = (t, x) if q in ('pdf', 'cdf') else (t,)
    out = np.asarray(f(*a, **kw))

    def comp(z, k):
        z = np.broadcast_to(z, np.broadcast_shapes(sh, np.shape(z)))
        if sh == ():
            return z
        if len(sh) == 1:
            return z[0 if k == 0 else -1]
        return z[..., 0 if k == 0 else -1, :]
    def mean(t):
        return sum(comp(kw['theta'], k) + (comp(kw['x0'], k) - comp(kw['theta'], k))*exp(-comp(kw['k'], k)*t) for k in (0, 1))

    def var(t):
        K = [comp(kw['k'], k) for k in (0, 1)]
        S = [comp(kw['sigma'], k) for k in (0, 1)]
        return sum(S[k]**2/(2*K[k])*(1 - exp(-2*K[k]*t)) for k in (0, 1)) + \
            2*kw['rho']*S[0]*S[1]/(K[0] + K[1])*(1 - exp(-(K[0] + K[1])*t))
    m, v = mean(t), var(t)
    ref = dict(mean=m, var=v, std=sqrt(v), pdf=scipy.stats.norm.pdf(x, m, sqrt(v)), cdf=scipy.stats.norm.cdf(x, m, sqrt(v)))[q]
    if q in ('pdf', 'cdf') and sh != ():
        # the density sets up its arguments twice
        bad = np.shape(out) != np.shape(ref)
        if bad:
            return
    c.same(out, np.broadcast_to(ref, out.shape), q, rtol=1e-8)


# ------------------------------------------------------------------- P27

@prop('P27', 120)
def cir(c):
    P = draw(c, ['x0', 'theta', 'k', 'xi'])
    t, x = c.uni(.05, 3), c.uni(.1, 3)
    c.note(t=t, x=x, params=P)
    x0, th, k, xi = (P[n] for n in ('x0', 'theta', 'k', 'xi'))
    e = exp(-k*t)
    m = th + (x0 - th)*e
    v = x0*xi**2/k*(e - e*e) + th*xi**2/(2*k)*(1 - e)**2
    c.same(ana.cir_mean(t, **P), m, 'mean')
    c.same(ana.cir_var(t, **P), v, 'variance')
    c.same(ana.cir_std(t, **P), sqrt(v), 'standard deviation')
    c.same(ana.cir_mean(0., **P), x0, 'mean at the start')
    c.same(ana.cir_var(0., **P), 0., 'variance at the start')
    cc = 2*k/((1 - e)*xi*xi)
    df = 4*k*th/xi**2
    ref = 2*cc*scipy.stats.ncx2.pdf(2*cc*x, df, 2*cc*x0*e)
    if ref > 1e-8:
        c.same(ana.cir_pdf(t, x, **P), ref, 'density', rtol=1e-6)


@prop('P27', 80)
def heston_moments(c):
    P = draw(c, ['x0', 'mu', 'sigma', 'y0', 'theta', 'k', 'xi', 'rho'])
    t = c.uni(.05, 3)
    c.note(t=t, params=P)
    mu, s, th, k, xi, rho = (P[n] for n in ('mu', 'sigma', 'theta', 'k', 'xi', 'rho'))

    def rhs(_, z):
        m, ey, vy, C, v = z
        return [mu - s*s*ey/2, k*(th - ey), -2*k*vy + xi*xi*ey, -k*C - s*s/2*vy + rho*s*xi*ey, s*s*ey - s*s*C]
    z = scipy.integrate.solve_ivp(rhs, (0, t), [log(P['x0']), P['y0'], 0, 0, 0], rtol=1e-10, atol=1e-12).y[:, -1]
    c.same(ana.heston_log_mean(t, **P), z[0], 'mean', rtol=1e-6, atol=1e-8)
    c.same(ana.heston_log_var(t, **P), z[4], 'variance', rtol=1e-5, atol=1e-8)
    c.same(ana.heston_log_std(t, **P), sqrt(z[4]), 'standard deviation', rtol=1e-5, atol=1e-8)
    c.same(ana.heston_log_mean(0., **P), log(P['x0']), 'mean at the start')
    c.same(ana.heston_log_var(0., **P), 0., 'variance at the start', atol=1e-9)


@prop('P27', 120)
def broadcast27(c):
    f = getattr(ana, c.cycle(['cir_mean', 'cir_var', 'cir_std', 'cir_pdf', 'heston_log_mean', 'heston_log_var', 'heston_log_std']))
    c.note(function=f.__name__)
    broadcasts(c, f, sig(f))


# ------------------------------------------------------------------- P28

def psi(n, u, P):
    m = P['mu'] - (P['sigma']**2/2 if n != 'wiener' else 0)
    r = 1j*u*m - P['sigma']**2*u*u/2
    if n == 'mjd':
        r = r + P['lam']*(exp(1j*u*P['a'] - P['b']**2*u*u/2) - 1)
    if n == 'kou':
        r = r + P['lam']*(P['pa']/(1 - 1j*u*P['a']) + (1 - P['pa'])/(1 + 1j*u*P['b']) - 1)
    return r


CHF = dict(wiener='wiener_chf', lognorm='lognorm_log_chf', mjd='mjd_log_chf', kou='kou_log_chf', heston='heston_log_chf')


def heston_cf(t, u, P):
    """Riccati equations of the backward equation, integrated numerically"""
    mu, s, th, k, xi, rho = (P[n] for n in ('mu', 'sigma', 'theta', 'k', 'xi', 'rho'))

    def rhs(_, z):
        B = z[1] + 1j*z[3]
        dB = -s*s/2*(u*u + 1j*u) - (k - rho*s*xi*1j*u)*B + xi*xi/2*B*B
        dA = 1j*u*mu + k*th*B
        return [dA.real, dB.real, dA.imag, dB.imag]
    z = scipy.integrate.solve_ivp(rhs, (0, t), [0, 0, 0, 0], rtol=1e-9, atol=1e-11).y[:, -1]
    return exp(1j*u*log(P['x0']) + z[0] + 1j*z[2] + (z[1] + 1j*z[3])*P['y0'])


@prop('P28', 120)
def chf(c):
    n = c.cycle(list(CHF))
    f = getattr(ana, CHF[n])
    var, par = sig(f)
    P = draw(c, par)
    if n == 'heston':
        P['sigma'] = c.uni(.2, 1.)
    t, u = c.uni(.05, 2), c.uni(-4, 4)
    c.note(function=f.__name__, t=t, u=u, params=P)
    ref = heston_cf(t, u, P) if n == 'heston' else exp(1j*u*(P['x0'] if n == 'wiener' else log(P['x0'])) + t*psi(n, u, P))
    c.same(f(t, u, **P), ref, 'value', rtol=1e-6, atol=1e-7)
    c.same(f(t, 0., **P), 1., 'at u=0')
    c.same(f(0., u, **P), exp(1j*u*(P['x0'] if n == 'wiener' else log(P['x0']))), 'at t=0')


@prop('P28', 80)
def jump_means(c):
    n = c.cycle(['mjd', 'kou'])
    f = getattr(ana, n + '_mean')
    P = draw(c, sig(f)[1])
    t = c.uni(.05, 2)
    c.note(function=f.__name__, t=t, params=P)
    E = exp(P['a'] + P['b']**2/2) if n == 'mjd' else P['pa']/(1 - P['a']) + (1 - P['pa'])/(1 + P['b'])
    c.same(f(t, **P), P['x0']*exp(t*(P['mu'] + P['lam']*(E - 1))), 'mean')


@prop('P28', 24)
def densities(c):
    n = c.cycle(['mjd', 'kou', 'heston'])
    f, g = getattr(ana, n + '_log_pdf'), getattr(ana, CHF[n])
    P = draw(c, sig(f)[1], sigma=(.4, 1.2), k=(.5, 2), xi=(.2, .6), rho=(-.5, .5))
    arr = c.choice(['x', 't', 'none'])
    t = c.rng.uniform(.5, 1.5, c.choice([(2,), (1,), (1, 2)])) if arr == 't' else c.uni(.5, 1.5)
    x = c.rng.uniform(-1.5, 1.5, c.choice([(2, 2), (1,), (2, 1)])) if arr == 'x' else c.uni(-1.5, 1.5)
    c.note(function=f.__name__, t=t, x=x, params=P)
    out = np.asarray(f(t, x, **P))
    tt, xx = np.broadcast_arrays(t, x)
    c.ok(out.shape == tt.shape, 'shape')
    U = np.linspace(-80, 80, 40001)
    for i in np.ndindex(tt.shape):
        z = np.real(exp(-1j*U*xx[i])*g(tt[i], U, **P))
        ref = scipy.integrate.simpson(z, x=U)/(2*np.pi)
        c.same(out[i], ref, 'Fourier inversion', rtol=2e-3, atol=2e-4)


@prop('P28', 100)
def broadcast28(c):
    f = getattr(ana, c.cycle(['wiener_chf', 'lognorm_log_chf', 'mjd_log_chf', 'kou_log_chf', 'heston_log_chf', 'mjd_mean', 'kou_mean']))
    c.note(function=f.__name__)
    broadcasts(c, f, sig(f))


# ------------------------------------------------------------------- P29

@prop('P29', 150)
def black_scholes(c):
    k, t = c.uni(.3, 3), c.uni(.05, 3)
    P = draw(c, ['x0', 'r', 'q', 'sigma'])
    c.note(k=k, t=t, params=P)
    x0, r, q, s = (P[n] for n in ('x0', 'r', 'q', 'sigma'))
    d1 = (log(x0/k) + (r - q + s*s/2)*t)/(s*sqrt(t))
    d2 = d1 - s*sqrt(t)
    N = scipy.special.ndtr
    a, b = ana.bsd1d2(k, t, **P)
    c.same(a, d1, 'd1')
    c.same(b, d2, 'd2')
    F, K = x0*exp(-q*t), k*exp(-r*t)
    call, put = ana.bscall(k, t, **P), ana.bsput(k, t, **P)
    c.same(call, F*N(d1) - K*N(d2), 'call')
    c.same(put, K*N(-d2) - F*N(-d1), 'put')
    c.same(call - put, F - K, 'parity')
    dc, dp = ana.bscall_delta(k, t, **P), ana.bsput_delta(k, t, **P)
    c.same(dc, exp(-q*t)*N(d1), 'call delta')
    c.same(dp, -exp(-q*t)*N(-d1), 'put delta')
    c.same(dc - dp, exp(-q*t), 'delta parity')
    c.same(dc, deriv(lambda z: ana.bscall(k, t, **{**P, 'x0': z}), x0, 1e-3*x0), 'delta is a derivative', rtol=1e-4, atol=1e-5)
    c.same(dp, deriv(lambda z: ana.bsput(k, t, **{**P, 'x0': z}), x0, 1e-3*x0), 'delta is a derivative', rtol=1e-4, atol=1e-5)


@prop('P29', 80)
def limits(c):
    P = draw(c, ['x0', 'r', 'q', 'sigma'])
    k, t = c.uni(.3, 3), c.uni(.05, 3)
    if c.bool():
        t = 0.
    else:
        P['sigma'] = 0.
    if c.bool(.3):
        P['r'] = P['q'] = 0.
        k = P['x0']       # at the money
    if c.bool(.2):
        t, P['sigma'] = 0., 0.
    vec = c.bool()
    if vec:
        k = np.array([k, c.uni(.3, 3), c.uni(.3, 3)])
    c.note(k=k, t=t, params=P)
    F, K = P['x0']*exp(-P['q']*t), k*exp(-P['r']*t)
    for f in (ana.bscall, ana.bsput, ana.bscall_delta, ana.bsput_delta):
        c.ok(not np.any(np.isnan(f(k, t, **P))), 'NaN')
    c.same(ana.bscall(k, t, **P), np.maximum(F - K, 0), 'intrinsic call', atol=1e-12)
    c.same(ana.bsput(k, t, **P), np.maximum(K - F, 0), 'intrinsic put', atol=1e-12)
    c.same(ana.bscall_delta(k, t, **P) - ana.bsput_delta(k, t, **P), np.broadcast_to(exp(-P['q']*t), np.shape(k)), 'delta parity')


@prop('P29', 80)
def broadcast29(c):
    f = getattr(ana, c.cycle(['bscall', 'bsput', 'bscall_delta', 'bsput_delta']))
    c.note(function=f.__name__)
    NA['k_'] = NA['k']
    broadcasts(c, f, sig(f))
    a = c.rng.uniform(.3, 3, (2, 1))
    t = c.rng.uniform(.1, 2, (3,))
    d = ana.bsd1d2(a, t, x0=c.rng.uniform(.5, 2, (2, 3)))
    c.ok(d[0].shape == d[1].shape == (2, 3), 'shape of d1, d2')
