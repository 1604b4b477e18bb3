"""P32: parameters which are left out."""
import numpy as np
import sdepy
from base import prop, Fail
from sdepy import infrastructure as inf, integration as itg, analytical as ana

W = dict(x0=0., mu=0., sigma=1.)
L = dict(x0=1., mu=0., sigma=1.)
OU = dict(x0=0., theta=0., k=1., sigma=1.)
HW = dict(x0=(0., 0.), theta=(0., 0.), k=(1., 1.), sigma=(1., 1.), rho=0.)
CIR = dict(x0=1., theta=1., k=1., xi=1.)
HL = dict(x0=1., mu=0., sigma=1., y0=1., theta=1., k=1., xi=1., rho=0.)
M = dict(x0=1., mu=0., sigma=1., lam=1., a=0., b=1.)
KOU = dict(x0=1., mu=0., sigma=1., lam=1., a=.5, b=.5, pa=.5)
BS = dict(x0=1., r=0., q=0., sigma=1.)
CLOSED = {}
for _p, _d, _f in (('wiener', W, 'mean var std pdf cdf chf'), ('lognorm', L, 'mean var std pdf cdf log_chf'),
                   ('oruh', OU, 'mean var std pdf cdf'), ('hw2f', HW, 'mean var std pdf cdf'),
                   ('cir', CIR, 'mean var std pdf'), ('heston', HL, 'log_mean log_var log_std log_chf log_pdf'),
                   ('mjd', M, 'mean log_chf log_pdf'), ('kou', KOU, 'mean log_chf log_pdf')):
    for _n in _f.split():
        CLOSED[_p + '_' + _n] = (('t',) + (() if _n.endswith(('mean', 'var', 'std')) else ('u',) if _n.endswith('chf') else ('x',)), _d)
for _n in ('bsd1d2', 'bscall', 'bscall_delta', 'bsput', 'bsput_delta'):
    CLOSED[_n] = (('k', 't'), BS)
RANGE = dict(x0=(.3, 2), mu=(-.5, .5), sigma=(.2, 1.5), theta=(.3, 1.5), k=(.3, 2), xi=(.2, 1), y0=(.3, 1.5), rho=(-.9, .9), lam=(.3, 2),
             a=(.1, .8), b=(.1, .8), pa=(.1, .9), r=(-.2, .3), q=(-.2, .3))


def split(c, doc, value):
    """some documented values left out, others passed, others changed"""
    short, full = {}, {}
    for n, v in doc.items():
        how = c.choice(['out', 'out', 'passed', 'other'])
        if how == 'out':
            full[n] = v
        else:
            short[n] = full[n] = v if how == 'passed' else value(n, v)
    c.note(given=short, documented=doc)
    return short, full


@prop('P32', 300)
def closed_forms(c):
    name = c.cycle(sorted(CLOSED))
    args, doc = CLOSED[name]
    pos = [c.uni(-3, 3) if a == 'u' else c.uni(.2, 2.5) for a in args]
    one = lambda n: c.uni(*RANGE[n])
    short, full = split(c, doc, lambda n, v: (one(n), one(n)) if isinstance(v, tuple) else one(n))
    c.note(function=name, arguments=pos)
    f = getattr(ana, name)
    c.same(np.asarray(f(*pos, **short)), np.asarray(f(*pos, **full)), 'value', rtol=1e-12, atol=1e-14)
    g = getattr(sdepy, name)
    c.same(np.asarray(g(*pos, **short)), np.asarray(g(*pos, **full)), 'value of the function exposed by the package', rtol=1e-12, atol=1e-14)


PRE = dict(wiener=W, lognorm=L, ornstein_uhlenbeck=OU, hull_white=OU, hull_white_1factor=OU, cox_ingersoll_ross=CIR,
           heston={k: v for k, v in HL.items()}, full_heston={k: v for k, v in HL.items()}, jumpdiff=dict(L, lam=1.), merton_jumpdiff=M,
           kou_jumpdiff=KOU)
COMMON = dict(paths=1, vshape=(), steps=None, i0=0, getinfo=True, method='euler')


@prop('P32', 120)
def presets(c):
    name = c.cycle(sorted(PRE))
    doc = {k: v for k, v in dict(PRE[name], **COMMON).items() if k != 'rho' and (k != 'getinfo')}
    if name == 'jumpdiff':
        doc.pop('lam')

    def value(n, v):
        if n in COMMON:
            return dict(paths=5, vshape=(), steps=7, i0=0, method='euler')[n]
        return c.uni(*RANGE[n])
    short, full = split(c, doc, value)
    seed = c.int(0, 10**6)
    t = np.cumsum(c.rng.uniform(.1, .4, c.int(2, 5)))
    if name == 'jumpdiff':
        for d in (short, full):
            d['y'] = inf.norm_rv(0., .2)
    c.note(preset=name, timeline=t, seed=seed)
    f = getattr(sdepy, name + '_process')
    a, b = [f(rng=np.random.default_rng(seed), **d)(t) for d in (short, full)]
    a, b = (a, b) if isinstance(a, tuple) else ((a,), (b,))
    for x, y in zip(a, b):
        c.ok(x.shape == y.shape == (t.size,) + (full['paths'],), 'shape', got=x.shape)
        c.same(np.asarray(x), np.asarray(y), 'paths', rtol=1e-12, atol=1e-14)


SRC = dict(paths=1, vshape=())
TRUE = dict(rtol='max', t0=0., z0=0.)
SOURCES = dict(wiener_source=dict(SRC, dtype=None, corr=None, rho=None), poisson_source=dict(SRC, dtype=int, lam=1.),
               cpoisson_source=dict(SRC, dtype=None, dn=None, ptype=int, lam=1., y=None),
               true_wiener_source=dict(SRC, dtype=None, corr=None, rho=None, **TRUE), true_poisson_source=dict(SRC, dtype=int, lam=1., **TRUE),
               true_cpoisson_source=dict(SRC, dtype=None, dn=None, ptype=int, lam=1., y=None, **TRUE))


@prop('P32', 120)
def sources(c):
    name = c.cycle(sorted(SOURCES))
    short, full = split(c, SOURCES[name], lambda n, v: dict(paths=3, lam=2.5, t0=.5).get(n, v))
    seed = c.int(0, 10**6)
    c.note(source=name, seed=seed)
    a, b = [getattr(inf, name)(rng=np.random.default_rng(seed), **d) for d in (short, full)]
    for s in np.cumsum(c.rng.uniform(.1, .5, 4)).tolist() + [.3, .3 + 1e-15, .3 + 1e-14, .7, .7*(1 + 1e-12)]:
        x, y = (a(s, .25), b(s, .25)) if not name.startswith('true') or c.bool() else (a(s), b(s))
        c.ok(x.shape == y.shape == (full['paths'],), 'shape', got=x.shape)
        c.ok(x.dtype == y.dtype, 'type of values', got=x.dtype)
        c.same(x, y, 'values')


@prop('P32', 40)
def accumulators(c):
    doc = dict(axis=-1, bins=100, range=None, use='all', dtype=None, ctype=np.int64)
    short, full = split(c, doc, lambda n, v: dict(bins=7, use='even').get(n, v))
    z = c.rng.normal(size=(2, 24))
    a, b = inf.montecarlo(**short), inf.montecarlo(**full)
    for m in (a, b):
        m.update(z)
        m.update(2*z)
    for n in ('mean', 'var', 'skew', 'kurtosis', 'stderr'):
        x, y = getattr(a, n), getattr(b, n)
        x, y = (x(), y()) if callable(x) else (x, y)
        c.same(np.asarray(x), np.asarray(y), n)
    for i in range(2):
        for x, y in zip(a.histogram()[i] if False else a[i].histogram(), b[i].histogram()):
            c.ok(np.shape(x) == np.shape(y) and x.dtype == y.dtype, 'histogram', got=np.shape(x))
            c.same(x, y, 'histogram')


@prop('P32', 40)
def distributions(c):
    name = c.cycle(['norm_rv', 'uniform_rv', 'exp_rv', 'double_exp_rv'])
    doc = dict(norm_rv=dict(a=0, b=1), uniform_rv=dict(a=0, b=1), exp_rv=dict(a=1), double_exp_rv=dict(a=1, b=1, pa=.5))[name]
    short, full = split(c, doc, lambda n, v: c.uni(.2, .8) if (name, n) != ('uniform_rv', 'b') else c.uni(1, 2))
    seed = c.int(0, 10**6)
    c.note(distribution=name, seed=seed)
    f, size = getattr(inf, name), c.int(1, 6)
    x, y = [f(**d).rvs(size=size, random_state=np.random.default_rng(seed)) for d in (short, full)]
    c.same(np.asarray(x), np.asarray(y), 'draws')
