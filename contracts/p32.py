"""P32: parameters which are left out have their documented values."""
from pyvc.api import *
from .common import *
from . import p21

A = 'analytical'
NOTE = 'Defaults of coefficients and initial values of preset processes: contract of their Euler step and first state (as for P21).'
ASSUMPTIONS = [RANK_NOTE]

W = dict(x0=0., mu=0., sigma=1.)
L = dict(x0=1., mu=0., sigma=1.)
OU = dict(x0=0., theta=0., k=1., sigma=1.)
HW = dict(x0=(0., 0.), theta=(0., 0.), k=(1., 1.), sigma=(1., 1.), rho=0.)
CIR = dict(x0=1., theta=1., k=1., xi=1.)
HL = dict(x0=1., mu=0., sigma=1., y0=1., theta=1., k=1., xi=1., rho=0.)
M = dict(x0=1., mu=0., sigma=1., lam=1., a=0., b=1.)
KOU = dict(x0=1., mu=0., sigma=1., lam=1., a=.5, b=.5, pa=.5)
BS = dict(x0=1., r=0., q=0., sigma=1.)
CLOSED = {}
for _p, _d, _f in (('wiener', W, 'mean var std pdf cdf chf'), ('lognorm', L, 'mean var std pdf cdf log_chf'),
                   ('oruh', OU, 'mean var std pdf cdf'), ('hw2f', HW, 'mean var std pdf cdf'),
                   ('cir', CIR, 'mean var std pdf'), ('heston', HL, 'log_mean log_var log_std log_chf log_pdf'),
                   ('mjd', M, 'mean log_chf log_pdf'), ('kou', KOU, 'mean log_chf log_pdf')):
    for _n in _f.split():
        CLOSED[_p + '_' + _n] = (('t',) + (() if _n.endswith(('mean', 'var', 'std')) else ('u',) if _n.endswith('chf') else ('x',)), _d)
for _n in ('bsd1d2', 'bscall', 'bscall_delta', 'bsput', 'bsput_delta'):
    CLOSED[_n] = (('k', 't'), BS)


def terms(v):
    v = v if isinstance(v, tuple) else (v,)
    out = []
    for x in v:
        x = asarr(x)
        out.append((tuple(x.shape), resolve(x.at(*[ZERO]*len(x.shape)))))
    return out


def closed(name):
    args, d = CLOSED[name]
    f = fn(A, name)
    pos = [real('v_' + a) for a in args]
    for a, v in zip(args, pos):
        if a in ('t', 'x', 'k'):
            ctx().assume(lt(ZERO, v.t_))
    want = terms(f(*pos, **d))

    def same(nm, **kw):
        got = terms(f(*pos, **kw))
        check(nm + '-count', len(got) == len(want))
        for n, ((s1, a), (s2, b)) in enumerate(zip(got, want)):
            check_shape('%s-shape-%d' % (nm, n), s1, s2)
            check_eq('%s-%d' % (nm, n), a, b)
    same('none-given')
    for n in d:
        same('without-' + n, **{k: v for k, v in d.items() if k != n})
        same('only-' + n, **{n: d[n]})
    # with other values for all the others
    given = {}
    for n, v in d.items():
        given[n] = tuple(real('g_%s%d' % (n, i)) for i in range(2)) if isinstance(v, tuple) else real('g_' + n)
        for g in given[n] if isinstance(v, tuple) else (given[n],):
            if n not in ('mu', 'theta', 'rho', 'r', 'q', 'a', 'pa') or name.startswith(('heston', 'cir', 'kou')):
                ctx().assume(lt(ZERO, g.t_))
            if n == 'rho' or (n in ('a', 'pa') and name.startswith('kou')):
                ctx().assume(lt(g.t_, ONE))
    for n in d:
        kw = dict(given)
        del kw[n]
        a, b = terms(f(*pos, **kw)), terms(f(*pos, **kw, **{n: d[n]}))
        for q, (x, y) in enumerate(zip(a, b)):
            check_shape('others-%s-shape-%d' % (n, q), x[0], y[0])
            check_eq('others-%s-%d' % (n, q), x[1], y[1])
    reach('end')


for _n in CLOSED:
    vc('P32', _n, reach=('end',))(lambda n=_n: closed(n))

# ------------------------------------------------------------------ presets

for _n in p21.NAMES:
    for _r in (0, 1):
        vc('P32', 'coefficients_%s_%d' % (_n, _r), reach=('end',))(lambda n=_n, r=_r: p21.step(n, r, None, **p21.extra(n, 0)))
        vc('P32', 'initial_%s_%d' % (_n, _r), reach=('end',))(lambda n=_n, r=_r: p21.begin(n, r, None, True, **p21.extra(n, 0)))
    # one left out, the others of some kind given
    for _q, _p in enumerate(p21.NAMES[_n]):
        vc('P32', 'coefficients_%s_without_%s' % (_n, _p), reach=('end',))(
            lambda n=_n, q=_q, p=_p: p21.step(n, q % 2, q + 1, omit=(p,), **p21.extra(n, q)))
        vc('P32', 'coefficients_%s_only_%s' % (_n, _p), reach=('end',))(
            lambda n=_n, q=_q, p=_p: p21.step(n, 1, q + 2, omit=set(p21.NAMES[n]) - {p}, **p21.extra(n, q)))
    if _n in p21.HES:
        for _p in ('x0', 'y0'):
            for _i in ('scalar', 0, 3):
                vc('P32', 'initial_%s_without_%s_%s' % (_n, _p, _i), reach=('end',))(
                    lambda n=_n, p=_p, i=_i: p21.begin(n, 1, i, True, omit=(p,)))
for _n in p21.JL:
    for _p in p21.JL[_n][1]:
        for _o in (set(p21.JL[_n][1]) - {_p}, {_p}):
            for _h in ('scalar', 'vector'):
                vc('P32', 'jumps_%s_without_%s_%s' % (_n, '_'.join(sorted(_o)), _h), reach=('end',))(
                    lambda n=_n, o=_o, h=_h: p21.jump_law(n, h, 0, o))
    vc('P32', 'jumps_' + _n, reach=('end',))(lambda n=_n: p21.jump_law(n, 'default', 0))


def agree(nm, a, b, seen=()):
    """two objects made of equal parts"""
    if a is b or any(a is x for x in seen):
        return check(nm, True)
    scalar = (int, float, complex, str, bytes, type(None), bool)
    if isinstance(a, (Sym, snp.ndarray)) or isinstance(b, (Sym, snp.ndarray)):
        a, b = asarr(a), asarr(b)
        check(nm + '-dtype', a.dtype == b.dtype)
        if check_shape(nm + '-shape', a.shape, b.shape):
            k = [index('k', d) for d in a.shape]
            check_eq(nm, a.at(*k), b.at(*k))
        return
    if isinstance(a, scalar) or isinstance(b, scalar):
        return check(nm, type(a) is type(b) and a == b, note='%r %r' % (a, b))
    if isinstance(a, type) or isinstance(b, type):
        return check(nm, a is b)
    if not check(nm + '-type', type(a) is type(b), note='%r %r' % (a, b)):
        return
    if isinstance(a, (tuple, list)):
        if check(nm + '-length', len(a) == len(b)):
            for n, (x, y) in enumerate(zip(a, b)):
                agree('%s.%d' % (nm, n), x, y, seen + (a,))
    elif isinstance(a, dict):
        if check(nm + '-keys', set(a) == set(b), note='%r %r' % (set(a), set(b))):
            for n in a:
                agree('%s.%s' % (nm, n), a[n], b[n], seen + (a,))
    elif isinstance(a, snp.dtype):
        check(nm, a == b)
    elif hasattr(a, '__dict__') and not callable(a):
        agree(nm, vars(a), vars(b), seen + (a,))


def built(name, make, d, given=None):
    """an object built without some of its parameters is made as with their documented values"""
    def f():
        want = make(**d)
        agree('none-given', make(), want)
        for n in d:
            agree('without-' + n, make(**{k: v for k, v in d.items() if k != n}), want)
            agree('only-' + n, make(**{n: d[n]}), want)
        reach('end')
    vc('P32', name, reach=('end',))(f)


SRC = dict(paths=1, vshape=(), rng=None)
ANTI = dict(paths=2, vshape=(), rng=None)
TRUE = dict(rtol='max', t0=0.)
for _n, _d in dict(source=dict(SRC, dtype=None),
                   wiener_source=dict(SRC, dtype=None, corr=None, rho=None),
                   poisson_source=dict(SRC, dtype=int, lam=1.),
                   odd_wiener_source=dict(ANTI, dtype=None, corr=None, rho=None),
                   even_poisson_source=dict(ANTI, dtype=int, lam=1.),
                   even_cpoisson_source=dict(ANTI, dtype=None, dn=None, ptype=int, lam=1., y=None),
                   cpoisson_source=dict(SRC, dtype=None, dn=None, ptype=int, lam=1., y=None),
                   true_source=dict(SRC, dtype=None, z0=0., **TRUE),
                   true_wiener_source=dict(SRC, dtype=None, z0=0., corr=None, rho=None, **TRUE),
                   true_poisson_source=dict(SRC, dtype=int, lam=1., z0=0, **TRUE),
                   true_cpoisson_source=dict(SRC, dtype=None, z0=0., dn=None, ptype=int, lam=1., y=None, **TRUE),
                   montecarlo=dict(sample=None, axis=-1, bins=100, range=None, use='all', dtype=None, ctype=None)).items():
    def _make(n=_n, **kw):
        if kw.get('ctype', 0) is None:
            kw['ctype'] = snp.int64
        return fn(I_, n)(**kw)
    built('built_' + _n, _make, _d)


def standard_jumps(name):
    """with no distribution of jumps given, they are uniform between 0 and 1, one event per unit of time"""
    P = dim('P', 1)
    s = p21.integ(name)(paths=P).sources['dj'] if name.endswith('process') else fn(I_, name)(paths=P)
    uni = dict(a=lambda *i: ZERO, b=lambda *i: ONE)
    check('time-independent', hasattr(s.y, 'rvs'))
    p21.p30.check_rv('jumps', s.y, 'uniform_rv', uni, (), (P,))
    lam = s.dn.lam
    check_eq('intensity', term(asarr(lam(real('s')) if callable(lam) else lam)), ONE)
    reach('end')


for _n in ('cpoisson_source', 'true_cpoisson_source', 'jumpdiff_process'):
    vc('P32', 'standard_jumps_' + _n, reach=('end',))(lambda n=_n: standard_jumps(n))


def standard_intensity(name):
    s = fn(I_, name)(paths=dim('P', 1))
    check_eq('intensity', term(asarr(s.lam(real('s')) if callable(s.lam) else s.lam)), ONE)
    reach('end')


for _n in ('poisson_source', 'true_poisson_source'):
    vc('P32', 'standard_intensity_' + _n, reach=('end',))(lambda n=_n: standard_intensity(n))
