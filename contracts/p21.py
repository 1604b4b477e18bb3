"""P21: preset processes."""
from pyvc.api import *
from .common import *
from .steps import *
from .laws import *
from . import p30
from .p18 import parameter
from .p20 import place, stacked

ASSUMPTIONS = [RANK_NOTE, HOOK_NOTE, 'initial values of lognormal, Heston and jump-diffusion processes are positive (logarithms)',
               'sources: arbitrary values, at each call; the law of the built-in ones is decided by P09-P11, that of the '
               'jump distributions by P30 and here']

KINDS = ('default', 'number', 'array', 'function', 'column', 'function-array', 'process', 'paths', 'function-column', 'zero-rank')
NAMES = dict(wiener=('mu', 'sigma'), lognorm=('mu', 'sigma'), ornstein_uhlenbeck=('theta', 'k', 'sigma'),
             hull_white=('theta', 'k', 'sigma'), hull_white_1factor=('theta', 'k', 'sigma'), cox_ingersoll_ross=('theta', 'k', 'xi'),
             heston=('mu', 'sigma', 'theta', 'k', 'xi'), full_heston=('mu', 'sigma', 'theta', 'k', 'xi'),
             jumpdiff=('mu', 'sigma'), merton_jumpdiff=('mu', 'sigma'), kou_jumpdiff=('mu', 'sigma'))
JUMPS = ('jumpdiff', 'merton_jumpdiff', 'kou_jumpdiff')
LOG = ('lognorm',) + JUMPS
HES = ('heston', 'full_heston')


def default(name, par):
    if par in ('mu',):
        return ZERO
    if par == 'theta':
        return ONE if name in HES + ('cox_ingersoll_ross',) else ZERO
    if par in ('x0', 'y0'):
        return ONE if name in LOG + HES + ('cox_ingersoll_ross',) else ZERO
    return ONE


class Counting(Source):
    """a source which tells the number of events"""

    def __call__(self, t, dt):
        self.dn_value = arr('count', self.vshape + (self.paths,), int)
        return super().__call__(t, dt)


class Setup:
    """a preset process, with parameters of the given kinds"""

    def __init__(self, name, rank, shift, init=None, getinfo=True, given=True, omit=(), **kw):
        self.name = name
        self.vs, self.P = vs, P = vdims(rank), dim('P', 1)
        self.full = vs + (P,)
        self.w = vs
        if name == 'hull_white':
            F = kw['factors'] if 'factors' in kw else 1
            self.F = tm(F)
            self.w = vs + (F,)
        if name in HES:
            self.w = stacked(vs, False, 2)
        self.pfull = self.full if name in HES else self.w + (P,)
        self.log = []
        self.value = {}
        for n, par in enumerate(NAMES[name]):
            kind = 'default' if shift is None or par in omit else KINDS[(n*3 + shift) % len(KINDS)]
            if kind == 'default':
                self.value[par] = lambda s, idx, par=par: default(name, par)
                continue
            a, sh, value = parameter(par, kind, self.pfull)
            kw[par] = a
            self.value[par] = lambda s, idx, sh=sh, value=value: value(s)(*self.pick(sh, idx))
        for n, par in enumerate(('x0', 'y0') if name in HES else ('x0',)):
            if init is None or par in omit:
                self.value[par] = lambda idx, par=par: default(name, par)
            elif init == 'scalar':
                kw[par] = real(par)
                self.value[par] = lambda idx, par=par: var(par)
            else:
                sh = shapes_like(self.pfull)[(init + n) % 5]
                kw[par], f = coefficient(par, sh, self.pfull)
                self.value[par] = lambda idx, f=f: f(*idx)
        if given:
            kw['dw'] = Source('dw', P, self.w, self.log)
            if name in JUMPS:
                kw['dj'] = (Counting if getinfo else Source)('dj', P, self.w, self.log)
        self.kw = kw
        self.p = integ(name + '_process')(paths=P, vshape=vs, getinfo=getinfo, **kw)

    def pick(self, sh, idx):
        k = idx[len(idx) - len(sh):]
        return [ZERO if isinstance(d, int) and d == 1 and not (isinstance(e, int) and e == 1) else i
                for i, d, e in zip(k, sh, self.pfull[len(idx) - len(sh):])]


def plus(x):
    return ite(lt(ZERO, x), x, ZERO)


def step(name, rank, shift, getinfo=True, reverse=False, twice=False, **kw):
    S = Setup(name, rank, shift, getinfo=getinfo, **kw)
    p = S.p
    check_shape('space', p.wshape + (p.paths,), S.w + (S.P,))
    check_shape('output', p.xshape, S.w if name == 'full_heston' else S.vs)
    N = dim('N', 1)
    if getinfo:
        # counters, as set up at the start
        p.info['negative_y_count'] = arr('neg', S.full, int)
        p.info['jump_count'] = arr('jumps', S.full, int)
        p.info['jump_rate'] = arr('rate', (N,))
    st = Step.second(p, S.log, reverse=reverse, N=N) if twice else Step(p, reverse=reverse, N=N)
    st.next()
    want = ['dj', 'dw'] if name in JUMPS else ['dw']
    check('sources', [x[0] for x in S.log] == want)
    for id, t, dt in S.log:
        check_eq('source-time', t, st.s)
        check_eq('source-increment', dt, st.ds)
    k = indices(S.pfull, 'k')
    g = lambda par: S.value[par](st.s, k)
    half = div(1, 2)
    if name in HES:
        pos = place(S.vs, False, 2)
        kx, ky = pos(0, k), pos(1, k)
        yp = plus(st.x(*ky))
        s = g('sigma')
        check_eq('new-x', st.new(*kx), add(st.x(*kx), mul(sub(g('mu'), mul(half, s, s, yp)), st.ds),
                                           mul(s, t_.fsqrt(yp), increment('dw', *kx))))
        check_eq('new-y', st.new(*ky), add(st.x(*ky), mul(g('k'), sub(g('theta'), yp), st.ds),
                                           mul(g('xi'), t_.fsqrt(yp), increment('dw', *ky))))
        reach('end')
        return
    x, dw = st.x(*k), increment('dw', *k)
    if name == 'wiener':
        A = g('mu'), g('sigma')
    elif name in LOG:
        s = g('sigma')
        A = sub(g('mu'), mul(half, s, s)), s
    elif name == 'cox_ingersoll_ross':
        A = mul(g('k'), sub(g('theta'), plus(x))), mul(g('xi'), t_.fsqrt(plus(x)))
    else:
        A = mul(g('k'), sub(g('theta'), x)), g('sigma')
    new = add(x, mul(A[0], st.ds), mul(A[1], dw))
    if name in JUMPS:
        new = add(new, increment('dj', *k))
    check_eq('new-state', st.new(*k), new)
    reach('end')


FACTORS = {'hull_white': (1, 2, 3, 'F')}


def extra(name, n):
    f = FACTORS.get(name)
    if f is None:
        return {}
    f = f[n % len(f)]
    return dict(factors=dim('F', 1) if f == 'F' else f)


for _n in NAMES:
    for _r in (0, 1, 2):
        for _s in range(len(KINDS)):
            vc('P21', '%s_%d_%s' % (_n, _r, _s), reach=('end',))(
                lambda n=_n, r=_r, s=_s: step(n, r, s, s % 2 == 0, s % 3 == 2, **extra(n, s)))
            if _r < 2:
                vc('P21', '%s_second_step_%d_%s' % (_n, _r, _s), reach=('end',))(
                    lambda n=_n, r=_r, s=_s: step(n, r, s, s % 2 == 1, s % 3 == 1, True, **extra(n, s)))


def begin(name, rank, init, getinfo, **kw):
    """the initial value of the solution is the given one"""
    S = Setup(name, rank, 0, init, getinfo, **kw)
    st = Step(S.p, 'begin')
    c = ctx()
    k = indices(S.pfull, 'k')
    v = S.value['x0'](k)
    if name in LOG + HES:
        c.assume(lt(ZERO, v))
    S.p.begin()
    w = asarr(st.xw.items[(0,)])
    if not check_shape('shape', w.shape, S.w + (S.P,)):
        return
    if name in HES:
        pos = place(S.vs, False, 2)
        check_eq('initial-x', w.at(*pos(0, k)), flog(v))
        check_eq('initial-y', w.at(*pos(1, k)), S.value['y0'](k))
    else:
        check_eq('initial', w.at(*k), flog(v) if name in LOG else v)
    reach('end')


for _n in NAMES:
    for _r in (0, 1, 2):
        for _i in (None, 'scalar', 0, 1, 2, 3, 4):
            vc('P21', 'begin_%s_%d_%s' % (_n, _r, _i), reach=('end',))(
                lambda n=_n, r=_r, i=_i: begin(n, r, i, r != 1, **extra(n, r)))


def leave(name, rank, getinfo, **kw):
    """states reached, stored and returned"""
    S = Setup(name, rank, 1, None, getinfo, **kw)
    p = S.p
    st = Step(p, 'store')
    p.store(Sym(st.i, 'i'), st.k)
    xx = asarr(p.itervars['xx'])
    src = 'x' if st.k == 0 else 'left'
    k = indices(S.full, 's')
    pos = place(S.vs, False, 2)
    if name == 'hull_white':
        check_eq('stored-sum', resolve(xx.at(st.i, *k)), t_.tsum(S.F, lambda f: elt(src, *k[:-1], f, k[-1])))
    elif name == 'heston':
        check_eq('stored-x', xx.at(st.i, *k), elt(src, *pos(0, k)))
    elif name == 'full_heston':
        for n in range(2):
            check_eq('stored-%s' % 'xy'[n], xx.at(st.i, *pos(n, k)), elt(src, *pos(n, k)))
    else:
        check_eq('stored', xx.at(st.i, *k), elt(src, *k))
    # other times are left alone
    j = index('j', st.N)
    ctx().assume(ne(j, st.i), check=True)
    kx = indices(tuple(p.xshape) + (S.P,), 'o')
    check_eq('others', xx.at(j, *kx), elt('xx', j, *kx))
    reach('stored')
    # what is returned
    tt, yy = arr('t', (st.N,)), arr('yy', (st.N,) + tuple(p.xshape) + (S.P,))
    if getinfo:
        p.info['jump_rate'] = arr('rate', (st.N,))
    p.itervars.update(tt=tt)
    p.end()
    del p.itervars
    r = p.exit(tt, yy)
    if name == 'full_heston':
        check('two', isinstance(r, tuple) and len(r) == 2)
        check_process('x', r[0], (st.N,) + S.full, lambda *i: fexp(elt('yy', i[0], *pos(0, i[1:]))), tel)
        check_process('y', r[1], (st.N,) + S.full, lambda *i: elt('yy', i[0], *pos(1, i[1:])), tel)
    else:
        lg = name in LOG + HES
        check_process('result', r, (st.N,) + S.full, lambda *i: fexp(elt('yy', *i)) if lg else elt('yy', *i), tel)
    reach('end')


for _n in NAMES:
    for _r in (0, 1, 2):
        for _g in (False, True):
            vc('P21', 'result_%s_%d_%s' % (_n, _r, _g), reach=('stored', 'end'))(
                lambda n=_n, r=_r, g=_g: leave(n, r, g, **extra(n, r + g)))


def jump_parameter(n, how, shape, s):
    """parameter of a jump distribution, and its entries at time s"""
    if how == 'const':
        if not shape:
            return real(n), lambda *k: var(n)
        return arr(n, shape), lambda *k: elt(n, *k)
    if not shape:
        return (lambda t: Sym(app('f:' + n, term(asarr(t))), 'f')), lambda *k: app('f:' + n, s)
    return (lambda t: snp.ndarray._np_make(lambda k: app('f:' + n, term(asarr(t)), *k), shape, snp.dtype(float)),
            lambda *k: app('f:' + n, s, *k))


JL = dict(merton_jumpdiff=('norm_rv', dict(a=ZERO, b=ONE)),
          kou_jumpdiff=('double_exp_rv', dict(a=div(1, 2), b=div(1, 2), pa=div(1, 2))))


def jump_law(name, how, dep, omit=()):
    """the built-in source of jumps: what it is built on, and the law of its jumps"""
    dist, dflt = JL[name]
    s = var('s')
    P, M = dim('P', 1), dim('M', 1)
    vs, sh = ((M,), (M, 1)) if how == 'vector' else ((), ())
    kw, es = {}, {}
    for n, par in enumerate(dflt):
        if how == 'default' or par in omit:
            es[par] = lambda i, j, par=par: dflt[par]
            continue
        kw[par], f = jump_parameter(par, 'time' if dep >> n & 1 else 'const', sh, s)
        es[par] = lambda i, j, f=f: f(*((i, ZERO) if sh else ()))
    for par in es:
        if how == 'default' or par in omit:
            continue
        p30_domain(par, dist, es[par], name, dep, how)
    p = integ(name + '_process')(paths=P, vshape=vs, **kw)
    dj = p.sources['dj']
    check('source-type', type(dj) is fn('infrastructure', 'cpoisson_source'))
    check_shape('source-shape', tuple(dj.vshape) + (dj.paths,), vs + (P,))
    y = dj.y
    if how != 'default' and dep:
        check('time-dependent', callable(y))
    if callable(y) and not hasattr(y, 'rvs'):
        y = y(Sym(s, 'f'))
    p30.check_rv('jumps', y, dist, es, sh, (P,) + sh)
    reach('end')


def p30_domain(par, dist, e, name, dep, how):
    if par == 'a' and dist == 'norm_rv':
        return
    pos = lambda x: lt(ZERO, x)
    prob = lambda x: and_(le(ZERO, x), le(x, ONE))
    p30.positive({par: p30.UNIT if par == 'pa' else p30.POS, 'f:' + par: p30.UNIT if par == 'pa' else p30.POS}, e, (),
                 prob if par == 'pa' else pos)


for _n, (_d, _p) in JL.items():
    vc('P21', 'jumps_%s_default' % _n, reach=('end',))(lambda n=_n: jump_law(n, 'default', 0))
    for _h in ('scalar', 'vector'):
        for _m in range(2**len(_p)):
            vc('P21', 'jumps_%s_%s_%d' % (_n, _h, _m), reach=('end',))(lambda n=_n, h=_h, m=_m: jump_law(n, h, m))


class anyrv(p30.anyrv):
    pass


def sources(name, rank):
    """parameters of the built-in sources"""
    P = dim('P', 1)
    vs = vdims(rank)
    kw = dict(lam=real('lam'), y=anyrv()) if name == 'jumpdiff' else dict(lam=real('lam')) if name in JUMPS else {}
    if name == 'hull_white':
        kw['factors'] = dim('F', 1)
    p = integ(name + '_process')(paths=P, vshape=vs, **kw)
    w = stacked(vs, False, 2) if name in HES else vs + (kw['factors'],) if name == 'hull_white' else vs
    ids = {'dt', 'dw', 'dj'} if name in JUMPS else {'dt', 'dw'}
    check('sources', set(p.sources) == ids)
    for id, cls in dict(dw='wiener_source', dj='cpoisson_source').items():
        if id in ids:
            d = p.sources[id]
            check(id + '-type', type(d) is fn('infrastructure', cls))
            check_shape(id + '-shape', tuple(d.vshape) + (d.paths,), w + (P,))
    if name in JUMPS:
        d = p.sources['dj']
        check('counts-type', type(d.dn) is fn('infrastructure', 'poisson_source'))
        check_shape('counts-shape', tuple(d.dn.vshape) + (d.dn.paths,), w + (P,))
        lam = d.dn.lam
        check_eq('intensity', term(asarr(lam(0.) if callable(lam) else lam)), var('lam'))
        if name == 'jumpdiff':
            check('jumps', d.y is kw['y'])
    # independent unit increments, with no correlation given
    t, dt = real('t'), real('dt')
    assume(lt(ZERO, term(dt)))
    z = asarr(p.sources['dw'](t, dt))
    sh = w + (P,)
    if check_shape('increments-shape', z.shape, sh):
        gaussian('increments', z.at, sh, lambda *i: ZERO, lambda i, j: ite(same_index(i, j), term(dt), ZERO))
    reach('end')


for _n in NAMES:
    for _r in (0, 1):
        vc('P21', 'sources_%s_%d' % (_n, _r), reach=('end',))(lambda n=_n, r=_r: sources(n, r))


def correlated(name):
    """two correlated components"""
    P = dim('P', 1)
    rho = real('rho')
    assume(and_(lt(const(-1), term(rho)), lt(term(rho), ONE)))
    p = integ(name + '_process')(paths=P, vshape=() if name in HES else (2,), rho=rho)
    t, dt = real('t'), real('dt')
    assume(lt(ZERO, term(dt)))
    z = asarr(p.sources['dw'](t, dt))
    sh = (2, P)
    if check_shape('increments-shape', z.shape, sh):
        gaussian('increments', z.at, sh, lambda *i: ZERO, lambda i, j: ite(
            eq(i[1], j[1]), mul(term(dt), ite(eq(i[0], j[0]), ONE, term(rho))), ZERO))
    reach('end')


for _n in NAMES:
    if _n != 'hull_white':
        vc('P21', 'correlated_%s' % _n, reach=('end',))(lambda n=_n: correlated(n))
