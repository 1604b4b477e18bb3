"""P18: parameters of equations."""
from pyvc.api import *
from pyvc import srandom
from .common import *
from .steps import *

ASSUMPTIONS = [RANK_NOTE, HOOK_NOTE, 'functions of time and processes given as parameters: arbitrary, with values of enumerated '
               'shapes; the value of a process at a time is that of its call (P04)']

KINDS = ('number', 'integer', 'array', 'column', 'paths', 'zero-rank', 'list', 'function', 'function-integer', 'function-zero-rank',
         'function-array', 'function-column', 'process', 'process-one-point', 'piecewise')


def parameter(name, kind, full):
    """value given, shape and entries of what the equation receives, at time s"""
    if kind == 'number':
        return real(name), (), lambda s: lambda: var(name)
    if kind == 'integer':
        return 3, (), lambda s: lambda: const(3)
    sh = {'array': full, 'column': full[:-1] + (1,), 'paths': full[-1:], 'zero-rank': ()}.get(kind.replace('function-', ''))
    if kind in ('array', 'column', 'paths', 'zero-rank'):
        return arr(name, sh), sh, lambda s: lambda *k: elt(name, *k)
    if kind == 'list':
        return [real(name + '0'), real(name + '1'), 5], (3,), lambda s: lambda k: ite(eq(k, ZERO), var(name + '0'), ite(eq(k, ONE), var(name + '1'), const(5)))
    if kind == 'function':
        return (lambda s: Sym(app('f:' + name, tm(s)), 'f')), (), lambda s: lambda: app('f:' + name, s)
    if kind == 'function-integer':
        return (lambda s: 3), (), lambda s: lambda: const(3)
    if kind.startswith('function'):
        def f(s):
            s = tm(s) if not isinstance(s, snp.ndarray) else s.at()
            return snp.ndarray._np_make(lambda k: app('f:' + name, s, *k), sh, snp.dtype(float))
        return f, sh, lambda s: lambda *k: app('f:' + name, s, *k)
    M = 1 if kind == 'process-one-point' else dim('M' + name, 2)
    if kind == 'piecewise':
        q = fn('infrastructure', 'piecewise')(arr('t' + name, (M,)), x=arr(name, (M,) + full[:-1] + (1,)), mode='forward')
    else:
        q = process()(arr('t' + name, (M,)), x=arr(name, (M,) + full[:-1] + (1,)))
    increasing(M, 't' + name)
    return q, full[:-1] + (1,), lambda s: q(Sym(s, 'f', True)).at


def check_value(nm, v, full, sh, value):
    check(nm + '-array', isinstance(v, snp.ndarray), note=str(type(v)))
    if isinstance(v, snp.ndarray) and check_shape(nm + '-shape', v.shape, sh):
        k = indices(sh, nm)
        check_eq(nm + '-value', v.at(*k), value(*k))


def routing(kind, rank, given, twice=False):
    """the parameter a, of this kind, and those given or left to their defaults"""
    vs, P = vdims(rank), dim('P', 1)
    full = vs + (P,)
    seen = dict(sde=[], init=[], src=[], more=[])

    class K(integ('SDE'), integ('integrator')):
        sources = {'dt', 'zz'}

        def sde(self, t, x, a, b=-3., com=2):
            seen['sde'].append((t, a, b, com))
            return {'dt': 0.}

        def init(self, t, out_x, x0, h=7., com=2):
            seen['init'].append((t, x0, h, com))
            out_x[...] = x0

        def source_zz(self, w=1, v=(3,), com=2):
            seen['src'].append((w, v, com))
            return lambda s, ds: 0.

        def more(self, m='m', mm=None):
            seen['more'].append((m, mm))
    a, sh, value = parameter('a', kind, full)
    x0 = arr('x0', full)
    w, m = object(), [1, 2]
    kw = dict(a=a, x0=x0)
    if given:
        kw.update(b=real('b'), com=real('com'), h=real('h'), w=w, m=m)
    p = K(paths=P, vshape=vs, **kw)
    # components are set up once, with the values given, or the defaults
    check('sources-once', len(seen['src']) == 1 and len(seen['more']) == 1)
    sw, sv, sc = seen['src'][0]
    check('source-parameters', (sw is w if given else sw == 1) and sv == (3,))
    check_eq('source-common', term(asarr(sc)), var('com') if given else const(2))
    check('extra-parameters', (seen['more'][0][0] is m if given else seen['more'][0][0] == 'm') and seen['more'][0][1] is None)
    # initial condition
    st = Step(p, 'begin')
    p.begin()
    check('init-once', len(seen['init']) == 1)
    t, ix, ih, ic = seen['init'][0]
    check_eq('init-time', tm(t), st.s)
    check_value('x0', ix, full, full, lambda *k: elt('x0', *k))
    check_value('h', ih, full, (), lambda: var('h') if given else const(7))
    check_value('init-common', ic, full, (), lambda: var('com') if given else const(2))
    # a step: all parameters at the current time
    check('not-yet', not seen['sde'])
    st = Step.second(p, seen['sde']) if twice else Step(p)
    st.next()
    check('sde-once', len(seen['sde']) == 1)
    t, va, vb, vc_ = seen['sde'][0]
    check_eq('time', tm(t), st.s)
    check_value('a', va, full, sh, value(st.s))
    check_value('b', vb, full, (), lambda: var('b') if given else const(-3))
    check_value('com', vc_, full, (), lambda: var('com') if given else const(2))
    reach('end')


for _k in KINDS:
    for _r in (0, 1, 2):
        if _r == 2 and 'column' not in _k and 'process' not in _k and _k != 'array':
            continue
        vc('P18', 'routing_%s_%d' % (_k, _r), reach=('end',))(lambda k=_k, r=_r: routing(k, r, _r_given(k, r)))
        vc('P18', 'defaults_%s_%d' % (_k, _r), reach=('end',))(lambda k=_k, r=_r: routing(k, r, False))
        if _r < 2:
            vc('P18', 'second_step_%s_%d' % (_k, _r), reach=('end',))(lambda k=_k, r=_r: routing(k, r, r == 0, True))


def _r_given(k, r):
    return True


def system(kind, q, addaxis, twice=False):
    """systems: the same, for each equation"""
    P = dim('P', 1)
    vs = vdims(1)
    full = vs + (P,)
    seen = []

    def sde(self, t, *args, a, b=5.):
        seen.append((t, a, b))
        return tuple({'dt': 0.} for k in range(q))
    if q == 2:
        def sde(self, t, x, y, a, b=5.):
            seen.append((t, a, b))
            return ({'dt': 0.}, {'dt': 0.})
    a, sh, value = parameter('a', kind, full)
    K = type('K', (integ('SDEs'), integ('integrator')), dict(sources={'dt'}, sde=sde, q=q, addaxis=addaxis))
    p = K(paths=P, vshape=vs, a=a)
    st = Step.second(p, seen) if twice else Step(p)
    st.next()
    check('once', len(seen) == 1)
    check_eq('time', tm(seen[0][0]), st.s)
    check_value('a', seen[0][1], full, sh, value(st.s))
    check_value('b', seen[0][2], full, (), lambda: const(5))
    expect_raise('unknown', TypeError, K, paths=P, vshape=vs, a=a, c=1)
    expect_raise('missing', TypeError, K, paths=P, vshape=vs)
    expect_raise('unknown-state', TypeError, K, paths=P, vshape=vs, a=a, x=1)
    reach('end')


for _k in ('number', 'array', 'function', 'function-array', 'process'):
    for _a in (False, True):
        vc('P18', 'system_%s_%s' % (_k, _a), reach=('end',))(lambda k=_k, a=_a: system(k, 2, a))
        vc('P18', 'system_second_step_%s_%s' % (_k, _a), reach=('end',))(lambda k=_k, a=_a: system(k, 2, a, True))


class _Rejecting:
    pass


@vc('P18', reach=('end',))
def rejections():
    P = dim('P', 1)

    class K(integ('SDE'), integ('integrator')):
        sources = {'dt', 'zz'}

        def sde(self, t, x, a, b=-3., com=2):
            return {'dt': 0.}

        def init(self, t, out_x, x0, h=7.):
            pass

        def source_zz(self, w, v=(3,), com=2):
            return lambda s, ds: 0.

        def more(self, m, mm=None):
            pass
    ok = dict(a=1., x0=2., w=3, m=4)
    K(paths=P, **ok)
    for n in ok:
        expect_raise('missing-' + n, TypeError, K, paths=P, **{k: v for k, v in ok.items() if k != n})
    for n in ('nope', 'dw', 'lam', 'sde', 't', 'x', 'out_x', 'self'):
        if n != 'self':
            expect_raise('unknown-' + n, TypeError, K, paths=P, **ok, **{n: 1.})

    def variant(**kw):
        return type('V', (K,), kw)

    def sde1(self, t, x, a, x0=1.):
        return {'dt': 0.}

    def source1(self, w, a=2.):
        return lambda s, ds: 0.

    def more1(self, m, h=0):
        pass

    def more2(self, m, b=-3.5):
        pass

    def more3(self, m, com=None):
        pass

    def init1(self, t, out_x, x0, b=3.):
        pass

    def more_same(self, m, b=-3., com=2, h=7.):
        pass
    for n, v in dict(sde1=variant(sde=sde1), source1=variant(source_zz=source1), more1=variant(more=more1), more2=variant(more=more2),
                     more3=variant(more=more3), init1=variant(init=init1)).items():
        expect_raise('conflict-' + n, TypeError, v, paths=P, **{k: z for k, z in ok.items()})
    # the same default is no conflict
    p = variant(more=more_same)(paths=P, **ok)
    check('same-default', 'b' in p.args)
    reach('end')


@vc('P18', reach=('end',))
def declared_by_several():
    """a parameter declared by every component: its defaults agree, or the equation is rejected (a default given by some of
    them only is left open)"""
    P = dim('P', 1)

    def component(par, default, result):
        if default is None:
            if par == 0:
                return lambda self, t, x, a: result
            if par == 1:
                return lambda self, t, out_x, a: result
            return lambda self, a: result
        if par == 0:
            return lambda self, t, x, a=default: result
        if par == 1:
            return lambda self, t, out_x, a=default: result
        return lambda self, a=default: result
    src = lambda s, ds: 0.
    for n in range(3**5):
        d = [(n // 3**i) % 3 or None for i in range(5)]
        ns = dict(sources={'dt', 'yy', 'zz'}, sde=component(0, d[0], {'dt': 0.}), init=component(1, d[1], None),
                  source_yy=component(2, d[2], src), source_zz=component(2, d[3], src), more=component(2, d[4], None))
        K = type('K', (integ('SDE'), integ('integrator')), ns)
        given = [k for k in d if k is not None]
        nm = 'defaults-' + '-'.join(str(k) for k in d)
        if len(set(given)) > 1:
            expect_raise(nm, TypeError, K, paths=P, a=5.)
        elif len(given) in (0, 5):
            p = K(paths=P, a=5.)
            check(nm, 'a' in p.args)
            if not given:
                expect_raise(nm + '-missing', TypeError, K, paths=P)
    reach('end')


def standard_sources(form, sources=('dt', 'dw', 'dn', 'dj')):
    """the sources a class has without declaring any: each keyword goes where it belongs"""
    vs, P = vdims(1), dim('P', 1)
    ws = vs + (dim('W', 1),)
    wanted = set(sources)

    class Recorder:
        """a class of sources"""
        def __init__(self, **kw):
            self.kw = kw

        def __call__(self, s, ds):
            return 0.

    class Object:
        """a source"""
        paths, vshape = P, ws

        def __call__(self, s, ds):
            return 0.

    class K(integ('SDE'), integ('integrator')):
        sources = wanted

        def shapes(self, v):
            return v, v, ws

        def sde(self, t, x):
            return {'dt': 0.}
    rng = srandom.Generator('given')
    kw = dict(paths=P, vshape=vs, rng=rng, dtype=float)
    own = dict(dw=('corr', 'rho'), dn=('ptype', 'lam'), dj=('ptype', 'lam', 'y', 'dn'))
    opaque = {n: object() for n in ('corr', 'rho', 'ptype', 'lam', 'y')}
    used = [n for n in ('dw', 'dn', 'dj') if n in wanted]

    def common(nm, x, dt):
        """what every source is made with"""
        check(nm + '-paths', term(x['paths']) is term(P))
        check_shape(nm + '-vshape', x['vshape'], ws)
        same_type(nm + '-dtype', x['dtype'], dt)
        check(nm + '-rng', x['rng'] is rng)

    def same_type(nm, t, dt):
        check(nm, t is dt or isinstance(dt, type) and snp.dtype(t) == snp.dtype(dt), note=repr(t))

    def expect(nm, x, **args):
        for k, v in args.items():
            check('%s-%s' % (nm, k), x.get(k) is v, note=repr(x.get(k)))
    if form in ('classes', 'defaults'):
        cl = {n: type(n, (Recorder,), {}) for n in used}
        args = {k: v for k, v in opaque.items() if any(k in own[n] for n in used)} if form == 'classes' else {}
        p = K(**cl, **args, **kw)
        get = args.get
        for n in used:
            x = p.sources[n]
            check(n + '-class', type(x) is cl[n])
            x = dict(x.kw)
            if n == 'dw':
                common(n, x, float)
                expect(n, x, corr=get('corr'), rho=get('rho'))
                continue
            check(n + '-lam', x['lam'] is get('lam') if args else x['lam'] == 1)
            if n == 'dn':
                common(n, x, get('ptype', int))
            else:
                common(n, x, float)
                same_type('dj-ptype', x['ptype'], get('ptype', int))
                expect(n, x, y=get('y'), dn=cl.get('dn'))
    elif form == 'objects':
        ob = {n: Object() for n in used}
        p = K(**ob, **kw)
        for n in used:
            check(n + '-itself', p.sources[n] is ob[n])
    else:
        y = object()
        C = arr('corr', (ws[-1], ws[-1]))
        args = dict(corr=C, lam=real('lam'), ptype=float, y=y)
        args = {k: v for k, v in args.items() if any(k in own[n] for n in used)}
        if form == 'made-on-object':
            args['dn'] = dn = Object()
            dn.lam, dn.dtype = 3, float
        p = K(**args, **kw)
        I = mod('infrastructure')
        for n in used:
            x = p.sources[n]
            if n == 'dn' and 'dn' in args:
                check('dn-itself', x is dn)
                continue
            T = dict(dw=I.wiener_source, dn=I.poisson_source, dj=I.cpoisson_source)[n]
            check(n + '-type', type(x) is T, note=str(type(x)))
            common(n, dict(paths=x.paths, vshape=x.vshape, dtype=x.dtype, rng=x.rng), float)
            if n == 'dw':
                i = indices(C.shape, 'c')
                check('dw-corr', isinstance(x.corr, snp.ndarray))
                if isinstance(x.corr, snp.ndarray) and check_shape('dw-corr-shape', x.corr.shape, C.shape):
                    check_eq('dw-corr-entry', x.corr.at(*i), elt('corr', *i))
                continue
            if n == 'dj':
                check('dj-y', x.y is y)
                if 'dn' in args:
                    check('dj-dn-itself', x.dn is dn)
                    continue
                x = x.dn
                check('dj-dn-type', type(x) is I.poisson_source)
                common('dj-dn', dict(paths=x.paths, vshape=x.vshape, dtype=x.dtype, rng=x.rng), float)
            check_eq(n + '-lam', term(asarr(x.lam)), var('lam'))
    check('only-these', set(p.sources) == wanted)
    s, ds = real('s'), real('ds')
    check_eq('dt', term(asarr(p.sources['dt'](s, ds))), tm(ds))
    reach('end')


for _f in ('classes', 'defaults', 'objects', 'made', 'made-on-object'):
    for _s in (('dt', 'dw', 'dn', 'dj'), ('dt', 'dw'), ('dt', 'dn'), ('dt', 'dj')):
        if _f != 'made-on-object' or 'dj' in _s:
            vc('P18', 'sources_%s_%s' % (_f, '_'.join(_s)), reach=('end',))(lambda f=_f, s=_s: standard_sources(f, s))


def unfit_sources(id, what):
    """a source object which does not fit the equation, or does not follow the source protocol, is rejected"""
    P, V, Q = dim('P', 1), dim('V', 2), dim('Q', 1)

    class K(integ('SDE'), integ('integrator')):
        sources = {'dt', id}

        def sde(self, t, x):
            return {'dt': 0.}

    class Fit:
        paths, vshape = P, (V,)
        lam, dtype = 3, float

        def __call__(self, t, dt=None):
            return 0.

    def attr(**kw):
        x = Fit()
        for k, v in kw.items():
            setattr(x, k, v)
        return x

    class Mute:
        paths, vshape = P, (V,)

    class NoPaths:
        vshape = (V,)

        def __call__(self, t, dt=None):
            return 0.

    class NoShape:
        paths = P

        def __call__(self, t, dt=None):
            return 0.
    if what == 'paths':
        assume(not_(eq(tm(P), tm(Q))))
        bad = [attr(paths=Q), attr(paths=Q, vshape=())]
    elif what == 'shape':
        assume(not_(eq(tm(V), tm(Q))))
        assume(not_(eq(tm(Q), ONE)))
        bad = [attr(vshape=(Q,)), attr(vshape=(2, V)), attr(vshape=(1, V)), attr(vshape=(V, 2)), attr(vshape=(1, 1))]
    else:
        bad = [Mute(), NoPaths(), NoShape(), 3., arr('z', (V, P)), lambda t, dt: 0.]
    for i, b in enumerate(bad):
        expect_raise('rejected-%d' % i, ValueError, K, paths=P, vshape=(V,), **{id: b})
        if id == 'dn':
            expect_raise('rejected-in-source-%d' % i, ValueError, mod('infrastructure').cpoisson_source, paths=P, vshape=(V,), dn=b)
    for i, x in enumerate([Fit(), attr(vshape=()), attr(vshape=(1,))]):
        p = K(paths=P, vshape=(V,), **{id: x})
        check('accepted-%d' % i, p.sources[id] is x)
        if id == 'dn':
            check('accepted-in-source-%d' % i, mod('infrastructure').cpoisson_source(paths=P, vshape=(V,), dn=x).dn is x)
    reach('end')


for _i in ('dw', 'dn', 'dj'):
    for _w in ('paths', 'shape', 'protocol'):
        vc('P18', 'unfit_%s_%s' % (_i, _w), reach=('end',))(lambda i=_i, w=_w: unfit_sources(i, w))
