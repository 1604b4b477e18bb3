"""P25: parameter bearing functions and classes."""
import inspect
import numpy as np
import sdepy
from base import prop, Fail
from sdepy import infrastructure as inf, integration as itg, analytical as ana, kfun
from sdepy.kfun import kfunc, iskfunc


def make_class(c, log):
    names = ['a', 'b', 'lam', 'k'][:c.int(1, 4)]
    dfl = {n: c.int(0, 9) for n in names}
    req = c.choice([None, None, names[0]])
    nv = c.choice([1, 2])
    # vars: v0, v1 (v1 with a default)
    src = 'class W:\n'
    src += '    def __init__(self, *, %s):\n' % ', '.join(n if n == req else '%s=%d' % (n, dfl[n]) for n in names)
    src += '        self.p = dict(%s)\n        log.append(("init", self.p))\n' % ', '.join('%s=%s' % (n, n) for n in names)
    src += '    def __call__(self, v0%s):\n' % (', v1=-1' if nv == 2 else '')
    src += '        log.append(("call", v0))\n'
    src += '        return (v0, %s, dict(self.p))\n' % ('v1' if nv == 2 else 'None')
    ns = dict(log=log)
    exec(src, ns)
    return ns['W'], names, dfl, req, nv


def value(c, default):
    return c.choice([c.int(10, 99), c.int(10, 99), 10, default, None, 0, False, '', ()])


@prop('P25', 250)
def classes(c):
    log = []
    W, names, dfl, req, nv = make_class(c, log)
    c.note(names=names, defaults=dfl, required=req, variables=nv)
    K = kfunc(W)
    c.ok(iskfunc(K) and not iskfunc(W), 'iskfunc')
    c.ok(K.__name__ == 'W' and issubclass(K, W), 'the wrapped class')
    hist = []

    def pick(must=False):
        d = {n: value(c, dfl[n]) for n in names if c.bool()}
        if must and req and req not in d:
            d[req] = c.int(10, 99)
        return d

    def vs():
        """variables: positional and keyword"""
        v0 = c.int(100, 999)
        v1 = c.int(100, 999) if nv == 2 and c.bool() else None
        if c.bool(.3):
            return (), dict(v0=v0, **({} if v1 is None else dict(v1=v1))), v0, v1
        if v1 is None:
            return (v0,), {}, v0, v1
        return ((v0, v1), {}, v0, v1) if c.bool() else ((v0,), dict(v1=v1), v0, v1)

    def expect(v0, v1, params):
        full = {n: params.get(n, dfl[n]) for n in names}
        return (v0, (-1 if v1 is None else v1) if nv == 2 else None, full)
    # direct call with variables and parameters
    for _ in range(2):
        p = pick(True)
        a, k, v0, v1 = vs()
        c.ok(K(*a, **k, **p) == expect(v0, v1, p), 'variables and parameters', args=(a, k, p))
        c.ok(W(**p)(*a, **k) == K(*a, **k, **p), 'same as instantiate and call')
    # instances
    p0 = pick(True)
    live = [(K(**p0), p0)]
    for step in range(c.int(2, 8)):
        j = c.int(0, len(live) - 1)
        x, px = live[j]
        what = c.choice(['call', 'override', 'new', 'call'])
        d = pick()
        hist.append((j, what, d))
        c.note(history=hist)
        if what == 'new':
            y = x(**d) if d else x(**{names[0]: 5})
            d = d or {names[0]: 5}
            c.ok(type(y) is K and y is not x, 'a new instance')
            live.append((y, {**px, **d}))
        else:
            a, k, v0, v1 = vs()
            d = d if what == 'override' else {}
            c.ok(x(*a, **k, **d) == expect(v0, v1, {**px, **d}), 'value of a call', args=(a, k, d))
        # no instance is ever modified
        for z, pz in live:
            a, k, v0, v1 = vs()
            c.ok(z(*a, **k) == expect(v0, v1, pz), 'remembered parameters')
            ex = {n: pz.get(n, dfl[n]) for n in names}
            c.ok(z.params == ex, 'reported parameters', got=z.params, expected=ex)
            c.ok(z.p == ex, 'state of the instance')
    # reported parameters are a copy
    z, pz = live[0]
    z.params['a'] = 'spoiled'
    c.ok(z.params == {n: pz.get(n, dfl[n]) for n in names}, 'reported parameters are not shared')


@prop('P25', 250)
def functions(c):
    nv = c.choice([1, 2])
    names = ['a', 'b', 'q'][:c.int(1, 3)]
    dfl = {n: c.int(0, 9) for n in names}
    src = 'def g(v0%s, *, %s):\n    return (v0, %s, dict(%s))\n' % (
        ', v1' + c.choice(['', '=-1']) if nv == 2 else '', ', '.join('%s=%d' % (n, dfl[n]) for n in names),
        'v1' if nv == 2 else 'None', ', '.join('%s=%s' % (n, n) for n in names))
    ns = {}
    exec(src, ns)
    g = ns['g']
    K = kfunc(nvar=nv)(g)
    c.note(source=src)
    c.ok(iskfunc(K) and K.__name__ == 'g', 'wrapped')

    def vs():
        v = [c.int(100, 999) for _ in range(nv)]
        k = c.int(0, nv)
        return tuple(v[:k]), {('v0', 'v1')[i]: v[i] for i in range(k, nv)}
    pick = lambda: {n: value(c, dfl[n]) for n in names if c.bool()}
    for _ in range(2):
        (a, k), d = vs(), pick()
        c.ok(K(*a, **k, **d) == g(*a, **k, **d), 'variables and parameters', args=(a, k, d))
    live = [(K(**d), d) for d in (pick(), pick())]
    for step in range(c.int(1, 6)):
        x, px = live[c.int(0, len(live) - 1)]
        d = pick()
        if c.bool(.4) and d:
            live.append((x(**d), {**px, **d}))
        else:
            a, k = vs()
            c.ok(x(*a, **k, **d) == g(*a, **k, **{**px, **d}), 'call with overrides', args=(a, k, d, px))
        for z, pz in live:
            a, k = vs()
            c.ok(z(*a, **k) == g(*a, **k, **pz), 'remembered parameters')
            c.ok(z.params == {**dfl, **pz}, 'reported parameters')


@prop('P25', 40)
def rejected(c):
    E, k = c.cycle([(SyntaxError, lambda: kfunc()), (SyntaxError, lambda: kfunc(lambda x: x)), (SyntaxError, lambda: kfunc(int, nvar=1)),
                    (SyntaxError, lambda: kfunc(nvar=1)(int)), (ValueError, lambda: kfunc(nvar=0)(lambda x: x)),
                    (ValueError, lambda: kfunc(nvar=2)(lambda x: x)), (TypeError, lambda: kfunc(nvar=1)(lambda x, y: x))])
    c.raises(E, k, 'improper use')

    class NoCall:
        def __init__(self, *, a=1):
            pass

    class Pos:
        def __init__(self, a=1):
            pass

        def __call__(self, x):
            pass

    class Same:
        def __init__(self, *, a=1):
            pass

        def __call__(self, a):
            pass
    for K in (NoCall, Pos, Same):
        c.raises(TypeError, lambda: kfunc(K), 'class %s' % K.__name__)


SOURCES = dict(dw='wiener_source', dn='poisson_source', dj='cpoisson_source', odd_dw='odd_wiener_source',
               even_dn='even_poisson_source', even_dj='even_cpoisson_source', true_dw='true_wiener_source',
               true_dn='true_poisson_source', true_dj='true_cpoisson_source')
PROCS = dict(wiener='wiener_process', lognorm='lognorm_process', oruh='ornstein_uhlenbeck_process', hwff='hull_white_process',
             hw1f='hull_white_1factor_process', cir='cox_ingersoll_ross_process', heston_xy='full_heston_process',
             heston='heston_process', jumpdiff='jumpdiff_process', mjd='merton_jumpdiff_process', kou='kou_jumpdiff_process')
FUNCS = [p + '_' + q for p in ('wiener', 'lognorm', 'oruh', 'hw1f', 'hw2f') for q in ('mean', 'var', 'std', 'pdf', 'cdf')]
FUNCS += ['wiener_chf', 'lognorm_log_chf', 'cir_mean', 'cir_var', 'cir_std', 'cir_pdf', 'heston_log_mean', 'heston_log_var',
          'heston_log_std', 'heston_log_chf', 'heston_log_pdf', 'mjd_mean', 'mjd_log_chf', 'mjd_log_pdf', 'kou_mean', 'kou_log_chf',
          'kou_log_pdf', 'bsd1d2', 'bscall', 'bscall_delta', 'bsput', 'bsput_delta']


@prop('P25', 120)
def shortcuts(c):
    short, long = c.cycle(sorted(SOURCES.items()) + sorted(PROCS.items()))
    K = getattr(sdepy, short)
    W = getattr(inf if short in SOURCES else itg, long)
    c.note(shortcut=short)
    c.ok(iskfunc(K) and K.__mro__[1] is W, 'shortcut of ' + long, mro=[k.__name__ for k in K.__mro__])
    c.ok(getattr(sdepy, long) is W, 'full name')
    seed = c.int(0, 10**6)
    P = 4
    r = lambda: np.random.default_rng(seed)
    args = dict(paths=P, vshape=2)
    if short in SOURCES:
        extra = {'dn': dict(lam=3.), 'even_dn': dict(lam=3.), 'true_dn': dict(lam=3.), 'dj': dict(y=inf.norm_rv(a=1.)), 'even_dj': dict(y=inf.norm_rv(a=1.)),
                 'true_dj': dict(y=inf.norm_rv(a=1.)), }.get(short, dict(corr=np.array([[1, .5], [.5, 1]])))
        v = c.choice([(0., .7), (.1, np.array([.3, .4]))])
        A = K(*v, **args, **extra, rng=r())
        B = W(**args, **extra, rng=r())(*v)
        C = K(**args, rng=r())(*v, **extra) if 'y' not in extra else A
        c.same(A, B, 'call', exact=True)
        c.same(C, B, 'override', exact=True)
        return
    extra = dict(dn=None) if short in ('jumpdiff',) else dict(steps=5)
    if short == 'jumpdiff':
        extra = dict(y=inf.norm_rv(a=.1), lam=2.)
    t = (0., .4, 1.)
    x0 = c.uni(.5, 2)
    A = K(t, **args, **extra, x0=x0, rng=r())
    B = W(**args, **extra, x0=x0, rng=r())(t)
    inst = K(**args, **extra, x0=9., rng=r())
    p0 = dict(inst.params)
    C = inst(t, x0=x0, rng=r())
    A, B, C = ((z if isinstance(z, tuple) else (z,)) for z in (A, B, C))
    for a, b, d in zip(A, B, C):
        c.same(a.x, b.x, 'call', exact=True)
        c.same(d.x, b.x, 'override', exact=True)
    c.ok(float(inst.params['x0']) == 9. and inst.paths == P, 'instance unchanged')
    c.ok(all(inst.params[k] is p0[k] or np.all(inst.params[k] == p0[k]) for k in p0), 'parameters unchanged')


@prop('P25', 150)
def analytical_shortcuts(c):
    n = c.cycle(FUNCS)
    K, f = getattr(sdepy, n), getattr(ana, n)
    c.note(function=n)
    c.ok(iskfunc(K), 'a kfunc')
    sig = inspect.signature(f).parameters
    var = [k for k, p in sig.items() if p.kind != p.KEYWORD_ONLY]
    par = {k: p.default for k, p in sig.items() if p.kind == p.KEYWORD_ONLY}
    v = [c.uni(.5, 1.5) for _ in var]
    d = {k: (c.uni(.2, .6) if not isinstance(z, tuple) else (c.uni(.5, 1), c.uni(.5, 1))) for k, z in par.items() if c.bool()}
    e = {k: (c.uni(.2, .6) if not isinstance(z, tuple) else (c.uni(.5, 1), c.uni(.5, 1))) for k, z in par.items() if c.bool(.3)}
    if n.endswith('log_pdf'):
        v[0] = .5
    R = f(*v, **{**d, **e})
    R0 = f(*v, **d)
    same = lambda a, b, w: [c.same(x, y, w, exact=True) for x, y in (zip(a, b) if isinstance(b, tuple) else [(a, b)])]
    same(K(*v, **{**d, **e}), R, 'direct call')
    k = K(**d)
    same(k(*v, **e), R, 'override')
    same(k(*v), R0, 'remembered parameters')
    c.ok(k.params == {**par, **d}, 'reported parameters')
    c.ok(K().params == par, 'defaults')
