"""P25: functions and classes with parameters.

Values of variables and parameters, and results, are opaque: nothing can be done
with them but passing them on (any other use makes the obligation undecided), so
that what is proved for them is proved for all values.

Chains of calls, of any length: an instance obtained by a call to another one is
shown to have the same state as the one built directly with all the parameters
(the parts of the state which differ, if any, are made unusable), for which all
the calls are proved."""
import inspect
import itertools
import warnings
from pyvc.api import *
from .common import *

ASSUMPTIONS = ['signatures are enumerated: 1 to 3 variables (positional or keyword), 0 to 3 parameters, with and without defaults, and '
               'with any further keyword parameters; parameters are not named self or cls',
               'wrapped classes keep their state in attributes; values of parameters and variables are opaque (parametricity)',
               'shortcuts of functions are compared with the functions at symbolic scalar arguments']


def kf(name='kfunc'):
    return fn('kfun', name)


class Opaque:
    _vc_opaque = True           # identity tests fork

    def __init__(self, name):
        object.__setattr__(self, 'name', name)

    def _no(self, *a, **k):
        raise Unsupported('operation on an opaque value')
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __hash__ = __len__ = __iter__ = __getitem__ = __contains__ = _no
    __call__ = __add__ = __radd__ = __array__ = __getattribute__ = __setattr__ = __index__ = __float__ = __int__ = __str__ = _no

    def __repr__(self):
        return '<opaque %s>' % object.__getattribute__(self, 'name')
    __format__ = lambda self, spec: repr(self)


def op(n):
    return Opaque(n)


def alike(a, b):
    """same, up to containers"""
    if a is b:
        return True
    if type(a) is not type(b) or type(a) is Opaque:
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(map(alike, a, b))
    if isinstance(a, (str, int, bool, float)):
        return a == b
    return False


EMPTY = inspect.Parameter.empty


class Sig:
    """a signature: variables (name, kind, default), parameters (name, default), further keywords"""

    def __init__(self, variables, params, varkw=False):
        self.vars, self.params, self.varkw = variables, params, varkw
        self.default = {n: op('default ' + n) for n, d in params if d}
        self.vdefault = {n: op('default ' + n) for n, k, d in variables if d}
        self.names = [n for n, d in params] + (['extra'] if varkw else [])
        self.required = {n for n, d in params if not d}

    def parts(self):
        po = [n + ('=D_%s' % n if n in self.vdefault else '') for n, k, d in self.vars if k == 'po']
        pk = [n + ('=D_%s' % n if n in self.vdefault else '') for n, k, d in self.vars if k == 'pk']
        ko = [n + ('=D_%s' % n if n in self.vdefault else '') for n, k, d in self.vars if k == 'ko']
        pr = [n + ('=D_%s' % n if n in self.default else '') for n, d in self.params]
        return po + (['/'] if po else []) + pk, ko, pr + (['**more'] if self.varkw else [])

    def env(self):
        return {'D_' + n: v for n, v in list(self.default.items()) + list(self.vdefault.items())}

    def calls(self):
        """ways to pass the variables: arguments, keywords, what is received"""
        pos = [n for n, k, d in self.vars if k != 'ko']
        for m in range(len(pos) + 1):
            # the first m by position
            if any(k == 'po' for n, k, d in self.vars[m:]):
                continue
            rest = [n for n, k, d in self.vars if n not in pos[:m]]
            opt = [n for n in rest if n in self.vdefault]
            for r in range(len(opt) + 1):
                for left in itertools.combinations(opt, r):
                    given = [n for n in rest if n not in left]
                    if not m and not given:
                        continue
                    v = {n: op(n) for n in pos[:m] + given}
                    yield tuple(v[n] for n in pos[:m]), {n: v[n] for n in given}, {n: v.get(n, self.vdefault.get(n)) for n, k, d in self.vars}

    def values(self, names):
        return {n: op(n) for n in names}

    def received(self, params):
        got = {n: params.get(n, self.default.get(n)) for n, d in self.params}
        if self.varkw:
            got['more'] = {n: v for n, v in params.items() if n not in got}
        return got

    def subsets(self, required=False):
        for r in range(len(self.names) + 1):
            for s in itertools.combinations(self.names, r):
                if not required or self.required <= set(s):
                    yield s

    def reported(self, params):
        return {**self.default, **params}


def the_function(sig):
    calls = []

    def record(v, p):
        r = op('result')
        calls.append((v, p, r))
        return r
    a, ko, pr = sig.parts()
    names = [n for n, k, d in sig.vars]
    src = 'def g(%s):\n    return record({%s}, {%s})' % (
        ', '.join(a + (['*'] if ko + [x for x in pr if x != '**more'] else []) + ko + pr), ', '.join('%r: %s' % (n, n) for n in names),
        ', '.join('%r: %s' % (n, n) for n in [n for n, d in sig.params] + (['more'] if sig.varkw else [])))
    env = dict(sig.env(), record=record)
    exec(src, env)
    return env['g'], calls, src


def the_class(sig, callkw=False):
    calls, inits, seen = [], [], []

    def record(self, v):
        r = op('result')
        calls.append((v, self.state, r))
        seen.append(dict(self.params) if kf('iskfunc')(self) else None)
        return r
    a, ko, pr = sig.parts()
    names = [n for n, k, d in sig.vars]
    src = ('class W:\n    def __init__(self%s):\n        inits.append(self)\n        self.state = {%s}\n'
           '    def __call__(self, %s):\n        return record(self, {%s})\n'
           '    def other(self):\n        return self.state\n') % (
        ''.join(', ' + x for x in (['*'] if [x for x in pr if x != '**more'] else []) + pr),
        ', '.join('%r: %s' % (n, n) for n in [n for n, d in sig.params] + (['more'] if sig.varkw else [])),
        ', '.join(a + (['*'] + ko if ko else []) + (['**callmore'] if callkw else [])), ', '.join('%r: %s' % (n, n) for n in names))
    env = dict(sig.env(), record=record, inits=inits)
    exec(src, env)
    env['W'].seen = seen
    return env['W'], calls, inits, src


class Case:
    """a wrapped object: the instance to be called, and what it was made of"""

    def __init__(self, K, sig, calls):
        self.K, self.sig, self.calls = K, sig, calls

    def called(self, nm, f, a, k, d, v, params):
        """f(variables, d) calls the wrapped object once, with these variables and parameters, and gives its result"""
        del self.calls[:]
        r = f(*a, **k, **d)
        check(nm + '-once', len(self.calls) == 1)
        if len(self.calls) != 1:
            return
        gv, gp, gr = self.calls[0]
        check(nm + '-variables', alike(gv, v))
        check(nm + '-parameters', alike(gp, self.sig.received(params)), note='%r %r' % (gp, params))
        check(nm + '-result', r is gr)
        seen = getattr(self.K, 'seen', None)
        if seen:
            want = self.sig.reported(params)
            check(nm + '-reported-inside', all(n in seen[-1] and seen[-1][n] is want[n] for n in want))

    def instance(self, nm, x, params, deep=True):
        """x is an instance with these parameters"""
        sig = self.sig
        check(nm + '-type', type(x) is self.K and kf('iskfunc')(x))
        if type(x) is not self.K:
            return
        for n, (a, k, v) in enumerate(sig.calls()):
            self.called(nm + '-call', x, a, k, {}, v, params)
        self.reports(nm, x, params)

    def reports(self, nm, x, params):
        p = x.params
        want = self.sig.reported(params)
        check(nm + '-reported', isinstance(p, dict) and set(want) <= set(p) and all(p[n] is want[n] for n in want)
              and all(p[n] is EMPTY for n in set(p) - set(want)))
        # the report is not shared
        p.clear()
        check(nm + '-report-copied', set(want) <= set(x.params))

    def state(self, x):
        return dict(vars(x))

    def step(self, make, params, depth):
        """all the calls of the instance made with these parameters"""
        sig = self.sig
        x = make(params)
        self.instance('instance', x, params)
        before = {k: (v, dict(v) if isinstance(v, dict) else None) for k, v in self.state(x).items()}

        def unchanged(nm):
            now = self.state(x)
            check(nm + '-unmodified', set(now) == set(before) and all(
                now[k] is before[k][0] and (before[k][1] is None or alike(dict(now[k]), before[k][1])) for k in now))
        unchanged('call')
        calls = list(sig.calls())
        for m, s in enumerate(sig.subsets()):
            d = sig.values(s)
            if not d:
                continue
            new = {**params, **d}
            a, k, v = calls[m % len(calls)]
            given = dict(d)
            self.called('override', x, a, k, d, v, new)
            check('override-arguments', alike(d, given))
            unchanged('override')
            y = x(**d)
            check('new-instance', y is not x)
            unchanged('new')
            if depth:
                # the same state as the one made directly: so are all its calls
                self.same_state(y, make(new), new)
                self.instance('new', y, new)
            unchanged('new-call')

    def same_state(self, y, z, params):
        a, b = self.state(y), self.state(z)
        check('same-attributes', set(a) == set(b))
        for n in set(a) & set(b):
            if not alike(a[n], b[n]):
                y.__dict__[n] = op('attribute ' + n)


VARS = {'1': [('u', 'pk', False)], '2': [('u', 'pk', False), ('v', 'pk', False)], '2d': [('u', 'pk', False), ('v', 'pk', True)],
        '1d': [('u', 'pk', True)], 'p': [('u', 'po', False), ('v', 'pk', True)], '3': [('u', 'pk', False), ('v', 'pk', True), ('w', 'ko', True)],
        'k': [('u', 'ko', False)], '2k': [('u', 'pk', False), ('v', 'ko', False)]}
PARAMS = {'0': [], '1': [('a', True)], '1r': [('a', False)], '2': [('a', True), ('b', True)], '2r': [('a', False), ('b', True)],
          '3': [('a', True), ('b', False), ('c', True)]}


def functions(vk, pk, varkw):
    sig = Sig(VARS[vk], PARAMS[pk], varkw)
    g, calls, src = the_function(sig)
    K = kf()(nvar=len(sig.vars))(g)
    check('kfunc', kf('iskfunc')(K) and not kf('iskfunc')(g) and K.__name__ == 'g')
    C = Case(K, sig, calls)
    # with variables and parameters: as the function
    for s in sig.subsets(True):
        for a, k, v in sig.calls():
            d = sig.values(s)
            del calls[:]
            g(*a, **k, **d)
            check('contract', alike(calls[0][:2], (v, sig.received(d))))
            C.called('direct', K, a, k, d, v, d)
    for s in sig.subsets(True):
        C.step(lambda p: K(**p), sig.values(s), True)
    # parameters with no default may be given later
    for s in sig.subsets():
        if sig.required <= set(s):
            continue
        d = sig.values(s)
        x = K(**d)
        e = sig.values(sig.required - set(s))
        for a, k, v in sig.calls():
            C.called('later', x, a, k, e, v, {**d, **e})
        C.instance('completed', x(**e), {**d, **e})
    reach('end')


for _v in VARS:
    for _p in PARAMS:
        for _k in (False, True):
            vc('P25', 'function_%s_%s_%s' % (_v, _p, _k), reach=('end',))(lambda v=_v, p=_p, k=_k: functions(v, p, k))


def classes(vk, pk, varkw, how):
    sig = Sig(VARS[vk], PARAMS[pk], varkw)
    W, calls, inits, src = the_class(sig, how == 'callkw')
    kfunc = kf()
    base = W
    if how == 'subclass':
        class V(W):
            """nothing changed"""
        base = V
    elif how == 'cooperative':
        class V(W):
            def __init__(self, **args):
                super().__init__(**args)

            def __call__(self, *v, **args):
                return super().__call__(*v, **args)
            __init__.__wrapped__ = W.__init__
            __call__.__wrapped__ = W.__call__
        base = V
    elif how == 'params':
        class V(W):
            params = None
        base = V
    with warnings.catch_warnings():
        warnings.simplefilter('ignore', RuntimeWarning)
        K = kfunc(base)
        if how == 'again':
            class V(K):
                pass
            K = kfunc(V)
            base = V
    check('kfunc', kf('iskfunc')(K) and issubclass(K, W) and K.__name__ == base.__name__ and not kf('iskfunc')(W))
    C = Case(K, sig, calls)
    for s in sig.subsets(True):
        for a, k, v in sig.calls():
            d = sig.values(s)
            # as the class, instantiated with the parameters and called
            del calls[:], inits[:]
            W(**d)(*a, **k)
            check('contract', alike(calls[0][:2], (v, sig.received(d))))
            del inits[:]
            C.called('direct', K, a, k, d, v, d)
            check('direct-init', len(inits) == 1)
    for s in sig.subsets(True):
        d = sig.values(s)
        x = K(**d)
        check('methods', alike(x.other(), sig.received(d)))
        for e in sig.subsets():
            e = sig.values(e)
            if e:
                del inits[:]
                y = x(**e)
                check('new-init', len(inits) == 1 and inits[0] is y)
                check('methods-new', alike(y.other(), sig.received({**d, **e})))
                check('methods-kept', alike(x.other(), sig.received(d)))
        C.step(lambda p: K(**p), d, True)
    reach('end')


for _v in ('1', '2d', '1d', '3', 'p'):
    for _p in PARAMS:
        for _k in (False, True):
            vc('P25', 'class_%s_%s_%s' % (_v, _p, _k), reach=('end',))(lambda v=_v, p=_p, k=_k: classes(v, p, k, ''))
for _h in ('subclass', 'cooperative', 'params', 'again'):
    for _v in ('1', '2d'):
        for _p in ('1', '2', '2r'):
            vc('P25', 'class_%s_%s_%s' % (_h, _v, _p), reach=('end',))(lambda v=_v, p=_p, h=_h: classes(v, p, False, h))


def values_kept():
    """values which are functions, None, numbers, containers, types are passed on as well"""
    for z in (None, 0, 0., '', (), [], {}, int, len, lambda: 0, (lambda t: t), EMPTY, arr('z', (dim('N', 1),)), real('z'), float('nan')):
        got = []

        def g(u, *, a=1, b=2):
            got.append((u, a, b))
            return z

        class W:
            def __init__(self, *, a=1, b=2):
                self.a, self.b = a, b

            def __call__(self, u):
                got.append((u, self.a, self.b))
                return z
        for K in (kf()(nvar=1)(g), kf()(W)):
            def same(nm, *w):
                check(nm, len(got) == 1 and all(p is q or isinstance(p, int) and not isinstance(p, bool) and p == q
                                                for p, q in zip(got[0], w)), note=repr(z))
                del got[:]
            check('result', K(z, a=z) is z)
            same('direct', z, z, 2)
            x = K(a=z)
            x(z)
            same('instance', z, z, 2)
            x(z, b=z)
            same('override', z, z, z)
            x(z, a=5)
            same('override-by', z, 5, 2)
            y = x(b=z)
            y(u=z)
            same('new', z, z, z)
            check('reported', y.params['a'] is z and y.params['b'] is z)
            y(z, a=3)
            same('new-override', z, 3, z)
            x(z)
            same('kept', z, z, 2)
    reach('end')


vc('P25', 'values', reach=('end',))(values_kept)


def equations(q):
    """processes: reported parameters include those of the equation, as used"""
    I = fn('integration', 'integrator')
    seen = []
    if q:
        class E(fn('integration', 'SDEs'), I):
            q = 2

            def sde(self, t, x, y, mu=.5, sigma=2.):
                seen.append((t, mu, sigma))
                return {'dt': mu}, {'dw': sigma}
    else:
        class E(fn('integration', 'SDE'), I):
            def sde(self, t, x, mu=.5, sigma=2.):
                seen.append((t, mu, sigma))
                return {'dt': mu, 'dw': sigma}
    P, V = dim('P', 1), dim('V', 1)
    K = kf()(E)
    par = dict(paths=P, vshape=(V,), mu=real('mu'), x0=real('x0'))
    dflt = dict(paths=None, sigma=const(2), mu=div(1, 2), x0=ONE)

    def reported(nm, x, given):
        p = x.params
        for n in ('mu', 'sigma', 'x0'):
            check_eq('%s-%s' % (nm, n), term(asarr(p[n])), tm(given[n]) if n in given else dflt[n])
        for n in ('paths', 'vshape', 'rng', 'steps'):
            if n in given:
                check('%s-%s' % (nm, n), p[n] is given[n])
        check(nm + '-names', {'paths', 'vshape', 'dtype', 'rng', 'steps', 'i0', 'info', 'getinfo', 'method', 'mu', 'sigma', 'x0'} <= set(p))
        check(nm + '-paths', x.paths is given['paths'])
        check(nm + '-args', 'mu' in x.args)
    x = K(**par)
    reported('instance', x, par)
    y = x(sigma=real('sigma'))
    reported('new', y, dict(par, sigma=real('sigma')))
    reported('kept', x, par)
    z = y(mu=3., steps=arr('u', (dim('S', 1),)))
    check_eq('overridden', term(asarr(z.params['mu'])), const(3))
    check_eq('overridden-kept', term(asarr(z.params['sigma'])), var('sigma'))
    w = z(paths=dim('Q', 1))
    check('shape', w.paths is not z.paths)
    check_eq('shape-kept', term(asarr(w.params['mu'])), const(3))
    check_shape('shape-given', tuple(w.vshape), (V,))
    reported('kept-again', x, par)
    reach('end')


for _q in (0, 1):
    vc('P25', 'equations_%d' % _q, reach=('end',))(lambda q=_q: equations(q))


SOURCES = dict(dw='wiener_source', dn='poisson_source', dj='cpoisson_source', odd_dw='odd_wiener_source',
               even_dn='even_poisson_source', even_dj='even_cpoisson_source', true_dw='true_wiener_source',
               true_dn='true_poisson_source', true_dj='true_cpoisson_source')
PROCS = dict(wiener='wiener_process', lognorm='lognorm_process', oruh='ornstein_uhlenbeck_process', hwff='hull_white_process',
             hw1f='hull_white_1factor_process', cir='cox_ingersoll_ross_process', heston_xy='full_heston_process',
             heston='heston_process', jumpdiff='jumpdiff_process', mjd='merton_jumpdiff_process', kou='kou_jumpdiff_process')


def class_shortcut(short, m, long):
    S, W = fn('shortcuts', short), fn(m, long)
    check('kfunc', kf('iskfunc')(S) and not kf('iskfunc')(W))
    check('of-class', isinstance(S, type) and issubclass(S, W))
    check('nothing-else', [k for k in S.__mro__ if '_is_kfunc' not in vars(k)] == list(W.__mro__))
    check('full-name', fn('shortcuts', long) is W)
    x = S(paths=2 if 'odd' in short or 'even' in short else 3)
    check('instance', isinstance(x, W) and kf('iskfunc')(x))
    y = x(vshape=(5,))
    check('new', isinstance(y, W) and tuple(y.vshape) == (5,) and y.paths == x.paths and tuple(x.vshape) == ())
    reach('end')


for _m, _d in ((I_, SOURCES), ('integration', PROCS)):
    for _s, _l in _d.items():
        vc('P25', 'shortcut_' + _s, reach=('end',))(lambda s=_s, m=_m, l=_l: class_shortcut(s, m, l))


FUNCS = {}
for _x in 'wiener lognorm oruh hw1f hw2f'.split():
    FUNCS.update({_x + '_mean': 1, _x + '_var': 1, _x + '_std': 1, _x + '_pdf': 2, _x + '_cdf': 2})
FUNCS.update(wiener_chf=2, lognorm_log_chf=2, cir_mean=1, cir_var=1, cir_std=1, cir_pdf=2, heston_log_mean=1, heston_log_var=1,
             heston_log_std=1, heston_log_chf=2, heston_log_pdf=2, mjd_mean=1, mjd_log_chf=2, mjd_log_pdf=2, kou_mean=1,
             kou_log_chf=2, kou_log_pdf=2, bsd1d2=2, bscall=2, bscall_delta=2, bsput=2, bsput_delta=2)


def function_shortcut(n, nvar):
    S, f = fn('shortcuts', n), fn('analytical', n)
    check('kfunc', kf('iskfunc')(S) and not kf('iskfunc')(f))
    sig = inspect.signature(f).parameters
    v = [k for k, p in sig.items() if p.kind != p.KEYWORD_ONLY]
    par = {k: p.default for k, p in sig.items() if p.kind == p.KEYWORD_ONLY}
    check('variables', len(v) == nvar)
    # what the function is called with
    got = []
    cells = [c for c in closures(S) if c.cell_contents is f]
    if not cells:
        # compared by results
        V = [real(k) for k in v]
        for x in V:
            assume(lt(ZERO, term(x)))
        a, b = S(*V), f(*V)
        for x, y in zip(a, b) if isinstance(b, tuple) else [(a, b)]:
            check_eq('result', term(asarr(x)), term(asarr(y)))
        raise Unsupported('%s: the function wrapped was not found' % n)

    def spy(*a, **k):
        b = inspect.signature(f).bind(*a, **k)
        b.apply_defaults()
        r = op('result')
        got.append((dict(b.arguments), r))
        return r
    for c in cells:
        c.cell_contents = spy
    try:
        def same(nm, r, params):
            if not got:
                raise Unsupported('%s: the function wrapped was not found' % n)
            check(nm, len(got) == 1 and got[0][1] is r and all(got[0][0][k] is z for k, z in zip(v, V))
                  and all(got[0][0][k] is params.get(k, par[k]) for k in par))
            del got[:]
        V = [op(k) for k in v]
        for k in par:
            d, e = {k: op(k)}, {k: op(k), **{j: op(j) for j in par if j < k}}
            same('direct', S(*V, **e), e)
            x = S(**d)
            same('instance', x(*V), d)
            same('override', x(*V, **e), {**d, **e})
            y = x(**{j: z for j, z in e.items() if j != k} or e)
            same('new', y(*V), {**d, **({j: z for j, z in e.items() if j != k} or e)})
            check('reported', all(x.params[j] is d.get(j, par[j]) for j in par) and set(x.params) == set(par))
        same('defaults', S(*V), {})
        check('reported-defaults', all(S().params[j] is par[j] for j in par))
    finally:
        for c in cells:
            c.cell_contents = f
    reach('end')


def closures(x, seen=None, depth=4):
    """cells reachable from the methods of a class"""
    seen = {} if seen is None else seen
    if id(x) in seen or not depth:
        return
    seen[id(x)] = x
    if isinstance(x, type):
        for b in x.__mro__:
            for y in vars(b).values():
                yield from closures(y, seen, depth)
    elif hasattr(x, '__closure__') and x.__closure__:
        for c in x.__closure__:
            if c.cell_contents is not None and not isinstance(c.cell_contents, type):
                yield c
                yield from closures(c.cell_contents, seen, depth - 1)


for _n, _v in FUNCS.items():
    vc('P25', 'function_shortcut_' + _n, reach=('end',))(lambda n=_n, v=_v: function_shortcut(n, v))
