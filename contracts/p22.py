"""P22: the integrate decorator."""
from pyvc.api import *
from .common import *
from .steps import *
from .p18 import parameter, check_value
from .p20 import place, stacked

ASSUMPTIONS = [RANK_NOTE, HOOK_NOTE, 'the function given returns arbitrary coefficients (arrays of any shape which broadcasts), for '
               'enumerated sets of sources and 1 to 3 equations; with the log flag, initial values are positive']

IDS = ('dt', 'dw', 'dn', 'dj')


class Function:
    """a function of time, states and a parameter: what it is called with, and what it returns"""

    def __init__(self, q, names, full, form, shift=0, fails=()):
        sh = shapes_like(full)
        self.calls = []
        n = max(q, 1)
        self.co = [{id: coefficient('c%d_%s' % (k, id), sh[(k + m + shift) % len(sh)], full) for m, id in enumerate(names[k])}
                   for k in range(n)]

        def value(t, xs, a):
            if len(self.calls) < len(fails):
                self.calls.append(None)
                raise fails[len(self.calls) - 1]('test')
            self.calls.append((t, xs, a))
            r = [{id: c[0] for id, c in d.items()} for d in self.co]
            return r[0] if q == 0 else form(r)
        # (test evaluations call the function with no arguments, or with a time and a state)
        if q < 2 and shift % 2:
            def f(t, x, a=.5):
                return value(t, (x,), a)
        elif q < 2:
            def f(t=0., x=1., a=.5):
                return value(t, (x,), a)
        elif q == 2:
            def f(time=0., u=1., v=1., a=.5):
                return value(time, (u, v), a)
        else:
            def f(s=0., x=1., y=1., z=1., *, a=.5):
                return value(s, (x, y, z), a)
        self.f = f


def names_of(q, sources, drop):
    """names of the sources in each mapping, so that all occur"""
    n = max(q, 1)
    return [tuple(id for m, id in enumerate(sources) if n == 1 or not drop or (m + k) % n != 0 or len(sources) == 1) for k in range(n)]


SETTINGS = ('none', 'q', 'sources', 'both')


def decorate(F, q, sources, setting, log, addaxis, use):
    kw = {}
    if setting in ('q', 'both'):
        kw['q'] = q
    if setting in ('sources', 'both'):
        kw['sources'] = (set, tuple, list)[q % 3](sources)
    if log is not None:
        kw['log'] = log
    if addaxis is not None:
        kw['addaxis'] = addaxis
    integrate = integ('integrate')
    if use == 'direct':
        cls = integrate(F.f, **kw)
    elif use == 'keyword':
        cls = integrate(sde=F.f, **kw)
    else:
        cls = integrate(**kw)(F.f)
    if setting == 'both':
        check('not-evaluated', not F.calls)
    F.calls.clear()
    return cls


def space(q, addaxis, vs):
    if q == 0:
        return vs, lambda k, idx: idx
    return stacked(vs, addaxis, q), place(vs, addaxis, q)


def step(q, rank, setting, log, addaxis, use, sources, shift, drop, kind):
    vs, P = vdims(rank), dim('P', 1)
    full = vs + (P,)
    F = Function(q, names_of(q, sources, drop), full, (tuple, list)[shift % 2], shift)
    given = [id for d in F.co for id in d]
    check('contract', set(given) == set(sources))
    cls = decorate(F, q, sources, setting, log, addaxis, use)
    SDE, SDEs = integ('SDE'), integ('SDEs')
    check('class', isinstance(cls, type) and issubclass(cls, SDE) and issubclass(cls, integ('integrator')))
    check('kind', issubclass(cls, SDEs) == (q > 0))
    w, pos = space(q, bool(addaxis), vs)
    slog = []
    kw = {id: Source(id, P, w, slog) for id in sources if id != 'dt'}
    if kind:
        kw['a'], ash, avalue = parameter('a', kind, full)
    p = cls(paths=P, vshape=vs, **kw)
    check('sources-used', set(p.sources) == set(sources))
    check_shape('space', tuple(p.wshape) + (p.paths,), w + (P,))
    check_shape('output', p.xshape, w)
    st = Step(p)
    st.next()
    check('function-once', len(F.calls) == 1)
    t, xs, a = F.calls[0]
    check_eq('time', tm(t), st.s)
    check('states', len(xs) == max(q, 1))
    for n, x in enumerate(xs):
        if check_shape('state-shape', x.shape, full):
            # (the state at the call: it is the one before the step)
            k = indices(full, 'seen')
            check_eq('state', x.at(*k), st.x(*pos(n, k)))
    if kind:
        check_value('parameter', a, full, ash, avalue(st.s))
    else:
        check_value('parameter', asarr(a), full, (), lambda: div(1, 2))
    check('sources-called', [x[0] for x in slog] == sorted(id for id in sources if id != 'dt'))
    for id, s, ds in slog:
        check_eq('source-time', s, st.s)
        check_eq('source-increment', ds, st.ds)
    for n in range(max(q, 1)):
        k = indices(full, 'k%d' % n)
        g = pos(n, k)
        inc = lambda id: st.ds if id == 'dt' else increment(id, *g)
        check_eq('new-state', st.new(*g), add(st.x(*g), *[mul(c[1](*k), inc(id)) for id, c in F.co[n].items()]))
    reach('end')


KN = (None, 'number', 'array', 'function', 'process', 'function-array')
_n = 0
for _q in (0, 1, 2, 3):
    for _r in (0, 1, 2):
        for _s in SETTINGS:
            for _a in (None, True, False):
                _n += 1
                _k = dict(q=_q, rank=_r, setting=_s, addaxis=_a, log=(None, True, False)[_n // 3 % 3],
                          use=('direct', 'decorator', 'keyword')[_n // 2 % 3],
                          sources=(('dt', 'dw'), IDS, ('dt',), ('dw', 'dn'), ('dn', 'dt', 'dj'))[_n % 5],
                          shift=_n % 7, drop=_n % 2 == 0, kind=KN[_n % 6])
                vc('P22', 'step_%d_%d_%s_%s' % (_q, _r, _s, _a), reach=('end',))(lambda k=_k: step(**k))


def ends(q, rank, log, addaxis, how):
    """initial values and results: as for the equations with these settings"""
    vs, P, N = vdims(rank), dim('P', 1), dim('N', 1)
    full = vs + (P,)
    F = Function(q, names_of(q, ('dt',), False), full, tuple)
    cls = decorate(F, q, ('dt',), 'none', log, addaxis, 'direct')
    w, pos = space(q, bool(addaxis), vs)
    x0, value = (real('x0'), lambda n, k: var('x0')) if how == 'scalar' else (
        (arr('x0', full), lambda n, k: elt('x0', *k)) if q == 0 else
        (arr('x0', (q,) + full), lambda n, k: elt('x0', const(n), *k)))
    p = cls(paths=P, vshape=vs, x0=x0)
    st = Step(p, 'begin')
    p.begin()
    X = asarr(st.xw.items[(0,)])
    if check_shape('shape', X.shape, w + (P,)):
        for n in range(max(q, 1)):
            k = indices(full, 'k%d' % n)
            v = value(n, k)
            if log:
                ctx().assume(lt(ZERO, v))
            check_eq('initial-state', X.at(*pos(n, k)), flog(v) if log else v)
    del p.itervars
    tt, xx = arr('t', (N,)), arr('xx', (N,) + w + (P,))
    r = p.exit(tt, xx)
    if q:
        check('one-per-equation', isinstance(r, tuple) and len(r) == q)
    for n, x in enumerate(r if q else (r,)):
        def value(*k):
            v = elt('xx', k[0], *pos(n, k[1:]))
            return fexp(v) if log else v
        check_process('result%d' % n, x, (N,) + full, value, lambda k: elt('t', k))
    reach('end')


for _q in (0, 1, 2, 3):
    for _r in (0, 1, 2):
        for _l in (None, False, True):
            for _a in (None, True):
                vc('P22', 'ends_%d_%d_%s_%s' % (_q, _r, _l, _a), reach=('end',))(
                    lambda q=_q, r=_r, l=_l, a=_a: ends(q, r, l, a, 'scalar' if (q + r) % 2 else 'array'))


def bad(nm, exc, f, **kw):
    integrate = integ('integrate')
    expect_raise(nm, exc, lambda: integrate(f, **kw))
    expect_raise(nm + '-decorator', exc, lambda: integrate(**kw)(f))


SETS = [(), ('dt',), ('dw',), ('dt', 'dw'), ('dt', 'dw', 'dn'), ('dn', 'dj')]


def inconsistent(q):
    """settings inconsistent with the function"""
    for sources in SETS[1:]:
        F = Function(q, names_of(q, sources, True), (dim('P', 1),), tuple, 0)
        for q2 in (0, 1, 2, 3):
            if q2 != q:
                bad('q', TypeError, F.f, q=q2)
        for s2 in SETS:
            if set(s2) != set(sources):
                bad('sources', TypeError, F.f, sources=s2)
        # consistent ones are not
        for s2 in (set(sources), tuple(reversed(sources)), list(sources) + [sources[0]]):
            integ('integrate')(F.f, sources=s2)
        integ('integrate')(F.f, q=q)
        integ('integrate')(F.f, q=q, sources=sources)
    reach('end')


for _q in (0, 1, 2, 3):
    vc('P22', 'inconsistent_%d' % _q, reach=('end',))(lambda q=_q: inconsistent(q))


@vc('P22', reach=('end',))
def empty():
    for E in ((), []):
        bad('empty', ValueError, lambda t, x: E)
        bad('empty-defaults', ValueError, lambda t=0., x=0.: E)
        for q in (0, 1):
            bad('empty-q', ValueError, lambda t, x: E, q=q)
        bad('empty-sources', ValueError, lambda t, x: E, sources={'dt'})
    reach('end')


@vc('P22', reach=('end',))
def not_evaluated():
    """a function which fails when called both with no arguments and with time and state"""
    ok = {'dt': 1.}
    for n, e in enumerate((RuntimeError, ValueError, TypeError, KeyError, ZeroDivisionError)):
        def f(t=0., x=0.):
            raise e('test')
        for k, kw in enumerate((dict(), dict(q=0), dict(sources={'dt'}), dict(log=True))):
            bad('fails%d-%d' % (n, k), TypeError, f, **kw)
    bad('arguments', TypeError, lambda t, x, y: (ok, ok))
    bad('parameters', TypeError, lambda t, x, a: ok)
    bad('keyword-parameters', TypeError, lambda t, x, *, a: ok)
    bad('time-only', TypeError, lambda t: ok)
    # one of the two is enough
    n = []

    def g(*a):
        n.append(a)
        if not a:
            raise ValueError('test')
        return ok
    integ('integrate')(g)
    check('second', len(n) == 2 and len(n[1]) == 2)
    for x in n[1]:
        check_eq('test-value', term(asarr(x)), ONE)
    h = []

    def g0(*a):
        h.append(a)
        if a:
            raise ValueError('test')
        return ok
    integ('integrate')(g0)
    check('first', h == [()])
    # with all settings given, no evaluation takes place
    def never(t, x, a):
        raise ValueError('test')
    for q in (0, 1, 2):
        for s in SETS:
            cls = integ('integrate')(never, q=q, sources=s)
            check('explicit-kind', issubclass(cls, integ('SDEs')) == (q > 0))
    reach('end')


def undecorated():
    """the settings of a class do not leak to others, nor to those of the library"""
    SDE, SDEs, I = integ('SDE'), integ('SDEs'), integ('integrate')
    before = (set(SDE.sources), SDE.log, SDE.q, SDE.addaxis, set(SDEs.sources), SDEs.log, SDEs.q, SDEs.addaxis)
    ok = {'dt': 1., 'dn': 1.}
    f = lambda t, x: ok
    g = lambda t=0, x=0, y=0: (ok, {'dw': 1})
    A = I(f, log=True)
    B = I(g, addaxis=True)
    C = I(f)
    D = I(g, log=True)
    check('log', A.log is True and not C.log and not B.log and D.log is True)
    check('axis', B.addaxis is True and not D.addaxis)
    check('q', B.q == 2 and D.q == 2)
    check('sources', set(A.sources) == set(C.sources) == {'dt', 'dn'} and set(B.sources) == set(D.sources) == {'dt', 'dn', 'dw'})
    check('library', before == (set(SDE.sources), SDE.log, SDE.q, SDE.addaxis, set(SDEs.sources), SDEs.log, SDEs.q, SDEs.addaxis))
    reach('end')


vc('P22', 'undecorated', reach=('end',))(undecorated)
