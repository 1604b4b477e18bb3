"""P20: systems of equations."""
from pyvc.api import *
from .common import *
from .steps import *

ASSUMPTIONS = [RANK_NOTE, HOOK_NOTE, 'numbers of equations: 1 to 3; with the log flag, initial values are positive']


def place(vs, addaxis, q):
    """index, in the stacked state, of entry idx (path last) of unknown k"""
    if addaxis or not vs:
        return lambda k, idx: idx[:-1] + (const(k), idx[-1])
    d = tm(vs[-1])
    return lambda k, idx: idx[:-2] + (add(mul(const(k), d), idx[-2]), idx[-1])


def system(q, addaxis, log_=False, **d):
    return type('K', (integ('SDEs'), integ('integrator')), dict(q=q, addaxis=addaxis, log=log_, **d))


def stacked(vs, addaxis, q):
    if addaxis or not vs:
        return vs + (q,)
    return vs[:-1] + (Sym(mul(tm(vs[-1]), const(q)), 'i'),)


def sde_of(q, f):
    """a function of q unknowns"""
    if q == 1:
        return lambda self, t, x: f(t, x)
    if q == 2:
        return lambda self, t, x, y: f(t, x, y)
    return lambda self, t, x, y, z: f(t, x, y, z)


def step(q, addaxis, rank, missing=None, shift=0, twice=False):
    vs, P = vdims(rank), dim('P', 1)
    full = vs + (P,)
    w = stacked(vs, addaxis, q)
    pos = place(vs, addaxis, q)
    log, calls = [], []
    sh = shapes_like(full)
    ids = ('dt', 'dw', 'dn')
    co = [{id: coefficient('c%d_%s' % (n, id), sh[(n + m + shift) % len(sh)], full) for m, id in enumerate(ids)
           if missing is None or (n, id) not in missing} for n in range(q)]

    def f(t, *xs):
        calls.append((tm(t), [(x, x.at(*indices(x.shape, 'seen')) if len(x.shape) == len(full) else None) for x in xs]))
        r = [{id: c[0] for id, c in co[n].items()} for n in range(q)]
        return tuple(r) if shift % 2 else r
    S = {id: Source(id, P, w, log) for id in ids if id != 'dt'}
    p = system(q, addaxis, sources=set(ids), sde=sde_of(q, f))(paths=P, vshape=vs, **S)
    check_shape('space', p.wshape + (p.paths,), w + (P,))
    check_shape('output', p.xshape, w)
    st = Step.second(p, log, calls) if twice else Step(p)
    st.next()
    check('once', len(calls) == 1 and len(calls[0][1]) == q)
    check_eq('time', calls[0][0], st.s)
    for n, (x, v) in enumerate(calls[0][1]):
        if check_shape('unknown-shape', x.shape, full):
            k = indices(x.shape, 'seen')
            check_eq('unknown', v, st.x(*pos(n, k)))
    check('sources', [x[0] for x in log] == ['dn', 'dw'])
    for n in range(q):
        k = indices(full, 'k%d' % n)
        g = pos(n, k)
        inc = lambda id: st.ds if id == 'dt' else increment(id, *g)
        check_eq('new-state', st.new(*g), add(st.x(*g), *[mul(c[1](*k), inc(id)) for id, c in co[n].items()]))
    reach('end')


for _q in (1, 2, 3):
    for _a in (False, True):
        for _r in (0, 1, 2):
            for _s in range(5 if _r == 1 else 2):
                vc('P20', 'step_%d_%s_%d_%d' % (_q, _a, _r, _s), reach=('end',))(lambda q=_q, a=_a, r=_r, s=_s: step(q, a, r, None, s))
            if _r == 1 or _q == 2:
                vc('P20', 'second_step_%d_%s_%d_%d' % (_q, _a, _r, _s), reach=('end',))(lambda q=_q, a=_a, r=_r, s=_s: step(q, a, r, None, s, True))
for _n, _m in enumerate([{(0, 'dw')}, {(1, 'dw')}, {(0, 'dt'), (1, 'dt')}, {(0, 'dt'), (1, 'dw'), (1, 'dn')},
                         {(0, 'dt'), (0, 'dw'), (0, 'dn')}, {(i, j) for i in (0, 1) for j in ('dt', 'dw', 'dn')}]):
    for _a in (False, True):
        vc('P20', 'missing_%d_%s' % (_n, _a), reach=('end',))(lambda m=_m, a=_a: step(2, a, 1, m))


def lossless(q, addaxis, rank):
    """splitting and reassembling"""
    vs, P = vdims(rank), dim('P', 1)
    full = vs + (P,)
    w = stacked(vs, addaxis, q)
    pos = place(vs, addaxis, q)
    p = system(q, addaxis, sources={'dt'})(paths=P, vshape=vs)
    X = arr('X', w + (P,))
    xs = p.unpack(X)
    check('number', len(xs) == q)
    for n, x in enumerate(xs):
        if check_shape('part-shape', x.shape, full):
            k = indices(full, 'k%d' % n)
            check_eq('part', x.at(*k), elt('X', *pos(n, k)))
    Y = p.pack(xs)
    if check_shape('whole-shape', Y.shape, w + (P,)):
        k = indices(w + (P,), 'w')
        check_eq('whole', Y.at(*k), elt('X', *k))
    # parts of any shape which broadcasts
    sh = shapes_like(full)
    cs = [coefficient('p%d' % n, sh[(n + rank) % len(sh)], full) for n in range(q)]
    Z = p.pack(tuple(c[0] for c in cs))
    if check_shape('packed-shape', Z.shape, w + (P,)):
        for n in range(q):
            k = indices(full, 'z%d' % n)
            check_eq('packed', Z.at(*pos(n, k)), cs[n][1](*k))
    for n, (u, c) in enumerate(zip(p.unpack(Z), cs)):
        k = indices(full, 'u%d' % n)
        if check_shape('again-shape', u.shape, full):
            check_eq('again', u.at(*k), c[1](*k))
    # parts refer to the stacked state
    V = arr('V', w + (P,))
    p.unpack(V)[q - 1][...] = 7.
    k = indices(full, 'v')
    check_eq('refers', V.at(*pos(q - 1, k)), const(7))
    if q > 1:
        check_eq('apart', V.at(*pos(0, k)), elt('V', *pos(0, k)))
    reach('end')


for _q in (1, 2, 3):
    for _a in (False, True):
        for _r in (0, 1, 2, 3):
            vc('P20', 'lossless_%d_%s_%d' % (_q, _a, _r), reach=('end',))(lambda q=_q, a=_a, r=_r: lossless(q, a, r))


def begin(q, addaxis, rank, log_, how):
    vs, P = vdims(rank), dim('P', 1)
    full = vs + (P,)
    w = stacked(vs, addaxis, q)
    pos = place(vs, addaxis, q)
    if how == 'scalar':
        x0, value = real('x0'), lambda n, *k: var('x0')
    elif how == 'list':
        x0, value = [real('x0%d' % n) for n in range(q)], lambda n, *k: var('x0%d' % n)
    elif how == 'array':
        x0, value = arr('x0', (q,) + full), lambda n, *k: elt('x0', const(n), *k)
    else:
        x0 = arr('x0', (q,) + vs + (1,))
        value = lambda n, *k: elt('x0', const(n), *k[:-1], ZERO)
    p = system(q, addaxis, log_, sources={'dt'})(paths=P, vshape=vs, x0=x0)
    st = Step(p, 'begin')
    p.begin()
    X = asarr(st.xw.items[(0,)])
    if check_shape('shape', X.shape, w + (P,)):
        for n in range(q):
            k = indices(full, 'k%d' % n)
            v = value(n, *k)
            if log_:
                ctx().assume(lt(ZERO, v))
            check_eq('initial-state', X.at(*pos(n, k)), flog(v) if log_ else v)
    reach('end')


for _q in (1, 2, 3):
    for _a in (False, True):
        for _r in (0, 1, 2):
            for _h in ('scalar', 'list', 'array', 'column'):
                vc('P20', 'begin_%d_%s_%d_%s' % (_q, _a, _r, _h), reach=('end',))(
                    lambda q=_q, a=_a, r=_r, h=_h: begin(q, a, r, h in ('scalar', 'array'), h))


def leave(q, addaxis, rank, log_):
    vs, P, N = vdims(rank), dim('P', 1), dim('N', 1)
    full = (N,) + vs + (P,)
    w = stacked(vs, addaxis, q)
    pos = place(vs, addaxis, q)
    p = system(q, addaxis, log_, sources={'dt'})(paths=P, vshape=vs)
    # the state is stored
    st = Step(p, 'store')
    p.store(Sym(st.i, 'i'), st.k)
    k = indices(w + (P,), 's')
    check_eq('stored', p.itervars['xx'].at(st.i, *k), elt('x' if st.k == 0 else 'left', *k))
    del p.itervars
    # and returned
    tt, xx = arr('t', (N,)), arr('xx', (N,) + w + (P,))
    r = p.exit(tt, xx)
    check('one-per-unknown', isinstance(r, tuple) and len(r) == q)
    for n, x in enumerate(r):
        def value(*k):
            v = elt('xx', k[0], *pos(n, k[1:]))
            return fexp(v) if log_ else v
        check_process('result%d' % n, x, full, value, lambda k: elt('t', k))
    reach('end')


for _q in (1, 2, 3):
    for _a in (False, True):
        for _r in (0, 1, 2):
            for _l in (False, True):
                vc('P20', 'result_%d_%s_%d_%s' % (_q, _a, _r, _l), reach=('end',))(lambda q=_q, a=_a, r=_r, l=_l: leave(q, a, r, l))


@vc('P20', reach=('end',))
def rejections():
    P, V = dim('P', 1), dim('V', 1)
    ok = {'dt': 1.}

    def bad(nm, exc, A):
        for a in (False, True):
            p = system(2, a, sources={'dt'}, sde=sde_of(2, lambda t, x, y: A))(paths=P, vshape=(V,))
            st = Step(p)
            expect_raise(nm, exc, p.next)
    bad('few', ValueError, (ok,))
    bad('few-list', ValueError, [ok])
    bad('none', ValueError, ())
    bad('many', ValueError, (ok, ok, ok))
    for n, A in enumerate((ok, None, 1., arr('a', (2,)), {0: ok, 1: ok}, iter((ok, ok)))):
        bad('type%d' % n, TypeError, A)
    for n, A in enumerate(((ok, None), (ok, 1.), (arr('a', (2,)), ok), (ok, (ok,)), [ok, [('dt', 1.)]])):
        bad('entry%d' % n, TypeError, A)
    bad('unknown', KeyError, (ok, {'dq': 1.}))
    bad('unknown-first', KeyError, ({'dw': 1.}, ok))
    for q in (0, -1):
        expect_raise('number', ValueError, system(q, False), paths=P)
    reach('end')
