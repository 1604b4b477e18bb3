"""P07: differences, derivative and integral along the timeline."""
from pyvc.api import *
from .common import *

ASSUMPTIONS = [RANK_NOTE, 'float and complex processes (integer processes truncate); distinct consecutive times; '
               'exponents of the step: 0, 1, 2, -1 and 1/2']


def step(i, e=1):
    return t_.power(tel(i + ONE) - tel(i), tm(e))


def diff(r, dt, exp, fwd):
    p = mkproc(rank=r, dtype=dt)
    N = p.shape[0]
    assume(lt(ONE, tm(N)))
    e = el_of('x', dt)
    kw = {}
    if exp is not None:
        kw['dt_exp'] = exp
    if fwd is not None:
        kw['fwd'] = fwd
    # the timeline may be used before
    if ctx().choose():
        p.dt
    q = p.tdiff(**kw)
    x = ZERO if exp is None else tm(exp)
    scale = (lambda i: ONE) if x is ZERO else (lambda i: step(i, -Fr(exp)))
    at = (lambda i: i) if fwd is not False else (lambda i: i + ONE)
    check_process('tdiff', q, (N - 1,) + p.shape[1:],
                  lambda *i: (e(i[0] + ONE, *i[1:]) - e(*i))*scale(i[0]), lambda i: tel(at(i)))
    idx = indices(p.shape, 'kept')
    check_eq('unchanged', p.at(*idx), e(*idx))
    check_eq('timeline', p.t.at(idx[0]), tel(idx[0]))
    reach('end')


for _r in RANKS:
    for _d, _dt in (('', float), ('c', complex)):
        if _d and _r == 2:
            continue
        for _n, _x in enumerate((None, 0, 1, 2, -1, .5)):
            for _f in (None, True, False):
                vc('P07', 'tdiff_%d%s_%d%s' % (_r, _d, _n, {None: '', True: 'f', False: 'b'}[_f]), reach=('end',))(
                    lambda r=_r, dt=_dt, x=_x, f=_f: diff(r, dt, x, f))

        def _tder(r=_r, dt=_dt):
            p = mkproc(rank=r, dtype=dt)
            N = p.shape[0]
            assume(lt(ONE, tm(N)))
            e = el_of('x', dt)
            check_process('tder', p.tder(), (N - 1,) + p.shape[1:],
                          lambda *i: (e(i[0] + ONE, *i[1:]) - e(*i))/step(i[0]), tel)
            reach('end')
        vc('P07', 'tder_%d%s' % (_r, _d), reach=('end',))(_tder)

        def _tint(r=_r, dt=_dt):
            p = mkproc(rank=r, dtype=dt)
            e = el_of('x', dt)
            q = p.tint()
            if ctx().decide(eq(tm(p.shape[0]), ONE)):
                check_shape('single-shape', q.shape, p.shape)
                check_eq('single', q.at(ZERO, *indices(p.shape[1:])), ZERO)
                reach('single')
                return
            check('type', type(q) is process())
            if not check_shape('shape', q.shape, p.shape) or not check_shape('tshape', q.t.shape, p.shape[:1]):
                return
            idx = indices(p.shape)
            i, rest = idx[0], idx[1:]
            check_eq('times', q.t.at(i), tel(i))
            # zero at the start, and the value of the previous step times its length is added at each one:
            # the integral is defined by induction along the timeline
            check_eq('starts-from-zero', resolve(q.at(ZERO, *rest)), ZERO)
            if ctx().decide(lt(i + ONE, tm(p.shape[0]))):
                ind = lastterm(q.at(i + ONE, *rest), i + const(2)) - q.at(i, *rest)
                check_eq('step', resolve(ind), e(*idx)*step(i))
                reach('step')
            check_eq('unchanged', p.at(*idx), e(*idx))
            reach('end')
        vc('P07', 'tint_%d%s' % (_r, _d), reach=('single', 'end', 'step'))(_tint)


def lastterm(v, n):
    """split the last term off sums of n terms"""
    m = {}
    for u in t_.walk(v):
        if u.op == 'red' and u.a[0] == 'sum' and eq(u.a[1], n) is TRUE:
            body, k = u.a[2:]
            m[u] = t_.tsum(n - ONE, lambda j: subst(body, {k: j})) + subst(body, {k: n - ONE})
    return subst(v, m)


def roundtrip(r, dt):
    p = mkproc(rank=r, dtype=dt)
    N = p.shape[0]
    assume(lt(ONE, tm(N)))
    e = el_of('x', dt)
    q = p.tint().tder()
    if not check_shape('shape', q.shape, (N - 1,) + p.shape[1:]):
        return
    idx = indices(q.shape)
    ctx().assume(ne(tel(idx[0] + ONE), tel(idx[0])), check=True)
    check_eq('derivative-of-integral', resolve(lastterm(q.at(*idx), idx[0] + const(2))), e(*idx))
    reach('end')


for _r in RANKS:
    for _d, _dt in (('', float), ('c', complex)):
        vc('P07', 'derivative_of_integral_%d%s' % (_r, _d), reach=('end',))(lambda r=_r, dt=_dt: roundtrip(r, dt))


def selected(r):
    """the derived quantities of a process do not leak into those derived from it"""
    N = dim('N', 4)
    p = mkproc(rank=r, N=N)
    p.dt, p.dtx, p.tder(), p.tint()
    c = ctx()
    if c.choose():
        q, at = p['t', 1:], lambda i: i + ONE
    elif c.choose():
        q, at = p['t', :-1], lambda i: i
    elif c.choose():
        q, at = p['t', ::2], lambda i: const(2)*i
    elif c.choose():
        q, at = p['p', :1] + p['p', :1] - p['p', 0], lambda i: i
    elif c.choose():
        q, at = p.copy(), lambda i: i
        s = arr('s', (N,))
        q.t = s
        d = q.tder()
        idx = indices(d.shape)
        i = idx[0]
        check_eq('new-timeline', d.at(*idx), (elt('x', i + ONE, *idx[1:]) - elt('x', *idx))/(elt('s', i + ONE) - elt('s', i)))
        reach('timeline')
        return
    else:
        q, at = p.shapeas((1,)*(r + 1)) if r < 1 else p.xcopy(), lambda i: i
    d, n = q.tder(), q.tint()
    M = q.shape[0]
    if not check_shape('shape', d.shape, (M - 1,) + q.shape[1:]):
        return
    idx = indices(d.shape)
    i, rest = idx[0], idx[1:]
    h = tel(at(i + ONE)) - tel(at(i))
    check_eq('derivative', resolve(d.at(*idx)), (q.x.at(i + ONE, *rest) - q.x.at(*idx))/h)
    check_eq('integral', resolve(lastterm(n.at(i + ONE, *rest), i + const(2)) - n.at(*idx)), q.x.at(*idx)*h)
    check_eq('integral-start', resolve(n.at(ZERO, *rest)), ZERO)
    reach('end')


for _r in RANKS:
    vc('P07', 'selected_%d' % _r, reach=('end', 'timeline'))(lambda r=_r: selected(r))

for _n, _f in dict(tdiff=lambda p: p.tdiff(), tder=lambda p: p.tder(), tint=lambda p: p.tint(), rate=lambda p: p.tdiff(dt_exp=2, fwd=False)).items():
    vc('P07', 'after_change_' + _n, reach=('end',))(lambda f=_f: after_change('after', f, 1))
