"""P19: single equations: initial values, logarithms, results."""
from pyvc.api import *
from .common import *
from .steps import *

ASSUMPTIONS = [RANK_NOTE, HOOK_NOTE, 'with the log flag, initial values are positive; whole calls (obligations on one and two time '
               'points) are for those lengths of the timeline']


def initial(name, shape, full):
    if shape == 'scalar':
        return real(name), lambda *k: var(name)
    if shape == 'integer':
        return 2, lambda *k: const(2)
    a, f = coefficient(name, shape, full)
    return a, f


def positive(v):
    c = ctx()
    c.assume(lt(ZERO, v))


def equation(log_, **d):
    return type('K', (integ('SDE'), integ('integrator')), dict(log=log_, **d))


X0 = ('scalar', 'integer', 0, 1, 2, 3, 4)


def begin(which, rank, log_, getinfo):
    vs, P = vdims(rank), dim('P', 1)
    full = vs + (P,)
    sh = shapes_like(full)[which] if isinstance(which, int) else which
    x0, value = initial('x0', sh, full)
    p = equation(log_)(paths=P, vshape=vs, x0=x0, getinfo=getinfo)
    st = Step(p, 'begin')
    p.begin()
    w = asarr(st.xw.items[(0,)])
    if check_shape('shape', w.shape, full):
        k = indices(full, 'k')
        v = value(*k)
        if log_:
            positive(v)
        check_eq('initial-state', w.at(*k), flog(v) if log_ else v)
    check('times', and_(eq(st.sw.at(ZERO), st.s), eq(st.tt.at(ZERO), st.s)))
    if isinstance(x0, snp.ndarray) and x0.shape:
        # the value given is not changed
        k = indices(x0.shape, 'g')
        check_eq('given', x0.at(*k), elt('x0', *k))
    reach('end')


for _x in X0:
    for _r in (0, 1, 2):
        for _l in (False, True):
            vc('P19', 'begin_%s_%d_%s' % (_x, _r, _l), reach=('end',))(lambda x=_x, r=_r, l=_l: begin(x, r, l, r < 2))


@vc('P19', reach=('end',))
def begin_default():
    P = dim('P', 1)
    for l in (False, True):
        p = equation(l)(paths=P)
        st = Step(p, 'begin')
        p.begin()
        k = indices((P,), 'k%d' % l)
        check_eq('initial-state', asarr(st.xw.items[(0,)]).at(*k), ZERO if l else ONE)
    reach('end')


def store(rank, log_, getinfo, dtype):
    """the state reached is stored as it is"""
    vs, P = vdims(rank), dim('P', 1)
    full = vs + (P,)
    p = equation(log_)(paths=P, vshape=vs, getinfo=getinfo, dtype=dtype)
    st = Step(p, 'store', dtype=dtype or float)
    before = st.xx
    p.store(Sym(st.i, 'i'), st.k)
    xx = asarr(p.itervars['xx'])
    check('same-output', xx._np_buf is before._np_buf)
    k = indices(xx.shape, 'k')
    c = ctx()
    src = asarr(st.xw.items[(st.k,)])
    old = (lambda *q: celt('xx', *q)) if dtype is complex else lambda *q: elt('xx', *q)
    new = (lambda *q: celt('x' if st.k == 0 else 'left', *q)) if dtype is complex else lambda *q: elt('x' if st.k == 0 else 'left', *q)
    if c.decide(eq(k[0], st.i)):
        check_eq('stored', xx.at(*k), new(*k[1:]))
    else:
        check_eq('others-kept', xx.at(*k), old(*k))
    q = indices(full, 'q')
    check_eq('state-kept', src.at(*q), new(*q))
    reach('end')


for _r in (0, 1, 2):
    for _l in (False, True):
        for _d in (None, complex):
            vc('P19', 'store_%d_%s_%s' % (_r, _l, 'complex' if _d else 'float'), reach=('end',))(
                lambda r=_r, l=_l, d=_d: store(r, l, r < 2, d))


def leave(rank, log_, tdtype):
    """the result of the call"""
    vs, P, N = vdims(rank), dim('P', 1), dim('N', 1)
    full = (N,) + vs + (P,)
    p = equation(log_)(paths=P, vshape=vs)
    tt, xx = arr('t', (N,), tdtype), arr('xx', full)
    r = p.exit(tt, xx)
    s = 'I' if 'int' in tdtype else 'R'
    check_process('result', r, full, lambda *k: fexp(elt('xx', *k)) if log_ else elt('xx', *k), lambda k: elt('t', k, s=s))
    if isinstance(r, process()):
        check('type-of-times', r.t.dtype == snp.dtype(tdtype))
    reach('end')


for _r in (0, 1, 2):
    for _l in (False, True):
        for _t in ('float64', 'int64', 'uint8'):
            vc('P19', 'exit_%d_%s_%s' % (_r, _l, _t), reach=('end',))(lambda r=_r, l=_l, t=_t: leave(r, l, t))


def whole(n, rank, log_, i0, tdtype='float64'):
    """a whole call: the initial value is returned unchanged, the step is that of the equation"""
    vs, P = vdims(rank), dim('P', 1)
    full = vs + (P,)
    x0, value = initial('x0', full, full)
    log = []

    def sde(self, t, x):
        return {'dw': c[0]}
    c = coefficient('c', full, full)
    S = Source('dw', P, vs, log)
    p = equation(log_, sde=sde)(paths=P, vshape=vs, x0=x0, i0=i0, dw=S)
    s = 'I' if 'int' in tdtype else 'R'
    if n > 1:
        assume(lt(elt('t', ZERO, s=s), elt('t', ONE, s=s)))
    k = indices(full, 'k')
    v = value(*k)
    if log_:
        positive(v)
    r = p(arr('t', (n,), tdtype))
    check('result', type(r) is process(), note=str(type(r)))
    if not check_shape('shape', r.shape, (n,) + full) or not check_shape('times', r.t.shape, (n,)):
        return
    j = index('j', n)
    check_eq('times', r.t.at(j), elt('t', j, s=s))
    check('type-of-times', r.t.dtype == snp.dtype(tdtype))
    f = const(range(n)[i0])
    check_eq('initial-value', r.at(f, *k), v)
    if n == 2:
        d = mul(c[1](*k), increment('dw', *k))
        check_eq('next-value', r.at(sub(ONE, f), *k), mul(v, fexp(d)) if log_ else add(v, d))
        check('steps', [x[0] for x in log] == ['dw'])
        t = lambda q: elt('t', q, s=s)
        check('step', and_(eq(log[0][1], t(f)), eq(log[0][2], sub(t(sub(ONE, f)), t(f)))))
    else:
        check('steps', not log)
    reach('end')


for _l in (False, True):
    for _r in (0, 1, 2):
        vc('P19', 'one_point_%d_%s' % (_r, _l), reach=('end',))(lambda r=_r, l=_l: whole(1, r, l, 0))
    for _i in (0, 1, -1, -2):
        vc('P19', 'two_points_%s_%s' % (_i, _l), reach=('end',))(lambda l=_l, i=_i: whole(2, 1, l, i))
    vc('P19', 'two_points_int_%s' % _l, reach=('end',))(lambda l=_l: whole(2, 0, l, 0, 'int32'))
    vc('P19', 'two_points_uint_%s' % _l, reach=('end',))(lambda l=_l: whole(2, 0, l, -1, 'uint8'))
