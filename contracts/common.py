"""shared by the contracts of P01-P15 and P31"""
from pyvc.api import *

I_ = 'infrastructure'
RANKS = (0, 1, 2)
RANK_NOTE = ('the number of value axes is enumerated (0 to 2, some conditions to 3); the length of every axis is symbolic')


def vdims(rank, lo=1, name='V'):
    return tuple(dim('%s%d' % (name, k), lo) for k in range(rank))


def process():
    return fn(I_, 'process')


def mkproc(name='x', rank=1, N=None, P=None, dtype=float, vs=None, t='t', cls=None, lo=1):
    """a process with arbitrary timeline and values"""
    N = dim('N' + ('' if name == 'x' else name), 1) if N is None else N
    P = dim('P' + ('' if name == 'x' else name), lo) if P is None else P
    vs = vdims(rank, lo, 'V' if name == 'x' else 'V' + name) if vs is None else vs
    p = (cls or process())(arr(t, (N,)), x=arr(name, (N,) + vs + (P,), dtype))
    return p


def indices(shape, name='i'):
    return tuple(index('%s%d' % (name, k), d) for k, d in enumerate(shape))


def el_of(name, dtype):
    if snp.dtype(dtype).kind == 'c':
        return lambda *i: celt(name, *[tm(k) for k in i])
    s = {'b': 'B', 'i': 'I', 'u': 'I'}.get(snp.dtype(dtype).kind, 'R')
    return lambda *i: app('a:' + name, *[tm(k) for k in i], s=s)


def check_process(nm, q, shape, value, time, cls=None):
    """q is a process with this shape, value(i, ...) and timeline time(i)"""
    check(nm + '-type', type(q) is (cls or process()), note=str(type(q)))
    if not isinstance(q, snp.ndarray):
        return
    if not check_shape(nm + '-shape', q.shape, shape):
        return
    if not isinstance(getattr(q, 't', None), snp.ndarray):
        check(nm + '-timeline', False, note='no timeline')
        return
    if not check_shape(nm + '-timeline-shape', q.t.shape, (shape[0],)):
        return
    idx = indices(shape, nm + '.i')
    check_eq(nm + '-timeline', q.t.at(idx[0]), time(idx[0]))
    check_eq(nm + '-entry', q.at(*idx), value(*idx))


def tel(*i):
    return elt("t", *i)


def increasing(N, name='t', s='R'):
    """precondition: the timeline is strictly increasing"""
    import z3

    def ax(conv):
        i, j = var('%ti', 'I'), var('%tj', 'I')
        a, b = conv(app('a:' + name, i, s=s)), conv(app('a:' + name, j, s=s))
        iz, jz = conv(i), conv(j)
        return z3.ForAll([iz, jz], z3.Implies(z3.And(0 <= iz, iz < jz, jz < conv(tm(N))), a < b),
                         patterns=[z3.MultiPattern(a, b)])
    ax.sampled = ('a:' + name,)
    ctx().axiom(ax)


def segments(v):
    """applications of the interval locator of the interpolation contract"""
    return sorted({u for u in t_.walk(v) if u.op == 'f' and str(u.a[0]).startswith(('seg', 'near'))}, key=lambda u: u.id)


def locate(nm, v, targets):
    """prove that the interval found is one of the targets, and put it in place"""
    for k in segments(v):
        check(nm + '-interval', or_(*[eq(k, g) for g in targets]))
        for g in targets[:-1]:
            if len(targets) > 1 and ctx().decide(eq(k, g)):
                break
        else:
            g = targets[-1]
            ctx().assume(eq(k, g))
        v = subst(v, {k: tm(g)})
    return v


def after_change(nm, call, rank=1, cls=None, one=False, ordered=True):
    """what is computed after the values were changed in place is the same as for a new process with these values"""
    N = ONE if one else dim('N', 2)
    if ordered:
        increasing(N)
    p = mkproc(rank=rank, N=N, cls=cls)
    call(p)
    z = arr('z', p.shape)
    if ctx().choose():
        p[...] = z
    else:
        p.x[...] = z
    k = indices(p.shape, 'k')
    check_eq(nm + '-changed', p.at(*k), elt('z', *k))
    same_result(nm, call(p), call(mkproc('z', N=N, P=p.shape[-1], vs=p.shape[1:-1], cls=cls)))
    reach('end')


def same_result(nm, a, b):
    check(nm + '-type', type(a) is type(b))
    if hasattr(b, 't') and check_shape(nm + '-timeline-shape', a.t.shape, b.t.shape):
        k = indices(b.t.shape, 'j')
        check_eq(nm + '-timeline', a.t.at(*k), b.t.at(*k))
    a, b = asarr(a), asarr(b)
    check(nm + '-dtype', a.dtype == b.dtype)
    if check_shape(nm + '-shape', a.shape, b.shape):
        k = indices(b.shape, 'r')
        check_eq(nm, resolve(a.at(*k)), resolve(b.at(*k)))
