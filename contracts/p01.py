"""P01: the process constructor and its copies."""
from pyvc.api import *
from .common import *

ASSUMPTIONS = [RANK_NOTE]
DTYPES = ((float, 'f'), (complex, 'c'), (int, 'i'))

for _r in (0, 1, 2, 3):
    for _dt, _n in DTYPES:
        def _full(r=_r, dt=_dt):
            N, P, vs = dim('N', 1), dim('P', 0), vdims(r, 0)
            shape = (N,) + vs + (P,)
            q = process()(arr('t', (N,)), x=arr('x', shape, dt))
            e = el_of('x', dt)
            check('dtype', q.dtype == snp.dtype(dt))
            check_process('x', q, shape, e, tel)
            check('paths', eq(tm(q.paths), tm(P)))
            check_shape('vshape', q.vshape, vs)
            check_shape('xview', q.x.shape, shape)
            reach('x')
        vc('P01', 'full_%d%s' % (_r, _n), reach=('x',))(_full)

        def _pertime(r=_r, dt=_dt):
            N, vs = dim('N', 1), vdims(r, 0)
            q = process()(arr('t', (N,)), v=arr('v', (N,) + vs, dt))
            e = el_of('v', dt)
            check_process('v', q, (N,) + vs + (1,), lambda *i: e(*i[:-1]), tel)
            reach('v')
        vc('P01', 'per_time_%d%s' % (_r, _n), reach=('v',))(_pertime)

        def _const(r=_r, dt=_dt):
            N, vs = dim('N', 1), vdims(r, 0)
            q = process()(arr('t', (N,)), c=arr('c', vs, dt))
            e = el_of('c', dt)
            check_process('c', q, (N,) + vs + (1,), lambda *i: e(*i[1:-1]), tel)
            check('precision', q.dtype.kind == snp.dtype(dt).kind or q.dtype.kind == 'f' and dt is int)
            reach('c')
        vc('P01', 'constant_%d%s' % (_r, _n), reach=('c',))(_const)


@vc('P01', reach=('end',))
def scalar_time():
    t = real('t')
    for r in RANKS:
        vs, P = vdims(r), dim('P', 1)
        for q, shape, f in ((process()(t, x=arr('x', (1,) + vs + (P,))), (1,) + vs + (P,), lambda *i: elt('x', *i)),
                            (process()(t, v=arr('v', (1,) + vs)), (1,) + vs + (1,), lambda *i: elt('v', *i[:-1])),
                            (process()(t, c=arr('c', vs)), (1,) + vs + (1,), lambda *i: elt('c', *i[1:-1]))):
            check_process('scalar', q, shape, f, lambda i: t.t_)
    q = process()(c=real('c'))
    check_process('default-time', q, (1, 1), lambda *i: var('c'), lambda i: ZERO)
    q = process()(t=t, c=real('c'))
    check_process('keyword-time', q, (1, 1), lambda *i: var('c'), lambda i: t.t_)
    q = process()(t, c=2.5)
    check_process('number', q, (1, 1), lambda *i: const(Fr(5, 2)), lambda i: t.t_)
    reach('end')


@vc('P01', reach=('end',))
def lists():
    a, b, c, d = [real(n) for n in 'abcd']
    q = process()([a, b], x=[[c, d, a], [a, b, c]])
    check_shape('shape', q.shape, (2, 3))
    for i, row in enumerate(((c, d, a), (a, b, c))):
        for j, z in enumerate(row):
            check_eq('entry', q.at(i, j), z.t_)
    check_eq('t0', q.t.at(0), a.t_)
    check_eq('t1', q.t.at(1), b.t_)
    q = process()([a, b], v=[c, d])
    check_shape('v-shape', q.shape, (2, 1))
    check_eq('v-entry', q.at(1, 0), d.t_)
    q = process()([a, b], c=[c, d])
    check_shape('c-shape', q.shape, (2, 2, 1))
    check_eq('c-entry', q.at(1, 0, 0), c.t_)
    reach('end')


@vc('P01', reach=('end',))
def dtype_argument():
    N, V, P = dim('N', 1), dim('V', 1), dim('P', 1)
    t = arr('t', (N,))
    for kw in (dict(x=arr('x', (N, V, P), int)), dict(v=arr('x', (N, V), int)), dict(c=arr('x', (V,), int))):
        for dt in (float, complex):
            q = process()(t, dtype=dt, **kw)
            check('dtype', q.dtype == snp.dtype(dt))
            n = 3 if 'x' in kw else 2
            f = (lambda *i: app('a:x', *i, s='I')) if 'x' in kw else (lambda *i: app('a:x', *i[:-1], s='I')) if 'v' in kw \
                else (lambda *i: app('a:x', i[1], s='I'))
            check_process('d', q, (N, V, P if 'x' in kw else 1), f, tel)
    reach('end')


@vc('P01', reach=('end',))
def which_values():
    N, V, P = dim('N', 1), dim('V', 1), dim('P', 1)
    t = arr('t', (N,))
    x, v, c = arr('x', (N, V, P)), arr('v', (N, V)), arr('c', (V,))
    cls = process()
    expect_raise('none-given', ValueError, cls, t)
    for kw in (dict(x=x, v=v), dict(x=x, c=c), dict(v=v, c=c), dict(x=x, v=v, c=c)):
        expect_raise('several-given', ValueError, cls, t, **kw)
    reach('end')


@vc('P01', reach=('end',))
def bad_timeline():
    N, M, V, P = dim('N', 0), dim('M', 0), dim('V', 1), dim('P', 1)
    cls = process()
    expect_raise('matrix', ValueError, cls, arr('t', (N, M)), x=arr('x', (N, V, P)))
    expect_raise('matrix-c', ValueError, cls, arr('t', (N, M)), c=real('c'))
    for kw in (dict(x=arr('x', (0, V, P))), dict(v=arr('v', (0, V))), dict(c=arr('c', (V,)))):
        expect_raise('empty', ValueError, cls, arr('t', (0,)), **kw)
    reach('end')


for _r in RANKS:
    def _len(r=_r):
        N, M, vs, P = dim('N', 1), dim('M', 0), vdims(r), dim('P', 1)
        assume(ne(N, M))
        expect_raise('length-x', ValueError, process(), arr('t', (N,)), x=arr('x', (M,) + vs + (P,)))
        expect_raise('length-v', ValueError, process(), arr('t', (N,)), v=arr('v', (M,) + vs))
        reach('end')
    vc('P01', 'length_mismatch_%d' % _r, reach=('end',))(_len)


@vc('P01', reach=('end',))
def scalar_values():
    N = dim('N', 1)
    expect_raise('x-scalar', ValueError, process(), arr('t', (N,)), x=real('x'))
    reach('end')


for _r in RANKS:
    for _k in ('pcopy', 'xcopy', 'tcopy'):
        def _copy(r=_r, k=_k):
            p = mkproc(rank=r)
            sub_ = type('sub', (process(),), {})
            for cls in (process(), sub_):
                p = mkproc(rank=r, cls=cls)
                q = getattr(p, k)()
                check_process('copy', q, p.shape, lambda *i: elt('x', *i), tel, cls=cls)
                # writes to the copy reach the original exactly where the memory is shared
                vals = arr('w', p.shape)
                q.x[...] = vals
                q.t[...] = arr('s', (p.shape[0],))
                idx = indices(p.shape, 'j')
                check_eq('original-values', p.at(*idx), elt('w', *idx) if k == 'tcopy' else elt('x', *idx))
                check_eq('original-timeline', p.t.at(idx[0]), elt('s', idx[0]) if k == 'xcopy' else tel(idx[0]))
            reach('end')
        vc('P01', '%s_%d' % (_k, _r), reach=('end',))(_copy)


for _r in RANKS:
    def _attributes(r=_r):
        p = mkproc(rank=r)
        x = p.tx
        if check_shape('tx-shape', x.shape, p.shape[:1] + (1,)*(r + 1)):
            i = index('i', p.shape[0])
            check_eq('tx', x.at(i, *(ZERO,)*(r + 1)), tel(i))
        check_shape('vshape', p.vshape, p.shape[1:-1])
        check_eq('paths', term(asarr(p.paths)), tm(p.shape[-1]))
        reach('end')
    vc('P01', 'attributes_%d' % _r, reach=('end',))(_attributes)
