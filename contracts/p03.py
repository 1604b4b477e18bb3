"""P03: arithmetic on processes."""
from pyvc.api import *
from .common import *

ASSUMPTIONS = [RANK_NOTE, 'numpy subclass protocol (priority, __array_prepare__ before the result is stored, __array_wrap__ after) '
               'as in numpy 1.x, contract in pyvc/snp.py']

np = snp
UNARY = [('exp', fexp), ('negative', neg), ('absolute', tabs), ('sign', tsign), ('square', lambda a: a*a)]
BIN = [('add', add), ('subtract', sub), ('multiply', mul), ('divide', div), ('maximum', tmax), ('minimum', tmin),
       ('greater', lambda a, b: lt(b, a))]
OPS = [('+', lambda a, b: a + b, add), ('-', lambda a, b: a - b, sub), ('*', lambda a, b: a*b, mul),
       ('/', lambda a, b: a/b, div), ('<', lambda a, b: a < b, lt), ('>=', lambda a, b: a >= b, lambda a, b: le(b, a)),
       ('==', lambda a, b: a == b, eq)]


def npf(name):
    return getattr(loader.world().np, name)


for _r in RANKS:
    def _unary(r=_r):
        for n, f in UNARY:
            p = mkproc(rank=r)
            q = npf(n)(p)
            check_process(n, q, p.shape, lambda *i: f(elt('x', *i)), tel)
        p = mkproc(rank=r)
        check_process('neg', -p, p.shape, lambda *i: neg(elt('x', *i)), tel)
        check_process('abs', abs(p), p.shape, lambda *i: tabs(elt('x', *i)), tel)
        reach('end')
    vc('P03', 'unary_%d' % _r, reach=('end',))(_unary)

    def _scalar(r=_r):
        k = real('k')
        for n, op, f in OPS + [(n, npf(n), f) for n, f in BIN]:
            for a in (k, 2.5, 3):
                ta = tm(a)
                p = mkproc(rank=r)
                check_process('p' + n + 's', op(p, a), p.shape, lambda *i: f(elt('x', *i), ta), tel)
                if n not in '+-*/' and not n.isalpha():
                    continue
                check_process('s' + n + 'p', op(a, p), p.shape, lambda *i: f(ta, elt('x', *i)), tel)
        reach('end')
    vc('P03', 'scalar_%d' % _r, reach=('end',), budget=100)(_scalar)

    def _array(r=_r):
        """plain arrays, of any shape which broadcasts to the one of the process"""
        for n, op, f in OPS[:4] + [(n, npf(n), f) for n, f in BIN[:2]]:
            p = mkproc(rank=r)
            for m in range(r + 3):
                sh = p.shape[r + 2 - m:]
                for one in ((), (0,), (m - 1,)):
                    if one and (not m or one[0] < 0):
                        continue
                    s = tuple(1 if k in one else d for k, d in enumerate(sh))

                    def ael(*i):
                        i = i[r + 2 - m:]
                        return elt('a', *[ZERO if k in one else v for k, v in enumerate(i)])
                    a = arr('a', s)
                    check_process('p' + n + 'a', op(p, a), p.shape, lambda *i: f(elt('x', *i), ael(*i)), tel)
                    check_process('a' + n + 'p', op(a, p), p.shape, lambda *i: f(ael(*i), elt('x', *i)), tel)
        reach('end')
    vc('P03', 'array_%d' % _r, reach=('end',), budget=100)(_array)


def pair(r1, r2, same_t=False):
    """two processes with arbitrary shapes and timelines"""
    p = mkproc('x', rank=r1, t='t')
    q = mkproc('y', rank=r2, t='t' if same_t else 's')
    return p, q


def compat(p, q, tp='t', tq='s'):
    """the documented rule"""
    N, M = tm(p.shape[0]), tm(q.shape[0])
    one = or_(eq(N, ONE), eq(M, ONE))
    same_t = and_(eq(N, M), reduce_('all', N, lambda k: eq(elt(tp, k), elt(tq, k)))) if tp != tq else eq(N, M)
    if len(p.shape) != len(q.shape):
        return FALSE
    ax = [or_(eq(a, b), eq(a, ONE), eq(b, ONE)) for a, b in zip(p.shape[1:], q.shape[1:])]
    return and_(or_(one, same_t), *ax)


def bc(p, q):
    """broadcast shape, and index maps"""
    shape = tuple(D(ite(eq(a, ONE), b, a)) for a, b in zip(map(tm, p.shape), map(tm, q.shape)))
    fp = lambda *i: elt('x', *[ite(eq(d, ONE), ZERO, k) for d, k in zip(p.shape, i)])
    fq = lambda *i: elt('y', *[ite(eq(d, ONE), ZERO, k) for d, k in zip(q.shape, i)])
    return shape, fp, fq


def attempt(nm, p, q, op, f, tp='t', tq='s'):
    good = compat(p, q, tp, tq)
    try:
        z = op(p, q)
    except ValueError:
        check(nm + '-refused', not_(good))
        reach('refused')
        return
    check(nm + '-accepted', good)
    shape, fp, fq = bc(p, q)
    check(nm + '-type', type(z) is process())
    if not check_shape(nm + '-shape', z.shape, shape):
        return
    idx = indices(z.shape, 'i')
    check_eq(nm + '-entry', z.at(*idx), f(fp(*idx), fq(*idx)))
    if not isinstance(z.t, snp.ndarray):
        return check(nm + '-timeline', False)
    check_shape(nm + '-tshape', z.t.shape, shape[:1])
    N, M = tm(p.shape[0]), tm(q.shape[0])
    i = idx[0]
    zt = z.t.at(i)
    check(nm + '-timeline', implies(lt(ONE, N), eq(zt, elt(tp, i))))
    check(nm + '-timeline2', implies(lt(ONE, M), eq(zt, elt(tq, i))))
    check(nm + '-timeline1', implies(and_(eq(N, ONE), eq(M, ONE)), or_(eq(zt, elt(tp, ZERO)), eq(zt, elt(tq, ZERO)))))
    reach('accepted')


for _r in RANKS:
    for _n, _op, _f in [OPS[0], OPS[3], OPS[4]] + [('np.' + n, None, f) for n, f in BIN[2:5]]:
        def _pp(r=_r, n=_n, op=_op, f=_f):
            p, q = pair(r, r)
            attempt(n, p, q, op or npf(n[3:]), f)
        vc('P03', 'pair_%d_%s' % (_r, _n), reach=('accepted', 'refused'),
           tier='quick' if _r < 2 or _n == 'np.multiply' else 'thorough')(_pp)

    def _common(r=_r):
        p, q = pair(r, r, same_t=True)
        attempt('common', p, q, OPS[2][1], OPS[2][2], 't', 't')
    vc('P03', 'pair_common_timeline_%d' % _r, reach=('accepted', 'refused'))(_common)

    for _r2 in RANKS:
        if _r2 != _r:
            def _axes(r=_r, r2=_r2):
                p, q = pair(r, r2)
                for n, op, f in OPS[:3]:
                    expect_raise('axes', ValueError, op, p, q)
                expect_raise('axes-ufunc', ValueError, npf('maximum'), p, q)
                reach('end')
            vc('P03', 'pair_axes_%d_%d' % (_r, _r2), reach=('end',))(_axes)

    # ------------------------------------------------------------- in place
    def _inplace(r=_r, which='+', f=add):
        p, q = pair(r, r)
        good = compat(p, q)
        fits = and_(good, *[or_(eq(a, b), eq(b, ONE)) for a, b in zip(p.shape, q.shape)])
        z = p
        idx = indices(p.shape, 'i')
        try:
            if which == '+':
                z += q
            elif which == '*':
                z *= q
            else:
                z -= q
        except ValueError:
            check('refused', not_(fits))
            check_eq('untouched', p.at(*idx), elt('x', *idx))
            check_eq('untouched-timeline', p.t.at(idx[0]), tel(idx[0]))
            reach('refused')
            return
        check('accepted', fits)
        shape, fp, fq = bc(p, q)
        check_process('target', p, p.shape, lambda *i: f(elt('x', *i), fq(*i)), tel)
        check_eq('result-entry', z.at(*idx), f(elt('x', *idx), fq(*idx)))
        check_eq('operand', q.at(*indices(q.shape, 'q')), elt('y', *indices(q.shape, 'q')))
        reach('accepted')
    vc('P03', 'inplace_add_%d' % _r, reach=('accepted', 'refused'))(_inplace)
    vc('P03', 'inplace_mul_%d' % _r, reach=('accepted', 'refused'), tier='quick' if _r < 2 else 'thorough')(lambda r=_r: _inplace(r, '*', mul))
    vc('P03', 'inplace_sub_%d' % _r, reach=('accepted', 'refused'), tier='quick' if _r < 2 else 'thorough')(lambda r=_r: _inplace(r, '-', sub))

    def _inplace_scalar(r=_r):
        p = mkproc(rank=r)
        k = real('k')
        p += k
        check_process('scalar', p, p.shape, lambda *i: elt('x', *i) + k.t_, tel)
        p = z = mkproc(rank=r)
        z *= arr('a', p.shape[1:])
        check_process('array', p, p.shape, lambda *i: elt('x', *i)*elt('a', *i[1:]), tel)
        p = mkproc(rank=r)
        npf('exp')(p, out=p)
        check_process('out', p, p.shape, lambda *i: fexp(elt('x', *i)), tel)
        p = mkproc(rank=r)
        a, b = mkproc('y', vs=p.vshape, N=p.shape[0], P=p.shape[-1]), mkproc('z', vs=p.vshape, N=p.shape[0], P=p.shape[-1])
        npf('add')(a, b, out=p)
        check_process('out2', p, p.shape, lambda *i: elt('y', *i) + elt('z', *i), tel)
        reach('end')
    vc('P03', 'inplace_scalar_%d' % _r, reach=('end',))(_inplace_scalar)

    def _subclass(r=_r):
        sub_ = type('subprocess', (process(),), {})
        p = mkproc(rank=r, cls=sub_)
        check_process('sub', p + 1., p.shape, lambda *i: elt('x', *i) + ONE, tel, cls=sub_)
        check_process('subu', npf('exp')(p), p.shape, lambda *i: fexp(elt('x', *i)), tel, cls=sub_)
        reach('end')
    vc('P03', 'subclass_%d' % _r, reach=('end',))(_subclass)
