"""P04: evaluation of processes."""
from pyvc.api import *
from .common import *

ASSUMPTIONS = [RANK_NOTE, 'timelines strictly increasing; float and complex values (integer processes truncate)',
               'scipy.interpolate.interp1d: contract in pyvc/sscipy.py for the linear kind; other kinds are an uninterpreted '
               'function of kind, nodes and values', 'requested times given as scalars, vectors or matrices']

TSH = {'s': 0, 'v': 1, 'm': 2}


def times(rank):
    """requested times: the argument, its shape, and the generic entry"""
    if rank == 0:
        return real('s'), (), lambda *i: var('s')
    sh = tuple(dim('S%d' % k, 0) for k in range(rank))
    return arr('s', sh), sh, lambda *i: elt('s', *i)


def setup(r, tr, dtype=float, n=None):
    N = dim('N', 1)
    increasing(N)
    p = mkproc(rank=r, N=N, dtype=dtype)
    s, sh, se = times(tr)
    return p, N, s, sh, se


def entry(nm, y, p, sh):
    """generic entry of an evaluation: indices of time and of values"""
    check(nm + '-array', isinstance(y, (snp.ndarray, Sym)))
    y = asarr(y)
    if not check_shape(nm + '-shape', y.shape, sh + p.shape[1:]):
        raise PathEnd()
    ti, vi = indices(sh, 'ti'), indices(p.shape[1:], 'vi')
    return ti, vi, resolve(y.at(*ti, *vi))


def interpolant(nm, v, s, N, vi, e):
    """v is the linear interpolant at s"""
    N = tm(N)
    m = var('m', 'I')
    c = ctx()
    if c.decide(eq(N, ONE)):
        check_eq(nm + '-single', v, e(ZERO, *vi))
        reach('single')
        return
    kind = 'before' if c.decide(le(s, tel(ZERO))) else 'after' if c.decide(le(tel(N - ONE), s)) else 'inside'
    if kind == 'before':
        check_eq(nm + '-before', locate(nm, v, [ONE]), e(ZERO, *vi))
    elif kind == 'after':
        check_eq(nm + '-after', locate(nm, v, [N - ONE]), e(N - ONE, *vi))
    else:
        c.assume(and_(le(ZERO, m), lt(m, N - ONE)))
        if c.decide(eq(s, tel(m))):
            # a point of the timeline, not the first nor the last
            c.assume(lt(ZERO, m), check=True)
            check_eq(nm + '-stored', subst(locate(nm, v, [m]), {s: tel(m)}), e(m, *vi))
            kind = 'stored'
        else:
            c.assume(and_(lt(tel(m), s), lt(s, tel(m + ONE))), check=True)
            w = (s - tel(m))/(tel(m + ONE) - tel(m))
            check_eq(nm + '-between', locate(nm, v, [m + ONE]), (ONE - w)*e(m, *vi) + w*e(m + ONE, *vi))
    reach(kind)


ALL = ('single', 'before', 'after', 'stored', 'inside')
for _r in RANKS:
    for _tr in TSH:
        for _dt, _d in ((float, 'f'), (complex, 'c')):
            if _d == 'c' and (_r != 1 or _tr == 'm'):
                continue

            def _eval(r=_r, tr=TSH[_tr], dt=_dt):
                p, N, s, sh, se = setup(r, tr, dt)
                ti, vi, v = entry('call', p(s), p, sh)
                interpolant('call', v, se(*ti), N, vi, el_of('x', dt))
            vc('P04', 'eval_%d%s%s' % (_r, _tr, _d), reach=ALL)(_eval)

        def _incr(r=_r, tr=TSH[_tr]):
            p, N, s, sh, se = setup(r, tr)
            ds = real('ds')
            y, a, b = p(s, ds), p(s + ds), p(s)
            ti, vi, v = entry('incr', y, p, sh)
            check_eq('increment', v, resolve(asarr(a).at(*ti, *vi)) - resolve(asarr(b).at(*ti, *vi)))
            if tr == 1:
                d2 = arr('d', (dim('D0', 1), 1))
                y, a, b = p(s, d2), p(s + d2), p(s)
                ti, vi, v = entry('incr', y, p, (d2.shape[0],) + sh)
                check_eq('increment2', v, resolve(asarr(a).at(*ti, *vi)) - resolve(asarr(b).at(ti[1], *vi)))
            reach('end')
        vc('P04', 'increment_%d%s' % (_r, _tr), reach=('end',))(_incr)

    def _interp(r=_r):
        p, N, s, sh, se = setup(r, 1)
        ti, vi, v = entry('interp', p.interp()(s), p, sh)
        interpolant('interp', v, se(*ti), N, vi, el_of('x', float))
    vc('P04', 'interp_%d' % _r, reach=ALL)(_interp)

    for _tr in 'sv':
        def _rebase(r=_r, tr=TSH[_tr]):
            p, N, s, sh, se = setup(r, tr)
            for n in sh:
                assume(le(ONE, n))
            q = p.rebase(s)
            check('type', type(q) is process())
            nsh = sh or (1,)
            if not check_shape('shape', q.shape, nsh + p.shape[1:]):
                return
            i, vi = index('i', nsh[0]), indices(p.shape[1:], 'vi')
            check_shape('tshape', q.t.shape, nsh)
            check_eq('timeline', q.t.at(i), se(*[i][:len(sh)]))
            interpolant('rebase', resolve(q.at(i, *vi)), se(*[i][:len(sh)]), N, vi, el_of('x', float))
            check_eq('original', p.at(index('j', N), *vi), elt('x', index('j', N), *vi))
        vc('P04', 'rebase_%d%s' % (_r, _tr), reach=ALL)(_rebase)

    def _kinds(r=_r):
        p, N, s, sh, se = setup(r, 1)
        SI = loader.world().scipy.interpolate.interp1d

        def ref(kind, z=s):
            if ctx().decide(eq(N, ONE)):
                return None
            t, x = arr('t', (N,)), arr('x', p.shape)
            return SI(t, x, axis=0, kind=kind, assume_sorted=True, copy=False, bounds_error=False, fill_value=(x[0], x[-1]))(z)

        def compare(nm, y, kind, z=s, minus=None):
            ti, vi, v = entry(nm, y, p, sh)
            f = ref(kind, z)
            if f is None:
                check_eq(nm + '-single', v, elt('x', ZERO, *vi) if minus is None else ZERO)
                return
            e = f.at(*ti, *vi)
            if minus is not None:
                e = e - ref(kind, minus).at(*ti, *vi)
            check_eq(nm, v, resolve(e))
        for kind in ('nearest', 'zero', 'previous', 'quadratic', 'cubic'):
            compare('per-call', p(s, kind=kind), kind)
            compare('interp', p.interp(kind=kind)(s), kind)
        compare('increment', p(s, real('ds'), kind='cubic'), 'cubic', s + real('ds'), s)
        compare('default-after', p(s), 'linear')
        assume(lt(ZERO, sh[0]))
        q = p.rebase(s, kind='zero')
        compare('rebase', q.x, 'zero')
        p.interp_kind = 'next'
        compare('attribute', p(s), 'next')
        compare('attribute-rebase', p.rebase(s).x, 'next')
        compare('call-over-attribute', p(s, kind='zero'), 'zero')
        compare('linear-over-attribute', p(s, kind='linear'), 'linear')
        other = mkproc(rank=r, N=N, P=p.shape[-1], vs=p.shape[1:-1])
        compare('not-shared', other(s), 'linear')
        reach('end')
    vc('P04', 'kinds_%d' % _r, reach=('end',))(_kinds)

for _n, _f in dict(scalar=lambda p: p(real('s')), vector=lambda p: p(arr('s', (dim('S0', 0),))),
                   increment=lambda p: p(arr('s', (dim('S0', 0),)), real('ds')), interp=lambda p: p.interp()(real('s')),
                   kind=lambda p: p(real('s'), kind='nearest'), rebase=lambda p: p.rebase(arr('s', (dim('S0', 1),)))).items():
    for _r in (0, 1):
        for _o in (False, True):
            vc('P04', 'after_change_%s_%d%s' % (_n, _r, '_single' if _o else ''), reach=('end',))(
                lambda f=_f, r=_r, o=_o: after_change('after', f, r, one=o))
