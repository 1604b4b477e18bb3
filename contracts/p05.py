"""P05: piecewise constant processes."""
from pyvc.api import *
from .common import *

ASSUMPTIONS = [RANK_NOTE, 'timelines strictly increasing; scipy.interpolate.interp1d with kind nearest: contract in '
               'pyvc/sscipy.py (ties to the left node)']


def evaluate(r, mode, byv, dtype=float):
    N, vs, P = dim('N', 1), vdims(r), dim('P', 1)
    increasing(N)
    kw = {} if mode == 'default' else dict(mode=mode)
    pw = fn(I_, 'piecewise')
    if byv:
        p = pw(arr('t', (N,)), v=arr('x', (N,) + vs, dtype), **kw)
        P = 1
    else:
        p = pw(arr('t', (N,)), x=arr('x', (N,) + vs + (P,), dtype), **kw)
    check('type', isinstance(p, process()))
    e = el_of('x', dtype)
    e = (lambda *i: el_of('x', dtype)(*i[:-1])) if byv else e
    vi = indices(vs + (P,), 'vi')
    s = var('s')
    y = asarr(p(Sym(s, 'f')))
    if not check_shape('shape', y.shape, vs + (P,)):
        return
    v = resolve(y.at(*vi))
    N = tm(N)
    c = ctx()
    two = const(2)
    fwd = mode in ('forward', 'backward')
    nodes = two*N if fwd else N
    if c.decide(lt(s, tel(ZERO))):
        check_eq('before', v, e(ZERO, *vi))
        reach('before')
    elif c.decide(lt(tel(N - ONE), s)):
        check_eq('after', v, e(N - ONE, *vi))
        reach('after')
    else:
        m = var('m', 'I')
        c.assume(and_(le(ZERO, m), lt(m, N - ONE)))
        c.assume(and_(lt(tel(m), s), lt(s, tel(m + ONE))), check=True)
        mid = (tel(m) + tel(m + ONE))/two
        v = resolve(locate('inside', v, [two*m + ONE, two*m + two] if fwd else [m, m + ONE]))
        if mode == 'forward':
            want = e(m, *vi)
        elif mode == 'backward':
            want = e(m + ONE, *vi)
        else:
            c.assume(ne(s, mid), check=True)
            want = ite(lt(s, mid), e(m, *vi), e(m + ONE, *vi))
        check_eq('inside', v, want)
        reach('inside')


for _r in RANKS:
    for _m in ('default', 'mid', 'forward', 'backward'):
        for _v in (False, True):
            vc('P05', '%s_%d%s' % (_m, _r, 'v' if _v else ''), reach=('before', 'after', 'inside'))(
                lambda r=_r, m=_m, v=_v: evaluate(r, m, v))


@vc('P05', reach=('end',))
def unknown_mode():
    N, P = dim('N', 1), dim('P', 1)
    pw = fn(I_, 'piecewise')
    for mode in ('fwd', 'middle', '', None, 'FORWARD', 'Mid', 'left'):
        expect_raise('mode', ValueError, pw, arr('t', (N,)), x=arr('x', (N, P)), mode=mode)
        expect_raise('mode', ValueError, pw, arr('t', (N,)), v=arr('x', (N, P)), mode=mode)
    reach('end')
