"""P29: Black-Scholes identities."""
from pyvc.api import *
from .p26 import V, S, Phi, positive, HALF

A = 'analytical'


def setup():
    k, t, x0, r, q, sg = V('k', 't', 'x0', 'r', 'q', 'sigma')
    kw = dict(zip(('x0', 'r', 'q', 'sigma'), S(x0, r, q, sg)))
    positive(k, x0)
    ctx().assume(le(ZERO, t))
    ctx().assume(le(ZERO, sg))
    return k, t, x0, r, q, sg, kw


@vc('P29', pos=('k', 't', 'x0', 'sigma'), reach=('end',))
def regular():
    k, t, x0, r, q, sg, kw = setup()
    positive(t, sg)
    ctx().assume(lt(ZERO, sg*fsqrt(t)))
    f = {n: resolve(term(fn(A, n)(Sym(k), Sym(t), **kw))) for n in ('bscall', 'bsput', 'bscall_delta', 'bsput_delta')}
    d1, d2 = [resolve(term(z)) for z in fn(A, 'bsd1d2')(Sym(k), Sym(t), **kw)]
    s1 = (flog(x0/k) + (r - q + sg*sg*HALF)*t)/(sg*fsqrt(t))
    s2 = s1 - sg*fsqrt(t)
    check_eq('d1', d1, s1)
    check_eq('d2', d2, s2)
    fw, df = x0*fexp(-q*t), k*fexp(-r*t)
    check_eq('call', f['bscall'], fw*Phi(s1) - df*Phi(s2))
    check_eq('put', f['bsput'], df*Phi(-s2) - fw*Phi(-s1))
    check_eq('parity', f['bscall'] - f['bsput'], fw - df)
    check_eq('call-delta', f['bscall_delta'], diff(f['bscall'], x0))
    check_eq('put-delta', f['bsput_delta'], diff(f['bsput'], x0))
    check_eq('delta-parity', f['bscall_delta'] - f['bsput_delta'], fexp(-q*t))
    # the call solves the Black-Scholes equation
    c = f['bscall']
    check_eq('pde', -diff(c, t) + (r - q)*x0*diff(c, x0) + HALF*sg*sg*x0*x0*diff(diff(c, x0), x0), r*c)
    reach('end')


def _degenerate(which):
    k, t, x0, r, q, sg, kw = setup()
    if which == 't':
        t, T_ = ZERO, t
    else:
        sg = ZERO
    kw['sigma'] = Sym(sg, 'f')
    f = {n: resolve(term(fn(A, n)(Sym(k), Sym(t, 'f'), **kw))) for n in ('bscall', 'bsput', 'bscall_delta', 'bsput_delta')}
    fw, df = x0*fexp(-q*t), k*fexp(-r*t)
    # compare through log(fw/df)
    lg = flog(x0/k) + (r - q)*t
    c = ctx()
    c.assume(eq(fexp(lg)*df, fw))
    c.assume(or_(and_(lt(ZERO, lg), lt(df, fw)), and_(eq(lg, ZERO), eq(df, fw)), and_(lt(lg, ZERO), lt(fw, df))))
    check_eq('call', f['bscall'], tmax(fw - df, ZERO))
    check_eq('put', f['bsput'], tmax(df - fw, ZERO))
    check_eq('parity', f['bscall'] - f['bsput'], fw - df)
    check('call-delta', implies(ne(lg, ZERO), eq(f['bscall_delta'], ite(lt(ZERO, lg), fexp(-q*t), ZERO))))
    check('put-delta', implies(ne(lg, ZERO), eq(f['bsput_delta'], ite(lt(lg, ZERO), -fexp(-q*t), ZERO))))
    check_eq('delta-parity', f['bscall_delta'] - f['bsput_delta'], fexp(-q*t))
    for n, v in f.items():
        # the value does not depend on what NaN or infinity would be
        check_eq('no-nan-' + n, subst(v, {NAN: var('n1'), INF: var('m1')}), subst(v, {NAN: var('n2'), INF: var('m2')}))
    reach('end')


vc('P29', 'zero_time', pos=('k', 't', 'x0'), reach=('end',))(lambda: _degenerate('t'))
vc('P29', 'zero_volatility', pos=('k', 't', 'x0'), reach=('end',))(lambda: _degenerate('s'))

PATS = [dict(k='i', t='j'), dict(x0='ij', sigma='j'), dict(k='j', r='i', q='i'), dict(t='i', sigma='i', x0='j')]
for _n, _p in enumerate(PATS):
    for _q in ('bsd1d2', 'bscall', 'bsput', 'bscall_delta', 'bsput_delta'):
        def _f(q=_q, p=_p):
            def dom(v):
                ctx().assume(lt(ZERO, v['k'].t_))
                ctx().assume(lt(ZERO, v['x0'].t_))
            elementwise('e', fn(A, q), ('k', 't'), ('x0', 'r', 'q', 'sigma'), p, dom)
        vc('P29', 'broadcast_%s_%d' % (_q, _n), reach=('e',))(_f)
