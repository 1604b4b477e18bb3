"""P11: increments of compound Poisson sources."""
from pyvc.api import *
from pyvc import srandom, loops
from .common import *
from .laws import *
from .p09 import times, TSHAPES

ASSUMPTIONS = [RANK_NOTE, 'jump variables accepting random_state, whose rvs(size) returns fresh independent draws '
               '(contract of the argument); counts of the sign of dt']


class jump:
    """a distribution: any law, with a parameter"""

    def __init__(self, s=None):
        self.s = s
        self.states = []

    def rvs(self, size, random_state=None):
        self.states.append(random_state)
        return srandom.draw(random_state, 'jump', snp._shape_arg(size), () if self.s is None else (Sym(self.s, 'f'),))


def source(**kw):
    return fn(I_, 'cpoisson_source')(**kw)


class counting:
    """an arbitrary counting source"""

    def __init__(self, vshape, paths, sh):
        self.vshape, self.paths, self.dtype, self.calls, self.lam, self.sh = vshape, paths, snp.dtype(int), [], 'lam', sh

    def __call__(self, t, dt):
        self.calls.append((t, dt))
        n = len(self.calls)
        d = asarr(dt)
        r = len(self.sh)
        m = snp.bmap(d.shape, self.sh)

        def f(i):
            # counts with the sign of dt
            return mul(t_.tsign(d.at(*m(i[:r]))), count(n, i))
        return snp.ndarray._np_make(f, self.sh + self.vshape + (self.paths,), snp.dtype(int))


def count(n, i):
    k = app('n%d' % n, *i, s='I')
    return ite(le(ZERO, k), k, ZERO)


def compound(r, kind, how):
    vs, P = vdims(r), dim('P', 1)
    t, d, sh, te, de = times(kind)
    n = len(sh)
    var_ = how == 'variable'
    y = (lambda s: jump(term(asarr(s)))) if var_ else jump()
    kw = {}
    if how in ('given', 'variable'):
        kw['dn'] = counting(vs, P, sh)
    else:
        lam = real('lam')
        assume(le(ZERO, tm(lam)))
        kw['lam'] = lam
    s = source(paths=P, vshape=vs, y=y, **kw)
    before = mark()
    z = s(t, d)
    shape = sh + vs + (P,)
    check('type', isinstance(z, snp.ndarray))
    if not check_shape('shape', z.shape, shape):
        return
    dn = s.dn_value
    if not check_shape('counts-shape', dn.shape, shape):
        return
    if how in ('given', 'variable'):
        check('called-once', len(kw['dn'].calls) == 1)
        ct, cd = (snp.broadcast_arrays(asarr(a), snp.empty(sh))[0] for a in kw['dn'].calls[0])
        k = indices(sh, 'call')
        check_eq('same-t', ct.at(*k), te(*k))
        check_eq('same-dt', cd.at(*k), de(*k))
        k = indices(shape, 'n')
        check_eq('counts', dn.at(*k), mul(t_.tsign(de(*k[:n])), count(1, k)))
        check('source', s.dn is kw['dn'])
    else:
        scaled_count('counts', dn.at, shape, 'poisson', lambda *i: t_.tsign(de(*i[:n])),
                     lambda *i: (var('lam')*t_.tabs(de(*i[:n])),), before)
    name = random_sum('increment', z.at, shape, lambda *i: mul(t_.tsign(de(*i[:n])), dn.at(*i)),
                      lambda *i: t_.tsign(de(*i[:n])), lambda *i: (te(*i[:n]) + de(*i[:n])/const(2),) if var_ else (),
                      'jump', before)
    if name is None:
        reach('none')
        return
    # the samples
    check('samples', sample_names(s.y_value) == {name})
    if not var_:
        check('generator', all(q is s.rng for q in y.states))
    # another call: fresh draws, and its own counts and samples
    z2 = s(t, d)
    if not check_shape('again', z2.shape, shape):
        return
    v = z2.at(*indices(shape, 'again'))
    check('again-fresh', name not in {x.a[0] for x in draws_of(v)})
    check('again-samples', name not in sample_names(s.y_value) and len(sample_names(s.y_value)) == 1)
    check('again-counts', s.dn_value is not dn)
    reach('end')


def sample_names(ys, out=None):
    """names of the draws in the list of samples"""
    out = set() if out is None else out
    for y in ys:
        if type(y) is loops.Family:
            sample_names([y.value], out)
        else:
            idx = [var('%%y%d' % k, 'I') for k in range(y.ndim)]
            out |= {d.a[0] for d in draws_of(y.at(*idx))}
    return out


for _k in TSHAPES:
    for _r in RANKS:
        for _h in ('given', 'built', 'variable'):
            if _k == 'mm' and _r == 2 or _k in ('sv', 'vs') and _r != 1:
                continue
            vc('P11', '%s_%s_%d' % (_h, _k, _r), reach=('end', 'none'))(lambda r=_r, k=_k, h=_h: compound(r, k, h))
