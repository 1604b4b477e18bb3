"""P15: Poisson and compound Poisson sources with memory.

The jumps of an interval of a compound source are stored as a list y of arrays: for each count i = 1, 2, ... found in
some entry, the jumps of the entries with that count, in the order of the entries, as an array of shape (number of such
entries, i).  jumps(y, n)(e, k) is the k-th jump of entry e, for 0 <= k < n(e): encoded() is this representation."""
from pyvc.api import *
from pyvc import srandom, loops
from .common import *
from .laws import *
from .p11 import jump

ASSUMPTIONS = [RANK_NOTE,
               'new_outside and new_inside are called as proved for P13 (stored neighbours, all on the same side of the '
               'initial time)',
               'numpy.random.Generator: contract in pyvc/srandom.py; jump variables accepting random_state',
               'a counting source with memory given to a compound source: values with non-negative increments, fixed '
               'once evaluated (proved for Poisson sources with memory, here and for P13)']


def nonneg(v):
    return ite(le(ZERO, v), v, ZERO)


def counts(name, shape, dtype=int):
    """an arbitrary array of non-negative integers"""
    import z3

    def ax(conv):
        vs = [var('%%c%d' % k, 'I') for k in range(len(shape))]
        f = conv(app('c:' + name, *vs, s='I'))
        return z3.ForAll([conv(v) for v in vs], f >= 0, patterns=[f])
    ax.sampled = ('c:' + name,)
    ctx().axiom(ax)
    el = lambda *i: app('c:' + name, *[tm(k) for k in i], s='I')
    return snp.ndarray._np_make(lambda i: el(*i), shape, snp.dtype(dtype)), el


def times(side, t0, nm, n=2):
    """interval away from the initial time"""
    t = [real('%s%d' % (nm, k)) for k in range(n)]
    for a, b in zip(t, t[1:]):
        assume(lt(tm(a), tm(b)))
    assume(le(t0, tm(t[0])) if side > 0 else le(tm(t[-1]), t0))
    return t


# ------------------------------------------------------------------ Poisson

def poisson(r, side, form):
    vs, P = vdims(r), dim('P', 1)
    full = vs + (P,)
    rng = srandom.Generator('given')
    if form == 'constant':
        lam = real('lam')
        assume(le(ZERO, tm(lam)))
        L = lambda s, *i: tm(lam)
    elif form == 'array':
        lam = snp.ndarray._np_make(lambda i: nonneg_real(app('lam', *i)), full, snp.dtype(float))
        L = lambda s, *i: nonneg_real(app('lam', *i))
    else:
        def lam(s):
            return Sym(nonneg_real(app('lam', term(asarr(s)))), 'f')
        L = lambda s, *i: nonneg_real(app('lam', s))
    src = fn(I_, 'true_poisson_source')(paths=P, vshape=vs, rng=rng, t0=real('t0'), lam=lam)
    t0 = tm(src.t0)
    check('no-draws', not ctx().draws)
    # beyond
    a, b = times(side, t0, 'o')
    t, s = (a, b) if side > 0 else (b, a)
    n, el = counts('n', full)
    z = src.new_outside(n, t, s)
    check('outside-type', type(z) is snp.ndarray and z.dtype.kind == 'i', note=str(type(z)))
    if type(z) is not snp.ndarray or not check_shape('outside-shape', z.shape, full):
        return
    d = sub(tm(s), tm(t))
    mid = add(tm(t), div(d, const(2)))
    names = scaled_count('outside', lambda *i: sub(z.at(*i), el(*i)), full, 'poisson', lambda *i: const(side),
                         lambda *i: (mul(t_.tabs(d), L(mid, *i)),), set())
    i = indices(full, 'kept')
    check_eq('outside-stored-kept', n.at(*i), el(*i))
    # inside
    t1, s, t2 = times(side, t0, 's', 3)
    n1, e1 = counts('n1', full)
    dn, ed = counts('dn', full)
    n2 = snp.ndarray._np_make(lambda i: add(e1(*i), ed(*i)), full, snp.dtype(int))
    z = src.new_inside(n1, n2, t1, t2, s)
    i = indices(full, 'kept')
    check_eq('inside-stored-kept', n1.at(*i), e1(*i))
    check_eq('inside-stored-kept', n2.at(*i), add(e1(*i), ed(*i)))
    i = indices(full, 'i')
    if z is None:
        instances_all(i)
        check_eq('no-events', ed(*i), ZERO)
        reach('none')
        return
    check('inside-type', type(z) is snp.ndarray and z.dtype.kind == 'i', note=str(type(z)))
    if type(z) is not snp.ndarray or not check_shape('inside-shape', z.shape, full):
        return
    p = div(sub(tm(s), tm(t1)), sub(tm(t2), tm(t1)))
    scaled_count('inside', lambda *i: sub(z.at(*i), e1(*i)), full, 'binomial', lambda *i: ONE,
                 lambda *i: (ed(*i), p), names)
    i = indices(full, 'm')
    # a binomial draw is within its range
    ds = draws_of(z.at(*i))
    ctx().assume(and_(le(ZERO, ds[0]), le(ds[0], ed(*i))), check=True)
    check('monotone', and_(le(e1(*i), z.at(*i)), le(z.at(*i), n2.at(*i))))
    check('all-from-generator', all(l.gen is rng for l in ctx().laws.values()))
    reach('end')


def nonneg_real(v):
    return ite(le(ZERO, v), v, ZERO)


def instances_all(i):
    """instances of the reductions decided so far"""
    for c in list(ctx().pc):
        instances(c, i)


for _r in RANKS:
    for _side in (1, -1):
        for _f in ('constant', 'array', 'function'):
            vc('P15', 'poisson_%s_%d_%s' % (_f, _r, 'fwd' if _side > 0 else 'bwd'), reach=('end', 'none'))(
                lambda r=_r, s=_side, f=_f: poisson(r, s, f))


# ------------------------------------------------------------------ compound Poisson

def max_of(N):
    return tm(N.max())


def any_of(N, i):
    return tm((N == Sym(i, 'i')).any())


def mask_of(N, i):
    """rank, and number, of the entries with count i"""
    v = var('%mi', 'I')
    _, sel, rank, count = snp.mask_fns(N == Sym(v, 'i'))
    put = lambda x: subst(tm(x), {v: tm(i)})
    return lambda e: put(rank(e)), put(count)


def encoded(name, N):
    """the stored jumps of an interval with counts N, and the jumps they represent"""
    v = ctx().fresh('%c' + name, 'I')
    rank, count = mask_of(N, v)
    value = snp.ndarray._np_make(lambda i: app('a:' + name, i[0], i[1], v), (D(count), Sym(v, 'i')), snp.dtype(float))
    y = [loops.Family((v,), and_(le(ONE, v), le(v, max_of(N))), any_of(N, v), value)]

    def J(e, k):
        n = N.at(*e)
        rank, _ = mask_of(N, n)
        return app('a:' + name, rank(e), tm(k), n)
    return y, J, value


def check_encoded(nm, y, N, full):
    """y is the representation of jumps J(e, k), k < N(e): returned"""
    check(nm + '-list', type(y) is list, note=str(type(y)))
    if type(y) is not list:
        raise PathEnd()
    if len(y) != 1 or type(y[0]) is not loops.Family:
        raise Unsupported('%s: a list of jumps in another form' % nm)
    i = var('%n' + nm, 'I')
    f = y[0].at([i])
    there, want = and_(f.bounds, f.cond), and_(le(ONE, i), le(i, max_of(N)), any_of(N, i))
    check(nm + '-counts-found', and_(implies(there, want), implies(want, there)))
    ctx().assume(want, check=False)
    rank, count = mask_of(N, i)
    if not (isinstance(f.value, snp.ndarray) and f.value.ndim == 2):
        check(nm + '-arrays', False)
        raise PathEnd()
    check_eq(nm + '-entries', tm(f.value.shape[0]), count)
    check_eq(nm + '-jumps', tm(f.value.shape[1]), i)

    def J(e, k):
        n = tm(N.at(*e))
        rank, _ = mask_of(N, n)
        return y[0].at([n]).value.at(rank(e), tm(k))
    return J


class memory:
    """an arbitrary counting source with memory: n0 at the first time, then increments"""

    def __init__(self, full, t, parts):
        self.full, self.t, self.parts = full, [tm(x) for x in t], parts
        self.vshape, self.paths, self.dtype, self.lam = full[:-1], full[-1], snp.dtype(int), 'lam'
        self.calls = []

    def at(self, s):
        s = term(asarr(s))
        for k, x in enumerate(self.t):
            if s is x or ctx().known(eq(s, x)):
                return lambda *i: add(app('c:n0', *[tm(q) for q in i], s='I'), *[p(*i) for p in self.parts[:k]])
        raise Unsupported('counts at another time')

    def __call__(self, t, dt=None):
        self.calls.append((t, dt))
        if dt is None:
            f = self.at(t)
        else:
            a, b = self.at(t), self.at(asarr(t) + asarr(dt))
            f = lambda *i: sub(b(*i), a(*i))
        return snp.ndarray._np_make(lambda i: f(*i), self.full, snp.dtype(int))


def jumps_source(r, side, t, parts, how, vs=None, P=None):
    vs, P = vdims(r), dim('P', 1)
    full = vs + (P,)
    ps = [counts('d%d' % k, full)[1] for k in range(parts)]
    dn = memory(full, t, ps)
    rng = srandom.Generator('given')
    y = (lambda s: jump(term(asarr(s)))) if how == 'variable' else jump()
    src = fn(I_, 'true_cpoisson_source')(paths=P, vshape=vs, rng=rng, t0=Sym(var('t0'), 'f'), dn=dn, y=y)
    check('counts-of-the-given-source', src.dn is dn)
    return src, full, dn, ps, rng, y


def beyond(r, side, how):
    t = times(side, var('t0'), 'o')
    src, full, dn, (d,), rng, y = jumps_source(r, side, t, 1, how)
    a, b = t if side > 0 else t[::-1]
    j, y0 = arr('j', full), object()
    z = [j, y0]
    before = mark()
    new = src.new_outside(z, a, b)
    check('type', isinstance(new, (list, tuple)) and len(new) == 2 and isinstance(new[0], snp.ndarray))
    if not (isinstance(new, (list, tuple)) and len(new) == 2 and check_shape('shape', new[0].shape, full)):
        return
    i = indices(full, 'kept')
    check('value-kept', z[0] is j)
    check_eq('value-kept', z[0].at(*i), elt('j', *i))
    # the jumps of the interval are stored at its start
    ys, other = (z[1], new[1]) if side > 0 else (new[1], z[1])
    check('other-jumps', other is None if side > 0 else other is y0)
    # (the counts, as the source takes them)
    dt = sub(tm(b), tm(a))
    N = snp.ndarray._np_make(lambda i: mul(t_.tsign(dt), const(side), d(*i)), full, snp.dtype(int))
    check_eq('counts', N.at(*i), d(*i))
    J = check_encoded('stored', ys, N, full)
    e = indices(full, 'e')
    k = var('%k', 'I')
    mid = div(add(tm(t[0]), tm(t[1])), const(2))
    if ctx().decide(lt(ZERO, d(*e))):
        v = value_of(sub(new[0].at(*e), elt('j', *e)), e)
        check_eq('sum', v, mul(const(side), tsum(d(*e), lambda k: J(e, k))))
        # fresh draws
        ctx().assume(and_(le(ZERO, k), lt(k, d(*e))), check=True)
        x = resolve(J(e, k))
        ds = draws_of(x)
        check('jump', len(ds) == 1 and x is ds[0] and law(x).kind == 'jump', note=show(x))
        if len(ds) == 1 and x is ds[0]:
            check('fresh', x.a[0] not in before)
            check('generator', law(x).gen is rng)
            if how == 'variable':
                p = law(x).params[0]
                n = len(law(x).loopvars)
                check_eq('law', subst(p(x.a[1 + n:]), dict(zip(law(x).loopvars, x.a[1:1 + n]))), mid)
        reach('jumps')
    else:
        v = value_of(sub(new[0].at(*e), elt('j', *e)), e)
        check_eq('no-jumps', v, ZERO)
        reach('none')


def value_of(v, e):
    instances(v, e)
    return resolve(v)


def between(r, side):
    t = times(side, var('t0'), 's', 3)
    t1, s, t2 = t
    src, full, dn, (b, c), rng, y = jumps_source(r, side, t, 2, 'constant')
    mk = lambda f: snp.ndarray._np_make(lambda i: f(*i), full, snp.dtype(int))
    N, NA, NB = mk(lambda *i: add(b(*i), c(*i))), mk(b), mk(c)
    ys, J, value = encoded('J', N)
    # (the largest count of a part is that of some entry, hence not above the largest count)
    for q in (NA, NB):
        w = indices(full, 'w%d' % (q is NA))
        ctx().assume(eq(max_of(q), tm(q.at(*w))), check=True)
        instances(max_of(N), w)
    j1, j2, other = arr('j1', full), arr('j2', full), object()
    z1, z2 = [j1, ys], [j2, other]
    held = list(ys)
    new = src.new_inside(z1, z2, t1, t2, s)
    check('no-draws', not ctx().draws)
    i = indices(full, 'kept')
    check('values-kept', z1[0] is j1 and z2[0] is j2 and z2[1] is other)
    check_eq('values-kept', z1[0].at(*i), elt('j1', *i))
    check_eq('values-kept', z2[0].at(*i), elt('j2', *i))
    if new is None:
        e = indices(full, 'e')
        instances_all(e)
        check_eq('no-events', N.at(*e), ZERO)
        check('jumps-kept', z1[1] is ys and ys == held)
        reach('none')
        return
    check('type', isinstance(new, (list, tuple)) and len(new) == 2 and isinstance(new[0], snp.ndarray))
    if not (isinstance(new, (list, tuple)) and len(new) == 2 and check_shape('shape', new[0].shape, full)):
        return
    A = check_encoded('first', z1[1], NA, full)
    B = check_encoded('second', new[1], NB, full)
    e, k = indices(full, 'e'), var('%k', 'I')
    ctx().assume(le(ZERO, k), check=True)
    # the value: a sum of terms equal to J(e, k) for k < b(e), null from there on
    v = value_of(sub(new[0].at(*e), elt('j1', *e)), e)
    sums = [u for u in t_.walk(v) if u.op == 'red' and u.a[0] == 'sum']
    if v in sums:
        _, M, body, x = v.a
        check('value-terms', le(b(*e), M))
        summand = lambda k: resolve(subst(body, {x: k}))
    else:
        summand = None
    if ctx().decide(lt(k, b(*e))):
        v = A(e, k)
        instances(v, e)
        check_eq('first-part', resolve(v), J(e, k))
        if summand:
            check_eq('value-term', summand(k), J(e, k))
        reach('first')
        return
    if summand:
        check_eq('value-rest', summand(k), ZERO)
    else:
        check_eq('value', v, tsum(b(*e), lambda k: J(e, k)))
    if ctx().decide(lt(k, add(b(*e), c(*e)))):
        v = B(e, sub(k, b(*e)))
        instances(v, e)
        check_eq('second-part', resolve(v), J(e, k))
        reach('second')


def built(r):
    """initial value, and the counting source built by default"""
    vs, P = vdims(r), dim('P', 1)
    full = vs + (P,)
    rng, lam = srandom.Generator('given'), real('lam')
    src = fn(I_, 'true_cpoisson_source')(paths=P, vshape=vs, rng=rng, lam=lam, t0=real('t0'), z0=real('z0'), y=jump())
    z = src.init()
    check('init', isinstance(z, (list, tuple)) and len(z) == 2 and z[1] is None and isinstance(z[0], snp.ndarray))
    v = src.getvalue(z)
    check('value', isinstance(v, snp.ndarray))
    if isinstance(v, snp.ndarray) and check_shape('shape', v.shape, full):
        i = indices(full)
        check_eq('initial', v.at(*i), tm(real('z0')))
    dn = src.dn
    check('counts', type(dn) is fn(I_, 'true_poisson_source') and dn.rng is rng and
          snp.dtype(dn.dtype).kind == 'i')
    check_shape('counts-shape', dn.vshape + (dn.paths,), full)
    check_eq('counts-lam', term(asarr(dn.lam)), tm(lam))
    check('no-draws', not ctx().draws)
    reach('end')


for _r in RANKS:
    vc('P15', 'built_%d' % _r, reach=('end',))(lambda r=_r: built(r))
for _r in RANKS:
    for _side in (1, -1):
        sd = 'fwd' if _side > 0 else 'bwd'
        for _h in ('constant', 'variable'):
            vc('P15', 'beyond_%s_%d_%s' % (_h, _r, sd), reach=('jumps', 'none'))(
                lambda r=_r, s=_side, h=_h: beyond(r, s, h))
        vc('P15', 'between_%d_%s' % (_r, sd), reach=('first', 'second', 'none'))(
            lambda r=_r, s=_side: between(r, s))
