"""P30: jump distributions, their moments and their images."""
from pyvc.api import *
from pyvc import srandom
from .common import *
from .laws import *

ASSUMPTIONS = ['moments of the standard normal, uniform and exponential laws (mean, second moment, moment generating function)',
               'scipy.stats norm, uniform, expon: contracts in pyvc/sscipy.py', 'numpy.random.Generator: pyvc/srandom.py',
               'parameters: scalars, vectors, broadcastable matrices; b > 0 for norm_rv, a < b for uniform_rv']
STD = {'normal': (ZERO, ONE), 'uniform': (div(1, 2), div(1, 3)), 'exponential': (ONE, const(2))}


def mgf(kind, k, c):
    """expected value of exp(c + k*d)"""
    if kind == 'normal':
        return t_.fexp(add(c, div(mul(k, k), const(2))))
    if kind == 'uniform':
        return div(sub(t_.fexp(add(c, k)), t_.fexp(c)), k)
    # the exponential law: infinite from 1 on
    return ite(lt(k, ONE), div(t_.fexp(c), sub(ONE, k)), INF)


def moments(mix):
    """mean, variance, mean of the exponential of a mixture [(probability, kind, c, k)] of c + k*d"""
    m = add(*[mul(p, add(c, mul(k, STD[kd][0]))) for p, kd, c, k in mix])
    q = add(*[mul(p, add(mul(c, c), mul(const(2), c, k, STD[kd][0]), mul(k, k, STD[kd][1]))) for p, kd, c, k in mix])
    return m, sub(q, mul(m, m)), [(p, mgf(kd, k, c)) for p, kd, c, k in mix]


SH = {'0': 0, 'v': 1, '1': '1', 'm': 'm'}


def param(name, kind):
    """parameter of the given shape, and its entry at (i, j) of the common shape (N, M)"""
    N, M = var('N', 'I'), var('M', 'I')
    if kind == '0':
        return real(name), lambda i, j: var(name)
    if kind == 'v':
        return arr(name, (D(M),)), lambda i, j: elt(name, j)
    if kind == 'c':
        return arr(name, (D(N), 1)), lambda i, j: elt(name, i, ZERO)
    if kind == 'm':
        return arr(name, (D(N), D(M))), lambda i, j: elt(name, i, j)
    raise ContractError(kind)


def shape_of(kinds):
    N, M = D(var('N', 'I')), D(var('M', 'I'))
    if 'c' in kinds or 'm' in kinds:
        return (N, M if 'v' in kinds or 'm' in kinds else 1)
    return (M,) if 'v' in kinds else ()


def positive(sampled, e, shape, cond=lambda x: lt(ZERO, x)):
    """precondition on all the entries of a parameter; how they are sampled in search of counterexamples"""
    import z3
    if e(ZERO, ZERO) == e(ONE, ONE):
        assume(cond(e(ZERO, ZERO)))
        return

    def ax(conv):
        i, j = var('%pi', 'I'), var('%pj', 'I')
        x = conv(e(i, j))
        vs = [conv(v) for v in (i, j) if v in fv(e(i, j))]
        return z3.ForAll(vs, conv(cond(e(i, j))), patterns=[x])
    ax.sampled = {k: v for n, v in sampled.items() for k in ('a:' + n, n)}
    ctx().axiom(ax)


def law_spec(dist, e):
    """mixture of the law, given the entries of the parameters"""
    a = e['a']
    if dist == 'norm_rv':
        return [(ONE, 'normal', a, e['b'])]
    if dist == 'uniform_rv':
        return [(ONE, 'uniform', a, sub(e['b'], a))]
    if dist == 'exp_rv':
        return [(ONE, 'exponential', ZERO, a)]
    return [(e['pa'], 'exponential', ZERO, a), (sub(ONE, e['pa']), 'exponential', ZERO, neg(e['b']))]


UNIT = lambda r: r.choice([0., 1.] + [r.random()]*4)
POS = lambda r: r.uniform(.1, 2)


def domain(dist, es, shape):
    if dist == 'norm_rv':
        positive(dict(b=POS), es['b'], shape)
    elif dist == 'uniform_rv':
        positive(dict(a=UNIT, b=lambda r: r.uniform(1.1, 3)), lambda i, j: sub(es['b'](i, j), es['a'](i, j)), shape)
    elif dist == 'exp_rv':
        positive(dict(a=lambda r: r.choice([-1, 1])*r.uniform(.1, 2)), es['a'], shape, lambda x: ne(x, ZERO))
    else:
        positive(dict(a=POS), es['a'], shape)
        positive(dict(b=POS), es['b'], shape)
        positive(dict(pa=UNIT), es['pa'], shape, lambda x: and_(le(ZERO, x), le(x, ONE)))


PARAMS = {'norm_rv': ('a', 'b'), 'uniform_rv': ('a', 'b'), 'exp_rv': ('a',), 'double_exp_rv': ('a', 'b', 'pa')}


def ij(i, shape):
    """indices of the common shape (N, M) from those of an array of this shape"""
    if len(shape) == 0:
        return ZERO, ZERO
    if len(shape) == 1:
        return ZERO, i[-1]
    return i[-2], i[-1]


def split(nm, v):
    """v = first where a uniform draw is below p, second elsewhere"""
    v = resolve(v)
    its = [u for u in t_.walk(v) if u.op == 'ite' and any(law(d).kind == 'uniform' for d in draws_of(u.a[0]))]
    if not its:
        return None
    conds = {u.a[0] for u in its}
    c = sorted(conds, key=lambda x: x.id)[0]
    q, sgn = c, True
    while q.op == 'not':
        q, sgn = q.a[0], not sgn
    if q.op not in ('lt', 'le'):
        raise Unsupported('%s: a choice by %s' % (nm, q.op))
    u = draws_of(q)
    if len(u) != 1 or law(u[0]).kind != 'uniform':
        raise Unsupported('%s: the choice depends on %d draws' % (nm, len(u)))
    u = u[0]
    # k*(u) < c: the limit
    d = sub(q.a[0], q.a[1])
    k = sub(subst(d, {u: ONE}), subst(d, {u: ZERO}))
    check_eq(nm + '-choice-affine', d, add(subst(d, {u: ZERO}), mul(k, u)))
    lim = neg(div(subst(d, {u: ZERO}), k))
    below = subst(v, {c: TRUE})
    above = subst(v, {c: FALSE})
    if not ctx().known(lt(ZERO, k)):
        check(nm + '-choice-direction', lt(k, ZERO))
        below, above = above, below
    if not sgn:
        below, above = above, below
    if u in draws_of(below) or u in draws_of(above):
        raise Unsupported('%s: the draw of the choice is used again' % nm)
    check(nm + '-choice-probability', and_(le(ZERO, lim), le(lim, ONE)))
    return u, lim, resolve(below), resolve(above)


def check_law(nm, value, shape, spec, fresh):
    """every entry has this law, with draws of its own"""
    i, j = indices(shape, nm + '.i'), indices(shape, nm + '.j')
    v = resolve(value(*i))
    mix = spec(i)
    parts = [(v, mix[0])]
    used = []
    if len(mix) == 2:
        s = split(nm, v)
        check(nm + '-two-sided', s is not None)
        if s is None:
            return
        u, lim, below, above = s
        used.append(u)
        p = mix[0][0]
        if not ctx().known(eq(lim, p)):
            check_eq(nm + '-probability', lim, sub(ONE, p))
            below, above = above, below
        else:
            check_eq(nm + '-probability', lim, p)
        parts = [(below, mix[0]), (above, mix[1])]
    for x, (p, kind, c, k) in parts:
        ds = draws_of(x)
        check(nm + '-one-draw', len(ds) == 1, note='%d draws' % len(ds))
        if len(ds) != 1:
            return
        d = ds[0]
        check(nm + '-kind', law(d).kind == kind, note=law(d).kind)
        used.append(d)
        if kind == 'exponential' or kind == 'uniform':
            check_eq(nm + '-entry', x, add(c, mul(k, d)))
        elif ctx().known(eq(x, add(c, mul(k, d)))):
            check_eq(nm + '-entry', x, add(c, mul(k, d)))
        else:
            # the normal law is symmetric
            check_eq(nm + '-entry', x, sub(c, mul(k, d)))
    if len(used) == 3:
        check(nm + '-choice-independent', used[0].a[0] not in (used[1].a[0], used[2].a[0]))
    # independent of the other entries
    for d in used:
        check(nm + '-own-index', implies(and_(*[eq(x, subst(x, dict(zip(i, j)))) for x in d.a[1:]]), same_index(i, j)))
        check(nm + '-generator', law(d).gen is GEN[0])
        check(nm + '-fresh', d.a[0] not in fresh)
    return used


GEN = [None]


def check_rv(nm, rv, dist, es, pshape, size, positional=False):
    """the distribution has the law, and the moments, of its parameters"""
    at = lambda i: law_spec(dist, {k: e(*ij(i, pshape)) for k, e in es.items()})
    GEN[0] = rng = srandom.Generator('given')
    before = mark()
    for k in range(2):
        x = rv.rvs(size, rng) if positional else rv.rvs(size=size, random_state=rng)
        x = asarr(x)
        if not check_shape(nm + '-draws-shape', x.shape, size):
            return
        check_law(nm + '-draws%d' % k, x.at, size, at, before)
        before = mark()
    i = indices(pshape, nm + '.m')
    m, v, em = moments(at(i))
    got = {k: asarr(getattr(rv, k)()) for k in ('mean', 'var', 'std', 'exp_mean')}
    for k, x in got.items():
        if not check_shape('%s-%s-shape' % (nm, k), x.shape, pshape):
            return
    check_eq(nm + '-mean', resolve(got['mean'].at(*i)), m)
    check_eq(nm + '-var', resolve(got['var'].at(*i)), v)
    # the square root of the variance
    s = resolve(got['std'].at(*i))
    check(nm + '-std-sign', le(ZERO, s))
    check_eq(nm + '-std', mul(s, s), v)
    check_em(nm, resolve(got['exp_mean'].at(*i)), em)


def check_em(nm, got, em):
    """mean of the exponential: infinite if one of the parts of non null probability is"""
    c = ctx()
    conds = []
    for p, x in em:
        x = resolve(x)
        if x.op == 'ite':
            x = x.a[1] if c.decide(x.a[0]) else x.a[2]
        if x is not INF or not c.decide(eq(p, ZERO)):
            conds.append((p, x))
    got = resolve(got)
    if any(x is INF for _, x in conds):
        if got is not INF:
            got = sscipy.simp_inf(got) if INF in fv(got) else ZERO
            check(nm + '-exp-mean-infinite', lt(ZERO, got))
        else:
            check(nm + '-exp-mean-infinite', True)
        return
    check(nm + '-exp-mean-finite', INF not in fv(got))
    check_eq(nm + '-exp-mean', got, add(*[mul(p, x) for p, x in conds]) if conds else ZERO)


def constant(dist, kinds, extra):
    N, M, P = dim('N', 1), dim('M', 1), dim('P', 0)
    ps = {n: param(n, k) for n, k in zip(PARAMS[dist], kinds)}
    es = {n: p[1] for n, p in ps.items()}
    sh = shape_of(kinds)
    domain(dist, es, sh)
    rv = fn(I_, dist)(**{n: p[0] for n, p in ps.items()})
    size = {0: sh, 1: (P,) + sh}[extra]
    check_rv('rv', rv, dist, es, sh, size)
    for n, (p, e) in ps.items():
        if isinstance(p, snp.ndarray):
            k = indices(p.shape, 'u')
            check_eq('parameters-unchanged', p.at(*k), elt(n, *k))
    reach('end')


SHAPES = {1: ('0', 'v', 'm'), 2: ('00', 'vv', '0v', 'v0', 'vc', 'mm'), 3: ('000', 'vvv', 'v00', '0v0', '00v', 'vcm')}
for _d in PARAMS:
    for _k in SHAPES[len(PARAMS[_d])]:
        for _e in (0, 1):
            vc('P30', '%s_%s_%d' % (_d, _k, _e), reach=('end',))(lambda d=_d, k=_k, e=_e: constant(d, k, e))


def defaults():
    P = dim('P', 1)
    one = lambda *a: ONE
    for dist, es in dict(norm_rv=dict(a=lambda *i: ZERO, b=one), uniform_rv=dict(a=lambda *i: ZERO, b=one),
                         exp_rv=dict(a=one), double_exp_rv=dict(a=one, b=one, pa=lambda *i: div(1, 2))).items():
        check_rv(dist, fn(I_, dist)(), dist, es, (), (P,), dist != 'norm_rv')
        # by position
        ps = {n: real(n) for n in PARAMS[dist]}
        es = {n: (lambda i, j, n=n: var(n)) for n in ps}
        domain(dist, es, ())
        check_rv(dist + '-positional', fn(I_, dist)(*ps.values()), dist, es, (), (P,))
    reach('end')


vc('P30', 'defaults', reach=('end',))(defaults)


def numbers():
    """plain numbers, also integers"""
    P = dim('P', 1)
    for dist, vals in (('norm_rv', (1, 2)), ('norm_rv', (-.5, .25)), ('uniform_rv', (0, 2)), ('uniform_rv', (-1, 1)),
                       ('exp_rv', (3,)), ('exp_rv', (-2,)), ('exp_rv', (1,)), ('exp_rv', (.5,)),
                       ('double_exp_rv', (2, 3, 0)), ('double_exp_rv', (.5, 1, 1)), ('double_exp_rv', (1, 1, .25)),
                       ('double_exp_rv', (.5, 2., .5))):
        es = {n: (lambda i, j, x=x: tm(x)) for n, x in zip(PARAMS[dist], vals)}
        check_rv('%s%s' % (dist, vals), fn(I_, dist)(*vals), dist, es, (), (P,))
    reach('end')


vc('P30', 'numbers', reach=('end',))(numbers)


def rejected():
    M = dim('M', 1)
    bad = index('bad', M)
    a, b, p = arr('a', (M,)), arr('b', (M,)), arr('p', (M,))
    c = ctx()
    w = c.choose(), c.choose()
    if w == (True, True):
        assume(eq(elt('a', bad), ZERO))
        expect_raise('exp_rv', ValueError, fn(I_, 'exp_rv'), a)
        x = real('x')
        assume(eq(term(x), ZERO))
        expect_raise('exp_rv-scalar', ValueError, fn(I_, 'exp_rv'), x)
        expect_raise('exp_rv-time', ValueError, fn(I_, 'exp_rv')(lambda t: a), 0.)
        reach('exp')
        return
    assume({(True, False): le(elt('a', bad), ZERO), (False, True): le(elt('b', bad), ZERO),
            (False, False): or_(lt(elt('p', bad), ZERO), lt(ONE, elt('p', bad)))}[w])
    d = fn(I_, 'double_exp_rv')
    expect_raise('vectors', ValueError, d, a, b, p)
    q = {(True, False): dict(a=a), (False, True): dict(b=b), (False, False): dict(pa=p)}[w]
    expect_raise('one', ValueError, d, **q)
    k, v = list(q.items())[0]
    expect_raise('scalar', ValueError, d, **{k: Sym(v.at(bad), 'f')})
    expect_raise('time', ValueError, d(**{k: lambda t: v}), 0.)
    reach('double')


vc('P30', 'rejected', reach=('exp', 'double'))(rejected)


def timedep(dist, which, vector):
    M, P = dim('M', 1), dim('P', 1)
    s = var('s')
    names = PARAMS[dist]
    kw, es, called = {}, {}, []
    sh = (M,) if vector else ()
    for n in names:
        if n not in which:
            kw[n], es[n] = real(n), lambda i, j, n=n: var(n)
            continue

        def f(t, n=n):
            t = term(asarr(t))
            called.append((n, t))
            if vector:
                return snp.ndarray._np_make(lambda i: app(n, t, i[0]), sh, snp.dtype(float))
            return Sym(app(n, t), 'f')
        kw[n], es[n] = f, (lambda i, j, n=n: app(n, s, j)) if vector else (lambda i, j, n=n: app(n, s))
    domain(dist, es, sh)
    rv = fn(I_, dist)(**kw)
    check('function', callable(rv) and not hasattr(rv, 'rvs'))
    check_rv('rv', rv(Sym(s, 'f')), dist, es, sh, (P,) + sh)
    check('time', all(eq(t, s) is TRUE for n, t in called))
    reach('end')


for _d in PARAMS:
    ns = PARAMS[_d]
    for _w in {1: ('a',), 2: ('a', 'b', 'ab'), 3: ('a', 'b', ('pa',), ('a', 'b', 'pa'))}[len(ns)]:
        for _v in (0, 1):
            vc('P30', 'time_%s_%s_%d' % (_d, ''.join(_w), _v), reach=('end',))(
                lambda d=_d, w=tuple(_w), v=_v: timedep(d, w, v))


class anyrv:
    """an arbitrary distribution"""

    def __init__(self, s=None):
        self.s, self.calls = s, []

    def rvs(self, size, random_state=None):
        x = srandom.draw(random_state, 'any', snp._shape_arg(size), () if self.s is None else (Sym(self.s, 'f'),))
        self.calls.append((size, random_state, x))
        return x


def mapping(fkind, ytime):
    made = []
    size = (dim('P', 0), dim('V', 1))
    g = srandom.Generator('given')
    name = {'plain': 'y', 'plain-x': 'x'}.get(fkind, fkind)

    def fun(*t):
        uf = snp.ufunc('f', 1, lambda y: app('f', *t, y), snp._rt_float)
        return uf
    if fkind == 'plain':
        f = lambda y: fun()(y)
    elif fkind == 'plain-x':
        f = lambda x, t=0: fun()(x)
    elif fkind == 't':
        f = lambda t, y: fun(term(asarr(t)))(y)
    elif fkind == 's':
        f = lambda s, y: fun(term(asarr(s)))(y)
    else:
        def f(t, x):
            return fun(term(asarr(t)))(x)
    timed = not fkind.startswith('plain')

    def y(t):
        made.append(anyrv(term(asarr(t))))
        return made[-1]
    base = anyrv()
    z = fn(I_, 'rvmap')(f, y if ytime else base)
    if not timed and not ytime:
        check('distribution', hasattr(z, 'rvs') and not callable(z))
        insts = [(None, z, lambda: base)]
    else:
        check('function', callable(z) and not hasattr(z, 'rvs'))
        insts = []
        for t in (var('t1'), var('t2')):
            q = z(Sym(t, 'f'))
            insts.append((t, q))
        insts = [(t, q, None) for t, q in insts]
    used = set()
    for rep in range(2):
        for t, q, _ in insts:
            n0 = [len(r.calls) for r in made + [base]]
            m0 = list(made)
            x = q.rvs(size=size, random_state=g) if rep else q.rvs(size, g)
            src = [r for k, r in enumerate(m0 + [base]) if len(r.calls) > n0[k]] + [r for r in made[len(m0):] if r.calls]
            check('one-source', len(src) == 1 and len(src[0].calls) >= 1)
            call = src[0].calls[-1]
            if ytime:
                check('source-time', src[0].s is t)
            check('source', bool(ytime) or src[0] is base)
            check('one-call', sum(len(r.calls) for r in made + [base]) == sum(n0) + 1)
            check('size', snp._shape_arg(call[0]) == size)
            check('generator', call[1] is g)
            x = asarr(x)
            if check_shape('shape', x.shape, size):
                i = indices(size, 'i')
                check_eq('draw', x.at(*i), app('f', *((t,) if timed else ()), call[2].at(*i)))
    reach('end')


for _f in ('plain', 'plain-x', 't', 's', 'def'):
    for _y in (0, 1):
        vc('P30', 'rvmap_%s_%d' % (_f, _y), reach=('end',))(lambda f=_f, y=_y: mapping(f, y))


def mapped_laws():
    """images of the distributions"""
    P = dim('P', 1)
    a, b = real('a'), real('b')
    assume(lt(ZERO, term(b)))
    g = srandom.Generator('given')
    z = fn(I_, 'rvmap')(lambda y: snp.exp(y), fn(I_, 'norm_rv')(a, b))
    x = z.rvs(size=(P,), random_state=g)
    i = index('i', P)
    v = resolve(asarr(x).at(i))
    ds = draws_of(v)
    check('one-draw', len(ds) == 1 and law(ds[0]).kind == 'normal')
    check_eq('draw', v, t_.fexp(add(term(a), mul(term(b), ds[0]))))
    reach('end')


vc('P30', 'mapped_laws', reach=('end',))(mapped_laws)
