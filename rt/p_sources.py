"""P09-P15, P30, P31: stochasticity sources, jump distributions, correlations."""
import math
import numpy as np
import scipy.stats
from base import prop, Fail
from sdepy import infrastructure as inf
from sdepy.infrastructure import (process, wiener_source, poisson_source, cpoisson_source, odd_wiener_source,
                                  even_poisson_source, even_cpoisson_source, true_wiener_source, true_poisson_source,
                                  true_cpoisson_source, norm_rv, uniform_rv, exp_rv, double_exp_rv, rvmap)

Gen = np.random.default_rng


def tdt(c, maxsize=4):
    """times and increments, broadcasting together"""
    sh = c.choice([((), ()), ((3,), ()), ((), (2,)), ((2,), (2,)), ((2, 1), (2,)), ((1,), (1,)), ((2,), (1,)), ((0,), ())])
    t = c.rng.uniform(-2, 3, sh[0])
    dt = c.rng.uniform(-1.5, 1.5, sh[1])
    if c.bool(.3):
        dt = np.abs(dt)
    if c.bool(.15):
        dt = dt*1e-4
    if c.bool(.15):
        dt = np.where(c.rng.random(sh[1]) < .5, 0., dt)
    if c.bool(.15):
        t = np.round(t).astype(int)
        dt = np.round(dt*2).astype(int)
    c.note(t=t, dt=dt)
    tt, dd = np.broadcast_arrays(t, dt)
    if c.bool(.3):
        t, dt = (t.tolist(), dt.tolist())
    return t, dt, tt, dd


def random_corr(c, M):
    a = c.rng.normal(size=(M, M + 1))
    s = a @ a.T
    d = np.sqrt(np.diag(s))
    return s/np.outer(d, d)


def corr_cases(c, vs):
    """(constructor arguments, function of time -> matrix or None)"""
    M = vs[-1] if vs else 0
    kinds = ['none']
    if M:
        kinds += ['corr', 'corr3', 'corrf', 'corrf3', 'corrf']
    if M == 2:
        kinds += ['rho', 'rhof', 'rho1', 'rhof']
    if M == 4:
        kinds += ['rhov', 'rhovf', 'rhov1']
    k = c.note(corr_kind=c.cycle(kinds) if c.bool() else c.choice(kinds))
    if k == 'none':
        return {}, None
    if k in ('corr', 'corr3'):
        m = random_corr(c, M)
        if c.bool(.3):
            s = np.sqrt(c.rng.uniform(.5, 2, M))
            m = m*np.outer(s, s)      # a covariance matrix is used as given
        c.note(corr=m)
        return dict(corr=m if k == 'corr' else m[..., None]), lambda t: m
    if k in ('corrf', 'corrf3'):
        m, m1 = random_corr(c, M), random_corr(c, M)

        def f(t):
            w = 1/(1 + np.exp(-3*(float(t) - .5)))
            r = w*m + (1 - w)*m1
            return r if k == 'corrf' else r[..., None]
        return dict(corr=f), lambda t: f(t).reshape(M, M)
    n = M//2

    def mat(r):
        r = np.asarray(r).reshape(-1)
        m = np.eye(2*n)
        for i in range(n):
            m[i, n+i] = m[n+i, i] = r[i]
        return m
    if k in ('rho', 'rho1', 'rhov', 'rhov1'):
        r = c.rng.uniform(-.95, .95, n)
        if k == 'rho':
            r = r[0]
        elif k.endswith('1') and n > 1:
            r = r[:, None]
        return dict(rho=r), lambda t: mat(r)
    a = c.rng.uniform(-.9, .9, n)
    shape = () if n == 1 else (n,)
    f = lambda t: (a*np.sin(3*float(t))).reshape(shape)
    return dict(rho=f), lambda t: mat(f(t))


def block_cov(vs, C):
    """covariance of the entries of one value array: C along the last axis"""
    n = int(np.prod(vs, dtype=int))
    if C is None:
        return np.eye(n)
    return np.kron(np.eye(n//vs[-1]), C)


# ------------------------------------------------------------------- P09

@prop('P09', 100)
def wiener_shape(c):
    vs, P = c.choice([(), (2,), (3, 2), (1,), (2, 4), (4,)]), c.paths()
    kw, C = corr_cases(c, vs)
    t, dt, tt, dd = tdt(c)
    dtype = c.choice([None, None, 'f4', float])
    c.note(vshape=vs)
    dw = wiener_source(paths=P, vshape=vs[0] if len(vs) == 1 and c.bool() else vs, dtype=dtype, rng=c.child(), **kw)
    z = dw(t, dt)
    c.ok(z.shape == dd.shape + vs + (P,), 'shape of the increments')
    c.ok(z.dtype == np.dtype(dtype or float), 'data type')
    c.ok(np.all(np.isfinite(z)), 'finite')
    c.ok(np.all(z[dd == 0] == 0), 'null increments')
    c.ok(dw.paths == P and dw.vshape == vs, 'attributes')
    if z[dd != 0].size:
        c.ok(not np.any(z[dd != 0] == 0), 'null value')
        c.ok(not np.array_equal(dw(t, dt), z), 'two calls give the same increments')


@prop('P09', 24)
def wiener_law(c):
    vs = c.cycle([(2,), (), (3, 2), (2, 4), (4,), (3,)])
    kw, C = corr_cases(c, vs)
    c.note(vshape=vs)
    P = 8000
    t, dt = c.choice([(np.array([-.3, 1.]), np.array([.7, -1.2])), (.4, np.array([2., .05])), (np.array([[.1], [2.]]), np.array([-.8, 1.])),
                      (np.array([0., .5]), .5), (np.array([-1., .2]), -.9)])
    c.note(t=t, dt=dt)
    dw = wiener_source(paths=P, vshape=vs, rng=c.child(), **kw)
    z, z2 = dw(t, dt), dw(t, dt)
    tt, dd = np.broadcast_arrays(t, dt)
    n = int(np.prod(vs, dtype=int))
    rows, cov = [], []
    for zz in (z, z2):
        for i in np.ndindex(dd.shape):
            rows.append(zz[i].reshape(n, P)/np.sqrt(abs(dd[i])))
            cov.append(block_cov(vs, None if C is None else C(tt[i] + dd[i]/2)))
    X = np.concatenate(rows).T
    K = np.zeros((X.shape[1],)*2)
    o = 0
    for m in cov:
        K[o:o+n, o:o+n] = m
        o += n
    c.zmean(X, 0, np.diag(K), 'Wiener increments')
    c.zcov(X, K, 'Wiener increments')
    # independence across paths
    H = P//2
    Y = np.concatenate((X[:H], X[H:]), axis=1)
    KK = np.kron(np.eye(2), K)
    c.zcov(Y, KK, 'Wiener increments of different paths')
    Y = np.concatenate((X[0:-1:2], X[1::2]), axis=1)
    c.zcov(Y, KK, 'Wiener increments of adjacent paths')
    # Gaussian shape
    S = X/np.sqrt(np.diag(K))
    c.zmean(S**3, 0, 15., 'third moment')
    c.zmean(S**4, 3, 96., 'fourth moment')


@prop('P09', 24)
def wiener_rejects(c):
    P = 2
    rng = c.child()
    M = c.int(1, 4)
    bad = random_corr(c, M)
    for vs in [(M + 1,), (M, M + 1), ()] + ([(M - 1,)] if M > 1 else []):
        c.note(vshape=vs, M=M)
        for corr in (bad, bad[..., None], lambda t: bad):
            c.raises(ValueError, lambda: wiener_source(paths=P, vshape=vs, corr=corr, rng=rng), 'correlation of the wrong size')
    for vs in ((), (1,), (3,), (2, 1), (4,)):
        c.raises(ValueError, lambda: wiener_source(paths=P, vshape=vs, rho=.3, rng=rng), 'rho with vshape %s' % (vs,))
        if vs != (4,):
            c.raises(ValueError, lambda: wiener_source(paths=P, vshape=vs, rho=[.3, .2], rng=rng), 'rho with vshape %s' % (vs,))
    c.raises(ValueError, lambda: wiener_source(paths=P, vshape=(2,), corr=np.ones((2, 3)), rng=rng), 'non square')


# ------------------------------------------------------------------- P10

def lam_cases(c, vs, P):
    """intensity parameter and its value at a time, broadcast to vs + (P,)"""
    full = vs + (P,)
    k = c.note(lam_kind=c.choice(['scalar', 'array', 'paths', 'full', 'f', 'farray', 'ff', 'process', 'list', 'zero']))
    if k == 'scalar':
        a = c.uni(.2, 3)
        return a, lambda t: np.broadcast_to(a, full)
    if k == 'zero':
        return 0., lambda t: np.zeros(full)
    if k == 'list':
        a = c.rng.uniform(.2, 3, P).tolist()
        return a, lambda t: np.broadcast_to(a, full)
    if k in ('array', 'farray'):
        a = c.rng.uniform(.2, 3, vs + (1,))
    elif k == 'paths':
        a = c.rng.uniform(.2, 3, (P,))
    else:
        a = c.rng.uniform(.2, 3, full)
    c.note(lam=a)
    if k in ('f', 'farray', 'ff'):
        if k == 'f':
            g = lambda t: 1 + np.sin(2*t)
        else:
            g = lambda t: a*(1.2 + np.cos(3*float(t)))
        return g, lambda t: np.broadcast_to(g(t), full)
    if k == 'process':
        tl = np.array([-4., 0., 1., 5.])
        x = c.rng.uniform(.2, 3, tl.shape + vs + (1,))
        p = process(tl, x=x)
        return p, lambda t: np.broadcast_to(p(t), full)
    return a, lambda t: np.broadcast_to(a, full)


@prop('P10', 120)
def poisson_shape(c):
    vs, P = c.choice([(), (2,), (3, 2), (1,)]), c.paths()
    lam, L = lam_cases(c, vs, P)
    t, dt, tt, dd = tdt(c)
    c.note(vshape=vs)
    dtype = c.choice([None, int, float])
    kw = {} if dtype is None else dict(dtype=dtype)
    dn = poisson_source(paths=P, vshape=vs, lam=lam, rng=c.child(), **kw)
    n = dn(t, dt)
    c.ok(n.shape == dd.shape + vs + (P,), 'shape')
    c.ok(n.dtype == np.dtype(dtype or int), 'data type')
    c.ok(np.all(n == np.round(n)), 'whole counts')
    for i in np.ndindex(dd.shape):
        c.ok(np.all(n[i]*np.sign(dd[i]) >= 0), 'sign of the counts')
        c.ok(dd[i] != 0 or np.all(n[i] == 0), 'null increments')
        c.ok(np.all(n[i][L(tt[i] + dd[i]/2) == 0] == 0), 'null intensity')
    # intensity: the same counts, drawn many times, have the expected mean
    c.ok(dn.paths == P and dn.vshape == vs, 'attributes')


@prop('P10', 24)
def poisson_law(c):
    vs = c.cycle([(), (2,), (3, 2)])
    k = c.i//3 % 5
    P = 6000
    a = c.rng.uniform(.3, 3, vs + (1,))
    b = c.rng.uniform(.3, 3, P)
    lam, L = [(1.7, lambda t: 1.7 + 0*a), (a, lambda t: a), (lambda t: a*(1.2 + math.sin(3*t)), lambda t: a*(1.2 + math.sin(3*t))),
              (lambda t: 2 + math.cos(2*t), lambda t: 2 + math.cos(2*t) + 0*a), (b, lambda t: b + 0*a)][k]
    c.note(vshape=vs, lam_kind=k)
    t, dt = c.choice([(np.array([-.3, 1.]), np.array([.7, -1.2])), (.4, np.array([2., .5])), (np.array([[.1], [2.]]), np.array([-.8, 1.]))])
    c.note(t=t, dt=dt)
    dn = poisson_source(paths=P, vshape=vs, lam=lam, rng=c.child())
    tt, dd = np.broadcast_arrays(t, dt)
    n = int(np.prod(vs, dtype=int))
    rows = []
    for z in (dn(t, dt), dn(t, dt)):
        for i in np.ndindex(dd.shape):
            m = np.broadcast_to(abs(dd[i])*L(tt[i] + dd[i]/2), vs + (P,)).reshape(n, P)
            x = (z[i]*np.sign(dd[i])).reshape(n, P)
            s = (x - m)/np.sqrt(m)
            c.zmean(s.T, 0, 1., 'Poisson counts')
            c.zmean((s**2).T, 1., (2 + 1/m).mean(axis=1), 'Poisson counts, variance')
            c.zmean(((x == 0) - np.exp(-m)).T, 0., (np.exp(-m)*(1 - np.exp(-m))).mean(axis=1), 'Poisson null counts')
            rows.append(s)
    X = np.concatenate(rows).T
    c.zcov(X, np.eye(X.shape[1]), 'Poisson counts, independence', k=9)
    H = P//2
    Y = np.concatenate((X[:H], X[H:]), axis=1)
    c.zcov(Y, np.eye(Y.shape[1]), 'Poisson counts across paths', k=9)


@prop('P10', 30)
def poisson_rejects(c):
    P = c.int(2, 4)
    for vs, sh in (((2,), (3, 1)), ((), (P + 1,)), ((2,), (2, P + 1)), ((), (2, P)), ((2, 3), (2, 1)), ((3,), (1, 3, P)), ((3,), (3,) if P != 3 else (4,))):
        a = np.ones(sh)
        for lam in (a, lambda t: a):
            c.raises(ValueError, lambda: poisson_source(paths=P, vshape=vs, lam=lam), 'lam %s, vshape %s, paths %s' % (sh, vs, P))


# ------------------------------------------------------------------- P11

class unique_jumps:
    """each draw is a new power of two: sums tell which draws were used"""

    def __init__(self, log=None, tag=None):
        self.k = 0
        self.log = [] if log is None else log
        self.states = []
        self.tag = tag

    def rvs(self, size, random_state=None):
        self.states.append(random_state)
        n = int(np.prod(size, dtype=int))
        r = np.array([2.**(self.k + i) for i in range(n)])
        self.k += n
        self.log.append((self.tag, n))
        return r.reshape(size)


class counting_source:
    def __init__(self, vs, P, f, dtype=int):
        self.vshape, self.paths, self.f, self.dtype, self.calls = vs, P, f, dtype, []

    def __call__(self, t, dt):
        self.calls.append((np.asarray(t).copy(), np.asarray(dt).copy()))
        self.last = self.f(np.asarray(t), np.asarray(dt))
        return self.last


def bits(x):
    return [k for k in range(60) if int(x) >> k & 1]


@prop('P11', 150)
def one_jump_per_event(c):
    vs, P = c.choice([(), (2,), (2, 1), (3,)]), c.int(1, 3)
    t, dt, tt, dd = tdt(c)
    rng = c.child()
    low = c.choice([True, False])

    def counts(t, dt):
        shape = np.broadcast(t, dt).shape + vs + (P,)
        n = rng.poisson(.6 if np.prod(shape) < 20 else .25, shape)
        if n.size and c.bool(.2):
            n[...] = 0
        if n.size and low and c.bool(.5):
            n.flat[0] = 4
        return n*np.sign(np.broadcast_to(dt, np.broadcast(t, dt).shape)).astype(int).reshape(np.broadcast(t, dt).shape + (1,)*(len(vs) + 1))
    dn = counting_source(vs, P, counts)
    y = unique_jumps()
    g = c.child()
    dj = cpoisson_source(paths=P, vshape=vs, dn=dn, y=y, rng=g)
    z = dj(t, dt)
    n = dn.last
    c.note(counts=n, vshape=vs, jumps=z)
    if np.abs(n).sum() > 50:
        return
    c.ok(len(dn.calls) == 1, 'counting source called once')
    c.same(np.broadcast_arrays(*dn.calls[0])[0], tt, 'time of the counting source', exact=True)
    c.same(np.broadcast_arrays(*dn.calls[0])[1], dd, 'increment of the counting source', exact=True)
    c.ok(z.shape == dd.shape + vs + (P,), 'shape')
    used = []
    for i in np.ndindex(dd.shape):
        s = np.sign(dd[i])
        for k in np.ndindex(vs + (P,)):
            v = z[i][k]*s
            c.ok(v == int(v) and v >= 0, 'sign of the jumps')
            b = bits(v)
            c.ok(len(b) == abs(n[i][k]), 'as many draws as events, fresh ones')
            used += b
    c.ok(len(used) == len(set(used)), 'no draw is used twice')
    c.ok(all(st is g for st in y.states), 'random generator passed to the jump variable')
    c.same(dj.dn_value, n, 'exposed counts', exact=True)
    ys = np.concatenate([np.asarray(a).ravel() for a in dj.y_value]) if len(dj.y_value) else np.array([])
    c.same(np.sort(ys), np.sort(np.array([2.**k for k in used])), 'exposed jump samples', exact=True)
    z2 = dj(t, dt)
    c.same(dj.dn_value, dn.last, 'exposed counts, second call', exact=True)
    c.ok(sum(np.asarray(a).size for a in dj.y_value) == np.abs(dn.last).sum(), 'exposed samples, second call')


@prop('P11', 80)
def time_dependent_jumps(c):
    vs, P = c.choice([(), (2,)]), c.int(1, 4)
    t, dt, tt, dd = tdt(c)
    seen = []

    class const:
        def __init__(self, v):
            self.v = v

        def rvs(self, size, random_state=None):
            return np.full(size, self.v)

    def y(s):
        seen.append(float(s))
        return const(10. + s)
    g = c.int(0, 10**6)
    dj = cpoisson_source(paths=P, vshape=vs, lam=1.5, y=y, rng=Gen(g))
    z = dj(t, dt)
    n = dj.dn_value
    for i in np.ndindex(dd.shape):
        c.same(z[i], n[i]*(10. + tt[i] + dd[i]/2), 'jumps at the midpoint')
    # jumps of either sign, null, and constant
    v = c.choice([-3., 0., 1., .5])
    dj = cpoisson_source(paths=P, vshape=vs, lam=lambda s: 1 + s**2, y=const(v), rng=Gen(g))
    z = dj(t, dt)
    c.same(z, dj.dn_value*v, 'constant jumps')
    ref = poisson_source(paths=P, vshape=vs, lam=lambda s: 1 + s**2, rng=Gen(g))(t, dt)
    c.same(dj.dn_value, ref, 'counts of the given intensity', exact=True)

    class plain:
        def rvs(self, size):
            return np.full(size, 2.)
    dj = cpoisson_source(paths=P, vshape=vs, lam=1., y=plain(), rng=Gen(g))
    z = dj(t, dt)
    c.same(z, dj.dn_value*2., 'jumps without random_state')


@prop('P11', 16)
def compound_law(c):
    vs = c.cycle([(), (2,)])
    P = 6000
    lam = c.uni(.5, 3)
    a, b = c.uni(-.5, .5), c.uni(.2, 1)
    t, dt = np.array([0., .5]), np.array([1.2, -.7])
    dj = cpoisson_source(paths=P, vshape=vs, lam=lam, y=norm_rv(a, b), rng=c.child())
    z = dj(t, dt)
    n = int(np.prod(vs, dtype=int))
    X = []
    for i in range(2):
        m = lam*abs(dt[i])
        x = z[i].reshape(n, P).T*np.sign(dt[i])
        v = m*(a*a + b*b)
        x = (x - m*a)/np.sqrt(v)
        c.zmean(x, 0, 1., 'mean of the compound Poisson')
        c.zmean(x**2, 1, 2 + m*(a**4 + 6*a*a*b*b + 3*b**4)/v**2, 'variance of the compound Poisson')
        X.append(x)
    X = np.concatenate(X, axis=1)
    c.zcov(X, np.eye(X.shape[1]), 'independence', k=10)
    H = P//2
    c.zcov(np.concatenate((X[:H], X[H:]), axis=1), np.eye(2*X.shape[1]), 'independence across paths', k=10)


# ------------------------------------------------------------------- P12

@prop('P12', 150)
def antithetics(c):
    vs = c.choice([(), (2,), (3, 2), (1,)])
    n = c.int(1, 5)
    which = c.cycle(['w', 'n', 'j'])
    c.note(which=which, vshape=vs, n=n)
    t, dt, tt, dd = tdt(c)
    seed = c.int(0, 10**6)
    dtype = c.choice([None, float, 'f4']) if which != 'n' else c.choice([int, float])
    kw = {}
    if which == 'w':
        A, B = odd_wiener_source, wiener_source
        if vs and vs[-1] == 2:
            kw = c.choice([{}, dict(rho=.4), dict(corr=random_corr(c, 2)), dict(rho=lambda s: .5*np.sin(s))])
    elif which == 'n':
        A, B = even_poisson_source, poisson_source
        kw = c.choice([{}, dict(lam=2.5), dict(lam=lambda s: 1 + s*s), dict(lam=np.ones(vs + (1,))*3)])
    else:
        A, B = even_cpoisson_source, cpoisson_source
        kw = c.choice([{}, dict(lam=2.5), dict(y=norm_rv(1, 2)), dict(lam=3., y=exp_rv(.5), ptype=int),
                       dict(y=lambda s: norm_rv(s, 1))])
    g1, g2 = Gen(seed), Gen(seed)
    a = A(paths=2*n, vshape=vs, dtype=dtype, rng=g1, **kw)
    b = B(paths=n, vshape=vs, dtype=dtype, rng=g2, **kw)
    c.ok(a.paths == 2*n, 'paths')
    c.ok(a.vshape == vs, 'vshape')
    c.ok(a.dtype == dtype, 'dtype')
    c.ok(a.rng is g1, 'rng')
    for _ in range(2):
        z, w = a(t, dt), b(t, dt)
        c.ok(z.shape == dd.shape + vs + (2*n,), 'shape')
        c.same(z[..., :n], w, 'first half is a plain source', exact=True)
        c.same(z[..., n:], -w if which == 'w' else w, 'second half', exact=True)
        c.ok(z.dtype == w.dtype, 'data type')
    for m in (1, 2*n + 1, 2*n - 1):
        c.raises(ValueError, lambda: A(paths=m, vshape=vs, rng=g1, **kw), 'odd number of paths')


# ------------------------------------------------------------------- P13

def true_src(c, which, vs, P, **kw):
    g = c.child()
    if which == 'w':
        M = vs[-1] if vs else 0
        if M == 2 and c.bool():
            kw.update(c.choice([dict(rho=.5), dict(corr=random_corr(c, 2)), dict(rho=lambda s: .6*np.sin(s)),
                                dict(corr=random_corr(c, 2)[..., None])]))
        return true_wiener_source(paths=P, vshape=vs, rng=g, **kw)
    if which == 'n':
        return true_poisson_source(paths=P, vshape=vs, rng=g, lam=c.choice([1., 4., lambda s: 1 + s*s, .05]), **kw)
    return true_cpoisson_source(paths=P, vshape=vs, rng=g, lam=c.choice([1., 4., .2]),
                                **{**({} if c.bool() else dict(y=norm_rv(0, 1))), **kw})


@prop('P13', 150)
def one_realization(c):
    which = c.cycle(['w', 'n', 'j'])
    vs, P = c.choice([(), (2,), (2, 3), (1,)]), c.int(1, 4)
    t0 = c.choice([0., 0., 1.5, -2.])
    z0 = c.choice([0, 0, 3, 1]) if which == 'n' else c.choice([0., 1., -2.5])
    rtol = c.choice(['max', 'max', 1e-3])
    c.note(which=which, vshape=vs, t0=t0, z0=z0, rtol=rtol)
    s = true_src(c, which, vs, P, t0=t0, z0=z0, rtol=rtol)
    full = vs + (P,)
    c.same(s(t0), np.full(full, z0), 'initial value')
    known = {float(t0): np.full(full, z0, dtype=float)}
    hist = []
    ta = {float(t0)}
    gap = .02
    for step in range(c.int(3, 12)):
        how = c.choice(['new', 'new', 'array', 'old', 'incr', 'near'])
        old = list(known)
        if how == 'new':
            q = np.array(c.uni(-4, 4))
        elif how == 'array':
            q = c.rng.uniform(-4, 4, c.choice([(2,), (3,), (2, 2), (0,)]))
            if q.size and c.bool(.3):
                q.flat[-1] = q.flat[0]
        elif how == 'old':
            q = np.array([old[c.int(0, len(old) - 1)] for _ in range(c.int(1, 3))])
        elif how == 'near':
            b = old[c.int(0, len(old) - 1)]
            r = 1e-3 if rtol == 1e-3 else 1e-15
            if any(o != b and abs(o - b) <= 4*r*max(abs(o), abs(b)) for o in old):
                continue
            q = np.array(b*(1 + c.choice([-1, 1])*r*.4))
            hist.append(('near', float(q)))
            v = s(q)
            c.same(v, known[b], 'time within tolerance of an evaluated one', exact=True)
            continue
        else:
            t = c.choice([np.array(old)[:3], np.array(c.uni(-3, 3)), np.array(old[-1])])
            dt = np.array(c.uni(-1, 1))
            hist.append(('increment', t.tolist(), float(dt)))
            c.note(history=hist)
            d = s(t, dt)
            a, b = s(t + dt), s(t)
            c.same(d, a - b, 'increment is the difference of the values', rtol=1e-12)
            u = t + dt/3
            c.same(s(t, u - t) + s(u, (t + dt) - u), s(t, (t + dt) - t), 'increments add up', rtol=1e-9, atol=1e-6)
            for w, val in ((t + dt, a), (t, b)):
                w = np.asarray(w)
                for i in np.ndindex(w.shape):
                    if not any(o != w[i] and abs(o - w[i]) <= 2e-3*abs(o) for o in known):
                        known.setdefault(float(w[i]), val[i].copy())
                        c.same(val[i], known[float(w[i])], 'value of an evaluated time', exact=True)
            continue
        hist.append((how, q.tolist()))
        c.note(history=hist)
        if how in ('new', 'array'):
            # keep clear of tolerance overlaps
            allv = np.concatenate((q.ravel(), np.array(old)))
            dd = np.abs(allv[:, None] - allv[None, :])
            if np.any((dd > 0) & (dd <= 4e-3*np.abs(allv)[None, :])):
                continue
        n0 = set(s.t.tolist())
        v = s(q if c.bool() else q.tolist())
        c.ok(v.shape == q.shape + full, 'shape')
        for i in np.ndindex(q.shape):
            b = float(q[i])
            if b in known:
                c.same(v[i], known[b], 'value of an evaluated time', exact=True)
            known[b] = v[i].copy()
        if v.flags.writeable and c.bool():
            v += 1    # values returned belong to the caller
        tl = s.t
        c.ok(np.all(np.diff(tl) > 0), 'stored times sorted')
        new = set(tl.tolist()) - n0
        c.ok(n0 <= set(tl.tolist()), 'no stored time is dropped')
        c.ok(new <= set(np.ravel(q).tolist()), 'only the times evaluated are stored')
        if which == 'w' and rtol == 'max':
            c.ok(new == set(np.ravel(q).tolist()) - n0, 'times evaluated anew are stored')
        c.ok(s.size == len(tl)*int(np.prod(full, dtype=int)) or which == 'j', 'size')
    for b, v in known.items():
        if any(o != b and abs(o - b) <= 3e-3*abs(o) for o in known):
            continue
        c.same(s(b), v, 'value of an evaluated time, at the end', exact=True)
    # increments add up exactly over adjacent intervals
    n = len(vs) + 1
    for k in ((0,)*n, (slice(0, 2),)*n, (0,)*(n - 1) + (slice(0, 1),)):
        c.raises(IndexError, lambda: s[k], 'an index which would reach the paths')
    if vs:
        k = c.choice([0, -1, slice(None, None, -1), slice(0, 1)])
        c.note(vindex=k)
        w = s[k]
        q = c.rng.uniform(-4, 4, 2)
        # indexing along the value axes
        exp = np.stack([np.stack([s(b)[..., j][k] for j in range(P)], axis=-1) for b in q])
        for b, e in zip(q, exp):
            c.same(w(b), e, 'indexed source', exact=True)
        c.same(w(q), exp, 'indexed source, at several times', exact=True)
        c.same(w(q[None, :]), exp[None, :], 'indexed source, at several times', exact=True)
        c.ok(w.vshape == exp.shape[1:-1] and w.paths == P, 'indexed source attributes')
        c.same(w(q[0], .25), np.stack([s(q[0], .25)[..., j][k] for j in range(P)], axis=-1), 'indexed increment', rtol=1e-12)


@prop('P13', 40)
def tolerance(c):
    """times apart by more than the tolerance have values of their own; values of times within it are the same"""
    rtol = c.cycle([0, 0., 'max', 1e-6, .01])
    r = 1e-15 if rtol == 'max' else rtol
    s = true_wiener_source(paths=2, rng=c.child(), rtol=rtol)
    t = c.choice([1., -1.5, .3, 1e-3, 7.])
    s(t)
    if c.bool():
        s(t + 2)
    c.note(rtol=rtol, t=t)
    for k in range(c.int(1, 3)):
        far = c.choice([t*(1 + 20*r), t*(1 - 20*r)]) if r else np.nextafter(t, c.choice([-9, 9]))
        if far in s.t:
            continue
        n = s.t.size
        v = s(far)
        c.ok(far in s.t and t in s.t and s.t.size == n + 1, 'a time apart by more than the tolerance is stored')
        c.same(s(far), v, 'value of an evaluated time', exact=True)
    if r:
        v = s(t*(1 + .2*r))
        c.same(v, s(t), 'time within tolerance of an evaluated one', exact=True)


@prop('P13', 40)
def different_orders(c):
    """increments over adjacent intervals, in any order of evaluation, with int and negative times"""
    which = c.cycle(['w', 'n', 'j'])
    s = true_src(c, which, c.choice([(), (2,)]), 3)
    pts = np.unique(np.round(c.rng.uniform(-3, 3, 7)*64)/64)
    inc = {}
    order = list(range(len(pts) - 1))
    c.rng.shuffle(order)
    c.note(points=pts, order=order)
    for i in order:
        inc[i] = s(pts[i], pts[i+1] - pts[i])
    back = s(pts[-1], pts[0] - pts[-1])
    c.same(sum(inc.values()), -back, 'sum of adjacent increments', rtol=1e-9, atol=1e-9)
    c.same(s(pts[0], pts[-1] - pts[0]), -back, 'whole increment', rtol=1e-9, atol=1e-9)
    i = c.int(0, len(pts) - 2)
    c.same(s(pts[i], pts[i+1] - pts[i]), inc[i], 'increment evaluated again', rtol=1e-9, atol=1e-9)


# ------------------------------------------------------------------- P14

@prop('P14', 60)
def weights(c):
    """weights of the stored values, exactly: a same draw, with different stored values"""
    vs = c.cycle([(3,), (2,), (2, 4), ()])
    M = vs[-1] if vs else 1
    kw, C = corr_cases(c, vs)
    t0, side = c.choice([0., 1., -.5]), c.choice([1, -1])
    near, mid, far = t0 + side*(np.cumsum(c.rng.uniform(.1, 1., 3)) - (.1 if c.bool() else 0))
    seed = c.int(0, 10**6)
    c.note(vshape=vs, t0=t0, near=near, mid=mid, far=far)
    P = 2

    def value(wn, wf):
        s = true_wiener_source(paths=P, vshape=vs, rng=np.random.default_rng(seed), t0=t0, **kw)
        (t1, w1), (t2, w2) = sorted([(near, 0), (far, 1)])
        return s.new_inside((wn, wf)[w1], (wn, wf)[w2], t1, t2, mid)
    wn, wf = c.rng.normal(size=vs + (P,)), c.rng.normal(size=vs + (P,))
    got = value(wn, wf) - value(wn*0, wf*0)
    if callable(kw.get('corr', kw.get('rho'))):
        A, B = C((near + mid)/2)*abs(mid - near), C((mid + far)/2)*abs(far - mid)
        W = A @ np.linalg.inv(A + B)
    else:
        W = np.eye(M)*(mid - near)/(far - near)
    col = lambda x: x.reshape((-1, M, P))
    exp = np.einsum('ij,ajp->aip', np.eye(M) - W, col(wn)) + np.einsum('ij,ajp->aip', W, col(wf))
    c.same(got.reshape(exp.shape), exp, 'mean of a value between two stored ones', rtol=1e-7, atol=1e-9)


@prop('P14', 30)
def bridge(c):
    vs = c.cycle([(2,), (3,), (), (3, 2), (2, 3)])
    P = 6000
    kw, C = corr_cases(c, vs)
    t0 = c.choice([0., 1., -.5])
    side = c.choice([1, -1])
    c.note(vshape=vs, t0=t0, side=side)
    s = true_wiener_source(paths=P, vshape=vs, rng=c.child(), t0=t0, z0=c.choice([0., 2.]), **kw)
    d = np.sort(c.rng.uniform(.1, 2., 3))
    while np.min(np.diff(d)) < .08:
        d = np.sort(c.rng.uniform(.1, 2., 3))
    near, mid, far = t0 + side*d
    if c.bool(.3):
        near = t0
        w1 = s(t0)
    else:
        w1 = s(near)
    c.note(near=near, mid=mid, far=far)
    w0 = s(t0)
    w2 = s(far)
    wm = s(mid)
    n = int(np.prod(vs, dtype=int))
    M = vs[-1] if vs else 1
    K = lambda t: np.eye(M) if C is None else C(t)
    rep = lambda m: np.kron(np.eye(n//M), m)
    f = lambda x: x.reshape(n, P).T
    rows, cov = [], []
    if near != t0:
        rows.append(f(w1 - w0))
        cov.append(rep(K((t0 + near)/2))*abs(near - t0))
    rows.append(f(w2 - w1))
    cov.append(rep(K((near + far)/2))*abs(far - near))
    A = K((near + mid)/2)*abs(mid - near)
    B = K((mid + far)/2)*abs(far - mid)
    if callable(kw.get('corr', kw.get('rho'))):
        W = A @ np.linalg.inv(A + B)
        V = W @ B
        mean = f(w1) @ rep(np.eye(M) - W).T + f(w2) @ rep(W).T
    else:
        z = (mid - near)/(far - near)
        mean = (1 - z)*f(w1) + z*f(w2)
        V = K(0)*abs(mid - near)*abs(far - mid)/abs(far - near)
    rows.append(f(wm) - mean)
    cov.append(rep(V))
    # a further value, beyond the stored ones on the other side
    o = t0 - side*c.uni(.2, 1.)
    wo = s(o)
    rows.append(f(wo - w0))
    cov.append(rep(K((t0 + o)/2))*abs(o - t0))
    # and another one inside
    q = mid + (far - mid)*c.uni(.2, .8)
    wq = s(q)
    A, B = K((mid + q)/2)*abs(q - mid), K((q + far)/2)*abs(far - q)
    if callable(kw.get('corr', kw.get('rho'))):
        W = A @ np.linalg.inv(A + B)
        rows.append(f(wq) - f(wm) @ rep(np.eye(M) - W).T - f(w2) @ rep(W).T)
        cov.append(rep(W @ B))
    else:
        z = (q - mid)/(far - mid)
        rows.append(f(wq) - (1 - z)*f(wm) - z*f(w2))
        cov.append(rep(K(0)*abs(q - mid)*abs(far - q)/abs(far - mid)))
    X = np.concatenate(rows, axis=1)
    KK = np.zeros((X.shape[1],)*2)
    k = 0
    for m in cov:
        KK[k:k+n, k:k+n] = m
        k += n
    c.zmean(X, 0, np.diag(KK), 'Brownian bridge')
    c.zcov(X, KK, 'Brownian bridge')
    H = P//2
    c.zcov(np.concatenate((X[:H], X[H:]), axis=1), np.kron(np.eye(2), KK), 'Brownian bridge across paths')
    c.zmean((X/np.sqrt(np.diag(KK)))**4, 3, 96., 'fourth moment')


# ------------------------------------------------------------------- P15

@prop('P15', 24)
def poisson_bridge(c):
    vs = c.cycle([(), (2,)])
    P = 4000
    lam = c.choice([3., 8.])
    t0 = c.choice([0., 1., -2.])
    side = c.choice([1, -1])
    s = true_poisson_source(paths=P, vshape=vs, rng=c.child(), lam=lam, t0=t0, z0=c.choice([0, 2]))
    far, frac = t0 + side*c.uni(.5, 1.5), c.uni(.2, .8)
    mid = t0 + (far - t0)*frac
    c.note(t0=t0, far=far, mid=mid, lam=lam, vshape=vs)
    n0, n2 = s(t0), s(far)
    nm = s(mid)
    d = side*(n2 - n0)
    x = side*(nm - n0)
    m = lam*abs(far - t0)
    c.zmean(((d - m)/np.sqrt(m)).reshape(-1, P).T, 0, 1., 'counts beyond the stored times')
    c.ok(np.all(x >= 0) and np.all(x <= d), 'monotone counts')
    c.ok(np.all(x[d == 0] == 0), 'no events')
    e = (x - frac*d)
    v = frac*(1 - frac)*d
    c.zmean(e.reshape(-1, P).T, 0, v.reshape(-1, P).mean(axis=1), 'binomial split')
    c.zmean((e**2 - v).reshape(-1, P).T, 0, (3*v*v + v).reshape(-1, P).mean(axis=1), 'binomial split, variance')
    c.zmean((e*d).reshape(-1, P).T, 0, (v*d*d).reshape(-1, P).mean(axis=1), 'binomial split given the total')
    o = t0 - side*.7
    y = side*(n0 - s(o))
    c.zmean(((y - .7*lam)/np.sqrt(.7*lam)).reshape(-1, P).T, 0, 1., 'counts on the other side')
    c.zmean((((y - .7*lam)*(d - m))).reshape(-1, P).T, 0, m*.7*lam, 'independence of the two sides')
    q = t0 + (mid - t0)*.5
    nq = side*(s(q) - n0)
    c.ok(np.all(nq >= 0) and np.all(nq <= x), 'monotone counts')
    c.zmean((nq - .5*x).reshape(-1, P).T, 0, (.25*x).reshape(-1, P).mean(axis=1), 'second split')


@prop('P15', 150)
def monotone(c):
    vs, P = c.choice([(), (2,), (2, 2)]), c.int(1, 4)
    t0, z0 = c.choice([0., 1.]), c.choice([0, 5])
    s = true_poisson_source(paths=P, vshape=vs, rng=c.child(), lam=c.choice([.3, 2., 6., lambda t: 1 + t*t]), t0=t0, z0=z0)
    vals = {t0: s(t0)}
    hist = []
    for _ in range(c.int(3, 12)):
        q = round(c.uni(-3, 4), 3)
        hist.append(q)
        vals[q] = s(q)
        c.note(history=hist)
    ts = sorted(vals)
    for a, b in zip(ts, ts[1:]):
        c.ok(np.all(vals[a] <= vals[b]), 'monotone in time')
        c.same(s(a), vals[a], 'unchanged', exact=True)


class Wrapped:
    """any object following the source protocol"""

    def __init__(self, dn):
        self.dn, self.paths, self.vshape = dn, dn.paths, dn.vshape

    def __call__(self, t, dt=None):
        return self.dn(t, dt)


@prop('P15', 250)
def jumps_conserved(c):
    vs, P = c.choice([(), (2,), (1, 2)]), c.int(1, 3)
    t0 = c.choice([0., 0., 1.])
    y = c.choice([unique_jumps, unique_jumps, None])
    null = y is None
    log = []

    class mixed:
        """unique values, some of them null, some negative sums"""
        def __init__(self):
            self.k = 0

        def rvs(self, size, random_state=None):
            n = int(np.prod(size, dtype=int))
            r = np.zeros(n)
            for i in range(n):
                if (self.k + i) % 3:
                    r[i] = 2.**(self.k + i)
            self.k += n
            return r.reshape(size)
    rv = mixed() if null else unique_jumps()
    g = c.child()
    lam = c.choice([1., 2.5])
    if c.bool(.3):
        how = c.choice(['source', 'component', 'wrapped'])
        dn = true_poisson_source(paths=P, vshape=vs + ((2,) if how == 'component' else ()), rng=g, lam=lam, t0=t0)
        dn = dn if how == 'source' else dn[(slice(None),)*len(vs) + (1,)] if how == 'component' else Wrapped(dn)
        s = true_cpoisson_source(paths=P, vshape=vs, rng=g, dn=dn, y=rv, t0=t0)
    elif t0 == 0.:
        s = true_cpoisson_source(paths=P, vshape=vs, rng=g, lam=lam, y=rv)
        dn = s.dn
    else:
        dn = true_poisson_source(paths=P, vshape=vs, rng=g, lam=lam, t0=t0)
        s = true_cpoisson_source(paths=P, vshape=vs, rng=g, lam=lam, y=rv, t0=t0, dn=dn)
    vals = {t0: s(t0).copy()}
    hist = []
    span = 2.2/(lam*max(1, P*int(np.prod(vs, dtype=int))/3))
    for _ in range(c.int(3, 9)):
        q = float(np.round(t0 + c.uni(-span, 2*span), 4))
        if any(q != o and abs(q - o) < 1e-6 for o in vals):
            continue
        hist.append(q)
        c.note(history=hist, vshape=vs, paths=P)
        v = s(q)
        if rv.k > 50:
            return
        if q in vals:
            c.same(v, vals[q], 'unchanged value', exact=True)
        vals[q] = v.copy()
        ts = sorted(vals)
        for o in ts:
            c.same(s(o), vals[o], 'unchanged value', exact=True)
        seen = []
        for a, b in zip(ts, ts[1:]):
            d = vals[b] - vals[a]
            n = dn(b) - dn(a)
            for k in np.ndindex(d.shape):
                c.ok(d[k] >= 0 and d[k] == int(d[k]), 'jumps kept whole')
                bb = bits(d[k])
                if not null:
                    c.ok(len(bb) == n[k], 'one jump per event')
                else:
                    c.ok(len(bb) <= n[k], 'not more than one jump per event')
                seen += bb
        c.ok(len(seen) == len(set(seen)), 'no jump is duplicated')
        if null:
            c.ok(set(seen) <= {k for k in range(rv.k) if k % 3}, 'jumps drawn')


@prop('P15', 40)
def null_jumps(c):
    """jumps with null size or null sum leave the later splits right"""
    P = c.int(1, 3)

    class pm:
        def __init__(self):
            self.n = 0

        def rvs(self, size, random_state=None):
            r = np.array([(-1.)**(self.n + i) for i in range(int(np.prod(size, dtype=int)))])
            self.n += r.size
            return r.reshape(size)

    class zero:
        def rvs(self, size, random_state=None):
            return np.zeros(size)
    rv = c.choice([pm(), zero()])
    s = true_cpoisson_source(paths=P, rng=c.child(), lam=4., y=rv)
    a = s(1.)
    ts = [0., 1.]
    for _ in range(5):
        q = c.uni(0, 1)
        ts = sorted(ts + [q])
        s(q)
        for x, y in zip(ts, ts[1:]):
            d, n = s(y) - s(x), s.dn(y) - s.dn(x)
            if isinstance(rv, zero):
                c.ok(np.all(d == 0), 'null jumps')
            else:
                c.ok(np.all(np.abs(d) <= n) and np.all((d - n) % 2 == 0), 'sum of n jumps of size one')
    c.same(s(1.), a, 'unchanged', exact=True)


# ------------------------------------------------------------------- P30

def stats_of(c, rv, size, n, what, mean, var):
    x = np.asarray(rv.rvs(size=(n,) + size, random_state=c.child()), float)
    c.ok(x.shape == (n,) + size, what + ' shape of the draws')
    return x


@prop('P30', 40)
def laws(c):
    k = c.cycle(['norm', 'uniform', 'exp', 'double'])
    sh = c.choice([(), (3,), (2, 3)])
    N = 20000
    c.note(law=k, shape=sh)
    u = lambda a, b, s=None: c.rng.uniform(a, b, sh if s is None else s)
    if k == 'norm':
        a, b = u(-2, 2), u(.1, 2, c.choice([(), sh]))
        rv = norm_rv(a, b)
        m, v, em, k4 = a + 0*b, b*b + 0*a, np.exp(a + b*b/2), 3*b**4 + 0*a
        cdf = lambda x: scipy.stats.norm.cdf((x - a)/b)
    elif k == 'uniform':
        a = u(-2, 1)
        b = a + u(.2, 2)
        rv = uniform_rv(a, b)
        m, v, em, k4 = (a + b)/2, (b - a)**2/12, (np.exp(b) - np.exp(a))/(b - a), (b - a)**4/80
        cdf = lambda x: np.clip((x - a)/(b - a), 0, 1)
    elif k == 'exp':
        a = u(.1, 2)*np.where(u(0, 1) < .4, -1, 1)
        rv = exp_rv(a)
        m, v, k4 = a, a*a, 9*a**4
        em = np.where(a < 1, 1/(1 - a), np.inf)
        cdf = lambda x: np.where(a > 0, 1 - np.exp(-np.maximum(x/a, 0)), np.exp(-np.maximum(x/a, 0)))
    else:
        a, b, pa = u(.1, 1.6), u(.1, 1.5, c.choice([(), sh])), u(0, 1)
        if c.bool(.3):
            pa = np.where(u(0, 1) < .3, c.choice([0., 1.]), pa)
        rv = double_exp_rv(a, b, pa)
        m = pa*a - (1 - pa)*b
        e2 = 2*pa*a*a + 2*(1 - pa)*b*b
        v = e2 - m*m
        k4 = 24*(pa*a**4 + (1 - pa)*b**4) - 4*m*6*(pa*a**3 - (1 - pa)*b**3) + 6*m*m*e2 - 3*m**4
        with np.errstate(all='ignore'):
            em = np.where(pa == 0, 0, np.where(a < 1, pa/(1 - a), np.inf)) + (1 - pa)/(1 + b)
        cdf = lambda x: np.where(x < 0, (1 - pa)*np.exp(np.minimum(x, 0)/b), 1 - pa*np.exp(-np.maximum(x, 0)/a))
    c.note(a=a, **({} if k == 'exp' else dict(b=b)), **(dict(pa=pa) if k == 'double' else {}))
    c.same(rv.mean(), m, 'mean')
    c.same(rv.var(), v, 'variance')
    c.same(rv.std(), np.sqrt(v), 'standard deviation')
    c.same(rv.exp_mean(), em, 'mean of the exponential')
    m, v, k4 = [np.broadcast_to(z, np.shape(m)) for z in (m, v, k4)]
    x = np.asarray(rv.rvs(size=(N,) + np.shape(m), random_state=c.child()), float)
    c.ok(x.shape == (N,) + np.shape(m), 'shape of the draws')
    c.zmean(x, m, v, 'draws')
    c.zmean((x - m)**2, v, np.maximum(k4 - v*v, 0), 'draws, variance')
    for q in (m - np.sqrt(v), m - .3*np.sqrt(v), m, m + .5*np.sqrt(v), 0*m, m + 1.5*np.sqrt(v)):
        F = cdf(q)
        c.zmean(1.*(x <= q), F, F*(1 - F), 'draws, distribution')
    # independent across positions
    y = x.reshape(N, -1)
    y = (y - y.mean(axis=0))/y.std(axis=0)
    c.zcov(y, np.eye(y.shape[1]), 'draws, independence', k=9)


@prop('P30', 60)
def domains(c):
    for a in (0, 0., [1., 0.], np.zeros(2), [[1, -1], [0, 2]]):
        c.raises(ValueError, lambda: exp_rv(a), 'exp_rv(%s)' % (a,))
    for args in ((0, 1, .5), (-1, 1, .5), (1, 0, .5), (1, -.5, .5), (1, 1, -.1), (1, 1, 1.1), ([1., -1.], 1, .5), (1, [1., 0.], .5),
                 (1, 1, [.5, 1.5]), (1, 1, [-.5, .5])):
        c.raises(ValueError, lambda: double_exp_rv(*args), 'double_exp_rv%s' % (args,))
    exp_rv(-1.), exp_rv([1., -2.]), double_exp_rv(1, 1, 0), double_exp_rv(1, 1, 1), double_exp_rv(.1, [1, 2], [0., 1.])
    c.raises(ValueError, lambda: exp_rv(lambda t: t)(0.), 'exp_rv of a function of time')
    c.raises(ValueError, lambda: double_exp_rv(a=1, b=lambda t: t - 1)(.5), 'double_exp_rv of a function of time')


@prop('P30', 80)
def time_dependent(c):
    f = lambda t: .3 + .1*t
    g = lambda t: np.array([1.2, 2.])*(1 + .1*t*t)
    h = process([0., 2.], c=.4)
    cases = [(norm_rv, ('a', 'b')), (uniform_rv, ('a', 'b')), (exp_rv, ('a',)), (double_exp_rv, ('a', 'b', 'pa'))]
    F, names = c.cycle(cases)
    kw = {}
    for n in names:
        kw[n] = c.choice([f, .7, f]) if n != 'b' else c.choice([g, 1.5, g])
        if n == 'pa':
            kw[n] = c.choice([f, .25])
    if not any(callable(v) for v in kw.values()):
        kw['a'] = f
    c.note(law=F.__name__, kw=kw)
    rv = F(**kw)
    c.ok(callable(rv), 'function of time')
    for t in (0., 1., c.uni(0, 2)):
        a = rv(t)
        b = F(**{k: v(t) if callable(v) else v for k, v in kw.items()})
        for m in ('mean', 'var', 'std', 'exp_mean'):
            c.same(getattr(a, m)(), getattr(b, m)(), m + ' at time %s' % t)
        s = c.int(0, 10**6)
        sz = (5,) + np.shape(b.mean())
        c.same(a.rvs(size=sz, random_state=Gen(s)), b.rvs(size=sz, random_state=Gen(s)), 'draws', exact=True)
    b = F(**{k: v(.5) if callable(v) else v for k, v in kw.items()})
    c.ok(not callable(b), 'constant parameters give a distribution')


@prop('P30', 80)
def mapping(c):
    s = c.int(0, 10**6)
    fn = c.cycle(['plain', 't', 's'])
    yt = c.i//3 % 2
    c.note(function=fn, time_dependent_y=yt)
    base = lambda t: norm_rv(1 + t, .5)
    y = base if yt else c.choice([norm_rv(.5, 1), exp_rv(2.), double_exp_rv(1., .5, .3)])
    if fn == 'plain':
        f = lambda y: np.exp(y) + 1
        val = lambda t, x: np.exp(x) + 1
    elif fn == 't':
        f = lambda t, y: y*t + 3
        val = lambda t, x: x*t + 3
    else:
        f = lambda s, y: y**2 - s
        val = lambda t, x: x**2 - t
    z = rvmap(f, y)
    size = c.choice([(4,), (2, 3), 5])
    if fn == 'plain' and not yt:
        c.ok(not callable(z), 'a distribution')
        c.same(z.rvs(size=size, random_state=Gen(s)), val(0, y.rvs(size=size, random_state=Gen(s))), 'draws', exact=True)
        c.same(z.rvs(size, Gen(s)), val(0, y.rvs(size=size, random_state=Gen(s))), 'draws', exact=True)
    else:
        c.ok(callable(z), 'a function of time')
        zs = [(t, z(t)) for t in (0., .7, 2.)]
        for t, q in zs:
            yy = y(t) if yt else y
            c.same(q.rvs(size=size, random_state=Gen(s)), val(t, yy.rvs(size=size, random_state=Gen(s))), 'draws at time %s' % t, exact=True)


# ------------------------------------------------------------------- P31

def mat_of(r):
    r = np.asarray(r).reshape(-1)
    n = r.size
    m = np.zeros((2*n, 2*n))
    for i in range(n):
        m[i, i] = m[n+i, n+i] = 1
        m[i, n+i] = m[n+i, i] = r[i]
    return m


@prop('P31', 150)
def rho(c):
    n = c.int(1, 4)
    r = c.note(rho=c.rng.uniform(-1, 1, n))
    forms = [r, r[:, None], r.tolist()]
    if n == 1:
        forms += [r[0], float(r[0]), np.array(r[0])]
    for f in forms:
        s = np.shape(f)
        got = inf._get_corr_matrix(None, f)
        c.same(got, mat_of(r), 'correlation matrix of rho %s' % (s,))
        dw = wiener_source(paths=3, vshape=(2*n,), rho=f, rng=c.child())
        c.same(np.asarray(dw.corr), mat_of(r), 'correlation matrix of the source')
        c.ok(dw(0, 1).shape == (2*n, 3), 'usable')
        # time dependent
        ff = [lambda t: np.asarray(f)*np.cos(t)]
        if s == ():
            ff.append(lambda t: float(f)*float(np.cos(t)))
        for g in ff:
            got = inf._get_corr_matrix(None, g)
            c.ok(callable(got), 'function of time')
            for t in (0., 1., c.uni(-2, 2)):
                c.same(got(t), mat_of(r*np.cos(t)), 'correlation matrix at time %s' % t)
        if s in ((), (n,)):
            tl = np.array([0., 1., 3.])
            p = process(tl, v=np.array([np.asarray(f)*k for k in (1., .5, -.5)]))
            got = inf._get_corr_matrix(None, p)
            for t in (0., .5, 2.):
                w = np.interp(t, tl, [1., .5, -.5])
                c.same(np.asarray(got(t)), mat_of(r*w), 'correlation matrix of a process')
    c.ok(inf._get_corr_matrix(None, None) is None, 'no correlation')


@prop('P31', 100)
def explicit(c):
    M = c.int(1, 4)
    m = c.note(corr=random_corr(c, M))
    for cc in (m, m[..., None], m.tolist()):
        for r in (None, .3, [.1, .2]):
            got = inf._get_corr_matrix(cc, r)
            c.same(got, np.asarray(cc), 'explicit matrix', exact=True)
    f = lambda t: m*t
    for r in (None, .5):
        got = inf._get_corr_matrix(f, r)
        c.ok(callable(got), 'function')
        c.same(got(2.), 2*m, 'explicit matrix at a time', exact=True)
    for bad in (np.ones((M, M + 1)), np.ones((M + 1, M)), np.ones((M, M, 2)), np.ones(M), np.ones((M, M, 1, 1)), 1., np.ones((1, M, M + 1))):
        for b in (bad, (lambda t, bad=bad: np.asarray(bad))):
            c.raises(ValueError, lambda: inf._get_corr_matrix(b, None), 'corr shaped %s' % (np.shape(bad),))
    for bad in (np.full((2, 2), .1), np.full((2, 3), .1), np.full((2, 1, 1), .1), np.full((1, 2), .1), np.full((3, 4), .1)):
        c.raises(ValueError, lambda: inf._get_corr_matrix(None, bad), 'rho shaped %s' % (bad.shape,))
        c.raises((ValueError, AttributeError) if False else ValueError, lambda: inf._get_corr_matrix(None, lambda t: bad), 'rho(t) shaped %s' % (bad.shape,))
