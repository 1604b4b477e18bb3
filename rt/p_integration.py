"""P16-P22: path generation, Euler integration, SDE and SDEs, presets, the integrate decorator."""
import numpy as np
from base import prop, Fail
from sdepy import infrastructure as inf
from sdepy import integration as itg
from sdepy.infrastructure import process, piecewise
from sdepy.integration import SDE, SDEs, integrator, paths_generator, integrate


def dedupe(s, tol):
    out = []
    for a in s:
        if not out or a - out[-1] > tol:
            out.append(float(a))
    return np.array(out)


# ------------------------------------------------------------------- P16

def steps_spec(c, t):
    """steps argument and the points requested"""
    t = np.asarray(t, float)
    a, b = t[0], t[-1]
    kind = c.choice(['none', 'none', 'int', 'int', 'in', 'out', 'dup', 'near'])
    if kind == 'near':
        # extra steps very close to output times
        p = []
        for s in t:
            for e in c.rng.choice([1e-6, 1e-8, 1e-10, 1e-12, 0.], 2):
                z = np.nextafter(s, c.choice([a, b])) if e == 0 else s + c.choice([-1, 1])*e*max(1., abs(s))
                if a <= z <= b:
                    p.append(float(z))
        c.note(steps=p)
        return np.array(p), p
    if kind == 'none':
        return None, []
    if kind == 'int':
        n = c.choice([1, 2, 3, 10, 37, 101])
        return n, [] if t.size == 1 else list(np.linspace(a, b, n))
    w = (b - a) or 1.
    p = c.rng.uniform(a - (.5*w if kind == 'out' else 0), b + (.5*w if kind == 'out' else 0), c.int(0, 12))
    if kind == 'dup':
        p = np.concatenate((p, p[:3], t[:3]))
    else:
        p = np.sort(p) if c.bool() else p
    c.note(steps=p)
    return c.choice([p, list(p), tuple(p)]), list(p)


def int_timeline(c, n):
    dt = c.choice(['u1', 'u2', 'u4', 'u8', 'i1', 'i2', 'i8'])
    t = np.cumsum(c.rng.integers(1, 5, n))
    if dt[0] == 'i':
        t = t - c.int(0, 8)
    return t.astype(dt)


def timeline_for(c):
    n = c.choice([1, 2, 3, 4, 5, 8])
    k = c.choice(['f8', 'f8', 'f8', 'int', 'f4', 'list'])
    if k == 'int':
        return int_timeline(c, n)
    t = np.cumsum(c.rng.uniform(.05, 1.5, n)) - c.choice([0., 0., 2., 100.])
    if k == 'f4':
        return t.astype('f4')
    return t.tolist() if k == 'list' else t


class Recorder(paths_generator):
    """state is a recorded function of the time reached"""

    def setup(self, rng, split):
        self.r, self.split = rng, split
        self.log, self.stored = [], []
        return self

    def begin(self):
        super().begin()
        iv = self.itervars
        self.log.append(('begin', float(iv['sw'][0])))
        iv['xw'][0][...] = self.x0

    def next(self):
        super().next()
        iv = self.itervars
        s, s1 = float(iv['sw'][0]), float(iv['sw'][1])
        self.log.append(('next', s, s1))
        if self.split and self.r.random() < .4:
            m = float(iv['sw'].dtype.type((s + s1)/2))
            if min(s, s1) < m < max(s, s1):
                iv['sw'][1] = m
                s1 = float(iv['sw'][1])
        new = iv['xw'][0] + self.r.normal(size=iv['xw'][0].shape)
        iv['xw'][1][...] = new
        self.states[s1] = new.astype(self.dtype or float).copy()
        self.seq.append((s, s1))

    def store(self, i, k):
        super().store(i, k)
        iv = self.itervars
        self.stored.append((float(iv['tt'][i]), float(iv['sw'][k])))
        iv['xx'][i][...] = iv['xw'][k]

    def end(self):
        self.log.append(('end',))


@prop('P16', 250)
def visits(c):
    t = timeline_for(c)
    tf = np.asarray(t, float)
    n = tf.size
    steps, pts = steps_spec(c, t)
    i0 = c.choice([0, 0, -1, n - 1, c.int(-n, n - 1), np.int64(c.int(-n, n - 1))])
    vs, P = c.choice([(), (2,), (3, 2)]), c.int(1, 3)
    dtype = c.choice([None, None, 'f4', complex])
    split = c.bool(.25)
    getinfo = c.bool(.8)
    c.note(t=np.asarray(t), steps=steps, i0=i0, vshape=vs, paths=P, dtype=dtype, getinfo=getinfo, split=split)
    g = Recorder(paths=P, xshape=vs, wshape=vs, dtype=dtype, steps=steps, i0=i0, getinfo=getinfo).setup(c.child(), split)
    g.x0 = c.rng.normal(size=vs + (P,))
    g.states, g.seq = {}, []
    rounds = c.choice([1, 1, 2])
    for r in range(rounds):
        g.log, g.stored, g.states, g.seq = [], [], {}, []
        tin = t if isinstance(t, list) else t.copy()
        tt, xx = g(tin)
        c.same(tt, t, 'timeline handed back', exact=True)
        c.ok(np.asarray(tt).dtype == np.asarray(t).dtype, 'timeline type handed back')
        f4 = np.asarray(t).dtype == np.dtype('f4')
        p = np.asarray(pts, float)
        if f4:
            p = p.astype('f4').astype(float)
        p = p[(p >= tf[0]) & (p <= tf[-1])] if p.size else p
        union = np.unique(np.concatenate((p, tf)))
        tol = (tf[-1] - tf[0])*(1e-6 if f4 else 1e-11) + 8*np.finfo('f4' if f4 else 'f8').eps*np.max(np.abs(tf))
        idx = range(n)[int(i0)]
        t0 = tf[idx]
        # legs
        legs, cur = [], None
        for e in g.log:
            if e[0] == 'begin':
                cur = [e[1]]
                legs.append(cur)
        seqs, cur = [], None
        it = iter(g.seq)
        pos = t0
        fwd = [e for e in g.seq if e[1] > e[0]]
        bwd = [e for e in g.seq if e[1] < e[0]]
        c.ok(len(fwd) + len(bwd) == len(g.seq), 'no null step')
        for name, leg, ref in (('forward', fwd, union[union > t0]), ('backward', bwd, union[union < t0][::-1])):
            pos = t0
            for a, b in leg:
                c.ok(a == pos, '%s: current time of the step is the time reached' % name, leg=leg)
                pos = b
            got = np.array([b for a, b in leg])
            if split:
                m = np.min(np.abs(got[None, :] - ref[:, None]), axis=1) if got.size and ref.size else np.zeros(ref.size)
                c.ok(np.all(m <= tol) and bool(got.size) == bool(ref.size), '%s: all steps visited' % name, got=got, ref=ref)
            else:
                sg = 1 if name == 'forward' else -1
                c.same(dedupe(sg*got, tol), dedupe(sg*ref, tol), '%s: visited times' % name, rtol=1e-6 if f4 else 1e-9, atol=tol*10)
                if isinstance(steps, (type(None), list, tuple, np.ndarray)):
                    c.same(got, ref, '%s: visited times' % name, exact=True)
            out = set(tf[tf > t0] if name == 'forward' else tf[tf < t0])
            c.ok(out <= set(got.tolist()), '%s: output times visited' % name)
        # targets told to the generator
        for e in g.log:
            if e[0] == 'next':
                m = np.min(np.abs(union - e[2]))
                c.ok(m <= tol, 'next time of the step is a point of the union', step=e)
        # storage
        st = sorted(a for a, b in g.stored if a != t0)
        c.same(np.array(st), np.array(sorted(tf[tf != t0])), 'each output time stored once', exact=True)
        c.ok(all(a == b for a, b in g.stored), 'stored at the time reached')
        c.ok(xx.shape == tf.shape + vs + (P,) and xx.dtype == np.dtype(dtype or float), 'output shape and type')
        for i in range(n):
            e = np.asarray(g.x0).astype(dtype or float) if i == idx else g.states[tf[i]]
            c.same(xx[i], e, 'state stored at output time %d' % i, exact=True)
        if getinfo:
            c.ok(g.info['computed_steps'] == len(g.seq), 'steps made')
            c.ok(g.info['stored_steps'] == n - 1, 'steps stored')
            c.ok(g.info['tmin'] == tf[0] and g.info['tmax'] == tf[-1] and g.info['t0'] == t0, 'info times')


class Depth3(paths_generator):
    depth = 3

    def begin(self):
        iv = self.itervars
        self.states[float(iv['sw'][0])] = iv['xw'][0][...] = 1.
        iv['xw'][1][...] = 2.
        self.states[float(iv['sw'][1])] = 2.
        self.first.append([float(iv['sw'][0]), float(iv['sw'][1])])

    def next(self):
        iv = self.itervars
        sw, xw = iv['sw'], iv['xw']
        self.triples.append(tuple(map(float, sw)))
        xw[2][...] = xw[1]*1.5 - xw[0] + 1
        self.states[float(sw[2])] = float(xw[2].flat[0])

    def store(self, i, k):
        self.itervars['xx'][i][...] = self.itervars['xw'][k]


@prop('P16', 40)
def deeper(c):
    n = c.int(2, 6)
    t = np.cumsum(c.rng.uniform(.1, 1, n))
    steps, pts = steps_spec(c, t)
    if isinstance(steps, int):
        steps, pts = None, []
    i0 = c.choice([0, -1, n - 1, -n] + list(range(1, n - 1)))
    c.note(i0=i0)
    g = Depth3(steps=steps, i0=i0)
    g.states, g.triples, g.first = {}, [], []
    tt, xx = g(t)
    p = np.asarray(pts, float)
    p = p[(p >= t[0]) & (p <= t[-1])] if p.size else p
    u = np.unique(np.concatenate((p, t)))
    passes = [x for x in (u[u <= t[i0]][::-1], u[u >= t[i0]]) if len(x) > 1]
    c.same(np.array(g.first), np.array([x[:2] for x in passes]), 'first points', exact=True)
    want = np.concatenate([np.stack([x[:-2], x[1:-1], x[2:]], axis=-1) for x in passes])
    c.same(np.array(g.triples).reshape(-1, 3), want, 'steps', exact=True)
    c.same(xx[:, 0], np.array([g.states[a] for a in t]), 'states', exact=True)


class Linear(paths_generator):
    """starts from x0, grows by the elapsed time"""
    x0 = 0.

    def begin(self):
        super().begin()
        self.itervars['xw'][0][...] = self.x0

    def next(self):
        super().next()
        iv = self.itervars
        iv['xw'][1][...] = iv['xw'][0] + (iv['sw'][1] - iv['sw'][0])

    def store(self, i, k):
        super().store(i, k)
        self.itervars['xx'][i, ...] = self.itervars['xw'][k]


@prop('P16', 60)
def repeated_calls(c):
    """each call is independent of former ones, and leaves their results as they were"""
    n, paths = c.int(1, 5), c.choice([1, 3])
    vs = c.choice([(), (2,)])
    i0 = c.choice([0, -1, 0 if n < 3 else 1])
    g = Linear(paths=paths, xshape=vs, wshape=vs, i0=i0, steps=c.choice([None, 7]))
    out, ts = [], []
    same = c.choice([True, False])
    c.note(n=n, paths=paths, xshape=vs, i0=i0)
    for k in range(3):
        m = n if same or k == 0 else max(c.int(1, 5), 2 if i0 == 1 else 1)
        t = np.cumsum(c.rng.uniform(.1, 1, m)) if k < 2 or not same else ts[-1].copy()
        g.x0 = 10.*(k + 1)
        out.append(g(t))
        ts.append(t.copy())
        if c.choice([True, False]) and k == 0:
            out[0][1][...] = 5.
            out[0] = out[0][0], None
    for k, ((tt, xx), t) in enumerate(zip(out, ts)):
        c.same(tt, t, 'times %d' % k, exact=True)
        if xx is not None:
            want = 10.*(k + 1) + t - t[i0]
            want = np.broadcast_to(want.reshape((-1,) + (1,)*(len(vs) + 1)), (len(t),) + vs + (paths,))
            c.same(xx, want, 'values %d' % k)


@prop('P16', 60)
def rejections(c):
    bad = c.cycle([np.array([0., 1., 1.]), np.array([0., 2., 1.]), np.array([[0., 1.]]), 1., np.array([2., 1.]), np.array([0, 3, 2]),
                   np.array([3, 1], 'u4'), np.array([0, 1, 1], 'u1'), np.zeros((2, 1)), np.array([0., np.nan, 1.])])
    c.note(timeline=np.asarray(bad))
    cls = c.choice([lambda: paths_generator(), lambda: itg.wiener_process(), lambda: itg.full_heston_process()])
    c.raises(ValueError, lambda: cls()(bad), 'invalid timeline')
    t = np.array([0., 1., 2.])
    i0 = c.choice([3, -4, 5, slice(0, 2), [0, 1], None, np.array([0]), Ellipsis])
    c.note(i0=i0)
    c.raises(IndexError, lambda: paths_generator(i0=i0)(t), 'invalid initial index')


# ------------------------------------------------------------------- P17

class src:
    """a recording source"""

    def __init__(self, id, paths, vshape, log, rng, f=None):
        self.id, self.paths, self.vshape, self.log, self.rng, self.f = id, paths, vshape, log, rng, f

    def __call__(self, t, dt):
        v = self.rng.normal(size=self.vshape + (self.paths,)) if self.f is None else self.f(t, dt)
        self.log.append((self.id, float(t), float(dt), v))
        return v


def sources_class(ids):
    d = dict(sources=set(ids))
    for i in ids:
        if i not in ('dt', 'dw', 'dn', 'dj'):
            def f(self, z=None, _i=i):
                return self.custom[_i]
            f.__signature__ = __import__('inspect').Signature([])
            d['source_' + i] = lambda self, _i=i: self.custom[_i]
            exec('def s(self):\n    return self.custom[%r]' % i, {}, loc := {})
            d['source_' + i] = loc['s']
    return d


@prop('P17', 150)
def euler(c):
    vs, P = c.choice([(), (2,), (2, 3)]), c.int(1, 4)
    ids = list(c.choice([('dt', 'dw'), ('dt', 'dw', 'dn', 'dj'), ('dw', 'zz', 'aa'), ('dt', 'b1', 'Ba', 'dw'), ('dn',), ('dt',),
                         ('dz', 'dt', 'dw', 'dq')]))
    full = vs + (P,)
    t = np.cumsum(c.rng.uniform(.1, 1, c.int(1, 5)))
    i0 = c.choice([0, 0, -1, c.int(0, t.size - 1)])
    steps = c.choice([None, None, 7])
    dtype = c.choice([None, None, complex, 'f4'])
    c.note(vshape=vs, paths=P, sources=ids, t=t, i0=i0, steps=steps, dtype=dtype)
    log, calls = [], []
    rng = c.child()
    shapes = [(), (1,), (P,), full] + ([vs + (1,)] if vs else [])
    omit = {i for i in ids if c.bool(.25)}
    order = list(ids)
    c.rng.shuffle(order)
    big = c.bool(.2)

    def coeff(self, s, x):
        x0 = np.array(x)
        A = {i: (rng.normal(size=shapes[rng.integers(len(shapes))]) if rng.random() < .8 else float(rng.normal()))
             for i in order if i not in omit}
        calls.append((float(s), x0, A, len(log)))
        if big:
            x[...] = x      # reading and writing back the state is harmless
        return A
    d = sources_class(ids)
    d['sde'] = coeff
    d['custom'] = {}
    cls = type('K', (SDE, integrator), d)
    S = {i: src(i, P, vs, log, c.child()) for i in ids if i != 'dt'}
    cls.custom = S
    kw = {i: S[i] for i in ids if i in ('dw', 'dn', 'dj')}
    x0 = c.rng.normal(size=full)
    getinfo = c.bool(.7)
    p = cls(paths=P, vshape=vs, x0=x0, i0=i0, steps=steps, dtype=dtype, getinfo=getinfo, **kw)
    x = p(t)
    nsrc = len([i for i in ids if i != 'dt'])
    tf, idx = t, range(t.size)[i0]
    c.ok(len(log) == nsrc*len(calls), 'each source is sampled once per step')
    states = {tf[idx]: x0.astype(dtype or float)}
    for k, (s, xc, A, nl) in enumerate(calls):
        rec = log[k*nsrc:(k+1)*nsrc]
        c.ok([r[0] for r in rec] == sorted(i for i in ids if i != 'dt'), 'alphabetical order', order=[r[0] for r in rec])
        c.ok(all(r[1] == s for r in rec), 'sources evaluated at the current time')
        ds = rec[0][2] if rec else None
        c.ok(all(r[2] == ds for r in rec), 'same increment for all sources')
        c.same(xc, states[s], 'coefficients evaluated at the current state', rtol=1e-12)
        inc = {r[0]: r[3] for r in rec}
        if ds is None:
            nxt = [a for a, *_ in calls[k+1:k+2]]
            u = np.unique(np.concatenate((np.linspace(t[0], t[-1], 7) if steps and t.size > 1 else t[:0], t)))
            j = int(np.where(u == s)[0][0])
            fw = s >= tf[idx] and not (i0 in (-1, t.size-1) and i0 != 0) and k >= (np.sum(u < tf[idx]) if i0 != 0 else 0)
            ds = u[j+1] - s if fw else u[j-1] - s
        inc['dt'] = ds
        new = xc.astype(complex)
        for i, a in A.items():
            new = new + np.asarray(a)*inc[i]
        new = new.real if np.dtype(dtype or float).kind != 'c' else new
        key = min((float(v) for v in np.unique(np.concatenate((np.linspace(t[0], t[-1], 7), t)))), key=lambda v: abs(v - (s + ds)))
        states[key] = new
        nk = [a for a, *_ in calls[k+1:k+2]]
        if nk:
            states[nk[0]] = states.get(nk[0], new)
    for i in range(t.size):
        c.same(x.x[i], states[tf[i]], 'state at time %d' % i, rtol=1e-7, dtype='f4' if dtype == 'f4' else None)


@prop('P17', 40)
def bad_coefficients(c):
    kind = c.cycle(['unknown', 'list', 'none', 'tuple', 'scalar', 'unknown2', 'array'])
    ret = dict(unknown={'dt': 1., 'dq': 1.}, list=[{'dt': 1.}], none=None, tuple=({'dt': 1.},), scalar=1., unknown2={'dn': 1.},
               array=np.ones(2))[kind]
    good = c.int(0, 2)
    c.note(kind=kind, good_steps=good)

    class K(SDE, integrator):
        n = 0

        def sde(self, t, x):
            self.n += 1
            return {'dt': 1., 'dw': 1.} if self.n <= good else ret
    c.raises(KeyError if kind.startswith('unknown') else TypeError, lambda: K()((0., 1., 2., 3.)), 'invalid coefficients')


# ------------------------------------------------------------------- P18

def mkparam(c, full, vs, P, tmax):
    """a time dependent or constant parameter: (value given, function of time)"""
    k = c.choice(['scalar', 'int', 'array', 'vcol', 'list', 'callable', 'callable0', 'callablev', 'process', 'piecewise', 'procfull'])
    a, b = c.uni(.2, 1.5), c.uni(-1, 1)
    if k == 'scalar':
        return k, a, lambda s: a
    if k == 'int':
        return k, 2, lambda s: 2
    if k == 'array':
        v = c.rng.normal(size=full)
        return k, v, lambda s: v
    if k == 'vcol':
        v = c.rng.normal(size=vs + (1,))
        return k, v, lambda s: v
    if k == 'list':
        v = c.rng.normal(size=full)
        return k, v.tolist(), lambda s: v
    if k == 'callable':
        f = lambda s: a + b*np.sin(s)
        return k, f, f
    if k == 'callable0':
        f = lambda s: np.asarray(a + b*s)
        return k, f, f
    if k == 'callablev':
        v = c.rng.normal(size=full)
        return k, lambda s: v*(1 + s), lambda s: v*(1 + s)
    t = np.linspace(-.5, tmax + .5, 5)
    if k == 'procfull':
        v = c.rng.normal(size=t.shape + full)
        q = process(t, x=v)
    elif k == 'process':
        v = c.rng.normal(size=t.shape + (1,)*len(vs))[..., None]
        q = process(t, x=v)
    else:
        v = c.rng.normal(size=t.shape + (1,)*len(vs))[..., None]
        base = process(t, x=v)
        q = piecewise(t, x=v, mode='forward')

        def fpw(s):
            j = np.clip(np.searchsorted(t, s, side='right') - 1, 0, t.size - 1)
            return v[j]
        return k, q, fpw

    def f(s):
        j = int(np.clip(np.searchsorted(t, s) - 1, 0, t.size - 2))
        w = (s - t[j])/(t[j+1] - t[j])
        return v[j]*(1 - w) + v[j+1]*w
    return k, q, f


@prop('P18', 150)
def routing(c):
    vs, P = c.choice([(), (2,), (2, 3)]), c.int(1, 3)
    full = vs + (P,)
    t = np.cumsum(c.rng.uniform(.1, 1, c.int(2, 4)))
    steps = c.choice([None, 5])
    ka, pa, fa = mkparam(c, full, vs, P, t[-1])
    kb, pb, fb = mkparam(c, full, vs, P, t[-1])
    kg, pg, fg = mkparam(c, full, vs, P, t[-1])
    c.note(vshape=vs, paths=P, t=t, a=(ka, pa), b=(kb, pb), common=(kg, pg))
    seen = dict(sde=[], init=[], src=[], more=[])

    class K(SDE, integrator):
        sources = {'dt', 'zz'}

        def sde(self, t, x, a, b=-3., com=2.):
            seen['sde'].append((float(t), a, b, com))
            return {'dt': 0.*x}

        def init(self, t, out_x, x0, h=7.):
            seen['init'].append((float(t), x0, h))
            out_x[...] = x0

        def source_zz(self, w=1, v=(3,)):
            seen['src'].append((w, v))
            z = lambda s, ds: 0.
            return z

        def more(self, m='m', mm=None):
            seen['more'].append((m, mm))
    x0 = c.choice([c.uni(), [1.] * P, np.arange(P)])
    kw = dict(a=pa, x0=x0)
    ub, uc, uh, uw, um = (c.bool() for _ in range(5))
    if ub:
        kw['b'] = pb
    if uc:
        kw['com'] = pg
    if uh:
        kw['h'] = [1, 2]
    if uw:
        kw['w'] = mark = object()
    if um:
        kw['m'] = mark2 = [1, 2]
    p = K(paths=P, vshape=vs, steps=steps, **kw)
    p(t)
    c.ok(len(seen['init']) == 1 and len(seen['src']) == 1 and len(seen['more']) == 1, 'components called once')
    tt, xx, h = seen['init'][0]
    c.ok(isinstance(xx, np.ndarray) and isinstance(h, np.ndarray), 'initial values are arrays')
    c.same(xx, np.asarray(x0), 'x0', exact=True)
    c.same(h, np.asarray([1, 2] if uh else 7.), 'init default', exact=True)
    c.ok(tt == t[0], 'initial time')
    c.ok(seen['src'][0][0] is (mark if uw else 1) and seen['src'][0][1] == (3,), 'source parameters')
    c.ok(seen['more'][0][0] is mark2 if um else seen['more'][0][0] == 'm', 'extra parameters')
    c.ok(seen['more'][0][1] is None, 'extra parameters default')
    u = np.unique(np.concatenate((np.linspace(t[0], t[-1], steps) if steps else t[:0], t)))
    c.ok(len(seen['sde']) == len(u) - 1, 'evaluations')
    for (s, a, b, g), s_ in zip(seen['sde'], u):
        c.ok(s == s_, 'time of evaluation')
        for nm, val, used, f, d in (('a', a, True, fa, None), ('b', b, ub, fb, -3.), ('com', g, uc, fg, 2.)):
            c.ok(isinstance(val, np.ndarray), 'parameter %s is an array' % nm)
            e = np.asarray(f(s) if used else d)
            c.same(np.broadcast_to(val, np.broadcast_shapes(val.shape, e.shape)), np.broadcast_to(e, np.broadcast_shapes(val.shape, e.shape)),
                   'value of parameter ' + nm, rtol=1e-9)
    # rejections
    c.raises(TypeError, lambda: K(paths=P, vshape=vs, **kw, nope=1), 'unknown keyword')
    miss = c.choice(['a', 'x0'])
    c.raises(TypeError, lambda: K(paths=P, vshape=vs, **{k: z for k, z in kw.items() if k != miss}), 'missing parameter')
    other = c.choice([('sde', 'x0', 1.), ('src', 'a', 2.), ('more', 'h', 0), ('src', 'm', 'other'), ('more', 'b', -3.0000001)])
    c.note(conflict=other)
    comp, nm, dv = other

    class C(K):
        pass
    if comp == 'sde':
        def sde(self, t, x, a, b=-3., com=2., x0=1.):
            return {'dt': 0.}
        C.sde = sde
    else:
        ns = {'dv': dv}
        body = 'return lambda s, ds: 0.' if comp == 'src' else 'pass'
        exec('def f(self, %s=dv):\n    %s' % (nm, body), ns)
        setattr(C, 'source_zz' if comp == 'src' else 'more', ns['f'])
    c.raises(TypeError, lambda: C(paths=P, vshape=vs, **{k: z for k, z in kw.items() if k in ('a', 'x0')}), 'conflicting defaults')
    # one parameter declared by all components
    ds = [c.choice([None, None, 1, 1, 2]) for k in range(5)]
    c.note(defaults=ds)
    r = ['{"dt": 0.}', 'None', '(lambda s, ds: 0.)', '(lambda s, ds: 0.)', 'None']
    ns = {}
    for nm, ar, dv, rs in zip(('sde', 'init', 'source_yy', 'source_zz', 'more'), ('t, x, ', 't, out_x, ', '', '', ''), ds, r):
        exec('def %s(self, %sa%s):\n    return %s' % (nm, ar, '' if dv is None else '=%d' % dv, rs), ns)
    ns = {k: v for k, v in ns.items() if not k.startswith('__')}
    D = type('D', (itg.SDE, itg.integrator), dict(ns, sources={'dt', 'yy', 'zz'}))
    if len(set(ds) - {None}) > 1:
        c.raises(TypeError, lambda: D(paths=P, a=5), 'conflicting defaults')
    elif len(set(ds)) == 1:
        D(paths=P, a=5)


@prop('P18', 60)
def unfit_sources(c):
    """sources which do not fit the equation are rejected, others are used"""
    P, vs = c.int(1, 5), c.choice([(), (2,), (2, 3)])
    id = c.cycle(['dw', 'dn', 'dj'])

    class One(itg.SDE, itg.integrator):
        sources = {'dt', id}

        def sde(self, t, x):
            return {id: 1.}

    class Given:
        lam, dtype, y = 1., float, None

        def __init__(self, paths, vshape):
            self.paths, self.vshape = paths, vshape

        def __call__(self, t, dt=None):
            return np.ones(self.vshape + (self.paths,))
    ok = [vs] + [()]*(c.bool() or vs == ()) + [vs[:-1] + (1,)]*bool(vs)
    bad = [Given(P + 1, vs), Given(2*P, ()), Given(P, vs + (2,)), Given(P, (4,) + vs), 3., lambda t, dt: 0.]
    if P > 1:
        bad += [Given(1, vs), Given(1, ())]
    if vs:
        bad += [Given(P, vs[:-1] + (vs[-1] + 1,)), Given(P, (vs[0] + 2,) + vs[1:])]
    c.note(source=id, paths=P, vshape=vs)
    for b in bad:
        if isinstance(b, Given):
            c.note(given=(b.paths, b.vshape))
        c.raises(ValueError, lambda: One(paths=P, vshape=vs, **{id: b}), 'a source which does not fit')
        if id == 'dn':
            c.raises(ValueError, lambda: inf.cpoisson_source(paths=P, vshape=vs, dn=b), 'a source which does not fit')
    for sh in ok:
        x = One(paths=P, vshape=vs, x0=0., **{id: Given(P, sh)})(np.array([0., 1., 3.]))
        c.same(np.asarray(x), np.broadcast_to(np.array([0., 1., 2.]).reshape((3,) + (1,)*(len(vs) + 1)), (3,) + vs + (P,)), 'given source used')


@prop('P18', 60)
def preset_routing(c):
    """keywords of the preset processes reach their sources"""
    P = 3
    name = c.cycle(['wiener_process', 'lognorm_process', 'ornstein_uhlenbeck_process', 'cox_ingersoll_ross_process',
                    'hull_white_process', 'heston_process', 'full_heston_process', 'merton_jumpdiff_process',
                    'kou_jumpdiff_process', 'jumpdiff_process'])
    cls = getattr(itg, name)
    jd = 'jumpdiff' in name
    base = dict(y=inf.norm_rv()) if name == 'jumpdiff_process' else {}
    c.note(process=name)
    c.raises(TypeError, lambda: cls(**base, whatever=1), 'unknown keyword')
    if not jd:
        c.raises(TypeError, lambda: cls(**base, lam=1.), 'jump intensity for a process without jumps')
    lamf = lambda s: .5 + .1*s
    if jd:
        p = cls(paths=P, lam=lamf, ptype=np.int32, **base)
        d = p.sources['dj']
        c.same(d.dn.lam(2.), lamf(2.), 'intensity reaches the counting source')
        c.ok(d.dn(0., 1.).dtype == np.int32, 'counting type')
    if name in ('heston_process', 'full_heston_process'):
        p = cls(paths=P, rho=.4)
        c.same(p.sources['dw'].corr, np.array([[1, .4], [.4, 1]]), 'rho reaches dw')
    else:
        m = np.array([[1, .3], [.3, 1]])
        kw = dict(factors=2) if name == 'hull_white_process' else dict(vshape=2)
        p = cls(paths=P, corr=m, **kw, **base)
        c.same(p.sources['dw'].corr, m, 'corr reaches dw')
    g = c.child()
    p = cls(paths=P, rng=g, **base)
    c.ok(p.rng is g and p.sources['dw'].rng is g, 'generator reaches the sources')
    p = cls(paths=P, dtype='f4', **base)
    c.ok(p.sources['dw'](0., 1.).dtype == np.dtype('f4'), 'data type reaches the sources')


# ------------------------------------------------------------------- P19

@prop('P19', 120)
def single(c):
    vs, P = c.choice([(), (2,), (2, 3)]), c.int(1, 4)
    full = vs + (P,)
    log = c.bool()
    n = c.choice([1, 2, 3, 5])
    t = c.choice([np.cumsum(c.rng.uniform(.1, 1, n)), int_timeline(c, n), np.cumsum(c.rng.uniform(.1, 1, n)).astype('f4')])
    i0 = c.choice([0, 0, -1, c.int(0, n - 1)])
    dtype = c.choice([None, None, 'f4', complex]) if not log else c.choice([None, None, 'f4'])
    x0 = c.choice([c.uni(.5, 2), c.rng.uniform(.5, 2, full), c.rng.uniform(.5, 2, vs + (1,)), c.rng.uniform(.5, 2, (P,)), 0.,
                   c.rng.integers(0, 2, full)*1.])
    c.note(vshape=vs, paths=P, log=log, t=t, i0=i0, dtype=dtype, x0=np.asarray(x0))
    states = {}
    rng = c.child()
    log_flag = log

    class K(SDE, integrator):
        log = log_flag

        def sde(self, t, x):
            states.setdefault(float(t), np.array(x))
            return {'dt': rng.normal(size=full)*.3}

        def dZ(self, s, ds):
            r = super().dZ(s, ds)
            return r
    p = K(paths=P, vshape=vs, x0=x0, dtype=dtype, i0=i0)
    y = p(t)
    c.ok(isinstance(y, process), 'a process')
    c.same(y.t, t, 'timeline', exact=True)
    c.ok(y.t.dtype == t.dtype, 'timeline type')
    c.ok(y.shape == t.shape + full, 'shape')
    c.ok(y.dtype == np.dtype(dtype or float), 'dtype')
    tf = np.asarray(t, float)
    idx = range(n)[i0]
    c.same(y.x[idx], np.broadcast_to(x0, full).astype(dtype or float), 'initial value', rtol=1e-12)
    for i in range(n):
        if tf[i] in states:
            s = states[tf[i]]
            c.same(y.x[i], np.exp(s) if log else s, 'output is the integrated state', rtol=1e-12)
    # explicit noise: exact solution
    S = src('dw', P, vs, [], c.child())
    b = c.uni(.1, .5)

    class L(SDE, integrator):
        log = log_flag

        def sde(self, t, x):
            return {'dw': b}
    y = L(paths=P, vshape=vs, x0=x0, dw=S, dtype=dtype)(t)
    inc = np.array([r[3] for r in S.log]).reshape((n - 1,) + full)
    w = np.concatenate((np.zeros((1,) + full), np.cumsum(b*inc, axis=0)))
    e = np.broadcast_to(x0, full)*np.exp(w) if log else np.broadcast_to(x0, full) + w
    c.same(y.x, e.astype(dtype or float), 'solution', rtol=1e-8, dtype=dtype)


@prop('P19', 30)
def custom_let(c):
    """custom storage and result hooks: log transform applied to what is stored"""
    P = c.int(1, 3)
    t = np.array([0., .5, 2.])

    class K(SDE, integrator):
        log = True

        def shapes(self, vshape):
            return vshape, vshape, vshape + (2,)

        def let(self, s, out_x, x):
            out_x[...] = x.sum(axis=-2)

        def sde(self, t, x, mu=.3):
            return {'dt': mu}
    x0 = c.rng.uniform(.5, 2, (2, P))
    y = K(paths=P, x0=x0)(t)
    e = np.exp(np.log(x0).sum(axis=0) + 2*.3*t[:, None])
    c.same(y.x, e, 'sum of logarithms', rtol=1e-10)


# ------------------------------------------------------------------- P20

def systems(c):
    q = c.choice([1, 2, 3])
    vs = c.choice([(), (2,), (1,), (2, 3), (3, 1)])
    addaxis = c.bool() if vs else c.bool()
    return q, vs, addaxis, c.int(1, 3)


@prop('P20', 150)
def components(c):
    q, vs, addaxis, P = systems(c)
    log = c.bool()
    full = vs + (P,)
    new = addaxis or vs == ()
    wsh = vs + (q,) if new else vs[:-1] + (vs[-1]*q,)
    c.note(q=q, vshape=vs, addaxis=addaxis, paths=P, log=log)
    dtype = c.choice([None, None, 'f4'])
    t = np.cumsum(c.rng.uniform(.1, .6, c.int(1, 4)))
    Sw, Sn = src('dw', P, wsh, [], c.child()), src('dn', P, wsh, [], c.child())
    rng = c.child()
    calls = []
    omit = [{i for i in ('dt', 'dw', 'dn') if c.bool(.3)} for _ in range(q)]
    shapes = [(), (1,), full, (P,)]
    as_list = c.bool()

    def f(self, t, *xs):
        A = [{i: rng.normal(size=shapes[rng.integers(len(shapes))])*.3 for i in ('dt', 'dw', 'dn') if i not in omit[k]} for k in range(q)]
        calls.append((float(t), [np.array(x) for x in xs], A))
        return A if as_list else tuple(A)
    import inspect
    f.__signature__ = inspect.Signature([inspect.Parameter(n, inspect.Parameter.POSITIONAL_OR_KEYWORD)
                                         for n in ['self', 't'] + ['x%d' % k for k in range(q)]])
    K = type('K', (SDEs, integrator), dict(q=q, addaxis=addaxis, log=log, sources={'dt', 'dw', 'dn'}, sde=f))
    one = c.bool(.4)
    x0 = [c.rng.uniform(.5, 2, shapes[c.int(0, 3)]) for _ in range(q)]
    if one:
        x0 = [np.asarray(c.uni(.5, 2))]*q
        arg = float(x0[0])
    else:
        x0 = [np.broadcast_to(z, full) for z in x0]
        arg = c.choice([np.array(x0), [z.tolist() for z in x0]])
    c.note(x0=x0)
    K2 = K(paths=P, vshape=vs if len(vs) != 1 or c.bool() else vs[0], x0=arg, dw=Sw, dn=Sn, dtype=dtype)
    ys = K2(t)
    c.ok(isinstance(ys, tuple) and len(ys) == q, 'one process per unknown')

    def block(z, k):
        return z[..., k, :] if new else z[..., k*vs[-1]:(k+1)*vs[-1], :]
    st = [np.broadcast_to(z, full).astype(dtype or float) for z in x0]
    st = [np.log(z) for z in st] if log else st
    out = [[z] for z in st]
    tol = dict(rtol=1e-4, atol=1e-5) if dtype == 'f4' else dict(rtol=1e-8)
    for k, (s, xs, A) in enumerate(calls):
        c.ok(len(xs) == q, 'one value per unknown')
        dw, dn, ds = Sw.log[k][3], Sn.log[k][3], Sw.log[k][2]
        nst = []
        for j in range(q):
            c.ok(xs[j].shape == full, 'shape of the unknown')
            c.same(xs[j], st[j], 'value of unknown %d' % j, **tol)
            v = st[j].astype(float)
            for i, a in A[j].items():
                v = v + a*(ds if i == 'dt' else block(dw if i == 'dw' else dn, j))
            nst.append(v)
            out[j].append(v)
        st = nst
    c.ok(len(calls) == t.size - 1, 'one evaluation per step')
    for j in range(q):
        c.ok(isinstance(ys[j], process), 'process')
        c.same(ys[j].t, t, 'timeline', exact=True)
        e = np.array(out[j])
        c.same(ys[j].x, np.exp(e) if log else e, 'component %d' % j, **tol)
    # lossless split and reassembly
    X = c.rng.normal(size=wsh + (P,))
    xs = K2.unpack(X)
    c.ok(len(xs) == q and all(z.shape == full for z in xs), 'unpack shapes')
    for j, z in enumerate(xs):
        c.same(z, block(X, j), 'unpack', exact=True)
    c.same(K2.pack(xs), X, 'pack after unpack', exact=True)
    XT = c.rng.normal(size=t.shape + wsh + (P,))
    for j, z in enumerate(K2.unpack(XT)):
        c.same(z, block(XT, j), 'unpack along a timeline', exact=True)
    ys_ = [c.rng.normal(size=shapes[c.int(0, 3)]) for _ in range(q)]
    for a, b in zip(K2.unpack(K2.pack(ys_)), ys_):
        c.same(a, np.broadcast_to(b, full), 'unpack after pack', exact=True)


@prop('P20', 60)
def bad_systems(c):
    kind = c.cycle(['short', 'long', 'dict', 'none', 'entry', 'key', 'array', 'entry_none'])
    good = {'dt': 1., 'dw': 1.}
    ret = dict(short=[good], long=[good]*3, dict=good, none=None, entry=[good, [1.]], key=(good, {'dq': 1.}), array=np.ones(2),
               entry_none=(good, None))[kind]
    exc = dict(short=ValueError, long=ValueError, key=KeyError).get(kind, TypeError)
    vs = c.choice([(), (2,)])
    c.note(kind=kind, vshape=vs)

    class K(SDEs, integrator):
        q = 2
        addaxis = c.bool()

        def sde(self, t, x, y):
            return ret
    c.raises(exc, lambda: K(paths=2, vshape=vs)((0., 1.)), 'invalid coefficients')

    class Z(SDEs, integrator):
        q = c.choice([0, -1])
    c.raises(ValueError, lambda: Z(), 'number of equations')


# ------------------------------------------------------------------- P21

def preset_param(c, full, vs, P, tmax, lo=.1, hi=1.5):
    k = c.choice(['default', 'scalar', 'array', 'vcol', 'callable', 'process'])
    if k == 'default':
        return None, None
    a, b = c.uni(lo, hi), c.uni(0, .5)
    if k == 'scalar':
        return a, lambda s: a
    if k == 'array':
        v = c.rng.uniform(lo, hi, full)
        return v, lambda s: v
    if k == 'vcol':
        v = c.rng.uniform(lo, hi, vs + (1,))
        return v, lambda s: v
    if k == 'callable':
        v = c.rng.uniform(lo, hi, full) if c.bool() else np.asarray(a)
        return (lambda s: v*(1 + b*np.sin(s)**2)), (lambda s: v*(1 + b*np.sin(s)**2))
    t = np.array([-1., tmax + 1])
    v = c.rng.uniform(lo, hi, (2,) + (1,)*len(vs) + (1,))
    return process(t, x=v), lambda s: v[0] + (v[1] - v[0])*(s - t[0])/(t[1] - t[0])


def jump_law(c, d, t, kind, f, full):
    """law of the jump variable of a source, sampled"""
    y = d.y
    r = y(t) if callable(y) and not hasattr(y, 'rvs') else y
    n = 4000
    z = np.asarray(r.rvs(size=(n,) + full, random_state=np.random.default_rng(7)))
    m1, v1 = f
    e = (z - m1)/np.sqrt(v1)
    c.zmean(e, 0., 1., kind + ' jumps: mean')


@prop('P21', 220)
def presets(c):
    name = c.cycle(['wiener_process', 'lognorm_process', 'ornstein_uhlenbeck_process', 'hull_white_process', 'hull_white_1factor_process',
                    'cox_ingersoll_ross_process', 'heston_process', 'full_heston_process', 'jumpdiff_process', 'merton_jumpdiff_process',
                    'kou_jumpdiff_process'])
    cls = getattr(itg, name)
    vs, P = c.choice([(), (), (2,), (2, 2)]), c.int(1, 3)
    t = np.cumsum(c.rng.uniform(.05, .8, c.int(1, 4)))
    steps, i0 = c.choice([None, None, 6]), c.choice([0, 0, 0, -1])
    full = vs + (P,)
    c.note(process=name, vshape=vs, paths=P, t=t, steps=steps, i0=i0)
    F = c.choice([1, 2, 3]) if name == 'hull_white_process' else None
    wsh = vs + (F,) if F else vs
    hes = 'heston' in name
    if hes:
        wsh = (2,) if vs == () else vs[:-1] + (2*vs[-1],)
    wfull = wsh + (P,)
    pf = full if hes else wfull
    pv = vs if hes else wsh
    names = dict(wiener_process=('mu', 'sigma'), lognorm_process=('mu', 'sigma'), ornstein_uhlenbeck_process=('theta', 'k', 'sigma'),
                 hull_white_process=('theta', 'k', 'sigma'), hull_white_1factor_process=('theta', 'k', 'sigma'),
                 cox_ingersoll_ross_process=('theta', 'k', 'xi')).get(name, ('mu', 'sigma', 'theta', 'k', 'xi') if hes else ('mu', 'sigma'))
    dflt = dict(mu=0., sigma=1., k=1., xi=1., theta=1. if 'cox' in name or hes else 0.)
    kw, fn = {}, {}
    for n in names:
        a, f = preset_param(c, pf, pv, P, t[-1], lo=-1. if n == 'mu' else .1)
        if a is not None:
            kw[n], fn[n] = a, f
        else:
            fn[n] = (lambda v: lambda s: v)(dflt[n])
    c.note(params=kw)
    pos = name in ('lognorm_process', 'cox_ingersoll_ross_process') or hes or 'jump' in name
    d0 = 1. if pos else 0.
    x0 = c.choice([None, c.uni(.4, 2), c.rng.uniform(.4, 2, pf)])
    y0 = c.choice([None, c.uni(.2, 2), c.rng.uniform(.01, .5, full)]) if hes else None
    if x0 is not None:
        kw['x0'] = x0
    if y0 is not None:
        kw['y0'] = y0
    X0 = np.broadcast_to(d0 if x0 is None else x0, pf).astype(float)
    Y0 = np.broadcast_to(1. if y0 is None else y0, full).astype(float)
    Sw = src('dw', P, wsh, [], c.child())
    Sj = src('dj', P, wsh, [], c.child())
    jd = 'jump' in name
    if jd:
        kw['dj'] = Sj
    if F:
        kw['factors'] = F
    p = cls(paths=P, vshape=vs, steps=steps, i0=i0, dw=Sw, **kw)
    y = p(t)
    u = np.unique(np.concatenate((np.linspace(t[0], t[-1], steps) if steps and t.size > 1 else t[:0], t)))
    u = u[::-1] if i0 == -1 else u
    c.ok(len(Sw.log) == len(u) - 1, 'number of steps')
    g = lambda n, s: np.asarray(fn[n](s))
    lg = name in ('lognorm_process',) or jd
    x = np.log(X0) if lg or hes else X0.copy()
    yy = Y0.copy()
    outs = {float(u[0]): (x, yy)}
    for k in range(len(u) - 1):
        s, ds = u[k], u[k+1] - u[k]
        dw = Sw.log[k][3]
        c.ok(Sw.log[k][1] == s and abs(Sw.log[k][2] - ds) < 1e-12, 'source sampled at the step')
        if name == 'wiener_process':
            x = x + g('mu', s)*ds + g('sigma', s)*dw
        elif lg:
            sg = g('sigma', s)
            x = x + (g('mu', s) - sg**2/2)*ds + sg*dw + (Sj.log[k][3] if jd else 0)
        elif 'ornstein' in name or 'hull' in name:
            x = x + g('k', s)*(g('theta', s) - x)*ds + g('sigma', s)*dw
        elif 'cox' in name:
            xp = np.maximum(x, 0)
            x = x + g('k', s)*(g('theta', s) - xp)*ds + g('xi', s)*np.sqrt(xp)*dw
        else:
            dwx, dwy = (dw[0], dw[1]) if vs == () else (dw[..., :vs[-1], :], dw[..., vs[-1]:, :])
            yp = np.maximum(yy, 0)
            sg = g('sigma', s)
            x = x + (g('mu', s) - sg**2*yp/2)*ds + sg*np.sqrt(yp)*dwx
            yy = yy + g('k', s)*(g('theta', s) - yp)*ds + g('xi', s)*np.sqrt(yp)*dwy
        outs[float(u[k+1])] = (x, yy)
    ex = np.array([outs[float(a)][0] for a in t])
    ey = np.array([outs[float(a)][1] for a in t])
    if F:
        ex = ex.sum(axis=-2)
    if lg or hes:
        ex = np.exp(ex)
    if name == 'full_heston_process':
        c.ok(isinstance(y, tuple) and len(y) == 2, 'two processes')
        c.same(y[1].x, ey, 'variance process', rtol=1e-8)
        y = y[0]
    c.same(y.x, ex, 'values', rtol=1e-8)
    c.same(y.t, t, 'timeline', exact=True)
    if not F:
        c.same(y.x[0 if i0 == 0 else -1], X0, 'initial value', rtol=1e-12)


@prop('P21', 40)
def jump_laws(c):
    name = c.cycle(['merton_jumpdiff_process', 'kou_jumpdiff_process'])
    vs = c.choice([(), (2,)])
    tv = c.bool()
    default = c.bool(.2)
    s = c.uni(.2, 2)
    full = vs + (1,)

    def mk(lo, hi):
        v = c.rng.uniform(lo, hi, full) if c.bool() else c.uni(lo, hi)
        return ((lambda t: v/(1 + t)) if tv else v), (v/(1 + s) if tv else v)
    if name[0] == 'm':
        (a, av), (b, bv) = mk(-1, 1), mk(.2, 1)
        kw = {} if default else dict(a=a, b=b)
        av, bv = (0., 1.) if default else (av, bv)
        m, v = av, np.asarray(bv)**2
        sd = lambda z: (z - av)/bv
    else:
        (a, av), (b, bv), (pa, pv) = mk(.1, .6), mk(.2, 1), mk(.2, .9)
        kw = {} if default else dict(a=a, b=b, pa=pa)
        av, bv, pv = (.5, .5, .5) if default else (av, bv, pv)
    c.note(process=name, params=kw, t=s)
    p = getattr(itg, name)(paths=1, vshape=vs, **kw)
    y = p.sources['dj'].y
    r = y(s) if not hasattr(y, 'rvs') else y
    n = 6000
    rng = c.child()
    z = np.asarray(r.rvs(size=(n,) + full, random_state=rng) if 'random_state' in __import__('inspect').signature(r.rvs).parameters
                   else r.rvs(size=(n,) + full))
    if name[0] == 'm':
        e = np.broadcast_to((z - av)/bv, z.shape)
        c.zmean(e, 0., 1., 'normal jumps, mean')
        c.zmean(e**2, 1., 2., 'normal jumps, variance')
        c.zmean(np.abs(e) < 1, .6826895, .6826895*(1-.6826895), 'normal jumps, central probability')
    else:
        up = z > 0
        P_ = np.broadcast_to(pv, full)
        c.zmean(up, P_, P_*(1 - P_), 'probability of a positive jump')
        A, B = np.broadcast_to(av, full), np.broadcast_to(bv, full)
        c.zmean(np.where(up, z, 0), P_*A, P_*2*A**2 - (P_*A)**2, 'mean of positive jumps')
        c.zmean(np.where(up, 0, -z), (1-P_)*B, (1-P_)*2*B**2 - ((1-P_)*B)**2, 'mean of negative jumps')
        for q in (.5, 1.5):
            pr = P_*np.exp(-q)
            c.zmean(z > q*A, pr, pr*(1 - pr), 'tail of positive jumps')
            pr = (1 - P_)*np.exp(-q)
            c.zmean(z < -q*B, pr, pr*(1 - pr), 'tail of negative jumps')
    # intensity, default and given
    lam = c.choice([None, 2.5])
    p = getattr(itg, name)(paths=5000, rng=c.child(), **({} if lam is None else dict(lam=lam)))
    p.sources['dj'](0., .8)
    c.zmean(p.sources['dj'].dn_value, .8*(lam or 1.), .8*(lam or 1.), 'number of jumps')


# ------------------------------------------------------------------- P22

@prop('P22', 150)
def decorated(c):
    kind = c.cycle(['single', 'system2', 'system1', 'system_list3'])
    q = dict(single=0, system2=2, system1=1, system_list3=3)[kind]
    explicit = c.choice([None, None, 'q', 'sources', 'both'])
    log = c.bool()
    addaxis = c.choice([None, None, True, False])
    vs = c.choice([(), (2,), (2, 3)])
    P = c.int(1, 3)
    ids = list(c.choice([('dt', 'dw'), ('dt',), ('dw', 'dn'), ('dt', 'dw', 'dn')]))
    use_as = c.choice(['deco', 'direct'])
    co = {(k, i): c.uni(-.4, .4) for k in range(max(q, 1)) for i in ids}
    # the sources need not appear in all equations
    if q > 1:
        for k in range(q):
            for i in ids:
                if c.bool(.3) and sum((j, i) in co for j in range(q)) > 1:
                    del co[k, i]
    c.note(kind=kind, explicit=explicit, log=log, addaxis=addaxis, vshape=vs, sources=ids, coefficients=co, use=use_as)
    noargs = c.bool(.3)

    def eq(k, xs, a):
        r = {i: co[k, i]*(1 + .1*xs[-1 - k]) + a for i in ids if (k, i) in co}
        return r
    if kind == 'single':
        def f(t, x, a=.1):
            return eq(0, [x], a)
        if noargs:
            def f(t=0., x=1., a=.1):
                return eq(0, [x], a)
    elif kind == 'system1':
        def f(t, x, a=.1):
            return [eq(0, [x], a)]
    elif kind == 'system2':
        def f(t=0., x=1., y=1., a=.1):
            return eq(0, [x, y], a), eq(1, [x, y], a)
    else:
        def f(t=0., x=1., y=1., z=1., a=.1):
            return [eq(k, [x, y, z], a) for k in range(3)]
    kw = {}
    if explicit in ('q', 'both'):
        kw['q'] = q
    if explicit in ('sources', 'both'):
        kw['sources'] = c.choice([set, tuple, list])(ids)
    if log or c.bool():
        kw['log'] = log
    if addaxis is not None:
        kw['addaxis'] = addaxis
    cls = integrate(f, **kw) if use_as == 'direct' else integrate(**kw)(f)
    c.ok(issubclass(cls, SDEs if q else SDE) and (q or not issubclass(cls, SDEs)), 'kind of process class')
    c.ok(set(cls.sources) == set(ids), 'sources', got=cls.sources)
    if q:
        c.ok(cls.q == q, 'number of equations')
    c.ok(bool(cls.log) == log, 'log flag')
    # equals the class written by hand
    base = SDEs if q else SDE

    class H(base, integrator):
        pass
    H.sources, H.log, H.sde = set(ids), log, staticmethod(f)
    if q:
        H.q, H.addaxis = q, bool(addaxis)
    t = np.cumsum(c.rng.uniform(.1, .5, 3))
    seed = c.int(0, 10**6)
    a = c.choice([None, c.uni(), lambda s: .1*s])
    pk = dict(x0=c.uni(.5, 2), paths=P, vshape=vs)
    if a is not None:
        pk['a'] = a
    y1 = cls(rng=np.random.default_rng(seed), **pk)(t)
    y2 = H(rng=np.random.default_rng(seed), **pk)(t)
    y1, y2 = (y1, y2) if q else ((y1,), (y2,))
    c.ok(len(y1) == len(y2) == max(q, 1), 'number of processes')
    for u, v in zip(y1, y2):
        c.same(u.x, v.x, 'integrated values', exact=True)
        c.same(u.t, t, 'timeline', exact=True)
    # and the recursion of the function itself, with given increments
    new = bool(addaxis) or vs == ()
    wsh = vs if not q else (vs + (q,) if new else vs[:-1] + (vs[-1]*q,))
    S = {i: src(i, P, wsh, [], c.child()) for i in ids if i != 'dt'}
    ys = cls(**pk, **S)(t)
    ys = ys if q else (ys,)
    full = vs + (P,)
    st = [np.full(full, pk['x0'])]*max(q, 1)
    st = [np.log(z) for z in st] if log else st
    out = [st]
    for k in range(len(t) - 1):
        av = .1 if a is None else a(t[k]) if callable(a) else a
        A = f(t[k], *st, a=av)
        A = A if q else [A]
        ns = []
        for j in range(max(q, 1)):
            v = st[j]
            for i, z in A[j].items():
                w = t[k+1] - t[k] if i == 'dt' else S[i].log[k][3]
                if i != 'dt' and q:
                    w = w[..., j, :] if new else w[..., j*vs[-1]:(j+1)*vs[-1], :]
                v = v + z*w
            ns.append(v)
        st = ns
        out.append(st)
    for j in range(max(q, 1)):
        e = np.array([o[j] for o in out])
        c.same(ys[j].x, np.exp(e) if log else e, 'integrates the equation returned', rtol=1e-8)


@prop('P22', 60)
def inconsistent(c):
    def one(t, x, a=1.):
        return {'dt': a, 'dw': 1.}

    def two(t=0., x=0., y=0.):
        return {'dt': 1.}, {'dw': 1.}

    def two_noargs(t, x, y):
        return {'dt': 1.}, {'dw': 1.}

    def one_list(t, x):
        return [{'dt': 1., 'dw': 2.}]

    def empty(t, x):
        return []

    def emptyt(t=0, x=0):
        return ()

    def bad(t, x):
        raise RuntimeError('x')

    def needs(t, x, a):
        return {'dt': a}
    T, V = TypeError, ValueError
    exc, f, kw = c.cycle([
        (T, one, dict(q=1)), (T, one, dict(q=2)), (T, two, dict(q=0)), (T, two, dict(q=1)), (T, two, dict(q=3)), (T, one_list, dict(q=0)),
        (T, one, dict(sources=('dt',))), (T, one, dict(sources={'dt', 'dw', 'dn'})), (T, two, dict(sources=['dw'])),
        (T, one, dict(sources=())), (T, two_noargs, {}), (V, empty, {}), (V, emptyt, {}), (T, bad, {}), (T, needs, {}),
        (V, empty, dict(q=0)), (V, emptyt, dict(sources=('dt',))), (T, two_noargs, dict(q=2)), (T, bad, dict(sources=('dt',))),
        (T, one_list, dict(q=2))])
    c.note(function=f.__name__, settings=kw)
    c.raises(exc, lambda: integrate(f, **kw), 'inconsistent settings')
    c.raises(exc, lambda: integrate(**kw)(f), 'inconsistent settings, decorator')
    # explicit q and sources: no test evaluation
    n = []

    def counting(t, x, a):
        n.append(1)
        return {'dt': a}
    cls = integrate(counting, q=0, sources=('dt',))
    c.ok(not n, 'no evaluation when all is given')
    c.same(cls(a=2., x0=1.)((0., 1.)).x, np.array([[1.], [3.]]), 'explicit settings')
