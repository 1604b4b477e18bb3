"""P01-P08: processes."""
import itertools
import numpy as np
import scipy.interpolate
from base import prop, Fail
from sdepy.infrastructure import process, piecewise


class subprocess_type(process):
    pass


def make(c, cls=None, dtype=None, n=None, kind=None, lo=1, vshape=None):
    t = c.timeline(n=n, kind=kind, lo=lo)
    vshape = c.vshape() if vshape is None else vshape
    P = c.paths()
    x = c.values(t.shape + vshape + (P,), dtype)
    c.note(values=x)
    cls = cls or c.choice([process, process, subprocess_type])
    if x.size and x.dtype.kind in 'fc' and c.bool(.25):
        # the same values, assigned after others were used
        c.note(values_assigned_in_place=True)
        p = cls(t, x=1 - x/2)
        if t.size == 1 or np.all(np.diff(t) > 0):
            p(t), p(t[0]), p.interp()(t), p.chf(1.), p.cdf(1.)
        for f in ('pmean', 'pvar', 'vmean', 'tmean', 'tstd', 'tint', 'tcumsum'):
            getattr(p, f)()
        if t.size > 1:
            p.tdiff()
        p[...] = x
        return p, t, x.copy()
    return cls(t, x=x), t, x.copy()


# ------------------------------------------------------------------- P01

@prop('P01', 120)
def construct(c):
    n = c.choice([None, None, 1])
    t = c.timeline(n=n)
    scalar = t.size == 1 and c.bool()
    tin = t[0] if scalar and c.bool() else float(t[0]) if scalar else t if c.bool() else list(t)
    vs, P = c.vshape(), c.paths()
    kind = c.cycle('xvc')
    c.note(kind=kind)
    dt = c.choice([None, None, None, float, complex, 'f4', int])
    vdt = c.choice([float, float, complex, int, 'f4', bool])
    if vdt is bool:
        mk = lambda s: c.rng.random(s) < .5
    else:
        mk = lambda s: c.values(s, vdt)
    if dt in (float, int, 'f4') and np.dtype(vdt).kind == 'c':
        dt = None
    c.note(dtype=dt, vdtype=vdt)
    cls = c.choice([process, subprocess_type])
    if kind == 'x':
        a = mk(t.shape + vs + (P,))
        exp = a
    elif kind == 'v':
        a = mk(t.shape + vs)
        exp = a[..., np.newaxis]
    else:
        a = mk(vs)
        exp = np.broadcast_to(a[np.newaxis, ..., np.newaxis], t.shape + vs + (1,))
    if dt is not None:
        exp = exp.astype(dt)
    c.note(given=a)
    p = cls(tin, **{kind: a.tolist() if c.bool(.2) else a}, dtype=dt)
    c.ok(type(p) is cls, 'type of the process')
    c.same(p.view(np.ndarray), exp, 'values', exact=True)
    c.same(p.x, exp, 'x attribute', exact=True)
    c.same(p.t, t, 'timeline', exact=True)
    c.ok(p.shape == t.shape + vs + (P if kind == 'x' else 1,), 'shape')
    c.ok(p.vshape == vs and p.paths == (P if kind == 'x' else 1), 'vshape and paths')
    if dt is not None:
        c.ok(p.dtype == np.dtype(dt), 'dtype')


@prop('P01', 40)
def construct_errors(c):
    t = c.timeline(lo=2)
    vs = c.vshape()
    x = c.values(t.shape + vs + (2,))
    v = c.values(t.shape + vs)
    k = c.values(vs)
    c.raises(ValueError, lambda: process(t), 'no values')
    c.raises(ValueError, lambda: process(t, x=x, v=v), 'x and v')
    c.raises(ValueError, lambda: process(t, x=x, c=k), 'x and c')
    c.raises(ValueError, lambda: process(t, v=v, c=k), 'v and c')
    c.raises(ValueError, lambda: process(t, x=x, v=v, c=k), 'x, v and c')
    c.raises(ValueError, lambda: process(np.array([t, t]), x=x), 'two-dimensional timeline')
    c.raises(ValueError, lambda: process(t.reshape(-1, 1), c=k), 'two-dimensional timeline')
    c.raises(ValueError, lambda: process(t.reshape(-1, 1), x=x), 'column timeline')
    for kw in (dict(c=k), dict(x=x[:0]), dict(v=v[:0])):
        c.raises(ValueError, lambda: process([], **kw), 'empty timeline')
        c.raises(ValueError, lambda: process(np.empty((0, 2)), **kw), 'empty timeline')
    c.raises(ValueError, lambda: process(t, x=x[:-1]), 'short values')
    c.raises(ValueError, lambda: process(t[:-1], x=x), 'long values')
    c.raises(ValueError, lambda: process(t, v=v[:-1]), 'short values')
    c.raises(ValueError, lambda: process(t[:1], v=v), 'long values')
    c.raises(ValueError, lambda: process(t, x=x[:1]), 'one value for many times')
    c.raises(ValueError, lambda: process(t, v=v[:1]), 'one value for many times')
    c.raises(ValueError, lambda: process(0., x=x), 'many values for one time')


@prop('P01', 60)
def copies(c):
    p, t, x = make(c)
    for name, tc, xc in (('pcopy', 1, 1), ('xcopy', 0, 1), ('tcopy', 1, 0)):
        q = getattr(p, name)()
        c.ok(isinstance(q, process), name + ' type')
        c.same(q.t, t, name + ' timeline', exact=True)
        c.same(q.x, x, name + ' values', exact=True)
        c.ok(np.shares_memory(q.t, p.t) != bool(tc), name + ' timeline memory')
        c.ok(np.shares_memory(q.x, p.x) != bool(xc), name + ' values memory')
        if xc:
            q.x[...] = 7
            c.same(p.x, x, 'values after writing in a ' + name, exact=True)
        if tc:
            q.t[...] = 1
            c.same(p.t, t, 'timeline after writing in a ' + name, exact=True)
    # of a transposed or strided parent too
    q = p.pcopy(order='C')
    c.same(q.x, x, 'pcopy', exact=True)


# ------------------------------------------------------------------- P02

def axis_key(c, n):
    k = c.choice(['int', 'neg', 'last', 'np', 'slice', 'step', 'rev', 'list', 'bool', 'arr', 'all', 'nplast'])
    if k == 'int':
        return c.int(0, n - 1)
    if k == 'neg':
        return -c.int(1, n)
    if k == 'last':
        return -1
    if k == 'np':
        return c.choice([np.int64, np.int32, np.int8, np.intp])(c.int(-n, n - 1))
    if k == 'nplast':
        return np.int64(-1)
    if k == 'slice':
        a = c.int(0, n - 1)
        return slice(a, c.int(a + 1, n))
    if k == 'step':
        return slice(None, None, c.int(1, 3))
    if k == 'rev':
        return slice(None, None, -1)
    if k == 'list':
        return [c.int(-n, n - 1) for _ in range(c.int(1, 4))]
    if k == 'arr':
        return np.array([c.int(-n, n - 1) for _ in range(c.int(1, 4))])
    if k == 'bool':
        b = c.rng.random(n) < .5
        b[c.int(0, n - 1)] = True
        return b
    return slice(None)


def keep(x, key, axis):
    """numpy's own selection along one axis, integers keeping the axis"""
    if isinstance(key, (int, np.integer)):
        key = [int(key)]
    return np.moveaxis(np.moveaxis(x, axis, 0)[key], 0, axis)


@prop('P02', 150)
def time_and_path_mode(c):
    p, t, x = make(c)
    k = axis_key(c, t.size)
    c.note(tkey=k)
    q = p['t', k]
    c.ok(type(q) is type(p), 'type in time mode')
    c.same(q.x, keep(x, k, 0), 'values in time mode', exact=True)
    c.same(q.t, keep(t, k, 0), 'timeline in time mode', exact=True)
    k = axis_key(c, x.shape[-1])
    c.note(pkey=k)
    q = p['p', k]
    c.ok(type(q) is type(p), 'type in path mode')
    c.same(q.x, keep(x, k, -1), 'values in path mode', exact=True)
    c.same(q.t, t, 'timeline in path mode', exact=True)
    for m in 'tp':
        c.same(p[m].x, x, 'mode without index', exact=True)
    c.same(p.x, x, 'parent', exact=True)
    c.same(p.t, t, 'parent timeline', exact=True)
    # reverse order timelines are those of plain indexing
    q = p['p', (slice(0, 1),)]
    c.same(q.x, x[..., :1], 'index given as a tuple', exact=True)


@prop('P02', 150)
def value_mode(c):
    p, t, x = make(c)
    vs = p.vshape
    key = []
    fancy = False
    many = c.int(0, len(vs))
    dots = c.int(0, many) if c.bool(.3) else None       # position of an ellipsis
    for n in (vs[:many] if dots is None else vs[:dots] + vs[len(vs) - (many - dots):]):
        r = c.choice(['int', 'slice', 'neg', 'fancy'])
        if r == 'fancy' and not fancy and not any(isinstance(k, int) for k in key):
            fancy = True
            key.append(c.choice([[c.int(0, n - 1), c.int(-n, -1)], c.rng.random(n) < 2]))
        elif r == 'slice' or fancy:
            key.append(c.choice([slice(None), slice(0, 1), slice(None, None, -1), slice(-1, None)]))
        else:
            key.append(c.int(0, n - 1) if r != 'neg' else -c.int(1, n))
    if dots is not None:
        key.insert(dots, Ellipsis)
    if c.bool(.2) and not fancy:
        key.insert(0, np.newaxis)
    c.note(vkey=key)
    exp = np.stack([np.stack([x[i][..., j][tuple(key)] for j in range(x.shape[-1])], axis=-1) for i in range(t.size)])
    forms = [lambda: p[('v',) + tuple(key)], lambda: p['v', tuple(key)]]
    for f in forms:
        q = f()
        c.ok(type(q) is type(p), 'type in value mode')
        c.same(q.x, exp, 'values in value mode', exact=True)
        c.same(q.t, t, 'timeline in value mode', exact=True)
    c.same(p['v'].x, x, 'value mode without index', exact=True)


@prop('P02', 100)
def plain_and_unknown(c):
    p, t, x = make(c, lo=2)
    keys = [0, -1, slice(0, 1), slice(None), Ellipsis, (0, Ellipsis), (Ellipsis, 0), None, (), [0, 1], np.array([1, 0]),
            (slice(None), Ellipsis, slice(0, 1)), x.real > 0, np.arange(t.size) > 0, np.int64(1),
            tuple(0 for _ in x.shape), (slice(None, None, 2),)]
    for k in keys:
        a, b = p[k], x[k]
        c.note(key=k)
        c.ok(not isinstance(a, process), 'plain indexing returns an array, not a process')
        c.same(a, b, 'plain indexing', exact=True)
    for m in ('x', 'T', 'tt', '', 'vp', 'path', ' t'):
        c.raises(IndexError, lambda: p[m, 0], 'unknown mode %r' % m)
        c.raises(IndexError, lambda: p[m], 'unknown mode %r' % m)


# ------------------------------------------------------------------- P03

BIN = [np.add, np.subtract, np.multiply, np.maximum, np.true_divide, np.hypot, np.arctan2, np.less, np.equal,
       np.minimum, np.logaddexp, np.copysign]
UN = [np.exp, np.negative, np.abs, np.sin, np.square, np.sign, np.isnan, np.cosh]


def compatible(p, q):
    tc = p.t.size == 1 or q.t.size == 1 or np.array_equal(p.t, q.t)
    a, b = p.shape[1:], q.shape[1:]
    return tc and len(a) == len(b) and all(i == j or i == 1 or j == 1 for i, j in zip(a, b))


def same_process(c, r, val, t, what):
    c.ok(isinstance(r, process), what + ': a process is returned')
    c.same(r.x, val, what, rtol=1e-14)
    if t is not None:
        c.same(r.t, t, what + ': timeline', exact=True)


@prop('P03', 150)
def unary_and_scalar(c):
    p, t, x = make(c, dtype=c.choice([float, 'f4']))
    f = c.choice(UN)
    same_process(c, f(p), f(x), t, f.__name__)
    a, b = np.modf(p)
    same_process(c, a, np.modf(x)[0], t, 'modf')
    same_process(c, b, np.modf(x)[1], t, 'modf')
    k = c.uni(.5, 2)
    op = c.choice(BIN)
    for r, v in ((op(p, k), op(x, k)), (op(k, p), op(k, x)), (p*k, x*k), (k - p, k - x), (p**2, x**2), (k/(p + 50), k/(x + 50)),
                 (-p, -x), (abs(p), abs(x)), (p > k, x > k), (p + 1, x + 1), (p//k, x//k), (p % k, x % k)):
        same_process(c, r, v, t, 'scalar operand ' + op.__name__)
    a = c.rng.normal(size=c.choice([x.shape, x.shape[-1:], (1,), x.shape[1:], ()]))
    c.note(array=a)
    for r, v in ((op(p, a), op(x, a)), (op(a, p), op(a, x)), (p + a, x + a), (a*p, a*x)):
        same_process(c, r, v, t, 'array operand ' + op.__name__)
    c.same(p.x, x, 'operand', exact=True)


def partner(c, p):
    """a process which may or may not mix with p"""
    t, sh = p.t, list(p.shape[1:])
    how = c.cycle(['same', 'same', 'copy', 'single', 'shifted', 'shorter', 'paths1', 'value1', 'pathsbad', 'axes', 'axes',
                   'longer', 'almost', 'oneaxis', 'middle'])
    c.note(partner=how)
    t2 = t
    if how == 'copy':
        t2 = t.copy()
    elif how == 'single':
        t2 = np.array([c.choice([float(t[0]), 99.])])
    elif how == 'shifted':
        t2 = t + .5
    elif how == 'almost':
        t2 = t.astype(float)
        t2[-1] = np.nextafter(t2[-1], np.inf)
    elif how == 'middle' and t.size > 2:
        t2 = t.astype(float)
        k = c.int(1, t.size - 2)
        t2[k] = c.choice([np.nextafter(t2[k], np.inf), (t2[k] + t2[k + 1])/2])
    elif how == 'shorter':
        t2 = t[:max(1, t.size - 1)]
    elif how == 'longer':
        t2 = np.append(t, t[-1] + 1)
    elif how == 'paths1':
        sh[-1] = 1
    elif how == 'value1':
        sh = [1]*(len(sh) - 1) + sh[-1:]
    elif how == 'pathsbad':
        sh[-1] += 1
    elif how == 'axes':
        sh = [c.choice([1, 2])] + sh if c.bool() or len(sh) == 1 else sh[1:]
    elif how == 'oneaxis' and len(sh) > 1:
        sh[0] += 1
    x = c.rng.normal(size=t2.shape + tuple(sh)) + c.choice([0., 2.])
    return process(t2, x=x)


@prop('P03', 320, w=2)
def binary(c):
    p, t, x = make(c, dtype=float, cls=process)
    q = partner(c, p)
    c.note(t2=q.t, x2=q.x)
    if c.bool():
        p, q = q, p
    x1, x2 = p.x.copy(), q.x.copy()
    op = c.choice(BIN)
    c.note(op=op.__name__)
    ops = [lambda: op(p, q), lambda: p + q, lambda: p*q, lambda: p - q, lambda: np.greater(p, q)]
    refs = [op, np.add, np.multiply, np.subtract, np.greater]
    good = compatible(p, q)
    for f, r in zip(ops, refs):
        if not good:
            c.raises(ValueError, f, 'incompatible processes %s %s %s' % (r.__name__, p.shape, q.shape))
        else:
            t = p.t if p.t.size > 1 else q.t if q.t.size > 1 else p.t if np.array_equal(p.t, q.t) else None
            same_process(c, f(), r(x1, x2), t, 'processes ' + r.__name__)
    c.same(p.x, x1, 'first operand', exact=True)
    c.same(q.x, x2, 'second operand', exact=True)


@prop('P03', 200)
def inplace(c):
    p, t, x = make(c, dtype=float, cls=process)
    q = partner(c, p)
    c.note(t2=q.t, x2=q.x)
    fits = compatible(p, q) and np.broadcast_shapes(p.shape, q.shape) == p.shape
    op, ref = c.choice([('__iadd__', np.add), ('__imul__', np.multiply), ('__isub__', np.subtract)])
    r = p
    if not fits:
        c.raises(ValueError, lambda: getattr(p, op)(q), 'in-place, incompatible')
        c.same(p.x, x, 'target of a refused in-place operation', exact=True)
        c.same(p.t, t, 'timeline of a refused in-place operation', exact=True)
        return
    t0 = p.t
    if op == '__iadd__':
        r += q
    elif op == '__imul__':
        r *= q
    else:
        r -= q
    c.ok(isinstance(p, process), 'type')
    c.same(p.x, ref(x, q.x), 'values in place', exact=True)
    c.same(p.t, t, 'timeline of the target', exact=True)
    c.same(r.x, ref(x, q.x), 'returned values', exact=True)
    c.same(r.t, t, 'timeline returned', exact=True)
    y = x + 1
    z = process(t, x=y.copy())
    z += 2.
    c.same(z.x, y + 2., 'in place scalar', exact=True)
    c.same(z.t, t, 'timeline', exact=True)
    z = process(t, x=y.copy())
    np.exp(z, out=z)
    c.same(z.x, np.exp(y), 'out=', exact=True)
    c.same(z.t, t, 'timeline', exact=True)
    z = process(t, x=y.copy())
    np.add(process(t, x=y), process(t, x=y), out=z)
    c.same(z.x, y + y, 'out=', exact=True)
    c.same(z.t, t, 'timeline', exact=True)


# ------------------------------------------------------------------- P04

def times(c, t):
    """evaluation times around a timeline"""
    t = t.astype(float)
    pool = list(t) + list(t[:1] - 1) + list(t[-1:] + 1) + list(t[:1] - 1e-9) + list(t[-1:] + 1e-9)
    if t.size > 1:
        for i in range(t.size - 1):
            pool += list(t[i] + (t[i+1] - t[i])*c.rng.random(2))
    sh = c.choice([(), (1,), (4,), (2, 3), (0,), (1, 2, 2)])
    s = np.array([pool[c.int(0, len(pool) - 1)] for _ in range(int(np.prod(sh, dtype=int)))], float).reshape(sh)
    return c.note(times=s)


def linear(t, x, s):
    """piecewise linear interpolant, from the definition"""
    out = np.empty(s.shape + x.shape[1:], dtype=complex if x.dtype.kind == 'c' else float)
    for i in np.ndindex(s.shape):
        v = s[i]
        if t.size == 1 or v <= t[0]:
            out[i] = x[0]
        elif v >= t[-1]:
            out[i] = x[-1]
        else:
            k = int(np.searchsorted(t, v, side='right')) - 1
            w = (v - t[k])/(t[k+1] - t[k])
            out[i] = x[k]*(1 - w) + x[k+1]*w
    return out


@prop('P04', 200)
def interpolation(c):
    p, t, x = make(c)
    s = times(c, t)
    sin = s if c.bool(.7) else s.tolist()
    c.same(p(sin), linear(t, x, s), 'evaluation', rtol=1e-7, atol=1e-9, dtype=x.dtype)
    c.ok(p(sin).shape == s.shape + x.shape[1:], 'shape')
    c.same(p.interp()(sin), linear(t, x, s), 'interp', rtol=1e-7, atol=1e-9, dtype=x.dtype)
    ds = c.choice([c.uni(-1, 1), c.rng.normal(size=s.shape), 0.])
    c.note(ds=ds)
    c.same(p(s, ds), linear(t, x, s + ds) - linear(t, x, s), 'increment', rtol=1e-7, atol=1e-8, dtype=x.dtype)
    # stored values at the timeline
    c.same(p(t), x, 'values at the timeline', rtol=1e-12, dtype=x.dtype)
    # rebase
    s1 = np.unique(s) if s.size else np.array([.5])
    s1 = c.choice([s1, s1[0], t, s1[:1]])
    r = p.rebase(s1)
    s1 = np.atleast_1d(s1)
    c.ok(isinstance(r, process), 'rebase type')
    c.same(r.t, s1, 'rebase timeline', exact=True)
    c.same(r.x, linear(t, x, s1), 'rebase values', rtol=1e-7, atol=1e-9, dtype=x.dtype)
    c.same(p.x, x, 'values kept', exact=True)


@prop('P04', 120)
def kinds(c):
    p, t, x = make(c, dtype=float, n=c.int(1, 7))
    s = times(c, t)
    kind = c.choice(['nearest', 'zero', 'previous', 'next', 'quadratic', 'cubic', 'linear', 'slinear'])
    if t.size < 5 and kind in ('quadratic', 'cubic'):
        kind = 'nearest'
    other = c.choice(['linear', 'zero', 'nearest'])
    c.note(interp=kind, other=other)

    def ref(kind, s):
        if t.size == 1:
            return np.broadcast_to(x[0], s.shape + x.shape[1:])
        return scipy.interpolate.interp1d(t, x, axis=0, kind=kind, bounds_error=False, fill_value=(x[0], x[-1]))(s)
    c.same(p(s, kind=kind), ref(kind, s), 'kind per call', rtol=1e-7, atol=1e-9)
    c.same(p.rebase(np.unique(s) if s.size else [0.], kind=kind).x, ref(kind, np.unique(s) if s.size else np.array([0.])),
           'kind per rebase', rtol=1e-7, atol=1e-9)
    c.same(p(s, .25, kind=kind), ref(kind, s + .25) - ref(kind, s), 'increment with kind', rtol=1e-7, atol=1e-9)
    c.same(p(s), ref('linear', s), 'default kind after a call', rtol=1e-7, atol=1e-9)
    p.interp_kind = other
    c.same(p(s), ref(other, s), 'kind as an attribute', rtol=1e-7, atol=1e-9)
    c.same(p(s, kind=kind), ref(kind, s), 'kind per call over attribute', rtol=1e-7, atol=1e-9)
    c.same(p.rebase(s1 := (np.unique(s) if s.size else np.array([0.]))).x, ref(other, s1), 'rebase with attribute', rtol=1e-7, atol=1e-9)
    c.same(p.interp(kind=kind)(s), ref(kind, s), 'interp', rtol=1e-7, atol=1e-9)


# ------------------------------------------------------------------- P05

@prop('P05', 200)
def piecewise_modes(c):
    t = c.timeline()
    vs, P = c.vshape(), c.paths()
    byv = c.bool(.3)
    x = c.values(t.shape + vs + ((1,) if byv else (P,)), c.choice([float, float, 'f4', complex]))
    c.note(values=x)
    mode = c.cycle(['mid', 'forward', 'backward', 'default'])
    c.note(mode=mode)
    kw = {} if mode == 'default' else dict(mode=mode)
    p = piecewise(t, v=x[..., 0], **kw) if byv else piecewise(t, x=x, **kw)
    s, e = [], []
    tf = t.astype(float)
    for d in (1e-9, 1e-3, 1., 50.):
        s += [tf[0] - d, tf[-1] + d]
        e += [x[0], x[-1]]
    for i in range(t.size - 1):
        for w in (1e-6, .1, .3, .49, .51, .7, .9, 1 - 1e-6):
            s.append(tf[i] + w*(tf[i+1] - tf[i]))
            e.append(x[i] if mode == 'forward' else x[i+1] if mode == 'backward' else x[i] if w < .5 else x[i+1])
    s, e = np.array(s), np.array(e)
    c.same(p(s), e, 'piecewise constant values', rtol=1e-6)
    k = c.int(0, len(s) - 1)
    c.same(p(s[k]), e[k], 'piecewise constant value', rtol=1e-6)
    # the first and last values, at the ends
    if mode != 'forward' or t.size == 1:
        c.same(p(tf[-1] + 1e-6), x[-1], 'after the end', rtol=1e-6)
    c.raises(ValueError, lambda: piecewise(t, x=x, mode=c.choice(['fwd', 'middle', '', None, 'FORWARD'])), 'unknown mode')


# ------------------------------------------------------------------- P06

def stat(x, axes, name, ddof):
    n = int(np.prod([x.shape[a] for a in axes], dtype=int))
    y = np.moveaxis(x, axes, range(-len(axes), 0)) if axes else x
    y = y.reshape(y.shape[:y.ndim - len(axes)] + (n,))
    if name == 'min':
        r = y[..., 0]
        for k in range(n):
            r = np.where(y[..., k] < r, y[..., k], r)
        return r
    if name == 'max':
        return -stat(-x, axes, 'min', 0)
    s = sum(y[..., k] for k in range(n))
    if name == 'sum':
        return s
    m = s/n
    if name == 'mean':
        return m
    v = sum((y[..., k] - m)**2 for k in range(n))/(n - ddof) if n != ddof else np.full(m.shape, np.nan)
    return v if name == 'var' else np.sqrt(v)


@prop('P06', 200)
def summaries(c):
    p, t, x = make(c, dtype=c.choice([float, float, 'f4']))
    nv = x.ndim - 2
    for which, axes in (('p', (x.ndim - 1,)), ('v', tuple(range(1, nv + 1))), ('t', (0,))):
        n = int(np.prod([x.shape[a] for a in axes], dtype=int))
        for name in ('min', 'max', 'sum', 'mean', 'var', 'std'):
            ddof = c.choice([0, 1, .5, n - .5] if n > 1 else [0, .5]) if name in ('var', 'std') else 0
            f = getattr(p, which + name)
            r = f(ddof=ddof) if ddof else f()
            e = stat(x, axes, name, ddof)
            if which == 'p':
                e = e[..., np.newaxis]
            if which == 't':
                e = e[np.newaxis]
            what = which + name + ' ddof=%r' % ddof
            c.ok(isinstance(r, process), what + ': process')
            c.same(r.x, e, what, rtol=1e-7, atol=1e-9, dtype=x.dtype)
            c.same(r.t, t[:1] if which == 't' else t, what + ' timeline', exact=True)
            c.ok(r.paths == (1 if which == 'p' else x.shape[-1]), what + ' paths')
            c.ok(r.vshape == (() if which == 'v' else x.shape[1:-1]), what + ' vshape')
    r = p.tcumsum()
    e = x.copy().astype(float)
    for k in range(1, t.size):
        e[k] = e[k-1] + x[k]
    c.same(r.x, e, 'tcumsum', rtol=1e-7, atol=1e-9, dtype=x.dtype)
    c.same(r.t, t, 'tcumsum timeline', exact=True)
    if x.dtype == float:
        for name in ('psum', 'pmean', 'vsum', 'vmean', 'tsum', 'tmean'):
            c.ok(getattr(p, name)(dtype=np.longdouble).dtype == np.longdouble, name + ' dtype')
    c.same(p.x, x, 'values kept', exact=True)


@prop('P06', 150)
def shapeas(c):
    p, t, x = make(c)
    vs = p.vshape
    ones = c.int(0, 3)
    sh = (1,)*ones + vs
    q = p.shapeas(sh)
    c.same(q.x, x.reshape(t.shape + sh + x.shape[-1:]), 'shapeas adding axes', exact=True)
    c.same(q.t, t, 'timeline', exact=True)
    r = q.shapeas(vs)
    c.same(r.x, x, 'shapeas dropping axes', exact=True)
    c.same(q.shapeas(p).x, x, 'shapeas with a process', exact=True)
    c.ok(type(r) is type(p), 'type')
    for h in range(len(vs)):
        target = vs[len(vs) - h:]
        c.note(target=target)
        if any(n != 1 for n in vs[:len(vs) - h]):
            c.raises(ValueError, lambda: p.shapeas(target), 'dropping an axis of size other than one')
        else:
            c.same(p.shapeas(target).x, x.reshape(t.shape + target + x.shape[-1:]), 'dropping one-axes', exact=True)


# ------------------------------------------------------------------- P07

@prop('P07', 200)
def calculus(c):
    p, t, x = make(c, dtype=c.choice([float, float, complex, 'f4']), lo=2)
    t = t.astype(float)
    dt = np.array([t[i+1] - t[i] for i in range(t.size - 1)])
    dx = dt.reshape((-1,) + (1,)*(x.ndim - 1))
    k = c.choice([0, 1, .5, 2, -1, 0.])
    fwd = c.bool()
    c.note(dt_exp=k, fwd=fwd)
    r = p.tdiff(dt_exp=k, fwd=fwd)
    e = np.array([(x[i+1].astype(complex) - x[i])/dt[i]**k for i in range(t.size - 1)])
    c.same(r.x, e, 'tdiff', rtol=1e-9, atol=1e-9, dtype=x.dtype)
    c.same(r.t, t[:-1] if fwd else t[1:], 'tdiff timeline', rtol=1e-14)
    r = p.tdiff()
    c.same(r.x, x[1:] - x[:-1], 'tdiff default', dtype=x.dtype)
    c.same(r.t, t[:-1], 'tdiff default timeline', rtol=1e-14)
    r = p.tder()
    c.same(r.x, (x[1:] - x[:-1])/dx, 'tder', atol=1e-9, dtype=x.dtype)
    c.same(r.t, t[:-1], 'tder timeline', rtol=1e-14)
    c.same(p.dt, dt, 'dt', rtol=1e-14)
    c.same(p.dtx, dx, 'dtx', rtol=1e-14)
    c.same(p.tx, t.reshape((-1,) + (1,)*(x.ndim - 1)), 'tx', rtol=1e-14)
    r = p.tint()
    e = np.zeros(x.shape, complex)
    for i in range(1, t.size):
        e[i] = e[i-1] + x[i-1]*dt[i-1]
    c.same(r.x, e, 'tint', atol=1e-9, dtype=x.dtype)
    c.same(r.t, t, 'tint timeline', rtol=1e-14)
    if x.dtype != np.dtype('f4'):
        d = r.tder()
        c.same(d.x, x[:-1], 'derivative of the integral', rtol=1e-6, atol=1e-6*(1 + np.abs(t).max()/dt.min()))
        c.same(d.t, t[:-1], 'timeline', rtol=1e-14)
    c.same(p.x, x, 'values kept', exact=True)
    # one time point
    q = process(t[0], x=x[:1])
    c.same(q.tint().x, 0*x[:1], 'integral on one point')


@prop('P07', 60)
def calculus_after_selection(c):
    """the time steps are those of the process at hand, also after earlier uses of its relatives"""
    p, t, x = make(c, dtype=float, lo=4, cls=process)
    p.dt, p.tint(), p.tder()
    q = p['t', ::2]
    s, y = t[::2].astype(float), x[::2]
    e = np.zeros(y.shape)
    for i in range(1, s.size):
        e[i] = e[i-1] + y[i-1]*(s[i] - s[i-1])
    c.same(q.tint().x, e, 'integral after selection in time', atol=1e-9)
    q = p.rebase(t[1:])
    e = (x[2:] - x[1:-1])/(t[2:] - t[1:-1]).reshape((-1,) + (1,)*(x.ndim - 1))
    c.same(q.tder().x, e, 'derivative after rebase', rtol=1e-6, atol=1e-8)
    q = 2*p + 1
    c.same(q.dt, np.diff(t), 'dt of a result', rtol=1e-14)
    q = p['v', ..., ] if False else p['p', 0]
    c.same(q.dtx, np.diff(t).reshape((-1,) + (1,)*(x.ndim - 1)), 'dtx of a selection', rtol=1e-14)


# ------------------------------------------------------------------- P08

def mean_paths(f, y, pts, tdim):
    """mean over paths of f(point, value): times + points + vshape"""
    tsh, vsh, P = y.shape[:tdim], y.shape[tdim:-1], y.shape[-1]
    out = np.empty(tsh + pts.shape + vsh, complex)
    for i in np.ndindex(tsh):
        for j in np.ndindex(pts.shape):
            for k in np.ndindex(vsh):
                out[i + j + k] = sum(f(pts[j], y[i + k + (q,)]) for q in range(P))/P
    return out


@prop('P08', 120)
def estimators(c):
    p, t, x = make(c, dtype=float, n=c.int(1, 4))
    sh = c.choice([(), (1,), (3,), (2, 2)])
    u = np.asarray(c.rng.normal(size=sh))
    pts = np.asarray(c.rng.normal(size=sh))
    if pts.size:
        pts.flat[0] = x.flat[c.int(0, x.size - 1)]     # ties count
    s = times(c, t)
    c.note(u=u, points=pts)
    y = linear(t, x, s)
    y = p(s)
    cf = lambda a, v: np.exp(1j*a*v)
    df = lambda a, v: 1.*(v <= a)
    e = mean_paths(cf, y, u, s.ndim)
    c.same(p.chf(s, u), e, 'chf(t, u)')
    c.same(p.chf(t=s, u=u), e, 'chf(t=, u=)')
    e = mean_paths(df, y, pts, s.ndim).real
    c.same(p.cdf(s, pts), e, 'cdf(t, x)')
    c.same(p.cdf(t=s, x=pts), e, 'cdf(t=, x=)')
    e = mean_paths(cf, x, u, 1)
    c.same(p.chf(u), e, 'chf(u)')
    c.same(p.chf(u=u), e, 'chf(u=)')
    e = mean_paths(df, x, pts, 1).real
    c.same(p.cdf(pts), e, 'cdf(x)')
    c.same(p.cdf(x=pts), e, 'cdf(x=)')
    c.same(p.chf(s, u.tolist()), mean_paths(cf, y, u, s.ndim), 'chf with a list')
    c.raises(TypeError, lambda: p.chf(), 'chf without arguments')
    c.raises(TypeError, lambda: p.cdf(), 'cdf without arguments')
