"""P13: sources with memory."""
from pyvc.api import *
from pyvc import srandom
from .common import *
from .store import *

ASSUMPTIONS = [RANK_NOTE, STORE_NOTE,
               'arbitrary subclass: new_outside and new_inside return any value (new_inside may return None), and leave the '
               'memory alone; for the classes of the package: contracts of P14 and P15',
               'loop invariant and state invariant: contracts/store.py; bisect: by contract, on a sorted list']


def tol(rt, x, q):
    """x is within tolerance of the stored time q"""
    return le(t_.tabs(sub(x, q)), mul(rt, t_.tabs(q)))


def make(base, r, dtype, rtol, opaque=False):
    vs, P = vdims(r), dim('P', 1)
    t0, z0 = real('t0'), real('z0')
    cls = recording(fn(I_, base), opaque)
    kw = {} if dtype is None else dict(dtype=dtype)
    if rtol == 'max':
        rt = const(Fr(1e-15))
    else:
        rt = var('rtol')
        assume(and_(le(ZERO, rt), lt(rt, ONE)))
        kw['rtol'] = Sym(rt, 'f')
    src = cls(paths=P, vshape=vs, rng=srandom.Generator('given'), t0=t0, z0=z0, **kw)
    names = memory(src)
    st = anywhere(src, t0, Entry if opaque else (lambda a: [a, None]) if 'cpoisson' in base else None)
    src.store, src.log = st, []
    return src, st, rt, names


def neighbours(st, p):
    """what a new time at position p is generated from"""
    c = ctx()
    if c.decide(eq(p, st.n)):
        return 'outside', [sub(p, ONE)]
    if c.decide(eq(p, ZERO)):
        return 'outside', [ZERO]
    return 'inside', [sub(p, ONE), p]


def check_call(nm, st, call, p, x):
    kind, zs, ts, s, r = call
    want, ks = neighbours(st, p)
    check(nm + '-method', kind == want, note='%s, expected %s' % (kind, want))
    if kind != want:
        raise PathEnd()
    for k, z, t in zip(ks, zs, ts):
        check(nm + '-neighbour', z is st.entry(k))
        check_eq(nm + '-neighbour-time', tm(t), st.at(k))
    check_eq(nm + '-time', tm(s), x)
    # what new_outside and new_inside require
    if kind == 'inside':
        check(nm + '-inside', and_(lt(st.at(ks[0]), x), lt(x, st.at(ks[1]))))
        check(nm + '-one-side-of-t0', or_(le(st.t0, st.at(ks[0])), le(st.at(ks[1]), st.t0)))
    else:
        t = st.at(ks[0])
        check(nm + '-outside', or_(and_(le(st.t0, t), lt(t, x)), and_(lt(x, t), le(t, st.t0))))


def iteration(src, st, rt, names):
    value = lambda e: st.value_of(e)

    def spec(x, got, j):
        if getattr(src, names[0]) is not st.T or getattr(src, names[1]) is not st.Z:
            raise Unsupported('the memory is replaced')
        LT, LZ, log = st.T.layers, st.Z.layers, src.log
        zz = lambda p: zeta(st.at(p), *j, s=st.s)
        st.unchanged()
        if not LT and not LZ and not log:
            # retrieved: from a stored time within tolerance, from the only one if it is one
            seen = list(st.seen)
            check('value-of-a-stored-time', or_(*[and_(tol(rt, x, st.at(p)), eq(got, zz(p))) for p in seen]))
            m = index('m', st.n)
            tmm = st.at(m)
            # stored: its own value, whatever else is within tolerance
            check('value-of-a-time-stored', implies(eq(x, tmm), eq(got, zeta(tmm, *j, s=st.s))))
            assume(tol(rt, x, tmm))
            for p in seen:
                assume(or_(eq(p, m), not_(tol(rt, x, st.at(p)))))
            check('value-of-the-time-within-tolerance', eq(got, zeta(tmm, *j, s=st.s)))
            reach('retrieved')
            return
        check('generated-once', len(log) == 1, note='%d calls' % len(log))
        if len(log) != 1:
            return
        call, = log
        new = call[4]
        if not LT and not LZ:
            check('no-value-to-be-stored', new is None)
            if new is not None:
                return
            # between two stored times, the value at the end
            p = [k for k, e in st.made if e is call[1][1]][0]
            check_call('not-stored', st, call, p, x)
            check_eq('value-of-next', got, zz(p))
            reach('unchanged')
        else:
            check('stored-once', len(LT) == 1 and len(LZ) == 1, note='%d times, %d values stored' % (len(LT), len(LZ)))
            if len(LT) != 1 or len(LZ) != 1:
                return
            (p, t), (q, z) = LT[0], LZ[0]
            check_eq('stored-together', p, q)
            check_eq('stored-time', tm(t), x)
            check('stored-value', z is new)
            if z is not new:
                return
            assume(eq(p, q))
            c = ctx()
            # sorted
            if c.decide(lt(ZERO, p)):
                check('sorted-before', lt(st.at(sub(p, ONE)), x))
            if c.decide(lt(p, st.n)):
                check('sorted-after', lt(x, st.at(p)))
            check_call('stored', st, call, p, x)
            check_eq('value-stored', got, value(new).at(*j))
            a = value(new)
            check_eq('new-value-kept', a.at(*j), app('a:new0', *j, s=st.s))
            reach('stored')
        m = index('m', st.n)
        check('not-within-tolerance-of-a-stored-time', not_(tol(rt, x, st.at(m))))
    return spec


TIMES = {'s': (), 'v': (1,), 'm': (2,), 'e': ()}


def request(kind, name='t'):
    """times of a call: scalar, vector, matrix, list, of floats or ints"""
    if kind == 's':
        x = real(name)
        return x, (), lambda: tm(x)
    if kind == 'i':
        x = integer(name)
        return x, (), lambda: t_.to_real(tm(x)) if hasattr(t_, 'to_real') else snp.cast_term(tm(x), 'f')
    if kind == 'l':
        a, b = real(name + 'a'), real(name + 'b')
        return [a, b], (2,), lambda i: ite(eq(i, ZERO), tm(a), tm(b))
    shape = {'v': lambda: (dim('A', 0),), 'm': lambda: (dim('B', 0), dim('A', 0)), 'vi': lambda: (dim('A', 0),),
             'c': lambda: (dim('B', 0), 1)}[kind]()
    dt = int if kind == 'vi' else float
    a = arr(name, shape, dt)
    if kind == 'vi':
        return a, shape, lambda *i: snp.cast_term(a.at(*i), 'f')
    return a, shape, a.at


def evaluate(base, r, tk, dk=None, dtype=None, rtol='sym', opaque=False):
    src, st, rt, names = make(base, r, dtype, rtol, opaque)
    t, tsh, te = request(tk)
    ctx().for_contract = loop = EvalLoop(src, st, iteration(src, st, rt, names))
    if dk is None:
        z, sh = src(t), tsh
    else:
        d, dsh, de = request(dk, 'd')
        z = src(t, d)
        sh = tuple(snp.bshape(tsh, dsh))
    check('evaluated', loop.loops == (1 if dk is None else 2), note='%d loops' % loop.loops)
    full = sh + st.full
    check('type', isinstance(z, snp.ndarray), note=str(type(z)))
    if not isinstance(z, snp.ndarray) or not check_shape('shape', z.shape, full):
        return
    check('dtype', z.dtype == snp.dtype(src.dtype if src.dtype is not None else float), note=str(z.dtype))
    i = indices(full, 'i')
    a, j = i[:len(sh)], i[len(sh):]
    k = st.s
    sub_ = lambda n, a: tuple(ZERO if isinstance(dd, int) and dd == 1 else x for dd, x in zip(n, a[len(a) - len(n):]))
    tt = te(*sub_(tsh, a))
    if dk is None:
        check_eq('value', z.at(*i), R_(tt, *j, s=k))
    else:
        dd = de(*sub_(dsh, a))
        check_eq('increment', z.at(*i), sub(R_(add(tt, dd), *j, s=k), R_(tt, *j, s=k)))
    check('not-the-memory', all(z._np_buf is not st.value_of(e)._np_buf for _, e in st.made))
    reach('end')


ALL = ('iteration', 'retrieved', 'stored', 'unchanged', 'end')
for _b, _dt in (('true_source', None), ('true_wiener_source', None), ('true_poisson_source', int),
                ('true_poisson_source', None), ('true_source', float), ('true_cpoisson_source', None)):
    for _r in RANKS:
        for _t in ('s', 'v', 'm', 'i', 'vi', 'l'):
            if _t in ('i', 'vi', 'l', 'm') and (_r != 1 or _b != 'true_source'):
                continue
            vc('P13', 'evaluate_%s_%s_%d_%s' % (_b, _t, _r, _dt and _dt.__name__), reach=ALL)(
                lambda b=_b, dt=_dt, r=_r, t=_t: evaluate(b, r, t, dtype=dt))
for _t, _d in (('s', 's'), ('v', 'v'), ('v', 's'), ('s', 'v'), ('v', 'c'), ('i', 'i'), ('i', 's')):
    vc('P13', 'increment_%s_%s' % (_t, _d), reach=ALL)(lambda t=_t, d=_d: evaluate('true_source', 1, t, d))
vc('P13', 'increment_int', reach=ALL)(lambda: evaluate('true_poisson_source', 1, 's', 's', dtype=int))
vc('P13', 'rtol_max', reach=ALL)(lambda: evaluate('true_source', 1, 'v', rtol='max'))
for _t in 'sv':
    vc('P13', 'opaque_' + _t, reach=ALL)(lambda t=_t: evaluate('true_source', 1, t, opaque=True))


def initial(base, r, how, rtol=None, dtype=None):
    """a new source: its initial value at its initial time, and nothing else"""
    vs, P = vdims(r), dim('P', 1)
    full = vs + (P,)
    kw = {} if dtype is None else dict(dtype=dtype)
    if rtol is not None:
        kw['rtol'] = rtol
    if how == 'default':
        t0, ze = ZERO, lambda *i: ZERO
    else:
        t0 = tm(kw.setdefault('t0', integer('t0') if how == 'int' else real('t0')))
        if how == 'array':
            kw['z0'] = arr('z0', vs[-1:] + (1,))
            ze = lambda *i: elt('z0', *i[-2:-1], ZERO)
        elif how == 'full':
            kw['z0'] = arr('z0', full)
            ze = lambda *i: elt('z0', *i)
        else:
            z0 = kw['z0'] = integer('z0') if how == 'int' or snp.dtype(dtype).kind == 'i' else real('z0')
            ze = lambda *i: tm(z0)
    src = fn(I_, base)(paths=P, vshape=vs, rng=srandom.Generator('given'), **kw)
    check('no-draws', not ctx().draws)
    tt = asarr(src.t)
    if check_shape('times', tt.shape, (1,)):
        check_eq('initial-time', tt.at(ZERO), t0)
    for k in range(2):
        z = src(Sym(t0, 'f') if how != 'int' else kw['t0'])
        if not check_shape('shape', z.shape, full):
            return
        i = indices(full, 'i')
        check_eq('initial-value', z.at(*i), ze(*i))
        # what is returned is not the memory itself
        z[...] = 77
    check('no-draws', not ctx().draws)
    if how != 'default':
        check('t0', tm(src.t0) is t0)
    reach('end')


for _b in ('true_source', 'true_wiener_source', 'true_poisson_source', 'true_cpoisson_source'):
    for _h in ('default', 'real', 'int', 'array', 'full'):
        if _h in ('array', 'full', 'real') and 'true_poisson' in _b:
            continue
        for _r in RANKS:
            vc('P13', 'initial_%s_%s_%d' % (_b, _h, _r), reach=('end',))(lambda b=_b, r=_r, h=_h: initial(b, r, h))
vc('P13', 'initial_rtol', reach=('end',))(lambda: initial('true_source', 1, 'real', rtol=.001))


@vc('P13', 'times', reach=('end',))
def times():
    src, st, rt, names = make('true_source', 1, None, 'sym')
    tt = asarr(src.t)
    if check_shape('shape', tt.shape, (Sym(st.n, 'i'),)):
        k = index('k', st.n)
        check_eq('stored-times', tt.at(k), st.at(k))
        before = st.at(k)
        a, b = src.t, src.t
        a[0] = 5.
        check_eq('a-copy', asarr(src.t).at(k), before)
        check('float', tt.dtype == snp.dtype(float))
    reach('end')


def adds(kind):
    """increments over adjacent intervals add up, in any order of evaluation"""
    src, st, rt, names = make('true_source', 1, None, 'sym')
    ctx().for_contract = EvalLoop(src, st, None)
    if kind == 's':
        t, a, b = real('t'), real('a'), real('b')
        tsh = ()
    else:
        A = dim('A', 0)
        tsh = (A,)
        t, a, b = [arr(n, tsh) for n in 'tab']
    z3 = src(t + a, b)
    z1 = src(t, a)
    z = src(t, a + b)
    i = indices(tsh + st.full, 'i')
    check_eq('sum', add(z1.at(*i), z3.at(*i)), z.at(*i))
    check_eq('value', add(src(t).at(*i), z.at(*i)), src(t + (a + b)).at(*i))
    back = src(t + a, -a)
    check_eq('back', back.at(*i), neg(z1.at(*i)))
    reach('end')


for _k in 'sv':
    vc('P13', 'increments_add_up_' + _k, reach=('end',))(lambda k=_k: adds(k))


# ------------------------------------------------------------------ indexing

INDICES = {   # index, rank of the values, value at an index of the result, shape of the result
    'first': (lambda: 0, lambda vs: vs[1:], lambda vs, i: (ZERO,) + i),
    'last': (lambda: -1, lambda vs: vs[1:], lambda vs, i: (sub(tm(vs[0]), ONE),) + i),
    'slice': (lambda: slice(1, 3), lambda vs: None, lambda vs, i: (add(i[0], ONE),) + i[1:]),
    'all': (lambda: slice(None), lambda vs: vs, lambda vs, i: i),
    'reversed': (lambda: slice(None, None, -1), lambda vs: vs, lambda vs, i: (sub(sub(tm(vs[0]), ONE), i[0]),) + i[1:]),
    'tuple': (lambda: (0,), lambda vs: vs[1:], lambda vs, i: (ZERO,) + i),
    'second': (lambda: (slice(None), 0), lambda vs: vs[:1] + vs[2:], lambda vs, i: i[:1] + (ZERO,) + i[1:]),
    'both': (lambda: (1, 0), lambda vs: vs[2:], lambda vs, i: (ONE, ZERO) + i),
    'new': (lambda: (None, 0), lambda vs: (1,) + vs[1:], lambda vs, i: (ZERO,) + i[1:]),
}


def indexed(which, r, tk, dk=None):
    src, st, rt, names = make('true_source', r, None, 'sym')
    vs = src.vshape
    for v in vs:
        assume(le(const(3), tm(v)))
    mk, shape, where = INDICES[which]
    ctx().for_contract = EvalLoop(src, st, None)
    wsh = shape(vs)
    if wsh is None:
        wsh = (2,) + vs[1:]
    w = src[mk()]
    check('vshape-rank', len(w.vshape) == len(wsh), note=str(w.vshape))
    check('vshape', and_(*[eq(tm(a), tm(b)) for a, b in zip(w.vshape, wsh)]))
    check('paths', eq(tm(w.paths), tm(src.paths)))
    check('dtype', w.dtype == src.dtype)
    t, tsh, te = request(tk)
    args = (t,)
    if dk is not None:
        d, dsh, de = request(dk, 'd')
        args = (t, d)
        tsh = tuple(snp.bshape(tsh, dsh))
    z = w(*args)
    if not check_shape('shape', z.shape, tsh + tuple(wsh) + (src.paths,)):
        return
    i = indices(tsh + tuple(wsh) + (src.paths,), 'i')
    m = len(tsh)
    ref = src(*args)
    check_eq('component', z.at(*i), ref.at(*i[:m], *where(vs, i[m:])))
    a, b = asarr(w.t), asarr(src.t)
    if check_shape('times-shape', a.shape, b.shape):
        k = index('k', a.shape[0])
        check_eq('times', a.at(k), b.at(k))
    reach('end')


for _w in INDICES:
    for _r in (1, 2, 3):
        if _w in ('second', 'both') and _r < 2 or _r == 3 and _w not in ('first', 'both'):
            continue
        for _t in 'sv':
            vc('P13', 'indexed_%s_%d_%s' % (_w, _r, _t), reach=('end',))(lambda w=_w, r=_r, t=_t: indexed(w, r, t))
            vc('P13', 'indexed_increment_%s_%d_%s' % (_w, _r, _t), reach=('end',))(
                lambda w=_w, r=_r, t=_t: indexed(w, r, t, 's'))
vc('P13', 'indexed_matrix', reach=('end',))(lambda: indexed('second', 2, 'm'))


def beyond_components(r):
    """an index with more entries than the values have axes does not reach the paths"""
    src, st, rt, names = make('true_source', r, None, 'sym')
    for v in src.vshape:
        assume(le(const(3), tm(v)))
    ctx().for_contract = EvalLoop(src, st, None)
    expect_raise('integers', IndexError, lambda: src[(0,)*(r + 1)])
    expect_raise('slices', IndexError, lambda: src[(slice(0, 2),)*(r + 1)])
    expect_raise('mixed', IndexError, lambda: src[(0,)*r + (slice(0, 1),)])
    reach('end')


for _r in (0, 1, 2):
    vc('P13', 'beyond_components_%d' % _r, reach=('end',))(lambda r=_r: beyond_components(r))


def without_memory(name, kw):
    """sources without memory have no stored values or times"""
    vs, P = vdims(1), dim('P', 1)
    P = D(tm(P)*2) if name.startswith(('odd', 'even')) else P
    s = fn(I_, name)(paths=P, vshape=vs, **kw)
    check_eq('size', term(asarr(s.size)), ZERO)
    check_shape('times', asarr(s.t).shape, (0,))
    reach('end')


for _n, _kw in dict(source={}, wiener_source={}, poisson_source={}, cpoisson_source={}, odd_wiener_source={}, even_poisson_source={},
                    even_cpoisson_source={}).items():
    vc('P13', 'without_memory_' + _n, reach=('end',))(lambda n=_n, kw=_kw: without_memory(n, kw))


def at_first(name):
    """the initial value is the only one stored by a new source"""
    vs, P = vdims(1), dim('P', 1)
    s = fn(I_, name)(paths=P, vshape=vs, t0=real('t0'))
    n = mul(tm(vs[0]), tm(P))
    # (jumps and their counts are stored)
    check_eq('size', term(asarr(s.size)), mul(n, const(2)) if 'cpoisson' in name else n)
    t = asarr(s.t)
    if check_shape('times', t.shape, (1,)):
        check_eq('initial-time', t.at(ZERO), var('t0'))
    reach('end')


for _n in ('true_wiener_source', 'true_poisson_source', 'true_cpoisson_source'):
    vc('P13', 'at_first_' + _n, reach=('end',))(lambda n=_n: at_first(n))
