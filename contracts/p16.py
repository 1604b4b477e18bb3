"""P16: path generation."""
from pyvc.api import *
from .common import *

ASSUMPTIONS = ['rank of the paths array: state shapes of rank 0 to 1 plus the paths axis, of any size',
               'hooks begin, next, store are those of an arbitrary subclass: next reaches the requested time, with any '
               'state; numpy.unique, numpy.where, boolean indexing, concatenate: contracts in pyvc/snp.py',
               'loop invariant: contracts/p16.py, Steps']


def pg():
    return fn('integration', 'paths_generator')


def state_at(s, idx):
    return app('state', s, *idx)


def out_at(s, idx):
    return app('out', s, *idx)


def need(env, *names):
    for n in names:
        if n not in env:
            raise Unsupported('_generate_paths has no variable %s: the invariant does not apply' % n)
    return [env[n] for n in names]


def lemma(nm, goal):
    """an obligation, then known on the path"""
    if check(nm, goal):
        ctx().assume(tm(goal))


def merged():
    """the array of time points to be visited, if numpy.unique was used to merge the extra steps and the output times"""
    for u in reversed(ctx().__dict__.get('unique_log', [])):
        parts = getattr(u._arg, '_parts', None)
        if parts and len(parts) == 2:
            return u, parts
    return None, None


def known(*facts):
    """instances of library contracts and of the precondition"""
    for f in facts:
        if f is not TRUE:
            ctx().assume(f)


def place_extra(g, nm, e):
    """position of an extra step, within the range"""
    u, parts = merged()
    log = ctx().__dict__.get('mask_log', [])
    if u is None or not log or log[0][0]((e,)).s != 'B':
        return None
    r, sel, rank, count, ranked, selected = log[0]
    q = rank((e,))
    known(ranked((e,)), u._holds(q))
    inside = and_(le(g.t(ZERO), elt('u', e)), le(elt('u', e), g.t(sub(tm(g.N), ONE))))
    p = u._pos(q)
    lemma(nm + '-place', implies(inside, and_(le(ZERO, p), lt(p, u._len), eq(u.at(p), elt('u', e)))))
    return p


def place(k):
    """position of the k-th output time among the time points to be visited, if numpy.unique was used to merge them"""
    u, parts = merged()
    if u is None:
        return None, None
    q = add(parts[1][0], k)
    known(u._holds(q))
    return u._pos(q), u


def positions(*xs):
    """positions of time points among those to be visited"""
    u, parts = merged()
    if u is None:
        return ()
    for r, sel, rank, count, ranked, selected in ctx().__dict__.get('mask_log', [])[1:]:
        known(selected(ZERO))
    e = u.at(ZERO)
    return tuple(x.a[1] for x in xs if x.op == 'f' and x.a[0] == e.a[0])


def between(u, p, *ms):
    """order of positions"""
    for m in ms:
        known(u._order(p, m), u._order(m, p))


def visited(g, nm, m):
    """time points to be visited are within the range of the timeline"""
    u, parts = merged()
    log = ctx().__dict__.get('mask_log', [])
    if u is None or not log:
        return
    k = u._src(m)
    q = sub(k, parts[1][0])
    end = sub(tm(g.N), ONE)
    known(u._comes(m), log[0][5](k), g.order(ZERO, q), g.order(q, end))
    e = u.at(m)
    lemma(nm, implies(and_(le(ZERO, m), lt(m, u._len)), and_(le(g.t(ZERO), e), le(e, g.t(end)))))


class Steps:
    """invariant of the loop: after st has handed out j time points,
    the last depth - 1 of them are in the working space with the states reached there, i is the number of
    output times up to the last one, and all of those are stored"""

    def __init__(self, g):
        self.g = g

    def view(self, env):
        me, st, tt, xx, sw, xw, reverse, i, S = need(env, 'self', 'st', 'tt', 'xx', 'sw', 'xw', 'reverse', 'i', 'steps_tt')
        if not isinstance(st, loops.SymIter) or not isinstance(xw, snp.objarray) or me is not self.g.me:
            raise Unsupported('variables of _generate_paths: the invariant does not apply')
        return st, tt, xx, sw, xw, reverse, i, S

    def inv(self, env, nm, j, i, cs, ts, c0, s0, i0, head=None):
        g = self.g
        K = g.K
        st, tt, xx, sw, xw, reverse, _, S = self.view(env)
        cmp = (lambda a, b: lt(b, a)) if reverse else lt
        n, N = tm(S.shape[0]), tm(tt.shape[0])
        i = tm(i)
        check(nm + '-position', and_(le(const(K - 1), j), le(j, n)))
        check(nm + '-count', and_(le(ZERO, i), le(i, N)))
        last = S.at(sub(j, ONE))
        for k in range(K - 1):
            check_eq(nm + '-time%d' % k, sw.at(const(k)), S.at(add(j, const(k - K + 1))))
        check_eq(nm + '-current', tm(cs), last)
        check_eq(nm + '-target', tm(ts), last)
        check(nm + '-next-output', implies(lt(i, N), cmp(last, tt.at(i))))
        check(nm + '-last-output', implies(lt(ZERO, i), not_(cmp(last, tt.at(sub(i, ONE))))))
        if sorted(xw.items) != [(k,) for k in range(K)]:
            check(nm + '-space', False, note='working space of a different shape')
            return
        ws = [xw.items[(k,)] for k in range(K)]
        check(nm + '-space', len({id(w._np_buf) for w in ws}) == K)
        for k, w in enumerate(ws):
            if check_shape(nm + '-space%d' % k, w.shape, g.wfull) and k < K - 1:
                idx = indices(g.wfull, nm + '.w%d' % k)
                check_eq(nm + '-state%d' % k, w.at(*idx), state_at(S.at(add(j, const(k - K + 1))), idx))
        ii = index(nm + '.o', tt.shape[0])
        idx = indices(g.xfull, nm + '.x')

        def stored(*cs):
            # (the value is read under the assumption, by which conditionals are decided)
            given(and_(lt(ii, i), *cs), lambda: check_eq(nm + '-stored', xx.at(ii, *idx), out_at(tt.at(ii), idx)))
        if head is None:
            stored()
        else:
            stored(eq(ii, head))
            stored(ne(ii, head))
        if g.getinfo:
            check_eq(nm + '-computed-steps', tm(g.me.info['computed_steps']), add(c0, sub(j, const(K - 1))))
            check_eq(nm + '-stored-steps', tm(g.me.info['stored_steps']), add(s0, sub(i, i0)))

    def enter(self, env):
        g, c = self.g, ctx()
        K = g.K
        st, tt, xx, sw, xw, reverse, i, S = self.view(env)
        cs, ts = need(env, 'current_s', 'target_s')
        nm = 'loop%d' % len(g.passes)
        check(nm + '-path', g.passes[-1] == 'begin')
        inf = g.me.info
        c0, s0, i0 = (tm(inf['computed_steps']), tm(inf['stored_steps']), tm(i)) if g.getinfo else (ZERO, ZERO, tm(i))
        # the sorted union of the timeline and of the extra steps
        self.inv(env, nm + '-start', st.pos, i, cs, ts, c0, s0, i0)
        # an arbitrary iteration
        j, i = c.fresh('j', 'I'), c.fresh('i', 'I')
        n, N = tm(S.shape[0]), tm(tt.shape[0])
        assume(and_(le(const(K - 1), j), le(j, n), le(ZERO, i), le(i, N)))
        cmp = (lambda a, b: lt(b, a)) if reverse else lt
        last = S.at(sub(j, ONE))
        assume(implies(lt(i, N), cmp(last, tt.at(i))))
        assume(implies(lt(ZERO, i), not_(cmp(last, tt.at(sub(i, ONE))))))
        o = sub(g.i0, i) if reverse else add(g.i0, i)
        p, u = place(o)
        if p is not None:
            lemma(nm + '-place', implies(lt(i, N), and_(le(ZERO, p), lt(p, u._len), eq(u.at(p), g.t(o)))))
            m, m0 = S._np_map((j,))[0], S._np_map((sub(j, ONE),))[0]
            if S._np_buf is u._np_buf:
                between(u, p, m, m0)
                lemma(nm + '-ahead', implies(lt(i, N), le(p, m) if reverse else le(m, p)))
                lemma(nm + '-not-beyond', implies(lt(i, N), not_(cmp(tt.at(i), S.at(j)))))
        st.pos = j
        sv = [S.at(add(j, const(k - K + 1))) for k in range(K - 1)] + [app('left over', j)]
        for k in range(K):
            sw[k] = Sym(sv[k], 'f')
        for k in range(K):
            w = xw.items[(k,)]
            w[...] = snp.ndarray._np_make(lambda idx, k=k: state_at(sv[k], idx) if k < K - 1 else app('left over', j, *idx), w.shape, w.dtype)
        i_ = i
        xx[...] = snp.ndarray._np_make(lambda idx: ite(lt(idx[0], i_), out_at(tt.at(idx[0]), idx[1:]), app('unset', *idx)), xx.shape, xx.dtype)
        if g.getinfo:
            inf['computed_steps'] = Sym(add(c0, sub(j, const(K - 1))), 'i')
            inf['stored_steps'] = Sym(add(s0, sub(i, i0)), 'i')
        self.head = (nm, j, i, c0, s0, i0, len(g.log))
        g.me.itervars['i'] = Sym(i, 'i')
        return dict(i=Sym(i, 'i'), current_s=Sym(last, 'f', True), target_s=Sym(last, 'f', True))

    def back(self, env):
        g = self.g
        nm, j, i, c0, s0, i0, n0 = self.head
        st, tt, xx, sw, xw, reverse, i1, S = self.view(env)
        cs, ts = need(env, 'current_s', 'target_s')
        check(nm + '-advances', eq(st.pos, add(j, ONE)))
        check(nm + '-one-step', [x[0] for x in g.log[n0:]].count('next') == 1)
        stores = [x for x in g.log[n0:] if x[0] == 'store']
        check(nm + '-stores', and_(len(stores) <= 1, eq(tm(i1), add(i, const(len(stores))))))
        for x in stores:
            check(nm + '-stored-once', eq(x[1], i))
        self.inv(env, nm + '-again', st.pos, i1, cs, ts, c0, s0, i0, i)


class Gen:
    """an arbitrary generator"""

    def __init__(self, K=2, rank=0, getinfo=True, same=True):
        self.K, self.getinfo = K, getinfo
        self.P = P = dim('P', 1)
        self.xs = tuple(dim('x%d' % k, 1) for k in range(rank))
        self.ws = self.xs if same else tuple(dim('w%d' % k, 1) for k in range(rank))
        self.xfull, self.wfull = self.xs + (P,), self.ws + (P,)
        self.log = []
        self.passes = []
        self.nu = dim('U', 0)
        g = self

        class Any(pg()):
            depth = K

            def pace(self, timeline):
                check('pace-shape', eq(tm(timeline.shape[0]), tm(g.N)))
                k = index('pace.k', g.N)
                check_eq('pace-timeline', timeline.at(k), g.t(k))
                return arr('u', (g.nu,))

            def begin(self):
                super().begin()
                g.begin(self.itervars)

            def next(self):
                super().next()
                g.next(self.itervars)

            def store(self, i, k):
                super().store(i, k)
                g.store(self.itervars, tm(i), k)

            def end(self):
                super().end()
                g.end(self.itervars)

        self.cls = Any

    def make(self, **kw):
        self.me = self.cls(paths=self.P, xshape=self.xs, wshape=self.ws, getinfo=self.getinfo, **kw)
        return self.me

    def order(self, i, j):
        """instance of the precondition on the timeline"""
        return implies(and_(le(ZERO, i), lt(i, j), lt(j, tm(self.N))), lt(self.t(i), self.t(j)))

    def items(self, iv):
        return [iv[k] for k in ('tt', 'xx', 'sw', 'xw', 'reverse')]

    def union(self, nm, s):
        """s is a time point to be visited"""
        inside = lambda u: and_(le(self.t(ZERO), u), le(u, self.t(sub(tm(self.N), ONE))))
        check(nm, or_(reduce_('any', tm(self.N), lambda k: eq(self.t(k), s)),
                      reduce_('any', tm(self.nu), lambda k: and_(eq(elt('u', k), s), inside(elt('u', k))))))

    def gap(self, nm, a, b, ms=()):
        """no time point to be visited is strictly between a and b"""
        q = index(nm + '.t', self.N)
        p, u = place(q)
        if p is not None:
            between(u, p, *ms)
        check(nm + '-output', not_(and_(lt(a, self.t(q)), lt(self.t(q), b))))
        e = ctx().fresh(nm + '.u', 'I')

        def extra():
            u = elt('u', e)
            p = place_extra(self, nm + '-extra', e)
            if p is not None:
                for m in ms:
                    visited(self, nm + '-inside', m)
                between(merged()[0], p, *ms)
            check(nm + '-extra', not_(and_(lt(a, u), lt(u, b))))
        given(and_(le(ZERO, e), lt(e, tm(self.nu))), extra)

    def space(self, nm, iv, k, s=None):
        sw, xw = iv['sw'], iv['xw']
        s = sw.at(const(k)) if s is None else s
        idx = indices(self.wfull, nm)
        w = xw[k]
        if check_shape(nm + '-shape', w.shape, self.wfull):
            check_eq(nm + '-state', w.at(*idx), state_at(s, idx))

    def fill(self, iv, k, s):
        w = iv['xw'][k]
        w[...] = snp.ndarray._np_make(lambda idx: state_at(s, idx), w.shape, w.dtype)

    def begin(self, iv):
        self.passes.append('begin')
        nm = 'begin%d' % len(self.passes)
        tt, xx, sw, xw, reverse = self.items(iv)
        check(nm + '-direction', isinstance(reverse, bool))
        first = self.t(self.i0)
        check_eq(nm + '-initial-time', sw.at(ZERO), first)
        check_eq(nm + '-first-output', tt.at(ZERO), first)
        end = self.t(ZERO if reverse else sub(tm(self.N), ONE))
        check_eq(nm + '-last-output', tt.at(sub(tm(tt.shape[0]), ONE)), end)
        check_eq(nm + '-outputs', tm(tt.shape[0]), add(self.i0, ONE) if reverse else sub(tm(self.N), self.i0))
        k = index(nm + '.k', tt.shape[0])
        pos = sub(self.i0, k) if reverse else add(self.i0, k)
        check_eq(nm + '-timeline', tt.at(k), self.t(pos))
        # the output is that of the object, at the right position
        if check_shape(nm + '-values', xx.shape, (tt.shape[0],) + self.xfull):
            pass
        xx0 = self.xx = getattr(self, 'xx', None) or xx._np_buf
        check(nm + '-same-output', xx._np_buf is xx0)
        m = xx._np_map((k,) + tuple(ZERO for _ in self.xfull))
        check_eq(nm + '-output-position', m[0], pos)
        for q in range(self.K - 1):
            s = sw.at(const(q))
            if q:
                self.union(nm + '-visits%d' % q, s)
                a, b = sw.at(const(q - 1)), s
                a, b = (b, a) if reverse else (a, b)
                check(nm + '-order%d' % q, lt(a, b))
                self.gap(nm + '-gap%d' % q, a, b, positions(a, b))
            self.fill(iv, q, s)

    def next(self, iv):
        nm = 'next%d' % len(self.passes)
        self.log.append(('next',))
        tt, xx, sw, xw, reverse = self.items(iv)
        K = self.K
        a, b = sw.at(const(K - 2)), sw.at(const(K - 1))
        lo, hi = (b, a) if reverse else (a, b)
        check(nm + '-forward', lt(lo, hi))
        self.union(nm + '-visits', b)
        self.gap(nm + '-gap', lo, hi, positions(a, b))
        for k in range(K - 1):
            self.space(nm + '-space%d' % k, iv, k)
        i = tm(iv['i'])
        cmp = (lambda a, b: lt(b, a)) if reverse else lt
        check(nm + '-output-index', and_(le(ZERO, i), lt(i, tm(tt.shape[0]))))
        check(nm + '-output-next', and_(cmp(a, tt.at(i)), implies(lt(ZERO, i), not_(cmp(a, tt.at(sub(i, ONE)))))))
        self.fill(iv, K - 1, b)

    def store(self, iv, i, k):
        nm = 'store%d' % len(self.passes)
        self.log.append(('store', i))
        tt, xx, sw, xw, reverse = self.items(iv)
        k = k % self.K if isinstance(k, int) else int(k) % self.K
        s = sw.at(const(k))
        check(nm + '-index', and_(le(ZERO, i), lt(i, tm(tt.shape[0]))))
        check_eq(nm + '-time', tt.at(i), s)
        self.space(nm + '-space', iv, k, s)
        o = xx[Sym(i, 'i')]
        o[...] = snp.ndarray._np_make(lambda idx: out_at(s, idx), self.xfull, xx.dtype)

    def end(self, iv):
        nm = 'end%d' % len(self.passes)
        tt, xx, sw, xw, reverse = self.items(iv)
        # the last time point is reached
        check_eq(nm + '-time', sw.at(const(self.K - 2)), self.t(ZERO if reverse else sub(tm(self.N), ONE)))
        self.space(nm + '-space', iv, self.K - 2)
        self.passes[-1] = 'end reverse' if reverse else 'end'


def generate(i0, K=2, rank=0, tdtype='float', getinfo=True, same=True):
    g = Gen(K, rank, getinfo, same)
    s = 'I' if 'int' in tdtype else 'R'
    N = g.N = dim('N', 1)
    increasing(N, 't', s)
    g.t = lambda k: elt('t', k, s=s)
    q = None
    if i0 == 'any':
        q = index('i0', N)
        g.i0, a0 = q, Sym(q, 'i')
    elif i0 == 'negative':
        q = index('i0', N)
        g.i0, a0 = q, Sym(sub(q, tm(N)), 'i')
    elif i0 == -1:
        g.i0, a0 = sub(tm(N), ONE), -1
    else:
        i0_ = 0 if i0 == 'default' else i0
        g.i0, a0 = const(i0_), i0_
    if K > 2:
        # enough points on the side of each pass
        assume(le(const(K), tm(N)))
        if i0 == 'any':
            assume(and_(le(const(K - 2), q), le(q, sub(tm(N), const(K - 1)))))
    p = g.make(i0=a0) if i0 != 'default' else g.make()
    inv = Steps(g)
    loops.CONTRACTS['_generate_paths'] = inv
    tt = arr('t', (N,), tdtype)
    try:
        res = p(tt)
    finally:
        loops.CONTRACTS.pop('_generate_paths', None)
    check('returned', isinstance(res, tuple) and len(res) == 2)
    rt, rx = res
    # the timeline is handed back unchanged
    check('type-of-times', rt.dtype.kind == snp.dtype(tdtype).kind)
    k = index('k', N)
    if check_shape('times-shape', rt.shape, (N,)):
        check_eq('times', rt.at(k), elt('t', k, s=s))
    if check_shape('values-shape', rx.shape, (N,) + g.xfull):
        idx = indices(g.xfull, 'y')
        check_eq('values', rx.at(k, *idx), out_at(g.t(k), idx))
    # each direction at most once
    check('passes', sorted(g.passes) == sorted(set(g.passes)) and all(x.startswith('end') for x in g.passes))
    if getinfo:
        check_eq('info-start', tm(p.info['t0']), g.t(g.i0))
        check_eq('info-min', tm(p.info['tmin']), g.t(ZERO))
        check_eq('info-max', tm(p.info['tmax']), g.t(sub(tm(N), ONE)))
    check('clean', not hasattr(p, 'itervars'))
    reach('end')


for _i in (0, -1, 'any', 'negative'):
    vc('P16', 'generate_%s' % _i, reach=('end',))(lambda i=_i: generate(i))

vc('P16', 'generate_default', reach=('end',))(lambda: generate('default'))
vc('P16', 'generate_shape', reach=('end',))(lambda: generate(0, rank=1))
vc('P16', 'generate_shapes', reach=('end',))(lambda: generate(-1, rank=1, same=False))
vc('P16', 'generate_depth3', reach=('end',))(lambda: generate(0, K=3))
vc('P16', 'generate_depth3_last', reach=('end',))(lambda: generate(-1, K=3))
vc('P16', 'generate_depth3_any', reach=('end',), tier='thorough')(lambda: generate('any', K=3))
vc('P16', 'generate_int', reach=('end',))(lambda: generate(-1, tdtype='int64'))
vc('P16', 'generate_uint', reach=('end',))(lambda: generate(0, tdtype='uint64'))
vc('P16', 'generate_noinfo', reach=('end',))(lambda: generate(0, getinfo=False))


# ------------------------------------------------------------- integration steps

def paced(N, **kw):
    p = pg()(paths=dim('P', 1), **kw)
    return p.pace(arr('t', (N,)))


@vc('P16', reach=('end',))
def pace_none():
    """no extra steps"""
    N = dim('N', 1)
    u = paced(N)
    check('vector', len(u.shape) == 1)
    check('number', eq(tm(u.shape[0]), ite(eq(N, ONE), ONE, ZERO)) if not is_sym(u.shape[0]) or True else None)
    reach('end')


@vc('P16', reach=('end',))
def pace_number():
    """equally spaced, end points included"""
    N, M = dim('N', 2), dim('M', 2)
    u = paced(N, steps=M)
    k = index('k', M)
    if check_shape('shape', u.shape, (M,)):
        a, b = elt('t', ZERO), elt('t', sub(tm(N), ONE))
        check_eq('step', u.at(k), add(a, mul(sub(b, a), div(k, sub(tm(M), ONE)))))
    reach('end')


@vc('P16', reach=('end',))
def pace_sequence():
    """the given values"""
    N, M = dim('N', 2), dim('M', 0)
    u = paced(N, steps=arr('u', (M,)))
    k = fv_index('k', M)
    if check_shape('shape', u.shape, (M,)):
        given(and_(le(ZERO, k), lt(k, tm(M))), lambda: check_eq('step', u.at(k), elt('u', k)))
    reach('end')


@vc('P16', reach=('end',))
def pace_list():
    N = dim('N', 2)
    u = paced(N, steps=[real('p'), real('q'), 3])
    if check_shape('shape', u.shape, (3,)):
        for k, v in enumerate((real('p'), real('q'), 3)):
            check_eq('step', u.at(const(k)), tm(v))
    reach('end')


@vc('P16', reach=('end',))
def pace_iterator():
    N = dim('N', 2)
    u = paced(N, steps=iter((real('p'), real('q'))))
    if check_shape('shape', u.shape, (2,)):
        for k, v in enumerate((real('p'), real('q'))):
            check_eq('step', u.at(const(k)), tm(v))
    reach('end')


def fv_index(name, n):
    return ctx().fresh(name, 'I')


# ------------------------------------------------------------- rejected requests

def rejected(nm, exc, timeline, **kw):
    depth = kw.pop('depth', 2)
    C = type('G', (pg(),), dict(depth=depth))
    p = C(paths=dim('P', 1), **kw)
    expect_raise(nm, exc, p, timeline)


@vc('P16', reach=('end',))
def not_increasing():
    N = dim('N', 2)
    w = index('w', N)
    assume(lt(add(w, ONE), tm(N)))
    assume(le(elt('t', add(w, ONE)), elt('t', w)))
    rejected('not-increasing', ValueError, arr('t', (N,)))
    reach('end')


@vc('P16', reach=('end',))
def not_a_vector():
    N, M = dim('N', 1), dim('M', 1)
    rejected('matrix', ValueError, arr('t', (N, M)))
    rejected('scalar', ValueError, real('t'))
    reach('end')


@vc('P16', reach=('end',))
def initial_index():
    N = dim('N', 1)
    increasing(N)
    k = var('k', 'I')
    assume(or_(le(tm(N), k), lt(k, neg(tm(N)))))
    t = arr('t', (N,))
    rejected('out-of-range', IndexError, t, i0=Sym(k, 'i'))
    rejected('slice', IndexError, t, i0=slice(0, 1))
    rejected('list', IndexError, t, i0=[0])
    rejected('none', IndexError, t, i0=None)
    reach('end')


@vc('P16', reach=('end',))
def depth():
    N = dim('N', 1)
    increasing(N)
    rejected('depth', ValueError, arr('t', (N,)), depth=1)
    increasing(2, 's')
    rejected('few-steps', ValueError, arr('s', (2,)), depth=4)
    reach('end')


# ------------------------------------------------------------- calls one after the other

def repeated(n1, n2, i0, rank=1, edit=False):
    """a call depends on no former one, and results handed back before are left alone"""
    P, vs = dim('P', 1), vdims(rank)
    full = vs + (P,)
    count = [0]

    class G(pg()):
        def begin(self):
            super().begin()
            self.itervars['xw'][0][...] = arr('start%d' % count[0], full)

        def next(self):
            super().next()
            self.itervars['xw'][1][...] = self.itervars['xw'][0] + arr('c%d' % count[0], full)*(self.itervars['sw'][1] - self.itervars['sw'][0])

        def store(self, i, k):
            super().store(i, k)
            self.itervars['xx'][i, ...] = self.itervars['xw'][k]
    g = G(paths=P, xshape=vs, wshape=vs, i0=i0, dtype=float)
    out = []
    lines = snp.array([0.5, 1., 2.5][:n1]), snp.array([0.5, 2., 3.][:n2])
    for line in lines:
        out.append(g(line))
        if edit and not count[0]:
            out[0][1][...] = arr('edited', (n1,) + full)
            out[0][0][...] = 0.
        count[0] += 1
    y = indices(full, 'y')
    for c, ((tt, xx), n, nm) in enumerate(zip(out, (n1, n2), ((0.5, 1., 2.5), (0.5, 2., 3.)))):
        for k in range(n):
            t, t0 = const(nm[k]), const(nm[range(n)[i0]])
            want = add(elt('start%d' % c, *y), mul(elt('c%d' % c, *y), sub(t, t0)))
            if edit and c == 0:
                t, want = ZERO, elt('edited', const(k), *y)
            check_eq('values-%d' % c, xx.at(const(k), *y), want)
            check_eq('times-%d' % c, tt.at(const(k)), t)
    reach('end')


for _a, _b in ((1, 1), (2, 2), (2, 1), (1, 2), (3, 3), (2, 3)):
    for _i in (0, -1):
        vc('P16', 'repeated_%d_%d_%s' % (_a, _b, _i), reach=('end',))(lambda a=_a, b=_b, i=_i: repeated(a, b, i))
    vc('P16', 'edited_%d_%d' % (_a, _b), reach=('end',))(lambda a=_a, b=_b: repeated(a, b, 0, 0, True))
vc('P16', 'repeated_middle', reach=('end',))(lambda: repeated(3, 3, 1))
