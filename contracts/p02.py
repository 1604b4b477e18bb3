"""P02: indexing of processes."""
from pyvc.api import *
from .common import *

ASSUMPTIONS = [RANK_NOTE, 'index kinds covered: integers (python and numpy), slices with symbolic ends and steps in '
               '{none, 1, 2, -1, -2}, boolean and integer arrays, ellipsis, new axes, tuples of these in value mode']


def setup(r, cls=None):
    sub_ = type('subprocess', (process(),), {})
    return mkproc(rank=r, cls=cls or sub_), cls or sub_


def plain(p):
    return arr('x', p.shape), arr('t', (p.shape[0],))


def same(nm, q, ref, tref, cls):
    """q is a process with the values of the array ref and timeline tref"""
    check_process(nm, q, ref.shape, lambda *i: ref.at(*i), lambda i: tref.at(i), cls=cls)


def ints(N, name='k'):
    k = var(name, 'I')
    ctx().assume(and_(le(-tm(N), k), lt(k, tm(N))))
    return k, ite(le(ZERO, k), k, k + tm(N))


def slices(nm):
    a, b = integer(nm + 'a'), integer(nm + 'b')
    for start in (None, a):
        for stop in (None, b):
            for step in (None, 1, 2, -1, -2):
                yield slice(start, stop, step)


for _r in RANKS:
    for _npy in (False, True):
        def _tint(r=_r, npy=_npy):
            p, cls = setup(r)
            k, e = ints(p.shape[0])
            q = p['t', Sym(k, 'i', npy, snp.dtype(int) if npy else None)]
            check_process('t-int', q, (1,) + p.shape[1:], lambda *i: elt('x', e, *i[1:]), lambda i: tel(e), cls=cls)
            reach('t-int')
        vc('P02', 'time_int_%d%s' % (_r, 'n' if _npy else ''), reach=('t-int',))(_tint)

        def _pint(r=_r, npy=_npy):
            p, cls = setup(r)
            k, e = ints(p.shape[-1])
            q = p['p', Sym(k, 'i', npy, snp.dtype(int) if npy else None)]
            check_process('p-int', q, p.shape[:-1] + (1,), lambda *i: elt('x', *i[:-1], e), tel, cls=cls)
            reach('p-int')
        vc('P02', 'path_int_%d%s' % (_r, 'n' if _npy else ''), reach=('p-int',))(_pint)

    def _concrete(r=_r):
        N, P = dim('N', 5), dim('P', 5)
        p, cls = setup(r)
        p = mkproc(rank=r, N=N, P=P, cls=cls)
        for k in (0, 1, 3, -1, -2, -5):
            e = const(k) if k >= 0 else tm(N) + const(k)
            check_process('t', p['t', k], (1,) + p.shape[1:], lambda *i: elt('x', e, *i[1:]), lambda i: tel(e), cls=cls)
            e = const(k) if k >= 0 else tm(P) + const(k)
            check_process('p', p['p', k], p.shape[:-1] + (1,), lambda *i: elt('x', *i[:-1], e), tel, cls=cls)
        reach('end')
    vc('P02', 'concrete_ints_%d' % _r, reach=('end',))(_concrete)

    def _slices(r=_r, mode='t', part=0):
        for n, s in enumerate(slices('s')):
            if n % 4 != part:
                continue
            # each slice on its own paths
            if ctx().choose():
                continue
            p, cls = setup(r)
            x, t = plain(p)
            if mode == 't':
                if not ctx().decide(lt(ZERO, tm(t[s].shape[0]))):
                    # a process has at least one time point
                    expect_raise('empty', ValueError, lambda: p['t', s])
                    return
                same('t-slice', p['t', s], x[s], t[s], cls)
            elif mode == 'p':
                same('p-slice', p['p', s], x[..., s], t, cls)
            else:
                same('v-slice', p['v', s], x[:, s], t, cls)
            reach('slice')
            return
    for _m in ('t', 'p') + (('v',) if _r else ()):
        for _k in range(4):
            vc('P02', '%s_slices_%d_%d' % (_m, _r, _k), reach=('slice',), max_paths=3000)(
                lambda r=_r, m=_m, k=_k: _slices(r, m, k))

    def _masks(r=_r):
        p, cls = setup(r)
        x, t = plain(p)
        N, P = p.shape[0], p.shape[-1]
        m = arr('m', (N,), bool)
        if ctx().decide(lt(ZERO, tm(t[m].shape[0]))):
            q = p['t', m]
            same('t-mask', q, x[m], t[m], cls)
            reach('t-mask')
        m = arr('mp', (P,), bool)
        same('p-mask', p['p', m], x[..., m], t, cls)
        if r:
            m = arr('mv', (p.shape[1],), bool)
            same('v-mask', p['v', m], x[:, m], t, cls)
        reach('mask')
    vc('P02', 'masks_%d' % _r, reach=('mask', 't-mask'))(_masks)

    def _arrays(r=_r):
        p, cls = setup(r)
        x, t = plain(p)
        N, P = p.shape[0], p.shape[-1]
        K = dim('K', 1)
        j = index('j', K)

        def inside(name, n):
            a = arr(name, (K,), int)
            b = var('%b0', 'I')
            ctx().assume(reduce_('all', tm(K), lambda k: and_(le(-tm(n), a.at(k)), lt(a.at(k), tm(n)))))
            return a, lambda k, n=n: ite(lt(a.at(k), ZERO), a.at(k) + tm(n), a.at(k))
        a, pos = inside('a', N)
        q = p['t', a]
        check_process('t-array', q, (K,) + p.shape[1:], lambda *i: elt('x', pos(i[0]), *i[1:]),
                      lambda i: tel(pos(i)), cls=cls)
        a2, pos2 = inside('b', P)
        q = p['p', a2]
        check_process('p-array', q, p.shape[:-1] + (K,), lambda *i: elt('x', *i[:-1], pos2(i[-1])), tel, cls=cls)
        if r:
            a3, pos3 = inside('c', p.shape[1])
            q = p['v', a3]
            check_process('v-array', q, (N, K) + p.shape[2:], lambda *i: elt('x', i[0], pos3(i[1]), *i[2:]), tel, cls=cls)
        reach('end')
    vc('P02', 'arrays_%d' % _r, reach=('end',))(_arrays)

    def _whole(r=_r):
        p, cls = setup(r)
        x, t = plain(p)
        for q in (p['t'], p['p'], p['t', :], p['p', :], p['v'], p['v', ...], p['t', ...], p['p', ()], p['v', ()]):
            same('whole', q, x, t, cls)
        reach('end')
    vc('P02', 'whole_%d' % _r, reach=('end',))(_whole)

    def _bare(r=_r):
        p, cls = setup(r)
        x, t = plain(p)
        A = snp.ndarray

        def eqarr(nm, a, b):
            if not isinstance(b, A):
                check(nm + '-scalar', not isinstance(a, A))
                check_eq(nm, term(a), term(b))
                return
            check(nm + '-type', type(a) is A, note=str(type(a)))
            if check_shape(nm + '-shape', a.shape, b.shape):
                i = indices(b.shape, nm)
                check_eq(nm, a.at(*i), b.at(*i))
        k, e = ints(p.shape[0])
        sk = Sym(k, 'i')
        for n, key in enumerate((sk, slice(None), Ellipsis, (), None, (sk, Ellipsis), (Ellipsis, None), (sk,)*1,
                                 (slice(None), Ellipsis), (slice(1, None),), slice(None, -1))):
            eqarr('bare%d' % n, p[key], x[key])
        full = (sk,) + tuple(Sym(index('z%d' % d, n), 'i') for d, n in enumerate(p.shape[1:]))
        eqarr('element', p[full], x[full])
        m = arr('m', (p.shape[0],), bool)
        eqarr('mask', p[m], x[m])
        reach('end')
    vc('P02', 'bare_%d' % _r, reach=('end',), max_paths=2000)(_bare)

    def _unknown(r=_r):
        p, cls = setup(r)
        for key in ('x', 's', 'time', '', 'T', 'tp'):
            expect_raise('mode', IndexError, lambda: p[key])
            expect_raise('mode2', IndexError, lambda: p[key, 0])
            expect_raise('mode3', IndexError, lambda: p[key, 1:])
        reach('end')
    vc('P02', 'unknown_mode_%d' % _r, reach=('end',))(_unknown)

for _r in (1, 2, 3):
    def _value(r=_r):
        p, cls = setup(r)
        x, t = plain(p)
        k0, e0 = ints(p.shape[1], 'k0')
        s0 = Sym(k0, 'i')
        a = integer('a')
        keys = [(s0,), (slice(None),), (Ellipsis,), (None,), (s0, Ellipsis), (Ellipsis, None)]
        if r >= 2:
            k1, e1 = ints(p.shape[2], 'k1')
            s1 = Sym(k1, 'i')
            keys += [(s0, s1), (slice(None), s1), (slice(1, None), s1), (s0, slice(None, None, -1)),
                     (slice(None), None, s1)]
            if r == 2:
                keys += [(Ellipsis, s1)]
        for n, key in enumerate(keys):
            ref = x[(slice(None),) + key + (slice(None),)]
            same('v%d' % n, p[('v',) + key], ref, t, cls)
            if len(key) > 1 or not isinstance(key[0], tuple):
                same('vt%d' % n, p['v', key], ref, t, cls)
        # explicit entries, for the plainest cases
        q = p['v', s0]
        check_process('value-int', q, p.shape[:1] + p.shape[2:], lambda *i: elt('x', i[0], e0, *i[1:]), tel, cls=cls)
        reach('end')
    vc('P02', 'value_%d' % _r, reach=('end',), max_paths=2000)(_value)
