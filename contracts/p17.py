"""P17: the Euler step."""
from pyvc.api import *
from .common import *
from .steps import *

ASSUMPTIONS = [RANK_NOTE, HOOK_NOTE, 'coefficients and sources are arbitrary arrays, fresh at each call; sets of source names '
               'are enumerated']

IDS = [('dt', 'dw'), ('dw', 'dt', 'dj', 'dn'), ('zz', 'b1', 'Ba', 'aa'), ('dw',), ('dt',), ('dn', 'dt')]


def euler(ids, rank, returned, dtype=float, getinfo=True, reverse=False, before=None):
    """returned: names of the sources with a coefficient, in the order in which they are returned (before: those returned at
    the step before, if any)"""
    vs, P = vdims(rank), dim('P', 1)
    full = vs + (P,)
    log, calls = [], []
    co = {}
    for n, id in enumerate(returned):
        sh = shapes_like(full)
        co[id] = coefficient('c_' + id, sh[(n + len(ids)) % len(sh)], full)
    old = {id: coefficient('old_' + id, full, full) for id in before or ()}

    def sde(self, t, x):
        k = indices(full, 'seen')
        calls.append((tm(t), x.at(*k) if check_shape('state-shape', x.shape, full) else ZERO, k))
        return {id: now[id][0] for id in now}
    cls = with_sources(ids, sde=sde, made={id: Source(id, P, vs, log, dtype) for id in ids if id != 'dt'})
    p = cls(paths=P, vshape=vs, dtype=dtype, getinfo=getinfo)
    first = None
    if before is not None:
        now = old
        first = Step(p, dtype=dtype, reverse=reverse, first=True, prefix='before_')
        first.next()
        del log[:], calls[:]
    now = co
    st = Step(p, dtype=dtype, reverse=reverse, after=first)
    st.next()
    # coefficients: once, at the current time and state
    check('coefficients-once', len(calls) == 1)
    check_eq('coefficients-time', calls[0][0], st.s)
    check_eq('coefficients-state', calls[0][1], st.x(*calls[0][2]))
    # sources: once each, in order, whether or not they have a coefficient
    want = sorted(id for id in ids if id != 'dt')
    check('sources-once', [x[0] for x in log] == want, note=str([x[0] for x in log]))
    for id, t, dt in log:
        check_eq('source-time', t, st.s)
        check_eq('source-increment', dt, st.ds)
    k = indices(full, 'k')
    inc = lambda id: st.ds if id == 'dt' else celt('src_%s0' % id, *k) if dtype is complex else increment(id, *k)
    check_eq('new-state', st.new(*k), add(st.x(*k), *[mul(co[id][1](*k), inc(id)) for id in returned]))
    # the coefficients (which may be parameters of the equation) are not written to
    for id in returned:
        c = co[id][0]
        j = indices(c.shape, 'c')
        check_eq('coefficient-kept', c.at(*j), elt('c_' + id, *j))
    reach('end')


for _n, _ids in enumerate(IDS):
    _some = tuple(reversed(_ids))
    for _r in (0, 1, 2):
        vc('P17', 'euler_%s_%d' % ('_'.join(_ids), _r), reach=('end',))(lambda i=_ids, r=_r, s=_some: euler(i, r, s))
    vc('P17', 'reverse_%s' % '_'.join(_ids), reach=('end',))(lambda i=_ids, s=_some: euler(i, 1, s, reverse=True))
    vc('P17', 'noinfo_%s' % '_'.join(_ids), reach=('end',))(lambda i=_ids, s=_some: euler(i, 1, s, getinfo=False))
    vc('P17', 'complex_%s' % '_'.join(_ids), reach=('end',))(lambda i=_ids, s=_some: euler(i, 1, s, dtype=complex))
    # all the choices of sources without a coefficient
    for _m in range(2**len(_ids) - 1):
        _s = tuple(x for q, x in enumerate(_ids) if _m >> q & 1)
        vc('P17', 'missing_%s_from_%s' % ('_'.join(_s) or 'all', '_'.join(_ids)), reach=('end',))(
            lambda i=_ids, s=_s: euler(i, 1, s))
        vc('P17', '%s_then_all_of_%s' % ('_'.join(_s) or 'none', '_'.join(_ids)), reach=('end',))(
            lambda i=_ids, s=_s: euler(i, 1, i, before=s))
        vc('P17', 'all_then_%s_of_%s' % ('_'.join(_s) or 'none', '_'.join(_ids)), reach=('end',))(
            lambda i=_ids, s=_s: euler(i, 1, s, before=i, getinfo=len(s) % 2 == 0))


def refuse(nm, exc, A, system=None):
    P, V = dim('P', 1), dim('V', 1)

    class K(integ('SDE'), integ('integrator')):
        def sde(self, t, x):
            return A
    log = []
    p = K(paths=P, vshape=(V,), dw=Source('dw', P, (V,), log))
    st = Step(p)
    expect_raise(nm, exc, p.next)


@vc('P17', reach=('end',))
def unknown_source():
    refuse('unknown', KeyError, {'dt': 1., 'dq': 1.})
    refuse('undeclared', KeyError, {'dt': 1., 'dn': 1.})
    refuse('only-unknown', KeyError, {'dj': 0})
    reach('end')


@vc('P17', reach=('end',))
def not_a_mapping():
    for n, A in enumerate(([{'dt': 1.}], None, ({'dt': 1.},), 1., arr('a', (2,)), 'dt')):
        refuse('mapping%d' % n, TypeError, A)
    reach('end')


@vc('P17', reach=('end',))
def built_in_sources():
    """the default sources: the increments of the time and of the objects built for the other names"""
    P, V = dim('P', 1), dim('V', 1)
    made = []
    c = {id: coefficient('c_' + id, (V, P), (V, P)) for id in ('dt', 'dw', 'dn', 'dj')}

    class K(integ('SDE'), integ('integrator')):
        sources = {'dt', 'dw', 'dn', 'dj'}

        def sde(self, t, x):
            return {id: c[id][0] for id in c}
    log = []
    S = {id: Source(id, P, (V,), log) for id in ('dw', 'dn', 'dj')}
    p = K(paths=P, vshape=(V,), **S)
    check('given', all(p.sources[id] is S[id] for id in S))
    st = Step(p)
    st.next()
    check('order', [x[0] for x in log] == ['dj', 'dn', 'dw'])
    k = indices((V, P), 'k')
    check_eq('new-state', st.new(*k), add(st.x(*k), mul(c['dt'][1](*k), st.ds), *[mul(c[id][1](*k), increment(id, *k)) for id in S]))
    reach('end')
