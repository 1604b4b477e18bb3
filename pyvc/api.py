"""What contract modules use."""
from fractions import Fraction as Fr
import sys
import time
from . import terms as t_
from .terms import (T, const, tm, var, app, add, sub, mul, div, power, neg, eq, lt, le, ne, and_, or_, not_, ite, fv,
                    subst, ZERO, ONE, TRUE, FALSE, NAN, INF, J, PI, isc, cval, show, implies, reduce_, tsum, diff,
                    fexp, flog, fsqrt, tabs, tmax, tmin, tsign, fcos, fsin, fre, fim)
from .engine import (Engine, Ctx, Sym, Unsupported, PathEnd, ContractError, ctx, check, check_eq, reach, assume, given, D, dim,
                     real, integer, is_sym, raised, internal_error)
from . import loader, snp, srandom, sscipy, loops
from .prove import STATS


def _tmd(f):
    return lambda *a: f(*[tm(x) for x in a])


add, sub, mul, div, power, neg, eq, lt, le, ne, and_, or_, not_, ite, implies = [
    _tmd(f) for f in (add, sub, mul, div, power, neg, eq, lt, le, ne, and_, or_, not_, ite, implies)]

VCS = {}
_touched = set()


class VC:
    def __init__(self, prop, name, f, pos, budget, timeout, bounded, max_paths, reach, tier='quick'):
        self.prop, self.name, self.f = prop, name, f
        self.pos, self.budget, self.timeout, self.bounded, self.max_paths = pos, budget, timeout, bounded, max_paths
        self.reach = reach
        self.tier = tier


def vc(prop, name=None, pos=(), budget=200, timeout=8000, bounded=None, max_paths=600, reach=(), tier='quick'):
    """register a verification condition generator; bounded: text of the bound, if
    the obligations hold for bounded sizes only (then not counted as proved)"""
    def deco(f):
        n = name or f.__name__
        VCS.setdefault(prop, []).append(VC(prop, n, f, pos, budget, timeout, bounded, max_paths, reach, tier))
        return f
    return deco


def mod(name):
    return loader.world().load('sdepy.' + name)


def fn(m, f):
    return getattr(mod(m), f)


def _profile(frame, event, arg):
    if event == 'call':
        co = frame.f_code
        if '/sdepy/' in co.co_filename and co.co_filename.startswith(loader.REPO):
            _touched.add((co.co_filename[len(loader.REPO)+1:], co.co_qualname))


def run_vc(v):
    """-> dict with the outcome of all obligations of one VC"""
    t0 = time.time()
    _touched.clear()
    pos = [var(p, 'R') if isinstance(p, str) else p for p in v.pos]
    eng = Engine('%s.%s' % (v.prop, v.name), pos=pos, max_paths=v.max_paths, timeout=v.timeout, budget=v.budget)
    status, info = 'ok', ''
    st0 = {k: list(x) for k, x in STATS.items()}
    sys.setrecursionlimit(20000)
    try:
        loader.world()
        for m in ('infrastructure', 'integration', 'analytical', 'kfun'):
            mod(m)
        sys.setprofile(_profile)
        eng.explore(v.f)
    except Unsupported as e:
        status, info = 'unsupported', str(e)
    except ContractError as e:
        status, info = 'unsupported', 'contract error: %s' % e
    except SyntaxError as e:
        status, info = 'unsupported', 'syntax: %s' % e
    except Exception as e:
        import traceback
        status, info = 'unsupported', 'verifier error: ' + traceback.format_exc()[-1500:]
    finally:
        sys.setprofile(None)
        Ctx.cur = None
    obs = eng.obligations
    failed = [o.to_dict() for o in obs if not o.ok]
    if status == 'ok' and failed and all(f['status'] in ('undecided', 'unknown') for f in failed):
        status, info = 'undecided', 'not discharged: %s' % [f['name'] for f in failed]
    elif status == 'ok' and failed:
        status = 'failed'
    elif status == 'unsupported' and failed and any(o['status'] not in ('undecided', 'unknown') and 'no-exception' not in o['name'] for o in failed):
        status = 'failed'
    missing = [r for r in v.reach if r not in eng.reached]
    if status == 'ok' and (missing or not obs):
        status, info = 'unsupported', 'vacuous: points not reached: %s' % missing
    by = {}
    for o in obs:
        if o.ok:
            by[o.result.backend or 'trivial'] = by.get(o.result.backend or 'trivial', 0) + 1
    return dict(vc=v.name, prop=v.prop, status=status, info=info[-2500:], obligations=len(obs),
                discharged=sum(1 for o in obs if o.ok), failed=failed[:6], paths=eng.paths, bounded=v.bounded,
                names=sorted({o.name for o in obs}), backends=by,
                solver={k: [x[0] - st0[k][0], round(x[1] - st0[k][1], 3)] for k, x in STATS.items()},
                functions=sorted('%s:%s' % f for f in _touched), wall=round(time.time() - t0, 2))


# ----------------------------------------------------------------- conveniences

def arr(name, shape, dtype=float):
    """array of arbitrary elements"""
    dt = snp.dtype(dtype)
    s = {'b': 'B', 'i': 'I', 'u': 'I'}.get(dt.kind, 'R')
    if dt.kind == 'c':
        return snp.ndarray._np_make(lambda idx: celt(name, *idx), tuple(shape), dt)
    return snp.ndarray._np_make(lambda idx: app('a:' + name, *idx, s=s), tuple(shape), dt)


def celt(name, *idx):
    """entry of an array of complex numbers"""
    return add(elt(name, *idx), mul(J, elt(name + '.im', *idx)))


def elt(name, *idx, s='R'):
    return app('a:' + name, *[tm(i) for i in idx], s=s)


def index(name, n):
    """arbitrary index 0 <= i < n"""
    v = var(name, 'I')
    ctx().assume(and_(le(ZERO, v), lt(v, tm(n))), check=True)
    return v


def term(x):
    if isinstance(x, snp.ndarray):
        if x.shape == ():
            return x.at()
        raise Unsupported('scalar expected, array found')
    return tm(x)


def resolve(t, c=None):
    """simplify conditionals decided by the path condition"""
    c = c or ctx()
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'ite':
            cond = go(x.a[0])
            if not fv_bound(cond) and c.known(cond):
                r = go(x.a[1])
            elif not fv_bound(cond) and c.known(not_(cond)):
                r = go(x.a[2])
            else:
                r = ite(cond, go(x.a[1]), go(x.a[2]))
        elif x.op in ('c', 'v', 'red'):
            r = x
        else:
            r = t_.rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def fv_bound(t):
    return any(v.op == 'v' and str(v.a[0]).startswith('%b') for v in fv(t))


def own(e):
    """exceptions raised by the verifier's library model itself are no outcome of the code"""
    import traceback
    tb = traceback.format_exc()
    if internal_error(e, tb):
        raise Unsupported('%s: %s\n%s' % (type(e).__name__, e, tb[-1200:]))


def expect_raise(name, exc, f, *a, **k):
    """obligation: the call raises exc (on every path)"""
    try:
        f(*a, **k)
    except exc as e:
        own(e)
        check(name, True)
        return e
    except Exception as e:
        own(e)
        check(name, False, note='raised %s: %s instead' % (type(e).__name__, e))
        return e
    check(name, False, note='no exception')


def check_shape(name, shape, expected):
    if len(shape) != len(expected):
        check(name, False, note='shape %s, expected %s' % (shape, expected))
        return False
    check(name, and_(*[eq(tm(a), tm(b)) for a, b in zip(shape, expected)]))
    return True


def asarr(x):
    return snp.asarray(x)


def elementwise(name, f, args, kwargs, pats, domain=None):
    """the result on arrays has, at each entry, the value of the result on scalars;
    args, kwargs: names; pats: pattern per name, '' scalar, 'i' shape (N,), 'j' shape (M, 1)"""
    N, M = dim('N', 1), dim('M', 1)
    i, j = index('i', N), index('j', M)

    def mk(n):
        p = pats.get(n, '')
        if p == '':
            return real(n), real(n)
        if p == 'i':
            return arr(n, (N,)), Sym(elt(n, i), 'f')
        if p == 'j':
            return arr(n, (M, 1)), Sym(elt(n, j, ZERO), 'f')
        if p == 'ij':
            return arr(n, (M, N)), Sym(elt(n, j, i), 'f')
    vals = {n: mk(n) for n in list(args) + list(kwargs)}
    if domain:
        domain({n: v[1] for n, v in vals.items()})
    ra = f(*[vals[n][0] for n in args], **{n: vals[n][0] for n in kwargs})
    rs = f(*[vals[n][1] for n in args], **{n: vals[n][1] for n in kwargs})
    if not isinstance(ra, tuple):
        ra, rs = (ra,), (rs,)
    ps = [pats.get(n, '') for n in list(args) + list(kwargs)]
    hi, hj = any('i' in p for p in ps), any('j' in p for p in ps)
    shape = ((M,) if hj else ()) + ((N,) if hi else (1,) if hj else ())
    for q, (a, s) in enumerate(zip(ra, rs)):
        a = asarr(a)
        if check_shape('%s-shape' % name, a.shape, shape):
            idx = ((j,) if hj else ()) + ((i,) if hi else (ZERO,) if hj else ())
            check_eq('%s-entry' % name, a.at(*idx), term(s))
    # arguments are left as they were
    for n, v in vals.items():
        if pats.get(n, ''):
            k = [index('kept%d' % q, d) for q, d in enumerate(v[0].shape)]
            check_eq('%s-kept-%s' % (name, n), v[0].at(*k), elt(n, *k))
    reach(name)
