"""Laws of terms built on fresh draws.

A draw name(i, ...) of the contracts on random generators (pyvc/srandom.py) is an
independent variable for each name and index; vectors of multivariate normals are
correlated along their last index.  The law of a term is decided from its form:

gaussian: the term is affine in normal draws, with coefficients free of draws;
mean and covariance of any two entries are those required, which settles the
joint law, independence included (jointly Gaussian entries, null covariance)."""
from pyvc.api import *
from .common import *


def draws_of(v):
    """draw applications in a term"""
    laws = getattr(ctx(), 'laws', {})
    return sorted({u for u in t_.walk(v) if u.op == 'f' and u.a[0] in laws}, key=lambda u: u.id)


def law(d):
    return ctx().laws[d.a[0]]


def bound_draws(v):
    """draws below a reduction, indexed by its bound variable"""
    for u in t_.walk(v):
        if u.op == 'red':
            for d in draws_of(u):
                if u.a[3] in t_.fv(d):
                    return True
    return False


def affine(nm, v, kinds=('normal', 'mvnormal')):
    """[(coefficient, draw)], constant: v is affine in draws of the given kinds"""
    v = resolve(v)
    ds = draws_of(v)
    if bound_draws(v):
        raise Unsupported('%s: a sum of an unknown number of draws' % nm)
    for d in ds:
        if law(d).kind not in kinds:
            check(nm + '-kind', False, note='a draw of kind %s' % law(d).kind)
            raise PathEnd()
    zero = {d: ZERO for d in ds}
    k = subst(v, zero)
    terms = []
    for d in ds:
        c = subst(v, dict(zero, **{})) if False else sub(subst(v, {**zero, d: ONE}), k)
        terms.append((c, d))
    check_eq(nm + '-affine', v, add(k, *[mul(c, d) for c, d in terms]))
    return terms, k


def cov2(a, b):
    """covariance of two draws"""
    if a.a[0] != b.a[0]:
        return ZERO
    A, B = a.a[1:], b.a[1:]
    l = law(a)
    if l.kind == 'normal':
        return ite(and_(*[eq(x, y) for x, y in zip(A, B)]), ONE, ZERO)
    n = len(l.loopvars)
    cov = l.cov((A[-1], B[-1]))
    if n:
        cov = subst(cov, dict(zip(l.loopvars, A[:n])))
    return ite(and_(*[eq(x, y) for x, y in zip(A[:-1], B[:-1])]), cov, ZERO)


def with_nulls(a, b, nulls, subs=({},)):
    """b, plus a combination of terms known to be null, the one making it identical to a if there is any
    (subs: values to be considered for indices)"""
    from pyvc.prove import Prover
    import itertools
    c = ctx()
    pr = Prover(c.eng.pos, 1000, c.axioms, c)

    def cases(ts, pc):
        """the terms in each of the cases of the conditions therein"""
        cs = [x for t in ts for x in pr.ites(t)]
        if not cs:
            return [ts]
        out = []
        for v in (True, False):
            l = cs[-1] if v else not_(cs[-1])
            if not pr.entails(not_(l), pc):
                out += cases([pr.assume(t, cs[-1], v) for t in ts], pc + [l])
        return out
    todo = [t for m in subs for t in cases([resolve(subst(t, m)) for t in [sub(a, b)] + nulls], list(c.pc))]
    combos = list(itertools.product((0, 1, -1), repeat=len(nulls)))
    for cs in sorted(combos, key=lambda cs: sum(map(abs, cs))):
        try:
            if all(pr.ring.iszero(sub(t[0], add(ZERO, *[mul(const(k), n) for k, n in zip(cs, t[1:]) if k]))) for t in todo):
                return add(b, *[mul(const(k), n) for k, n in zip(cs, nulls) if k])
        except ZeroDivisionError:
            pass
    return b


def gaussian(nm, value, shape, mean, cov, fresh=None, nulls=None):
    """the entries of an array are jointly gaussian, with this mean(*i) and cov(i, j)"""
    i, j = indices(shape, nm + '.i'), indices(shape, nm + '.j')
    ti, k = affine(nm, value(*i))
    tj, _ = affine(nm, value(*j))
    k, m = resolve(k), mean(*i)
    if nulls:
        m = with_nulls(k, m, nulls[0](*i), nulls[2](i))
    check_eq(nm + '-mean', k, m)
    c = add(*[mul(a, b, cov2(d, e)) for a, d in ti for b, e in tj]) if ti and tj else ZERO
    v = cov(i, j)
    if nulls:
        v = with_nulls(c, v, nulls[1](i, j), nulls[2](i, j))
    check_eq(nm + '-covariance', c, v)
    names = {d.a[0] for _, d in ti}
    if fresh is not None:
        check(nm + '-fresh', not (names & set(fresh)), note='draws used before')
    return names


def same_index(i, j):
    return and_(*[eq(a, b) for a, b in zip(i, j)])


def mark():
    """draws so far"""
    return set(getattr(ctx(), 'laws', {}))


def scaled_count(nm, value, shape, kind, factor, param, fresh=None):
    """every entry is a factor times a fresh draw of its own, with parameters param(i)"""
    i, j = indices(shape, nm + '.i'), indices(shape, nm + '.j')
    out = []
    for k in (i, j):
        v = resolve(value(*k))
        ds = draws_of(v)
        if len(ds) != 1:
            # (a null factor may hide the draw)
            check(nm + '-one-draw', len(ds) == 1, note='%d draws' % len(ds))
            raise PathEnd()
        out.append((v, ds[0]))
    (v, d), (_, e) = out
    l = law(d)
    check(nm + '-law', l.kind == kind, note=l.kind)
    check_eq(nm + '-entry', v, mul(factor(*i), d))
    n = len(l.loopvars)
    for m, (p, q) in enumerate(zip(l.params, param(*i))):
        p = subst(p(d.a[1 + n:]), dict(zip(l.loopvars, d.a[1:1 + n])))
        check_eq('%s-parameter%d' % (nm, m), resolve(p), q)
    same = TRUE if d.a[0] == e.a[0] else FALSE
    check(nm + '-independent', implies(and_(same, *[eq(a, b) for a, b in zip(d.a[1:], e.a[1:])]), same_index(i, j)))
    check(nm + '-same-law', d.a[0] == e.a[0])
    if fresh is not None:
        check(nm + '-fresh', d.a[0] not in fresh, note='draws used before')
    return {d.a[0]}


def instances(v, idx):
    """instances of the definitions of the reductions in v, for the given element: each reduction nested m times
    ranges over the last m axes"""
    def depth(u):
        b = u.a[2]
        return 1 + (depth(b) if b.op == 'red' and b.a[0] == u.a[0] else 0)
    c = ctx()
    seen = set()
    for u in sorted((u for u in t_.walk(v) if u.op == 'red' and u.a[0] in ('min', 'max', 'any', 'all')), key=lambda u: u.id):
        m = depth(u)
        if m > len(idx) or any(str(x.a[0]).startswith('%b') for x in t_.fv(u)) or u in seen:
            continue
        for k in idx[len(idx) - m:]:
            kind, n, body, b = u.a
            e = subst(body, {b: k})
            inside = and_(le(ZERO, k), lt(k, n))
            rel = {'max': lambda: le(e, u), 'min': lambda: le(u, e), 'any': lambda: implies(e, u),
                   'all': lambda: implies(u, e)}[kind]()
            c.assume(implies(inside, rel))
            u = e
            if u.op != 'red':
                break


def random_sum(nm, value, shape, count, sign, param, kind, fresh=None):
    """every entry is sign times the sum of count fresh draws of its own, with law kind(*param)"""
    i = indices(shape, nm + '.i')
    c = ctx()
    n = count(*i)
    if c.decide(le(n, ZERO)):
        v = value(*i)
        instances(v, i)
        check_eq(nm + '-no-events', resolve(v), ZERO)
        return None
    # as many
    v = value(*i)
    instances(v, i)
    v = resolve(v)
    sums = [u for u in t_.walk(v) if u.op == 'red' and u.a[0] == 'sum' and draws_of(u)]
    sums = [u for u in sums if any(law(d).kind == kind for d in draws_of(u.a[2]))]
    if len(sums) != 1:
        raise Unsupported('%s: %d random sums' % (nm, len(sums)))
    _, m, body, b = sums[0].a
    ds = [d for d in draws_of(body) if law(d).kind == kind]
    check(nm + '-one-draw', len(ds) == 1)
    d = ds[0]
    check_eq(nm + '-count', resolve(m), n)
    # each summand: a draw, up to the sign
    k = var('%j' + nm, 'I')
    inside = and_(le(ZERO, k), lt(k, n))
    c.assume(inside, check=True)
    dk = subst(d, {b: k})
    term_ = resolve(subst(body, {b: k}))
    rest = subst(v, {sums[0]: ONE})
    check_eq(nm + '-sum', v, mul(rest, sums[0]))
    check_eq(nm + '-jump', mul(rest, term_), mul(sign(*i), dk))
    l = law(dk)
    for q, (p, want) in enumerate(zip(l.params, param(*i))):
        a = dk.a[1:]
        p = subst(p(a[len(l.loopvars):]), dict(zip(l.loopvars, a)))
        check_eq('%s-parameter%d' % (nm, q), resolve(p), want)
    # another entry
    j = indices(shape, nm + '.j')
    if c.decide(lt(ZERO, count(*j))):
        k2 = var('%k' + nm, 'I')
        c.assume(and_(le(ZERO, k2), lt(k2, count(*j))), check=True)
        # the same form, at other indices: the value is a function of the index
        other = subst(dk, {**dict(zip(i, j)), k: k2})
        eqs = and_(*[eq(x, y) for x, y in zip(dk.a[1:], other.a[1:])])
        check(nm + '-independent', implies(eqs, and_(eq(k, k2), same_index(i, j))))
    if fresh is not None:
        check(nm + '-fresh', d.a[0] not in fresh, note='draws used before')
    return d.a[0]
