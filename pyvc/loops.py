"""Loop rules.

generic(shape): a `for` loop whose iterations are independent is executed once
for an arbitrary index; the writes of that iteration are then turned into the
writes of the whole loop, after checking that the position written determines
the iteration, that no iteration reads what another one writes, and that no
local variable or python object carries a value from one iteration to the next.

while_enter/while_back: invariant rule for `while` loops (see loader.py)."""
import sys
from . import terms as t_
from .terms import (T, const, tm, var, app, add, sub, mul, neg, eq, lt, le, and_, or_, not_, ite, fv, subst,
                    ZERO, ONE, TRUE, FALSE, isc, cval, show)
from .engine import Sym, Unsupported, ctx, D, PathEnd

FORS = {}     # (filename, lineno) -> names stored in the loop body, and loaded outside of it


def _conjuncts(t):
    if t.op == 'and':
        out = []
        for x in t.a:
            out += _conjuncts(x)
        return out
    return [t]


def solve(region, vs):
    """v -> expression, from the equations of a region"""
    sol = {}
    todo = list(vs)
    for c in _conjuncts(region):
        if c.op != 'eq':
            continue
        d = sub(c.a[0], c.a[1])
        lin = t_._lin(d)
        for v in todo:
            k = lin.get(v)
            if k is None or k not in (1, -1):
                continue
            rest = sub(d, mul(const(k), v))
            if v in fv(rest):
                continue
            e = neg(rest) if k == 1 else rest
            if any(w in fv(e) for w in vs):
                continue
            sol[v] = e
            todo.remove(v)
            break
    return sol


def _state(frame):
    """shallow picture of the python objects an iteration might update"""
    out = {}
    seen = set()

    def visit(path, x, depth):
        if id(x) in seen:
            return
        if isinstance(x, (list, set)):
            seen.add(id(x))
            out[path] = (x, [id(y) for y in x])
            return
        if isinstance(x, dict):
            seen.add(id(x))
            out[path] = (x, [(k, id(v)) for k, v in x.items()])
            if depth:
                for k, v in x.items():
                    visit(path + (str(k),), v, depth - 1)
            return
        d = getattr(x, '__dict__', None)
        if isinstance(d, dict) and type(x).__module__.startswith('sdepy') and not isinstance(x, type):
            seen.add(id(x))
            out[path] = (d, [(k, id(v)) for k, v in d.items()])
            if depth:
                for k, v in d.items():
                    visit(path + (k,), v, depth - 1)
    for k, v in frame.f_locals.items():
        visit((k,), v, 2)
    return out


class Family:
    """elements appended to a list by the iterations of a symbolic loop:
    value, for each index vs within bounds such that cond"""

    def __init__(self, vs, bounds, cond, value):
        self.__dict__.update(vs=vs, bounds=bounds, cond=cond, value=value, family=True)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('use of list elements appended in a symbolic loop')

    def _no(self, *a, **k):
        raise Unsupported('use of list elements appended in a symbolic loop')
    __len__ = __iter__ = __getitem__ = __add__ = __radd__ = __mul__ = __bool__ = __call__ = __array__ = _no
    __hash__ = None

    def __eq__(self, o):
        """the same elements, in the same order"""
        if type(o) is not Family or len(o.vs) != len(self.vs):
            self._no()
        if o is self:
            return True
        c = ctx()
        vs = [c.fresh('%eq', 'I') for _ in self.vs]
        p, q = self.at(vs), o.at(vs)
        if not (_scalar(p.value) and _scalar(q.value)):
            self._no()
        a, b = and_(p.bounds, p.cond), and_(q.bounds, q.cond)
        same = and_(or_(and_(a, b), not_(or_(a, b))), or_(not_(a), eq(tm(p.value), tm(q.value))))
        if c.known(same):
            return True
        self._no()

    def at(self, idx):
        """the element of given index"""
        env = dict(zip(self.vs, idx))
        s = lambda x: subst(tm(x), env)
        v = self.value
        from . import snp
        if type(v) is snp.ndarray:
            def fn(i, r=v.reader()):
                return subst(r(i), env)
            v = snp.ndarray._np_make(fn, tuple(D(s(d)) if not isinstance(d, int) else d for d in v._np_shape), v._np_dt)
        elif isinstance(v, Sym):
            v = Sym(s(v), v.kind)
        elif not isinstance(v, (int, float, str)):
            self._no()
        return Family(tuple(idx), s(self.bounds), s(self.cond), v)


def _alternatives(f, g):
    """an element, by one path through an iteration or another"""
    from . import snp
    a, b = f.value, g.value
    if _scalar(a) and _scalar(b):
        if isinstance(a, Sym) and isinstance(b, Sym) and a.kind != b.kind:
            return None
        k = a.kind if isinstance(a, Sym) else b.kind if isinstance(b, Sym) else None
        if k is None:
            return None
        v = Sym(ite(f.cond, tm(a), tm(b)), k)
    elif type(a) is snp.ndarray and type(b) is snp.ndarray and a.ndim == b.ndim and a._np_dt == b._np_dt:
        def fn(i, p=a.reader(), q=b.reader()):
            return ite(f.cond, p(i), q(i))
        shape = tuple(x if x is y or tm(x) is tm(y) else D(ite(f.cond, tm(x), tm(y)))
                      for x, y in zip(a._np_shape, b._np_shape))
        v = snp.ndarray._np_make(fn, shape, a._np_dt)
    else:
        return None
    return Family(f.vs, f.bounds, or_(f.cond, g.cond), v)


def _scalar(v):
    return isinstance(v, (Sym, int, float))


class FamilyIter:
    """iteration on a list filled in a symbolic loop"""

    def __init__(self, family):
        self.family = family

    def __iter__(self):
        f = self.family
        return _generic([None]*len(f.vs), None, False, sys._getframe(1), f)


def has_family(x):
    return isinstance(x, (list, tuple)) and any(type(y) is Family for y in x)


def _changed(before, frame):
    """names of objects updated by an iteration, and elements appended to lists (removed from them)"""
    bad, grown = [], []
    for p, (obj, ids) in before.items():
        if isinstance(obj, (list, set)):
            now = [id(y) for y in obj]
            if isinstance(obj, list) and len(now) > len(ids) and now[:len(ids)] == ids:
                grown.append((obj, obj[len(ids):]))
                del obj[len(ids):]
                continue
        else:
            now = [(k, id(v)) for k, v in obj.items()]
        if now != ids:
            bad.append('.'.join(p))
    return bad, grown


def generic(shape, lo=None, scalar=False):
    frame = sys._getframe(1)
    if frame.f_code.co_filename.endswith(('snp.py', 'loader.py')):
        frame = frame.f_back
    return _generic(shape, lo, scalar, frame)


def _generic(shape, lo, scalar, frame, family=None):
    c = ctx()
    key = (frame.f_code.co_filename, frame.f_lineno)
    if key not in FORS:
        raise Unsupported('a symbolic range used outside of a for statement')
    if FORS[key]:
        raise Unsupported('variables %s outlive a symbolic loop' % sorted(FORS[key]))
    vs = [c.fresh('%%k%d' % len(c.loopvars), 'I') for _ in shape]
    if family is not None:
        if len(c.loopvars):
            raise Unsupported('nested loops on lists filled in a symbolic loop')
        family = family.at(vs)
        bounds = and_(family.bounds, family.cond)
    else:
        dims = [tm(d) for d in shape]
        lows = [tm(x) for x in lo] if lo else [ZERO]*len(dims)
        bounds = and_(*[and_(le(l, v), lt(v, d)) for l, v, d in zip(lows, vs, dims)])
    locals0 = {k: id(v) for k, v in frame.f_locals.items()}
    loopnames = None
    pending = [[]]
    merged = []     # (path condition, [(buffer, region fn, new fn)])
    outer_writes = c.writes
    npaths = 0
    lists = []
    objs = []       # (object array, path condition, index, value)
    c.generic_active = getattr(c, 'generic_active', 0) + 1
    done = False
    try:
        while pending:
            prefix = pending.pop()
            npaths += 1
            if npaths > 40:
                raise Unsupported('too many paths in a loop body')
            mark = c.push(prefix)
            c.loopvars = c.loopvars + vs
            c.writes = []
            reads0 = c.reads
            c.reads = []
            ow0, or0 = getattr(c, 'objwrites', []), getattr(c, 'objreads', [])
            c.objwrites, c.objreads = [], []
            if not c.feasible(bounds):
                c.objwrites, c.objreads = ow0, or0
                c.loopvars = c.loopvars[:-len(vs)] if vs else c.loopvars
                c.pop(mark)
                c.writes, c.reads = outer_writes, reads0
                break
            c.assume(bounds)
            npc = len(c.pc)
            state = _state(frame)
            from .snp import SERIAL
            serial = SERIAL[0]
            idx = tuple(Sym(v, 'i') for v in vs)
            yield family.value if family is not None else idx[0] if scalar else idx
            # ------- end of an inner path
            bad, grown = _changed(state, frame)
            if bad:
                raise Unsupported('a loop body updates python objects: %s' % bad)
            for k, v in frame.f_locals.items():
                if k in locals0 and locals0[k] != id(v) and k not in STORED.get(key, ()):
                    raise Unsupported('loop-carried variable %s' % k)
            inner = and_(*c.pc[npc:])
            for obj, els in grown:
                fams = [Family(tuple(vs), bounds, inner, e) for e in els]
                for o, fs in lists:
                    if o is obj and len(fs) == len(fams) == 1 and fs[0].vs == fams[0].vs:
                        both = _alternatives(fs[0], fams[0])
                        if both is not None:
                            fs[0] = both
                            break
                else:
                    lists.append((obj, fams))
            # (arrays created by the iteration do not outlive it)
            writes, reads = [w for w in c.writes if w[0].born <= serial], [r for r in c.reads if r[0].born <= serial]
            for o in c.objwrites:
                if ow0 or len(c.loopvars) != len(vs):
                    raise Unsupported('object arrays in nested loops')
                if any(q is o and tuple(i) != tuple(c.loopvars) for q, i in c.objreads):
                    raise Unsupported('an iteration reads what another one writes in an object array')
                objs += [(o, inner, i, v) for i, v in o._end_path()]
            for q, i in c.objreads:
                q._settle()
                q.handed = []
            c.objwrites, c.objreads = ow0, or0 + c.objreads
            c.loopvars = c.loopvars[:-len(vs)] if vs else c.loopvars
            fr, added = c.pop(mark)
            c.writes, c.reads = outer_writes, reads0 + reads
            pending.extend(fr.alternatives)
            finals, olds, regions = {}, {}, {}
            for buf, old, reg in writes:
                if buf not in olds:
                    olds[buf] = old
                    regions[buf] = []
                regions[buf].append(reg)
                finals[buf] = None
            for buf in finals:
                finals[buf] = buf.fn
            for buf in olds:
                buf.fn = olds[buf]
            merged.append((inner, [(b, regions[b], finals[b]) for b in olds], reads))
        done = True
    finally:
        c.generic_active -= 1
        if not done:
            c.broken = 'a symbolic loop was left before its end'
    _merge(c, merged, vs, bounds)
    for obj, els in lists:
        obj.extend(els)
    from .snp import _Layer
    for o, inner, i, v in objs:
        o.layers.append(_Layer(tuple(i), and_(bounds, inner), v))


STORED = {}


def _merge(c, merged, vs, bounds):
    bufs = {}
    for inner, ws, reads in merged:
        for b, regs, fn in ws:
            bufs.setdefault(b, []).append((inner, regs, fn))
    for b, items in bufs.items():
        n = len(b.shape)
        iv = [c.fresh('%%i%d' % j, 'I') for j in range(n)]
        old = b.fn
        sols = []
        for inner, regs, fn in items:
            rr = [q for q in [r(tuple(iv)) for r in regs] if q is not FALSE]
            if not rr:
                continue        # (nothing is written)
            ss = [solve(r, vs) for r in rr]
            for s in ss:
                if len(s) != len(vs):
                    raise Unsupported('the positions written by a loop do not determine the iteration: %s' % [show(r)[:300] for r in rr])
            s0 = ss[0]
            if any(s != s0 for s in ss[1:]):
                raise Unsupported('a loop writes at several positions')
            val = fn(tuple(iv))
            if any(v in fv(x) for v in vs for x in s0.values()):
                raise Unsupported('loop solving')
            sols.append((s0, inner, or_(*rr), val))
        if not sols:
            continue
        # reads of this buffer must be of the current iteration only
        for inner, ws, reads in merged:
            for rb, view in reads:
                if rb is not b:
                    continue
                jv = [var('%%r%d' % j, 'I') for j in range(len(view._np_shape))]
                pos = view._np_map(tuple(jv))
                s0 = sols[0][0]
                for v in vs:
                    e = subst(s0[v], dict(zip(iv, pos)))
                    if e is not v:
                        raise Unsupported('a loop reads what other iterations write')

        def new(idx, iv=iv, sols=sols, old=old):
            r = old(idx)
            env = dict(zip(iv, idx))
            for s0, inner, reg, val in sols:
                sv = {v: subst(e, env) for v, e in s0.items()}
                env2 = dict(env)
                env2.update(sv)
                cond = and_(subst(bounds, sv), subst(inner, env2), subst(reg, env2))
                r = ite(cond, subst(val, env2), r)
            return r
        from .snp import memo
        c.writes.append((b, old, lambda idx, iv=iv, sols=sols: or_(*[
            and_(subst(bounds, {v: subst(e, dict(zip(iv, idx))) for v, e in s0.items()}),
                 subst(reg, {**dict(zip(iv, idx)), **{v: subst(e, dict(zip(iv, idx))) for v, e in s0.items()}}))
            for s0, inner, reg, val in sols])))
        b.fn = memo(new)
        b.ver += 1


class SymIter:
    def __init__(self, a):
        self.a = a
        self.pos = ZERO

    def __iter__(self):
        return self

    def __next__(self):
        n = tm(self.a._np_shape[0])
        if not ctx().decide(lt(self.pos, n)):
            from .engine import raised
            raise raised(StopIteration())
        from . import snp
        v = snp.ndarray.__getitem__(self.a, Sym(self.pos, 'i'))
        self.pos = add(self.pos, ONE)
        return v


def iterate(a):
    if a._np_shape == ():
        from .engine import raised
        raise raised(TypeError('iteration over a 0-d array'))
    n = a._np_shape[0]
    if isinstance(n, int):
        return iter([a[i] for i in range(n)])
    return SymIter(a)


# ------------------------------------------------------------------ while loops

CONTRACTED = {'_generate_paths'}   # functions whose while loops may be given a contract
CONTRACTS = {}                     # function name -> loop contract object, set by a verification condition


class LoopContract:
    """subclass: inv(env) yields (name, term); havoc(env) -> new values of the
    local variables of the loop (and updates to python objects)"""

    def enter(self, env):
        raise NotImplementedError

    def back(self, env):
        raise NotImplementedError


def while_contract(fname):
    return CONTRACTS.get(fname)
