"""shared by the contracts of P13-P15: the memory of a source, at an arbitrary point of any history.

State invariant of a source with memory: the stored times are strictly increasing, one of them is the
initial time, and entry k holds the value at stored time k.  As stored entries never change, the value at a
stored time is a function of the time: zeta(time, *index) (a ghost function, fixed along the history)."""
import sys
from pyvc.api import *
from pyvc import loops
from .common import *

STORE_NOTE = ('a single source, used by one thread; stored times are compared as real numbers (a time read back from '
              'the memory is the number stored)')


def zeta(t, *idx, s='R'):
    return app('zeta', tm(t), *[tm(i) for i in idx], s=s)


def R_(t, *idx, s='R'):
    return app('R', tm(t), *[tm(i) for i in idx], s=s)


class Store:
    """the stored times tl(0) < ... < tl(n-1), n >= 1, one of which is t0"""

    def __init__(self, full, dtype, t0, wrap=None):
        self.full, self.dtype, self.t0, self.wrap = tuple(full), snp.dtype(dtype), t0, wrap
        self.s = 'I' if self.dtype.kind in 'iu' else 'R'
        self.gen = 0
        self.T, self.Z = SymList(self, 'T'), SymList(self, 'Z')
        self.havoc()

    def havoc(self):
        """any other state satisfying the invariant"""
        self.n = tm(dim('n%d' % self.gen, 1))
        self.m0 = index('m%d' % self.gen, self.n)
        self.name = 'tl%d' % self.gen
        self.gen += 1
        self.seen, self.made = [], []
        self.T.layers, self.Z.layers = [], []
        ctx().assume(eq(self.at(self.m0), self.t0))

    def at(self, k):
        """stored time at position k, for 0 <= k < n"""
        k = tm(k)
        v = app(self.name, k)
        c = ctx()
        if k not in self.seen:
            for j in self.seen:
                w = app(self.name, j)
                c.assume(and_(implies(lt(j, k), lt(w, v)), implies(lt(k, j), lt(v, w)), implies(eq(j, k), eq(v, w))))
            self.seen.append(k)
        return v

    def entry(self, k):
        c = ctx()
        for j, e in self.made:
            if j is k or c.decide(eq(j, k)):
                return e
        t = self.at(k)
        a = snp.ndarray._np_make(lambda idx: zeta(t, *idx, s=self.s), self.full, self.dtype)
        e = self.wrap(a) if self.wrap else a
        self.made.append((k, e))
        return e

    def value_of(self, e):
        return e.array if isinstance(e, Entry) else e[0] if isinstance(e, list) else e

    def unchanged(self):
        """the entries handed out are as they were"""
        for k, e in list(self.made):
            a = self.value_of(e)
            j = indices(self.full, 'kept')
            check_eq('stored-values-unchanged', a.at(*j), zeta(self.at(k), *j, s=self.s))


class SymList:
    """the list of the stored times or of the stored values: arbitrary, then with elements inserted"""

    def __init__(self, store, what):
        self.store, self.what = store, what
        self.layers = []

    def _symlen(self):
        return Sym(add(self.store.n, const(len(self.layers))), 'i')

    def _pos(self, k):
        if isinstance(k, snp.ndarray):
            k = k.item()
        if isinstance(k, slice):
            raise Unsupported('slices of the memory')
        k = tm(k)
        if k.s != 'I':
            raise raised(TypeError('list indices must be integers or slices'))
        return k

    def __getitem__(self, k):
        c = ctx()
        k = self._pos(k)
        n = self._symlen().t_
        if c.decide(lt(k, ZERO)):
            k = add(k, n)
        if not c.decide(and_(le(ZERO, k), lt(k, n))):
            raise raised(IndexError('list index out of range'))
        for p, x in reversed(self.layers):
            if c.decide(eq(k, p)):
                return x
            if c.decide(lt(p, k)):
                k = sub(k, ONE)
        if self.what == 'T':
            return Sym(self.store.at(k), 'f')
        return self.store.entry(k)

    def insert(self, k, x):
        c = ctx()
        k = self._pos(k)
        n = self._symlen().t_
        if c.decide(lt(k, ZERO)):
            k = add(k, n)
            if c.decide(lt(k, ZERO)):
                k = ZERO
        elif c.decide(lt(n, k)):
            k = n
        self.layers.append((k, x))

    def append(self, x):
        self.layers.append((self._symlen().t_, x))

    def _bisect(self, x, right=True):
        if self.what != 'T':
            raise Unsupported('bisection of the stored values')
        if self.layers:
            raise Unsupported('bisection after an insertion')
        x = tm(x) if not isinstance(x, snp.ndarray) else term(x)
        s, c = self.store, ctx()
        for y, r, k in getattr(s, 'found', []):
            if y is x and r == right and s.gen == k[1]:
                return Sym(k[0], 'i')
        k = c.fresh('k', 'I')
        c.assume(and_(le(ZERO, k), le(k, s.n)))
        b = sub(k, ONE)
        below = (lambda v: le(v, x)) if right else (lambda v: lt(v, x))
        # (terms at positions out of the list are not used)
        for g, f in ((lt(ZERO, k), lambda: below(s.at(b))), (lt(k, s.n), lambda: not_(below(s.at(k))))):
            if c.decide(g):
                c.assume(f(), check=True)
        s.found = getattr(s, 'found', []) + [(x, right, (k, s.gen))]
        return Sym(k, 'i')

    def _bisect_left(self, x):
        return self._bisect(x, right=False)

    def _toarray(self):
        if self.layers or self.what != 'T':
            raise Unsupported('the memory as an array')
        s = self.store
        return snp.ndarray._np_make(lambda i: app(s.name, i[0]), (Sym(s.n, 'i'),), snp.dtype(float))

    def __iter__(self):
        raise Unsupported('iteration over the memory')

    def __contains__(self, x):
        raise Unsupported('search in the memory')

    def __getattr__(self, name):
        if name.startswith('_') or name in ('t_', 'shape', 'dtype', 'ndim'):
            raise AttributeError(name)
        raise Unsupported('list.%s on the memory of a source' % name)


def recording(base, opaque=False):
    """subclass with arbitrary new values: what a subclass may return, and a record of the calls"""
    class Arbitrary(base):
        log = None

        def fresh_value(self):
            st = self.store
            n = len(self.log)
            a = arr('new%d' % n, st.full, st.dtype)
            return st.wrap(a) if st.wrap else a

        def new_outside(self, z, t, s):
            r = self.fresh_value()
            self.log.append(('outside', (z,), (t,), s, r))
            return r

        def new_inside(self, z1, z2, t1, t2, s):
            r = self.fresh_value() if ctx().choose() else None
            self.log.append(('inside', (z1, z2), (t1, t2), s, r))
            return r
        if opaque:
            def getvalue(self, z):
                return z.array
    return Arbitrary


class Entry:
    """an opaque stored value; the array it stands for is known to getvalue only"""

    def __init__(self, a):
        self.array = a


def memory(src):
    """names of the attributes of the memory of a new source: lists of the initial time and of the initial value"""
    names = [k for k, v in vars(src).items() if isinstance(v, list) and len(v) == 1]
    ts = [k for k in names if isinstance(vars(src)[k][0], (float, Sym))]
    zs = [k for k in names if k not in ts]
    if len(ts) != 1 or len(zs) != 1:
        raise Unsupported('the memory of a source is not a list of times and a list of values')
    return ts[0], zs[0]


def anywhere(src, t0, wrap=None):
    """put the source in an arbitrary state of any history"""
    T, Z = memory(src)
    st = Store(tuple(src.vshape) + (src.paths,), src.dtype if src.dtype is not None else float, tm(t0), wrap)
    setattr(src, T, st.T)
    setattr(src, Z, st.Z)
    return st


class EvalLoop:
    """contract of the loop over the times requested: after it, output[i] is the value at time i.
    rule: one iteration from an arbitrary state is checked; then the loop is left in an arbitrary state.
    (iteration None: by this contract, which the conditions evaluate_* prove)"""

    def __init__(self, src, store, iteration):
        self.src, self.store, self.iteration = src, store, iteration
        self.loops = 0

    def applies(self, frame):
        co = frame.f_code
        return co.co_argcount and frame.f_locals.get(co.co_varnames[0]) is self.src

    def iterate(self, frame, shape):
        c = ctx()
        key = (frame.f_code.co_filename, frame.f_lineno)
        if key not in loops.FORS or loops.FORS[key]:
            raise Unsupported('not a for statement with independent variables')
        co, loc = frame.f_code, frame.f_locals
        args = [loc[n] for n in co.co_varnames[1:co.co_argcount] if isinstance(loc.get(n), (snp.ndarray, Sym))]
        if len(args) != 1:
            raise Unsupported('the times requested are not the only array passed')
        s0, s = args[0], asarr(args[0])
        want = tuple(s.shape) + self.store.full
        outs = {id(v): v for k, v in loc.items() if isinstance(v, snp.ndarray) and v is not s0 and v.ndim == len(want)}
        if len(outs) != 1:
            raise Unsupported('the array of the values is not found')
        out, = outs.values()
        if len(shape) != len(s.shape):
            raise Unsupported('a loop over other axes than those of time')
        check_shape('every-time-evaluated', shape, s.shape)
        if not check_shape('output-shape', out.shape, want):
            raise PathEnd()
        self.loops += 1
        k = self.store.s if snp.dtype(out.dtype).kind in 'iu' else 'R'
        if self.iteration is not None and c.choose():
            i = indices(s.shape, 'at')
            x = snp.cast_term(s.at(*i), 'f')
            old = out.reader()
            known = dict(loc)
            serial, nw = snp.SERIAL[0], len(c.writes)
            yield tuple(Sym(v, 'i') for v in i)
            for n, v in frame.f_locals.items():
                if n in known and known[n] is not v and n not in loops.STORED.get(key, ()) and not isinstance(v, (int, Sym, tuple)):
                    raise Unsupported('loop-carried variable %s' % n)
            for w in c.writes[nw:]:
                if w[0].born <= serial and w[0] is not out._np_buf:
                    raise Unsupported('the loop writes to another array')
            j = indices(self.store.full, 'entry')
            o = tuple(index('other%d' % q, d) for q, d in enumerate(s.shape))
            if s.shape:
                c.given(not_(and_(*[eq(a, b) for a, b in zip(i, o)])),
                        lambda: check_eq('other-times-kept', out.at(*o, *j), old(tuple(o) + tuple(j))))
            self.iteration(x, out.at(*i, *j), j)
            reach('iteration')
            raise PathEnd()
        # left: every time has been evaluated
        self.store.havoc()
        r = s.reader()
        m = len(s.shape)
        src = snp.ndarray._np_make(lambda idx: R_(snp.cast_term(r(idx[:m]), 'f'), *idx[m:], s=k), want, out.dtype)
        out[...] = src
