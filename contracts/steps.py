"""shared by the contracts of P17-P22: one hook of an equation, called in the state that path
generation guarantees (P16): current and next time in sw, the state at the current time in xw[0]
and storage for the next one in xw[1], an output time equal to the time reached."""
from pyvc.api import *
from .common import *

HOOK_NOTE = ('the hooks begin, next, store, exit are called by path generation as proved for P16; time, state and output are '
             'arbitrary at each call')


def integ(name):
    return fn('integration', name)


class Source:
    """an arbitrary source: at each call, arbitrary values"""

    def __init__(self, id, paths, vshape, log, dtype=float):
        self.id, self.paths, self.vshape, self.log, self.dtype = id, paths, tuple(vshape), log, snp.dtype(dtype)

    def __call__(self, t, dt):
        n = len([1 for x in self.log if x[0] == self.id])
        t, dt = tm(t), tm(dt)
        self.log.append((self.id, t, dt))
        return arr('src_%s%d' % (self.id, n), self.vshape + (self.paths,), self.dtype)


def increment(id, *idx, n=0):
    return elt('src_%s%d' % (id, n), *idx)


def coefficient(name, shape, like):
    """array of arbitrary entries, of a shape which broadcasts to like; its entry at an index of like"""
    a = arr(name, shape)

    def at(*idx):
        k = idx[len(like) - len(shape):]
        return elt(name, *[ZERO if isinstance(d, int) and d == 1 and not (isinstance(e, int) and e == 1) else i
                           for i, d, e in zip(k, shape, like[len(like) - len(shape):])])
    return a, at


def shapes_like(full):
    """shapes which broadcast to full"""
    return [(), (1,), full[-1:], full[:-1] + (1,), full]


def at(a, i, v):
    """array a, with value v at i"""
    return snp.ndarray._np_make(lambda k: ite(eq(k[0], i), v, a.at(*k)), a.shape, a.dtype)


class IterVars(dict):
    """what path generation and the hooks keep from a step to the next one: nothing is known of a key never set"""

    def _vc_known(self, k):
        if not dict.__contains__(self, k):
            raise Unsupported('%r among the iteration variables' % (k,))

    def get(self, k, *d):
        self._vc_known(k)
        return dict.get(self, k, *d)

    def __contains__(self, k):
        self._vc_known(k)
        return True

    def pop(self, k, *d):
        self._vc_known(k)
        return dict.pop(self, k, *d)

    def setdefault(self, k, d=None):
        self._vc_known(k)
        return self[k]


class Step:
    """the equation p, with arbitrary state; the first one, or the second one (after the one given, which was the first)"""

    def __init__(self, p, hook='next', reverse=False, dtype=float, N=None, after=None, first=False, prefix=''):
        self.p = p
        self.prefix = prefix
        self.dtype = dtype
        self.full = tuple(p.wshape) + (p.paths,)
        self.xfull = tuple(p.xshape) + (p.paths,)
        self.N = N = dim('N', 1) if N is None else N
        self.s, self.s1 = var(prefix + 's', 'R'), var(prefix + 's1', 'R')
        assume(lt(self.s1, self.s) if reverse else lt(self.s, self.s1))
        self.sw = snp.array([Sym(self.s, 'f'), Sym(self.s1, 'f')])
        self.xw = snp.empty(2, dtype=object)
        self.xw[0], self.xw[1] = arr(prefix + 'x', self.full, dtype), arr(prefix + 'left', self.full, dtype)
        self.w = [self.xw.items[(k,)] for k in range(2)]
        self.xx = arr(prefix + 'xx', (N,) + self.xfull, dtype)
        self.steps = arr('ss', (dim('S', 1),))
        iv = {} if first or after is not None else IterVars()
        if after is not None:
            iv.update(after.p.itervars)
            assume(eq(after.s1, self.s))
        iv.update(xx=self.xx, sw=self.sw, xw=self.xw, reverse=reverse)
        p.itervars = iv
        if hook == 'begin':
            # the first time
            self.tt, self.steps = at(arr('tt', (N,)), ZERO, self.s), at(self.steps, ZERO, self.s)
        elif hook == 'store':
            # the output time just reached
            self.i = index('i', N)
            self.k = 1 if ctx().choose() else 0
            self.tt = at(arr('tt', (N,)), self.i, self.sw.at(const(self.k)))
        else:
            # the next output time
            self.i = index(prefix + 'i', N)
            assume(lt(ZERO, self.i))
            self.tt = arr('tt', (N,))
            assume(le(self.tt.at(self.i), self.s1) if reverse else le(self.s1, self.tt.at(self.i)))
            iv['i'] = Sym(self.i, 'i')
        iv.update(tt=self.tt, steps_tt=self.steps)

    @classmethod
    def second(cls, p, *logs, **kw):
        """the step which follows another one; logs: of what was called, emptied in between"""
        first = cls(p, first=True, prefix='before_', **kw)
        first.next()
        for log in logs:
            log.clear()
        return cls(p, after=first, **kw)

    def x(self, *idx):
        return elt(self.prefix + 'x', *idx) if snp.dtype(self.dtype).kind != 'c' else celt(self.prefix + 'x', *idx)

    def next(self):
        self.p.next()
        # what the caller relies on
        check('next-time', and_(eq(self.sw.at(ZERO), self.s), eq(self.sw.at(ONE), self.s1)))
        self.w = [asarr(self.xw.items[(k,)]) for k in range(2)]
        check('next-space', self.w[0]._np_buf is not self.w[1]._np_buf)
        for w in self.w:
            if not check_shape('next-shape', w.shape, self.full):
                raise PathEnd()
        idx = indices(self.full, 'kept')
        check_eq('next-keeps-state', self.w[0].at(*idx), self.x(*idx))

    def new(self, *idx):
        return self.w[1].at(*idx)

    @property
    def ds(self):
        return sub(self.s1, self.s)


def with_sources(ids, base=None, **kw):
    """class of equations with these arbitrary sources"""
    d = dict(sources=set(ids), **kw)

    def mk(id):
        def setup(self):
            return self.made[id]
        return setup
    for id in ids:
        if id != 'dt':
            d['source_' + id] = mk(id)
    bases = (base or integ('SDE'),)
    return type('Equation', bases if issubclass(bases[0], integ('integrator')) else bases + (integ('integrator'),), d)
