"""Symbolic execution of the real code: path exploration by re-execution,
scalar proxies, obligations."""
from fractions import Fraction as Fr
import ast
import os
import re
import time
import types
import z3
from . import terms as t_
from .terms import (T, const, tm, var, app, add, sub, mul, div, power, neg, eq, lt, le, ne, and_, or_, not_,
                    ite, fv, subst, ZERO, ONE, TRUE, FALSE, NAN, INF, J, isc, cval, show, implies)
from .prove import Prover, Ring, Z3Conv, z3_sat, STATS, Result


class Unsupported(BaseException):
    """the code left the subset (or the library contracts) of the verifier"""


class PathEnd(BaseException):
    """the current path is cut (infeasible, or a loop invariant was re-established)"""


class ContractError(Exception):
    pass


class Frame:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.decisions = []
        self.alternatives = []


class Ctx:
    """one path"""
    cur = None

    def __init__(self, eng, prefix):
        self.eng = eng
        self.frames = [Frame(prefix)]
        self.pc = []
        self.counter = {}
        self.draws = []
        self.axioms = []      # z3 facts valid on this path: callables conv -> expr
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', 2000)
        self.conv = Z3Conv()
        self.nax = 0
        self.loopvars = []    # generic loop indices in scope
        self.writes = []      # log of buffer writes (buffer, old fn, region)
        self.reads = []       # log of reads inside generic iterations
        self.broken = None
        self.events = []
        self.dcache = {}

    def fresh(self, base, s='R'):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return var('%s%s' % (base, '#%d' % n if n else ''), s)

    def freshname(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s%s' % (base, '#%d' % n if n else '')

    # ------------------------------------------------------------ assumptions
    def assume(self, c, check=False):
        c = tm(c)
        if c is TRUE:
            return
        self.pc.append(c)
        self._push(c)
        self.dcache = {}
        if check and not self.feasible(TRUE):
            raise PathEnd()

    def axiom(self, f):
        """f: callable conv -> z3 expression (may be quantified)"""
        if not self.axioms:
            # quantifiers have patterns: no model based instantiation; rarely decided after the first moments
            self.solver.set('rlimit', 400000)
            self.solver.set('smt.auto_config', False)
            self.solver.set('smt.mbqi', False)
        self.axioms.append(f)
        self.solver.add(f(self.conv))
        self._flush()
        self.dcache = {}

    def _flush(self):
        ax = self.conv.axioms
        while self.nax < len(ax):
            self.solver.add(ax[self.nax])
            self.nax += 1

    def _push(self, c):
        e = self.conv(c)
        self._flush()
        self.solver.add(e)

    def feasible(self, c):
        if c is FALSE:
            return False
        # re-executions of a path prefix ask the same questions
        key = (c, tuple(self.pc), tuple(tuple(f.decisions) for f in self.frames), len(self.axioms))
        r = self.eng.fcache.get(key)
        if r is None:
            r = self.eng.fcache[key] = self.feasible_(c)
        return r

    def feasible_(self, c):
        if c is TRUE and self.axioms:
            # only to cut dead paths early
            self.solver.set('rlimit', 60000)
            try:
                return self.query([c]) != 'unsat'
            finally:
                self.solver.set('rlimit', 400000)
        return self.query([c]) != 'unsat'

    def query(self, cs):
        """satisfiability of the path condition with cs"""
        t0 = time.time()
        self.solver.push()
        n0 = self.nax
        try:
            for c in cs:
                e = self.conv(c)
                self._flush()
                self.solver.add(e)
            r = self.solver.check()
        finally:
            self.solver.pop()
            self.nax = min(self.nax, n0)
        STATS['z3'][0] += 1
        STATS['z3'][1] += time.time() - t0
        return 'unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'

    def known(self, c):
        """is c entailed by the path condition?"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.pc:
            return True
        k = self.dcache.get(c)
        if k is None:
            k = not self.feasible(not_(c))
            self.dcache[c] = k
        return k

    # --------------------------------------------------------------- branching
    def decide(self, c):
        c = tm(c)
        if c.s != 'B':
            c = ne(c, ZERO)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        c = self.simplify(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.pc:
            return True
        if not_(c) in self.pc:
            return False
        k = self.dcache.get(('d', c))
        if k is not None:
            return k
        if self.eng.deadline and time.time() > self.eng.deadline:
            raise Unsupported('time budget exceeded')
        if self.sums(c):
            return True
        if self.sums(not_(c)):
            return False
        t = self.feasible(c)
        f = self.feasible(not_(c)) if t else True
        if t and f:
            b = self.choose()
            self.assume(c if b else not_(c))
            return b
        b = t
        self.dcache[('d', c)] = b
        if self.axioms:
            self._push(c if b else not_(c))     # entailed: a lemma for later queries
        return b

    def sums(self, c):
        """is c an equality of integer sums, true by linearity?"""
        if c.op != 'eq' or c.a[0].s != 'I' or c.a[1].s != 'I':
            return False
        d = sub(*c.a)
        if not any(u.op == 'red' and u.a[0] == 'sum' for u in t_.walk(d)):
            return False
        p = Prover()
        for q in p.ites(d):
            if self.known(q):
                d = p.assume(d, q, True)
            elif self.known(not_(q)):
                d = p.assume(d, q, False)
        return p.ring.iszero(d)

    def choose(self):
        """a nondeterministic boolean, explored both ways"""
        fr = self.frames[-1]
        if len(fr.decisions) < len(fr.prefix):
            b = fr.prefix[len(fr.decisions)]
        else:
            b = True
            fr.alternatives.append(fr.decisions + [False])
        fr.decisions.append(b)
        if len(fr.decisions) > 400:
            raise Unsupported('too many branches on one path')
        return b

    @property
    def decisions(self):
        return self.frames[0].decisions

    @property
    def alternatives(self):
        return self.frames[0].alternatives

    # inner exploration, of the body of a generic iteration
    def push(self, prefix):
        self.frames.append(Frame(prefix))
        self.solver.push()
        self.dcache = {}
        return (len(self.pc), self.nax, len(self.axioms))

    def pop(self, mark):
        fr = self.frames.pop()
        self.solver.pop()
        self.dcache = {}
        added = self.pc[mark[0]:]
        del self.pc[mark[0]:]
        self.nax = mark[1]
        self._flush()
        for f in self.axioms[mark[2]:]:
            self.solver.add(f(self.conv))
        self._flush()
        return fr, added

    def given(self, c, f):
        """f(), under an assumption limited to it"""
        c = tm(c)
        mark = (len(self.pc), self.nax, len(self.axioms))
        self.solver.push()
        self.dcache = {}
        try:
            self.assume(c)
            if self.feasible(TRUE):
                f()
        finally:
            self.solver.pop()
            self.dcache = {}
            del self.pc[mark[0]:]
            self.nax = mark[1]
            self._flush()
            for g in self.axioms[mark[2]:]:
                self.solver.add(g(self.conv))
            self._flush()

    def simplify(self, t):
        """a few cheap rewritings using the path condition"""
        return t


def ctx():
    c = Ctx.cur
    if c is None:
        raise ContractError('no symbolic execution in progress')
    return c


# ------------------------------------------------------------------- proxies

NUM = (int, float, complex, Fr)


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    """symbolic scalar: a python number (npy False) or numpy scalar (npy True)"""
    __slots__ = ('t_', 'kind', 'npy', 'dtype_')
    __array_priority__ = -100

    def __init__(self, t, kind=None, npy=False, dtype=None):
        self.t_ = tm(t)
        if kind is None:
            kind = {'B': 'b', 'I': 'i', 'R': 'f'}[self.t_.s]
        self.kind = kind
        self.npy = npy
        self.dtype_ = dtype

    def __repr__(self):
        return 'Sym(%s)' % show(self.t_)

    def __hash__(self):
        # sets and dicts: a fork decides whether the value is a small constant
        c = ctx()
        for v in (1, 0, 2):
            if c.decide(eq(self.t_, const(v))):
                return hash(v)
        return 987654321

    # -- conversions
    def __bool__(self):
        return ctx().decide(self.t_ if self.t_.s == 'B' else ne(self.t_, ZERO))

    def __index__(self):
        t = self.t_
        if isc(t):
            return int(cval(t))
        c = ctx()
        for v in range(-3, 5):
            if c.known(eq(t, const(v))):
                return v
        raise Unsupported('a concrete integer is needed, %s found' % show(t)[:200])

    def __int__(self):
        return self.__index__()

    def __float__(self):
        if isc(self.t_):
            return float(cval(self.t_))
        raise Unsupported('a concrete float is needed, %s found' % show(self.t_)[:200])

    def __format__(self, spec):
        return repr(self)

    # -- numpy scalar protocol
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        from . import snp
        return self.dtype_ or snp.dtype({'b': bool, 'i': int, 'f': float, 'c': complex}[self.kind])

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        from . import snp
        if self.npy and hasattr(snp.ndarray, name):
            return getattr(snp.asarray(self), name)
        raise AttributeError(name)

    def __getitem__(self, key):
        from . import snp
        return snp.asarray(self)[key]

    # -- arithmetic
    def _bin(self, o, f, r=False, cmp=False):
        from . import snp
        if isinstance(o, snp.ndarray):
            return NotImplemented
        if o is None:
            return NotImplemented
        if isinstance(o, (int, float, complex, Fr, Sym)) or hasattr(o, 't_'):
            a, b = (tm(o), self.t_) if r else (self.t_, tm(o))
            t = f(a, b)
            k1 = self.kind
            k2 = o.kind if isinstance(o, Sym) else {bool: 'b', int: 'i', float: 'f', complex: 'c'}.get(type(o), 'f')
            kind = 'b' if cmp else max(k1, k2, key='bifc'.index)
            if not cmp and kind == 'b':
                kind = 'i'
            if f is t_.div and kind in 'bi':
                kind = 'f'
            npy = self.npy or (isinstance(o, Sym) and o.npy)
            if cmp and isc(t) and not npy:
                return bool(cval(t))
            if cmp and t in (TRUE, FALSE) and not npy:
                return t is TRUE
            return Sym(t, kind, npy)
        return NotImplemented

    def __add__(self, o): return self._bin(o, add)
    def __radd__(self, o): return self._bin(o, add, True)
    def __sub__(self, o): return self._bin(o, sub)
    def __rsub__(self, o): return self._bin(o, sub, True)
    def __mul__(self, o):
        if isinstance(o, (tuple, list)):
            return o*self.__index__()
        return self._bin(o, mul)
    def __rmul__(self, o):
        if isinstance(o, (tuple, list)):
            return o*self.__index__()
        return self._bin(o, mul, True)
    def __truediv__(self, o):
        self._zerodiv(o)
        return self._bin(o, div)
    def __rtruediv__(self, o):
        return self._bin(o, div, True)

    def _zerodiv(self, o):
        if not self.npy and not hasattr(o, 'npy') and isinstance(o, (int, float)) and o == 0:
            raise ZeroDivisionError()

    def __floordiv__(self, o): return self._bin(o, floordiv)
    def __rfloordiv__(self, o): return self._bin(o, floordiv, True)
    def __mod__(self, o): return self._bin(o, imod)
    def __rmod__(self, o): return self._bin(o, imod, True)
    def __pow__(self, o): return self._bin(o, pow_)
    def __rpow__(self, o): return self._bin(o, pow_, True)
    def __neg__(self): return Sym(neg(self.t_), self.kind, self.npy)
    def __pos__(self): return self
    def __abs__(self): return Sym(t_.tabs(self.t_), self.kind, self.npy)
    def __lt__(self, o): return self._bin(o, lt, cmp=True)
    def __le__(self, o): return self._bin(o, le, cmp=True)
    def __gt__(self, o): return self._bin(o, lambda a, b: lt(b, a), cmp=True)
    def __ge__(self, o): return self._bin(o, lambda a, b: le(b, a), cmp=True)
    def __eq__(self, o):
        r = self._bin(o, eq, cmp=True)
        return False if r is NotImplemented and not hasattr(o, 'shape') else r
    def __ne__(self, o):
        r = self._bin(o, ne, cmp=True)
        return True if r is NotImplemented and not hasattr(o, 'shape') else r
    def __and__(self, o): return self._bin(o, lambda a, b: and_(tb(a), tb(b)), cmp=True)
    def __or__(self, o): return self._bin(o, lambda a, b: or_(tb(a), tb(b)), cmp=True)
    def __invert__(self):
        if self.kind == 'b':
            return Sym(not_(self.t_), 'b', self.npy)
        return Sym(sub(const(-1), self.t_), 'i', self.npy)
    def __round__(self, n=None):
        raise Unsupported('round')


def tb(t):
    return t if t.s == 'B' else ne(t, ZERO)


def floordiv(a, b):
    if isc(a) and isc(b):
        return const(cval(a)//cval(b))
    if a.s == 'I' and b.s == 'I':
        # (2*n)//2 and the like
        if isc(b):
            q = div(a, b)
            lin = t_._lin(q)
            if all(v.denominator == 1 and k.s == 'I' for k, v in lin.items()):
                return t_._from_lin(lin)
        return app('idiv', a, b, s='I')
    return app('floor', div(a, b), s='I')


def imod(a, b):
    if isc(a) and isc(b):
        return const(cval(a) % cval(b))
    if a.s == 'I' and b.s == 'I':
        if isc(b):
            lin = t_._lin(a)
            rest = {k: v for k, v in lin.items() if (v/cval(b)).denominator != 1}
            r = t_._from_lin(rest)
            if isc(r):
                return const(cval(r) % cval(b))
            return app('imod', r, b, s='I')
        return app('imod', a, b, s='I')
    raise Unsupported('modulo of reals')


def pow_(a, b):
    return power(a, b)


def sym(x):
    return x if isinstance(x, Sym) else Sym(x)


def unsym(t, npy=False):
    """python number if constant, else Sym"""
    t = tm(t)
    if isc(t) and cval(t).denominator == 1 and not npy:
        return int(cval(t))
    return Sym(t, npy=npy)


def D(x):
    """dimension as int or Sym"""
    t = tm(x)
    if isc(t):
        return int(cval(t))
    return Sym(t, 'i')


def dim(name, lo=0):
    c = ctx()
    v = var(name, 'I')
    c.assume(le(const(lo), v))
    return Sym(v, 'i')


def real(name, npy=False):
    return Sym(var(name, 'R'), 'f', npy)


def integer(name):
    return Sym(var(name, 'I'), 'i')


# -------------------------------------------------------------- obligations

class Obligation:
    def __init__(self, name, result, pc, goal, path, note=''):
        self.name, self.result, self.pc, self.goal, self.path, self.note = name, result, pc, goal, path, note

    @property
    def ok(self):
        return bool(self.result)

    def to_dict(self):
        return dict(name=self.name, status=self.result.status, backend=self.result.backend,
                    info=self.result.info, goal=show(self.goal)[:1500] if self.goal is not None else None,
                    pc=[show(p)[:300] for p in self.pc][-40:], path=self.path, note=self.note,
                    model=str(self.result.model)[:2000] if self.result.model is not None else None)


class Engine:
    """explores all paths of run(), a closure that sets up symbolic inputs,
    calls the code under verification and states obligations"""

    def __init__(self, name, pos=(), max_paths=600, timeout=8000, budget=240):
        self.name = name
        self.pos = list(pos)
        self.max_paths = max_paths
        self.timeout = timeout
        self.obligations = []
        self.paths = 0
        self.cut = 0
        self.deadline = time.time() + budget if budget else None
        self.reached = set()
        self.failed = False
        self.unsupported = []
        self.fcache = {}
        self.proved = set()

    def explore(self, run, stop_on_fail=True):
        pending = [[]]
        while pending:
            prefix = pending.pop()
            if self.paths >= self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
            c = Ctx(self, prefix)
            Ctx.cur = c
            self.paths += 1
            try:
                run()
                if c.broken:
                    raise Unsupported(c.broken)
            except PathEnd:
                if c.broken:
                    raise Unsupported(c.broken)
                self.cut += 1
            except Unsupported:
                raise
            except RecursionError:
                raise Unsupported('recursion')
            except Exception as e:
                if c.broken:
                    raise Unsupported(c.broken + ': %s' % e)
                if isinstance(e, ContractError):
                    raise
                # an exception the contract does not allow, on a feasible path
                import traceback
                tb_ = traceback.format_exc()
                st = 'failed'
                if c.axioms:
                    # the solver may have been unable to close the path
                    if Prover(self.pos, self.timeout, c.axioms, c).valid(FALSE, list(c.pc)):
                        self.cut += 1
                        pending.extend(c.alternatives)
                        continue
                    if c.query([TRUE]) != 'sat':
                        st = 'undecided'
                self.obligations.append(Obligation(
                    self.name + ':no-exception', Result(st, 'z3', '%s: %s\n%s' % (type(e).__name__, e, tb_[-1800:])),
                    list(c.pc), None, list(c.decisions)))
                self.failed = True
                if internal_error(e, tb_):
                    raise Unsupported('%s: %s\n%s' % (type(e).__name__, e, tb_[-1500:]))
            finally:
                Ctx.cur = None
                t_._tmp[0] = max(t_._tmp[0], 0)
            pending.extend(c.alternatives)
            if self.failed and stop_on_fail:
                return


def internal_error(e, tb_):
    """exceptions raised by the verifier's own library model (not by the code,
    nor deliberately by a library contract)"""
    if getattr(e, 'vc_raised', False):
        return False
    lines = [l for l in tb_.splitlines() if l.strip().startswith('File ')]
    last = lines[-1] if lines else ''
    return '/pyvc/' in last or '/contracts/' in last or _not_modelled(e)


def _not_modelled(e):
    """an attribute, an operation or an argument of a library object which the library model does not have"""
    msg = str(e)
    if isinstance(e, AttributeError):
        x, name = getattr(e, 'obj', None), getattr(e, 'name', None) or ''
        where = x.__name__ if isinstance(x, types.ModuleType) else (x if isinstance(x, type) else type(x)).__module__
        bases = [b.__module__ for b in (x if isinstance(x, type) else type(x)).__mro__]
        if where.startswith('numpy') or where.startswith('scipy') or where.startswith('pyvc'):
            return True
        # classes of the code which derive from library classes
        import numpy
        return any(b.startswith('pyvc') for b in bases) and hasattr(numpy.ndarray, name)
    if isinstance(e, TypeError):
        if "'Sym'" in msg or "'ndarray'" in msg:
            return True
        m = re.match(r'([\w.<>]+)\(\) (got|missing|takes)\b', msg)
        if m:
            return m.group(1) not in _own_functions() and '<locals>' not in m.group(1)
    return False


def _own_functions():
    """qualified names of the functions of the code under contract"""
    if not _OWN:
        from . import loader

        def visit(node, prefix):
            for n in ast.iter_child_nodes(node):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    _OWN.add(prefix + n.name)
                    if isinstance(n, ast.ClassDef):
                        # the constructor is reported under its own name
                        _OWN.add(prefix + n.name + '.__init__')
                    visit(n, prefix + n.name + '.')
                else:
                    visit(n, prefix)
        for f in sorted(os.listdir(os.path.join(loader.REPO, 'sdepy'))):
            if f.endswith('.py'):
                with open(os.path.join(loader.REPO, 'sdepy', f)) as h:
                    visit(ast.parse(h.read()), '')
    return _OWN


_OWN = set()


def raised(e):
    """mark an exception as the documented behaviour of a library function"""
    e.vc_raised = True
    return e


def check(name, goal, note=''):
    """state an obligation on the current path"""
    c = ctx()
    eng = c.eng
    goal = tm(goal) if not isinstance(goal, bool) else (TRUE if goal else FALSE)
    key = (name, goal, tuple(c.pc), tuple(tuple(f.decisions) for f in c.frames), len(c.axioms))
    if key in eng.proved:
        return Result('proved')       # already counted, on a path with the same prefix
    p = Prover(eng.pos, eng.timeout, c.axioms, c)
    r = p.valid(goal, list(c.pc))
    if not r and goal is FALSE and not c.feasible(TRUE):
        r = Result('proved', 'z3')
    eng.obligations.append(Obligation('%s:%s' % (eng.name, name), r, list(c.pc), goal, list(c.decisions), note))
    if not r:
        eng.failed = True
    else:
        eng.proved.add(key)
    return r


def check_eq(name, a, b, note=''):
    a, b = tm(a), tm(b)
    if a is NAN and b is NAN:
        return check(name, True, note)
    return check(name, eq(a, b), note)


def reach(name):
    """vacuity: this point must be reached on some feasible path"""
    c = ctx()
    c.eng.reached.add(name)


def assume(c):
    ctx().assume(tm(c), check=True)


def given(c, f):
    """obligations stated by f, under the assumption c (which does not outlast them)"""
    ctx().given(c, f)
