"""Loads the real modules of /repo/sdepy for symbolic execution.

What is executed is the parsed text of the files; numpy, scipy, bisect are
replaced by contracts, the python builtins len, range, int, float accept
symbolic values.  The only rewriting is that of `while` loops having a loop
contract, which become one havocked iteration (invariant rule)."""
import ast
import builtins
import os
import sys
import types
from . import snp, loops, srandom, sscipy
from .engine import Sym, Unsupported, ctx, D, PathEnd
from .terms import tm, const, isc, cval, app

REPO = os.environ.get('VERIF_REPO', '/repo')


class _HMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return not x.npy and x.kind in cls.kinds
        return builtins.isinstance(x, cls.base)

    def __subclasscheck__(cls, sub):
        return builtins.issubclass(sub, cls.base) if sub is not cls else True

    def __repr__(cls):
        return "<class '%s'>" % cls.base.__name__

    def __eq__(cls, o):
        return o is cls or o is cls.base

    def __hash__(cls):
        return hash(cls.base)


class HInt(metaclass=_HMeta):
    base, kinds = int, 'ib'

    def __new__(cls, x=0, *a):
        if isinstance(x, snp.ndarray):
            x = x.item()
        if isinstance(x, Sym):
            if x.kind == 'i':
                return Sym(x.t_, 'i')
            if x.kind == 'b':
                return Sym(snp.cast_term(x.t_, 'i'), 'i')
            return Sym(snp.cast_term(x.t_, 'i'), 'i')
        return int(x, *a)


class HFloat(metaclass=_HMeta):
    base, kinds = float, 'f'

    def __new__(cls, x=0.):
        if isinstance(x, snp.ndarray):
            x = x.item()
        if isinstance(x, Sym):
            if x.kind == 'c':
                raise Unsupported('float of a complex')
            return Sym(snp.cast_term(x.t_, 'f'), 'f')
        return float(x)


snp.HOOKS.update({HInt: snp.int64, HFloat: snp.float64})


def h_len(x):
    if isinstance(x, snp.ndarray):
        return x._np_len()
    if hasattr(x, '_symlen'):
        return x._symlen()
    if loops.has_family(x):
        raise Unsupported('length of a list filled in a symbolic loop')
    return len(x)


class HRange:
    """range with symbolic limits: only as the iterable of a for statement"""
    def __new__(cls, *a):
        if all(isinstance(x, int) for x in a):
            return builtins.range(*a)
        a = [tm(x.item()) if isinstance(x, snp.ndarray) else tm(x) for x in a]
        if all(isc(x) for x in a):
            return builtins.range(*[int(cval(x)) for x in a])
        if len(a) == 1:
            lo, hi = const(0), a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            raise Unsupported('range with a step')
        self = object.__new__(cls)
        self.lo, self.hi = lo, hi
        return self

    def __iter__(self):
        f = sys._getframe(1)
        return loops._generic((self.hi,), (self.lo,), True, f)

    def __len__(self):
        raise Unsupported('len of a symbolic range')


def h_isinstance(x, t):
    return builtins.isinstance(x, t)


def h_sum(it, start=0):
    if isinstance(it, snp.ndarray):
        raise Unsupported('builtin sum of an array')
    return builtins.sum(it, start)


class _LoopInfo(ast.NodeVisitor):
    """for each `for` statement, names stored in its body and used elsewhere in the function"""

    def __init__(self, fn):
        self.fn = fn

    def visit_FunctionDef(self, node):
        loads = []
        fors = []
        for n in ast.walk(node):
            if isinstance(n, ast.For):
                fors.append(n)
        for f in fors:
            inside = set(ast.walk(f))
            stored = {n.id for n in inside if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
            aug = {n.target.id for n in inside if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
            out = set()
            # an augmented name is carried over, unless a plain assignment to it comes first in the body
            first = {}
            for n in inside:
                if isinstance(n, ast.Name):
                    first.setdefault(n.id, []).append(((n.lineno, n.col_offset), n))
            carried = set()
            for name in aug:
                st = [p for p, n in first.get(name, []) if isinstance(n.ctx, ast.Store)]
                plain = []
                for n in inside:
                    if isinstance(n, ast.Assign):
                        for tg in n.targets:
                            for q in ast.walk(tg):
                                if isinstance(q, ast.Name) and q.id == name:
                                    plain.append((n.lineno, n.col_offset))
                augp = [(n.lineno, n.col_offset) for n in inside if isinstance(n, ast.AugAssign)
                        and isinstance(n.target, ast.Name) and n.target.id == name]
                if not plain or min(plain) > min(augp):
                    carried.add(name)
            # loaded in the body, in source order, before being stored
            for name in stored - aug:
                def key(pn):
                    p, n = pn
                    return p
                # values are evaluated before targets: order assignment statements accordingly
                events = _events(f, name)
                if events and events[0] == 'load':
                    carried.add(name)
            for n in ast.walk(node):
                if n in inside or not isinstance(n, ast.Name) or not isinstance(n.ctx, ast.Load):
                    continue
                if n.id in stored and n.lineno > f.lineno:
                    # fine if reassigned between the loop and the use, by another loop or a statement
                    if not _reassigned(node, f, n):
                        out.add(n.id)
            loops.FORS[(self.fn, f.lineno)] = out | carried
            loops.STORED[(self.fn, f.lineno)] = stored
        self.generic_visit(node)

    visit_Lambda = ast.NodeVisitor.generic_visit


def _events(f, name):
    """loads and stores of a name in a for body, in evaluation order"""
    ev = []

    def visit(n):
        if isinstance(n, ast.Name):
            if n.id == name:
                ev.append('load' if isinstance(n.ctx, ast.Load) else 'store')
            return
        if isinstance(n, ast.Assign):
            visit(n.value)
            for t in n.targets:
                visit(t)
            return
        if isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name) and n.target.id == name:
                ev.append('load')
            visit(n.value)
            visit(n.target)
            return
        if isinstance(n, ast.For):
            visit(n.iter)
            visit(n.target)
            for s in n.body + n.orelse:
                visit(s)
            return
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in n.generators:
                visit(g.iter)
                visit(g.target)
                for i in g.ifs:
                    visit(i)
            for x in ([n.elt] if not isinstance(n, ast.DictComp) else [n.key, n.value]):
                visit(x)
            return
        for ch in ast.iter_child_nodes(n):
            visit(ch)
    visit(f.target)
    for s in f.body:
        visit(s)
    return ev


def _reassigned(fn, loop, use):
    """is `use` inside a later for loop or comprehension binding the same name, or after a plain assignment?"""
    for n in ast.walk(fn):
        if isinstance(n, (ast.For,)) and n is not loop and use in set(ast.walk(n)):
            names = {q.id for q in ast.walk(n.target) if isinstance(q, ast.Name)}
            if use.id in names and n.lineno > loop.lineno:
                return True
            if _ev_first(n, use.id) == 'store' and n.lineno > (loop.end_lineno or 0):
                return True
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and use in set(ast.walk(n)):
            for g in n.generators:
                if use.id in {q.id for q in ast.walk(g.target) if isinstance(q, ast.Name)}:
                    return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn and use in set(ast.walk(n)):
            if use.id in {a.arg for a in n.args.args}:
                return True
        if isinstance(n, ast.Assign) and n.lineno > (loop.end_lineno or 0) and n.lineno <= use.lineno \
                and use not in set(ast.walk(n)):
            for t in n.targets:
                if use.id in {q.id for q in ast.walk(t) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)}:
                    return True
    return False


def _ev_first(n, name):
    ev = _events(n, name)
    return ev[0] if ev else None


class _Continue(ast.NodeTransformer):
    """continue  ->  back(...), in the body of a loop"""

    def __init__(self, back):
        self.back = back

    def visit_Continue(self, node):
        import copy
        return ast.copy_location(copy.deepcopy(self.back), node)

    def _skip(self, node):
        return node

    visit_For = visit_While = visit_FunctionDef = visit_Lambda = visit_ClassDef = _skip


class _While(ast.NodeTransformer):
    """while c: B  ->  if active: vars = enter(...); while c: B; back(...)   (functions with a loop contract)
                    else: while c: B"""

    def __init__(self):
        self.stack = []

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        name = self.stack[-1] if self.stack else ''
        if name not in loops.CONTRACTED or node.orelse:
            return node
        stored = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        call = lambda f: ast.Call(ast.Name(f, ast.Load()), [ast.Constant(name), ast.Call(ast.Name('__locals__', ast.Load()), [], [])], [])
        enter = ast.Assign([ast.Name('__env__', ast.Store())], call('__while_enter__'))
        sets = []
        for v in stored:
            sets.append(ast.If(ast.Compare(ast.Constant(v), [ast.In()], [ast.Name('__env__', ast.Load())]),
                               [ast.Assign([ast.Name(v, ast.Store())],
                                           ast.Subscript(ast.Name('__env__', ast.Load()), ast.Constant(v), ast.Load()))], []))
        back = ast.Expr(call('__while_back__'))
        import copy
        body = [_Continue(back).visit(copy.deepcopy(n)) for n in node.body]
        # (back ends the path: one generic iteration, and what follows a break or a false test)
        iff = ast.While(node.test, body + [back], [])
        active = ast.Call(ast.Name('__while_active__', ast.Load()), [ast.Constant(name)], [])
        out = ast.If(active, [enter] + sets + [iff], [node])
        ast.copy_location(out, node)
        ast.fix_missing_locations(out)
        return out


class _Iter(ast.NodeTransformer):
    """for x in it  ->  for x in __iter__(it), which knows of lists filled in symbolic loops
    n = [e for x in it if c]  ->  __it__ = it; if __symbolic__(__it__): (a for statement), else as it was"""

    def __init__(self):
        self.depth = 0
        self.n = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = ast.copy_location(ast.Call(ast.Name('__iter__', ast.Load()), [node.iter], []), node.iter)
        return node

    def visit_Assign(self, node):
        v = node.value
        if not self.depth or not isinstance(v, ast.ListComp) or len(v.generators) != 1 or len(node.targets) != 1 \
                or not isinstance(node.targets[0], ast.Name) or not isinstance(v.generators[0].target, ast.Name):
            return node
        for n in ast.walk(v):
            if n is not v and isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda,
                                             ast.NamedExpr, ast.Yield, ast.Await)):
                return node
        import copy
        self.n += 1
        it, out = 'it%d__' % self.n, 'out%d__' % self.n
        g = v.generators[0]
        x = g.target.id

        class R(ast.NodeTransformer):
            def visit_Name(s, n):
                return ast.copy_location(ast.Name('x%d__' % self.n, n.ctx), n) if n.id == x else n
        load = lambda n: ast.Name(n, ast.Load())
        elt = R().visit(copy.deepcopy(v.elt))
        body = ast.Expr(ast.Call(ast.Attribute(load(out), 'append', ast.Load()), [elt], []))
        for c in reversed(g.ifs):
            body = ast.If(R().visit(copy.deepcopy(c)), [body], [])
        loop = ast.For(ast.Name('x%d__' % self.n, ast.Store()), load(it), [body], [])
        first = ast.Assign([ast.Name(it, ast.Store())], ast.Call(load('__iter__'), [g.iter], []))
        g.iter = load(it)
        iff = ast.If(ast.Call(load('__symbolic__'), [load(it)], []),
                     [ast.Assign([ast.Name(out, ast.Store())], ast.List([], ast.Load())), loop,
                      ast.Assign(node.targets, load(out))], [node])
        res = [first, iff]
        for r in res:
            ast.copy_location(r, node)
            ast.fix_missing_locations(r)
        return res


class _Is(ast.NodeTransformer):
    """a is b  ->  __is__(a, b), which knows of opaque values"""

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1 or not isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            return node
        new = ast.Call(ast.Name('__is__', ast.Load()), [node.left, node.comparators[0]], [])
        if isinstance(node.ops[0], ast.IsNot):
            new = ast.UnaryOp(ast.Not(), new)
        return ast.copy_location(new, node)


def h_is(a, b):
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if getattr(type(x), '_vc_opaque', False):
            # an arbitrary value may well be the other one
            from .engine import Ctx
            return Ctx.cur.decide(app('is:%r:%r' % (x, y)))
    return False


def h_iter(x):
    if loops.has_family(x):
        if len(x) != 1:
            raise Unsupported('iteration on several families of elements')
        return loops.FamilyIter(x[0])
    return x


def _symbolic(x):
    return type(x) in (HRange, loops.FamilyIter)


def _active(name):
    return name in loops.CONTRACTS


def _enter(name, env):
    return loops.CONTRACTS[name].enter(env)


def _back(name, env):
    loops.CONTRACTS[name].back(env)
    raise PathEnd()


class World:
    """one loaded copy of the package"""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.np = snp.module()
        self.scipy = sscipy.module(self.np)
        self.bisect = sscipy.bisect_module()
        b = dict(vars(builtins))
        b.update(__import__=self._import, len=h_len, int=HInt, float=HFloat, range=HRange, sum=h_sum,
                 __iter__=h_iter, __symbolic__=_symbolic, __is__=h_is,
                 __while_active__=_active, __while_enter__=_enter, __while_back__=_back, __locals__=self._locals)
        self.builtins = b

    @staticmethod
    def _locals():
        return dict(sys._getframe(1).f_locals)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            if not name:
                pkg = self.load('sdepy.__init__') if False else types.SimpleNamespace()
                for f in fromlist or ():
                    setattr(pkg, f, self.load('sdepy.' + f))
                return pkg
            m = self.load('sdepy.' + name)
            return m
        if name == 'sdepy' or name.startswith('sdepy.'):
            raise Unsupported('absolute import of sdepy')
        top = name.split('.')[0]
        if top == 'numpy':
            if name == 'numpy':
                return self.np
            sub = self.np
            for p in name.split('.')[1:]:
                sub = getattr(sub, p)
            return sub if fromlist else self.np
        if top == 'scipy':
            sub = self.scipy
            for p in name.split('.')[1:]:
                sub = getattr(sub, p)
            return sub if fromlist else self.scipy
        if top == 'bisect':
            return self.bisect
        if top in sys.stdlib_module_names:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        raise Unsupported('import of %s' % name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.repo, *name.split('.')) + '.py'
        src = open(path).read()
        tree = ast.parse(src, path)
        tree = _Iter().visit(_Is().visit(tree))
        ast.fix_missing_locations(tree)
        _LoopInfo(path).visit(tree)
        tree = _While().visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        m.__dict__.update(__builtins__=self.builtins, __file__=path, __package__='sdepy')
        self.mods[name] = m
        sys.modules[name] = m      # for inspect; nothing here imports the real package
        from .engine import Ctx, Engine
        prev = Ctx.cur
        if prev is None:
            Ctx.cur = Ctx(Engine('load'), [])
        try:
            exec(compile(tree, path, 'exec'), m.__dict__)
        finally:
            Ctx.cur = prev
        return m


def world():
    global _W
    if _W is None:
        _W = World()
    return _W


_W = None
