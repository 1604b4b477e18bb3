"""Contracts on numpy: a symbolic model of the functions the code uses.

Arrays have a concrete rank, symbolic or concrete axis lengths, and elements
given by a function from indices to terms.  Views share a buffer.  This module
is the trusted base of the proofs (it is cross-checked against the real numpy
by the run time contracts)."""
import builtins
from fractions import Fraction as Fr
import math
import sys
import types
from . import terms as t_
from .terms import (T, const, tm, var, app, add, sub, mul, div, power, neg, lt, le, ne, and_, or_, not_,
                    ite, fv, subst, ZERO, ONE, TRUE, FALSE, NAN, INF, J, isc, cval, show, implies, reduce_)
from .engine import (Sym, Unsupported, ctx, D, unsym, raised, tb, floordiv, imod, is_sym, PathEnd)

eq_ = t_.eq
_int, _float, _bool, _complex = int, float, bool, complex
_sum, _any, _all, _abs, _min, _max, _round = sum, any, all, abs, min, max, round
newaxis = None
nan = _float('nan')
inf = _float('inf')
pi = Sym(t_.PI, 'f')
e = Sym(t_.fexp(ONE), 'f')


# -------------------------------------------------------------------- dtypes

HOOKS = {}    # replacements of the python types, see loader.py


class _GMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.npy and issubclass(x.dtype.type, cls)
        return type.__instancecheck__(cls, x)


class generic(metaclass=_GMeta):
    pass


class number(generic):
    pass


class integer(number):
    pass


class signedinteger(integer):
    pass


class unsignedinteger(integer):
    pass


class floating(number):
    pass


class inexact(floating):
    pass


class complexfloating(number):
    pass


def _mkt(name, base, kind):
    return _GMeta(name, (base,), {'kind_': kind, 'name_': name})


bool_ = _mkt('bool_', generic, 'b')
int64 = _mkt('int64', signedinteger, 'i')
int32 = _mkt('int32', signedinteger, 'i')
int16 = _mkt('int16', signedinteger, 'i')
int8 = _mkt('int8', signedinteger, 'i')
uint8 = _mkt('uint8', unsignedinteger, 'u')
uint64 = _mkt('uint64', unsignedinteger, 'u')
float64 = _mkt('float64', floating, 'f')
float32 = _mkt('float32', floating, 'f')
float16 = _mkt('float16', floating, 'f')
complex128 = _mkt('complex128', complexfloating, 'c')
object_ = _mkt('object_', generic, 'O')
str_ = _mkt('str_', generic, 'U')
intp = int_ = int64
float_ = double = float64


class dtype:
    def __new__(cls, x=None):
        if isinstance(x, dtype):
            return x
        self = object.__new__(cls)
        if x is None:
            x = float64
        if isinstance(x, str):
            x = {'float': float64, 'int': int64, 'bool': bool_, 'complex': complex128, 'object': object_,
                 'float64': float64, 'float32': float32, 'int64': int64, 'uint8': uint8, 'uint64': uint64, 'int32': int32, 'O': object_, 'f8': float64}[x]
        x = {_float: float64, _int: int64, _bool: bool_, _complex: complex128, object: object_, str: str_}.get(x, x)
        x = HOOKS.get(x, x)
        if not hasattr(x, 'kind_'):
            raise Unsupported('dtype %r' % (x,))
        self.type = x
        self.kind = x.kind_
        self.name = x.name_.rstrip('_')
        return self

    def __eq__(self, o):
        if o is None:
            return False
        try:
            return self.type is dtype(o).type
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.type)

    def __repr__(self):
        return "dtype('%s')" % self.name


_ORD = 'biufcO'


def _join(*ds):
    """result type of arrays dtypes (None: weak python scalars are resolved by the caller)"""
    r = None
    for d in ds:
        if d is None:
            continue
        if r is None:
            r = d
        elif r != d:
            a, b = (r, d) if _ORD.index(r.kind) <= _ORD.index(d.kind) else (d, r)
            if a.kind == b.kind == 'f':
                r = dtype(float64) if 'float64' in (a.name, b.name) else dtype(float32)
            elif a.kind in 'iu' and b.kind == 'f':
                r = dtype(float64)
            elif a.kind in 'iu' and b.kind in 'iu':
                r = dtype(int64)
            else:
                r = b
    return r


def result_type(*xs):
    ds = []
    for x in xs:
        if isinstance(x, ndarray):
            ds.append(x.dtype)
        elif isinstance(x, Sym):
            ds.append(x.dtype)
        elif isinstance(x, (_bool, _int, _float, _complex)) and not isinstance(x, type):
            ds.append(dtype(type(x)))
        else:
            ds.append(dtype(x))
    return _join(*ds)


promote_types = result_type


def cast_term(t, kind):
    """value of t stored with the given dtype kind"""
    if kind == 'b':
        return tb(t)
    if t.s == 'B':
        t = ite(t, ONE, ZERO)
    if kind in 'iu' and t is not NAN:
        if t.s == 'I':
            return t
        if t.op == 'ite':
            return ite(t.a[0], cast_term(t.a[1], kind), cast_term(t.a[2], kind))
        return app('trunc', t, s='I')
    if kind == 'f' and J in fv(t):
        return t_.fre(t)
    return t


# ------------------------------------------------------------------- buffers

SERIAL = [0]


class Buffer:
    __slots__ = ('fn', 'shape', 'kind', 'name', 'born', 'ver', 'dep')

    def __init__(self, fn, shape, kind):
        self.fn = memo(fn)
        self.dep = None     # (buffer, its elements then): either a view of that buffer or a copy, as numpy sees fit
        self.shape = shape
        self.kind = kind
        self.ver = 0
        SERIAL[0] += 1
        self.born = SERIAL[0]


def _fresh(buf):
    if buf.dep is not None and buf.dep[0].fn is not buf.dep[1]:
        raise Unsupported('read of what may be a view or a copy of an array changed since')


def memo(fn):
    d = {}

    def f(idx):
        r = d.get(idx)
        if r is None:
            r = fn(idx)
            d[idx] = r
        return r
    return f


def ident(idx):
    return idx


def dims_known_eq(a, b):
    ta, tb_ = tm(a), tm(b)
    return ta is tb_ or ctx().known(eq_(ta, tb_))


def is1(d):
    if isinstance(d, _int):
        return d == 1
    return ctx().known(eq_(tm(d), ONE))


def decide(c):
    return ctx().decide(tm(c))


def prodshape(shape):
    r = ONE
    for d in shape:
        r = mul(r, tm(d))
    return D(r)


class _flags:
    pass


class ndarray:
    __array_priority__ = 0.0

    def __new__(cls, shape, dtype=None, **kw):
        a = empty(shape, dtype=dtype or _float)
        return a if cls is ndarray else a.view(cls)

    # ------------------------------------------------------------ construction
    @classmethod
    def _np_make(cls, fn, shape, dt):
        a = object.__new__(ndarray)
        a._np_buf = Buffer(fn, shape, dt.kind)
        a._np_map = ident
        a._np_inv = lambda idx: (TRUE, idx)
        a._np_shape = tuple(shape)
        a._np_dt = dt
        return a

    def _np_view(self, shape, vmap, vinv, cls=None, dt=None):
        """view: vmap takes an index of the new view to an index of self, vinv back"""
        a = object.__new__(cls or ndarray)
        a._np_buf = self._np_buf
        m0, i0 = self._np_map, self._np_inv
        a._np_map = lambda idx: m0(vmap(idx))
        if vinv is None or i0 is None:
            a._np_inv = None
        else:
            def inv(idx):
                c, j = i0(idx)
                c2, k = vinv(j)
                return and_(c, c2), k
            a._np_inv = inv
        a._np_shape = tuple(shape)
        a._np_dt = dt or self._np_dt
        if (cls or ndarray) is not ndarray:
            a.__array_finalize__(self)
        return a

    def __array_finalize__(self, obj):
        pass

    def view(self, cls=None):
        if cls is None:
            cls = type(self)
        if not (isinstance(cls, type) and issubclass(cls, ndarray)):
            raise Unsupported('view with a dtype')
        return self._np_view(self._np_shape, ident, lambda j: (TRUE, j), cls=cls)

    # ------------------------------------------------------------------ access
    @property
    def shape(self):
        return self._np_shape

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        self._np_map, self._np_inv, self._np_shape = r._np_map, r._np_inv, r._np_shape

    @property
    def dtype(self):
        return self._np_dt

    @property
    def ndim(self):
        return len(self._np_shape)

    @property
    def size(self):
        return prodshape(self._np_shape)

    @property
    def nbytes(self):
        raise Unsupported('nbytes')

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return real(self)

    @property
    def flags(self):
        raise Unsupported('flags')

    @property
    def base(self):
        raise Unsupported('base')

    def reader(self):
        """snapshot of the elements: index tuple (of terms) -> term"""
        c = ctx()
        if len(c.frames) > 1:
            c.reads.append((self._np_buf, self))
        _fresh(self._np_buf)
        f, m = self._np_buf.fn, self._np_map
        return memo(lambda idx: f(m(idx)))

    def at(self, *idx):
        """element, for specifications"""
        _fresh(self._np_buf)
        return self._np_buf.fn(self._np_map(tuple(tm(i) for i in idx)))

    def __len__(self):
        n = self._np_len()
        if isinstance(n, _int):
            return n
        return n.__index__()

    def _np_len(self):
        if not self._np_shape:
            raise raised(TypeError('len() of unsized object'))
        return self._np_shape[0]

    def __bool__(self):
        if self._np_shape == () or decide(eq_(tm(self.size), ONE)):
            return _bool(self._np_scalar())
        raise raised(ValueError('The truth value of an array with more than one element is ambiguous'))

    def _np_scalar(self):
        t = self.reader()(tuple(ZERO for _ in self._np_shape))
        return Sym(t, {'u': 'i'}.get(self._np_dt.kind, self._np_dt.kind), True, self._np_dt)

    def __index__(self):
        if self._np_shape == ():
            return self._np_scalar().__index__()
        raise raised(TypeError('only integer scalar arrays can be converted to a scalar index'))

    def __float__(self):
        return float(self._np_scalar())

    def item(self, *a):
        if a:
            raise Unsupported('item with arguments')
        if not decide(eq_(tm(self.size), ONE)):
            raise raised(ValueError('can only convert an array of size 1 to a Python scalar'))
        return self._np_scalar()

    def __iter__(self):
        from . import loops
        return loops.iterate(self)

    def tolist(self):
        if all_concrete(self._np_shape) and self.ndim == 1:
            return [self[i] for i in builtins.range(self._np_shape[0])]
        raise Unsupported('tolist')

    def fill(self, v):
        self[...] = v

    def __repr__(self):
        return '<array %s %s>' % (self._np_shape, self._np_dt)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    __hash__ = None

    # ---------------------------------------------------------------- indexing
    def __getitem__(self, key):
        r = _index(self, key)
        if isinstance(r, ndarray) and r._np_shape == () and not _has_ellipsis(key) and type(r) is ndarray:
            return r._np_scalar()
        return r

    def __setitem__(self, key, value):
        _assign(self, key, value)

    def take(self, idx, axis=None):
        return take(self, idx, axis)

    # ------------------------------------------------------------ shape changes
    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        return _reshape(self, tuple(shape))

    def flatten(self, order='C'):
        return _reshape(self, (-1,)).copy()

    def ravel(self, order='C'):
        return _reshape(self, (-1,))

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(builtins.range(self.ndim))[::-1]
        return _transpose(self, axes)

    def swapaxes(self, a, b):
        axes = list(builtins.range(self.ndim))
        a, b = _axis(a, self.ndim), _axis(b, self.ndim)
        axes[a], axes[b] = axes[b], axes[a]
        return _transpose(self, tuple(axes))

    # ------------------------------------------------------------------- copies
    def copy(self, order='C'):
        r = self.reader()
        a = ndarray._np_make(r, self._np_shape, self._np_dt)
        if type(self) is not ndarray:
            b = object.__new__(type(self))
            b.__dict__.update(a.__dict__)
            b.__array_finalize__(self)
            return b
        return a

    def astype(self, dt, order='K', casting='unsafe', subok=True, copy=True):
        dt = dtype(dt)
        if dt == self._np_dt and not copy:
            return self
        r = self.reader()
        k = dt.kind
        a = ndarray._np_make(lambda idx: cast_term(r(idx), k), self._np_shape, dt)
        if type(self) is not ndarray:
            return a.view(type(self)) if False else _subclass_like(a, self)
        return a

    # --------------------------------------------------------------- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return _reduce('sum', self, axis, dtype, out, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return _mean(self, axis, dtype, out, keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return _var(self, axis, dtype, out, ddof, keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        v = _var(self, axis, dtype, None, ddof, keepdims)
        r = sqrt(v)
        if out is not None:
            out[...] = r
            return out
        return r

    def min(self, axis=None, out=None, keepdims=False):
        return _reduce('min', self, axis, None, out, keepdims)

    def max(self, axis=None, out=None, keepdims=False):
        return _reduce('max', self, axis, None, out, keepdims)

    def any(self, axis=None, out=None, keepdims=False):
        return _reduce('any', self, axis, None, out, keepdims)

    def all(self, axis=None, out=None, keepdims=False):
        return _reduce('all', self, axis, None, out, keepdims)

    def prod(self, *a, **k):
        raise Unsupported('prod')

    def argmax(self, *a, **k):
        raise Unsupported('argmax')

    argmin = argsort = sort = prod

    def cumsum(self, axis=None, dtype=None, out=None):
        return _cumsum(self, axis, dtype, out)

    def round(self, *a, **k):
        raise Unsupported('round')

    def conj(self):
        return conjugate(self)

    conjugate = conj

    @property
    def real(self):
        return real(self)

    @property
    def imag(self):
        return imag(self)

    def dot(self, o):
        return matmul(self, o)

    def searchsorted(self, v, side='left'):
        return searchsorted(self, v, side)

    def nonzero(self):
        return where(self)

    # ---------------------------------------------------------------- operators
    def __add__(self, o): return _op(add_uf, self, o)
    def __radd__(self, o): return _op(add_uf, o, self)
    def __sub__(self, o): return _op(subtract, self, o)
    def __rsub__(self, o): return _op(subtract, o, self)
    def __mul__(self, o): return _op(multiply, self, o)
    def __rmul__(self, o): return _op(multiply, o, self)
    def __truediv__(self, o): return _op(divide, self, o)
    def __rtruediv__(self, o): return _op(divide, o, self)
    def __floordiv__(self, o): return _op(floor_divide, self, o)
    def __rfloordiv__(self, o): return _op(floor_divide, o, self)
    def __mod__(self, o): return _op(remainder, self, o)
    def __pow__(self, o): return _op(power_uf, self, o)
    def __rpow__(self, o): return _op(power_uf, o, self)
    def __neg__(self): return negative(self)
    def __pos__(self): return positive(self)
    def __abs__(self): return absolute(self)
    def __invert__(self): return invert(self)
    def __lt__(self, o): return _op(less, self, o)
    def __le__(self, o): return _op(less_equal, self, o)
    def __gt__(self, o): return _op(greater, self, o)
    def __ge__(self, o): return _op(greater_equal, self, o)
    def __eq__(self, o): return _op(equal, self, o)
    def __ne__(self, o): return _op(not_equal, self, o)
    def __and__(self, o): return _op(bitwise_and, self, o)
    def __rand__(self, o): return _op(bitwise_and, o, self)
    def __or__(self, o): return _op(bitwise_or, self, o)
    def __ror__(self, o): return _op(bitwise_or, o, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def _np_iop(self, uf, o):
        return uf(self, o, out=self)

    def __iadd__(self, o): return self._np_iop(add_uf, o)
    def __isub__(self, o): return self._np_iop(subtract, o)
    def __imul__(self, o): return self._np_iop(multiply, o)
    def __itruediv__(self, o): return self._np_iop(divide, o)
    def __ipow__(self, o): return self._np_iop(power_uf, o)


def _subclass_like(a, like):
    b = object.__new__(type(like))
    b.__dict__.update(a.__dict__)
    b.__array_finalize__(like)
    return b


def _op(uf, a, b):
    other = b if isinstance(a, ndarray) else a
    if other is None or isinstance(other, (str, dict)):
        if uf is equal:
            return False
        if uf is not_equal:
            return True
        raise raised(TypeError('unsupported operand'))
    if not isinstance(other, (ndarray, Sym, _int, _float, _complex, tuple, list, Fr)) and not hasattr(other, 't_'):
        return NotImplemented
    return uf(a, b)


def all_concrete(shape):
    return builtins.all(isinstance(d, _int) for d in shape)


def _axis(a, nd):
    a = _conc(a)
    if not -nd <= a < nd:
        raise raised(AxisError('axis %s is out of bounds for array of dimension %s' % (a, nd)))
    return a + nd if a < 0 else a


class AxisError(ValueError, IndexError):
    pass


def _conc(x):
    if isinstance(x, _int):
        return x
    if isinstance(x, Sym) or hasattr(x, '__index__'):
        return x.__index__()
    raise raised(TypeError('an integer is required'))


def _shape_arg(shape):
    if isinstance(shape, ndarray):
        shape = tuple(shape)
    if isinstance(shape, (tuple, list)):
        return tuple(D(tm(x)) if isinstance(x, Sym) else _dimint(x) for x in shape)
    return (D(tm(shape)) if isinstance(shape, Sym) else _dimint(shape),)


def _dimint(x):
    if isinstance(x, _int):
        if x < 0:
            raise raised(ValueError('negative dimensions are not allowed'))
        return _int(x)
    raise raised(TypeError('%r cannot be interpreted as an integer' % (type(x),)))


# ------------------------------------------------------------------ conversion

def array(x, dtype=None, copy=True, ndmin=0, subok=False, order=None):
    a = asarray(x, dtype=dtype)
    return a.copy() if copy and isinstance(x, ndarray) else a


def _nested(x):
    """shape and leaves of nested lists/tuples"""
    if isinstance(x, (list, tuple)):
        subs = [_nested(y) for y in x]
        if not subs:
            return (0,), []
        sh = subs[0][0]
        for s, _ in subs[1:]:
            if len(s) != len(sh):
                raise raised(ValueError('setting an array element with a sequence. inhomogeneous shape'))
            for d1, d2 in zip(s, sh):
                if not dims_known_eq(d1, d2):
                    if not decide(eq_(tm(d1), tm(d2))):
                        raise raised(ValueError('setting an array element with a sequence. inhomogeneous shape'))
        return (len(x),) + tuple(sh), [s for s in subs]
    if isinstance(x, ndarray):
        return x._np_shape, x
    return (), x


def asarray(x, dtype=None, order=None):
    dt = None if dtype is None else _dtype(dtype)
    if isinstance(x, ndarray):
        a = x if type(x) is ndarray or isinstance(x, objarray) else x.view(ndarray)
        if dt is not None and dt != a._np_dt:
            a = a.astype(dt)
        return a
    if isinstance(x, Sym) or isinstance(x, (_bool, _int, _float, _complex, Fr)) or hasattr(x, 't_'):
        t = tm(x)
        d0 = x.dtype if isinstance(x, Sym) else _dtype(type(x)) if type(x) in (_bool, _int, _float, _complex) else _dtype(_float)
        k = (dt or d0).kind
        return ndarray._np_make(lambda idx: cast_term(t, k), (), dt or d0)
    if hasattr(type(x), '_toarray'):
        return asarray(x._toarray(), dt)
    if isinstance(x, (list, tuple)):
        shape, node = _nested(x)
        arrs, dts = [], []

        def flat(y):
            if isinstance(y, (list, tuple)):
                for z in y:
                    flat(z)
            else:
                arrs.append(asarray(y))
        flat(x)
        if builtins.any(isinstance(a, objarray) for a in arrs):
            raise Unsupported('object arrays from lists')
        d0 = _join(*[a._np_dt for a in arrs]) if arrs else _dtype(_float)
        k = (dt or d0).kind

        def build(y):
            if isinstance(y, (list, tuple)):
                subs = [build(z) for z in y]

                def fn(idx):
                    i, rest = idx[0], idx[1:]
                    if isc(i) and -len(subs) <= cval(i) < len(subs):
                        return subs[_int(cval(i))](rest)
                    r = subs[-1](rest) if subs else ZERO
                    for j in builtins.range(len(subs) - 2, -1, -1):
                        r = ite(eq_(i, const(j)), subs[j](rest), r)
                    return r
                return fn
            return asarray(y).reader()
        f = build(x)
        return ndarray._np_make(lambda idx: cast_term(f(idx), k), shape, dt or d0)
    if isinstance(x, types.GeneratorType) or isinstance(x, (dict, str, set)) or callable(x) or x is None:
        o = objarray(())
        o.items[()] = x
        return o
    raise Unsupported('asarray(%r)' % (type(x),))


def _dtype(x):
    return dtype_cls(x)


dtype_cls = dtype


def asanyarray(x, dtype=None):
    if isinstance(x, ndarray) and dtype is None:
        return x
    return asarray(x, dtype)


ascontiguousarray = asarray


def empty(shape, dtype=None, order=None):
    shape = _shape_arg(shape)
    dt = _dtype(dtype)
    if dt.kind == 'O':
        return objarray(shape)
    name = ctx().freshname('empty')
    s = {'b': 'B', 'i': 'I', 'u': 'I'}.get(dt.kind, 'R')
    return ndarray._np_make(lambda idx: app(name, *idx, s=s), shape, dt)


def full(shape, fill_value, dtype=None, order=None):
    shape = _shape_arg(shape)
    v = asarray(fill_value)
    dt = v._np_dt if dtype is None else _dtype(dtype)
    if dt.kind == 'O':
        o = objarray(shape)
        o[...] = fill_value
        return o
    a = empty(shape, dt)
    a[...] = v
    if a._np_buf.kind in 'iu' and v is NAN:
        raise Unsupported('nan to int')
    return a


def zeros(shape, dtype=None, order=None):
    dt = _dtype(dtype)
    shape = _shape_arg(shape)
    if dt.kind == 'O':
        o = objarray(shape)
        o[...] = 0
        return o
    z = FALSE if dt.kind == 'b' else ZERO
    return ndarray._np_make(lambda idx: z, shape, dt)


def ones(shape, dtype=None, order=None):
    dt = _dtype(dtype)
    z = TRUE if dt.kind == 'b' else ONE
    return ndarray._np_make(lambda idx: z, _shape_arg(shape), dt)


def zeros_like(a, dtype=None):
    a = asarray(a)
    return zeros(a._np_shape, dtype or a._np_dt)


def ones_like(a, dtype=None):
    a = asarray(a)
    return ones(a._np_shape, dtype or a._np_dt)


def empty_like(a, dtype=None):
    a = asarray(a)
    return empty(a._np_shape, dtype or a._np_dt)


def full_like(a, v, dtype=None):
    a = asarray(a)
    return full(a._np_shape, v, dtype or a._np_dt)


def eye(n, m=None, dtype=None):
    n = _shape_arg(n)[0]
    return ndarray._np_make(lambda ij: ite(eq_(ij[0], ij[1]), ONE, ZERO), (n, n), _dtype(dtype))


identity = eye


def diag(v):
    v = asarray(v)
    r = v.reader()
    if v.ndim == 1:
        n = v._np_shape[0]
        return ndarray._np_make(lambda ij: ite(eq_(ij[0], ij[1]), r((ij[0],)), ZERO), (n, n), v._np_dt)
    if v.ndim == 2:
        return ndarray._np_make(lambda i: r((i[0], i[0])), (v._np_shape[0],), v._np_dt)
    raise raised(ValueError('Input must be 1- or 2-d.'))


def arange(*a, dtype=None):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        (lo, hi), st = a, 1
    else:
        lo, hi, st = a
    if tm(lo).s != 'I' or tm(hi).s != 'I' or st != 1:
        raise Unsupported('arange')
    n = D(t_.tmax(ZERO, sub(tm(hi), tm(lo))))
    return ndarray._np_make(lambda i: add(tm(lo), i[0]), (n,), _dtype(dtype or _int))


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = tm(num)
    if n.s != 'I':
        raise raised(TypeError('num must be an integer'))
    if decide(lt(n, ZERO)):
        raise raised(ValueError('Number of samples, %s, must be non-negative.'))
    if not endpoint or retstep:
        raise Unsupported('linspace options')
    ta, tb_ = tm(a) if not isinstance(a, ndarray) else tm(a._np_scalar()), tm(b) if not isinstance(b, ndarray) else tm(b._np_scalar())
    dt = _dtype(dtype)
    n1 = sub(n, ONE)

    def fn(i):
        k = i[0]
        v = add(ta, mul(k, div(sub(tb_, ta), n1)))
        return cast_term(ite(eq_(k, ZERO), ta, ite(eq_(k, n1), tb_, v)), dt.kind)
    return ndarray._np_make(fn, (D(n),), dt)


def fromiter(it, dtype=None, count=-1):
    if isinstance(it, ndarray):
        return it.astype(dtype) if it.ndim == 1 else _unsup('fromiter')
    return array(list(it), dtype=dtype)


def _unsup(s):
    raise Unsupported(s)


# ------------------------------------------------------------------ broadcasting

def _bshape2(s1, s2, err):
    n = builtins.max(len(s1), len(s2))
    a = (1,)*(n - len(s1)) + tuple(s1)
    b = (1,)*(n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, _int) and isinstance(y, _int):
            if x == y or y == 1:
                out.append(x)
            elif x == 1:
                out.append(y)
            else:
                raise raised(ValueError(err))
        elif tm(x) is tm(y):
            out.append(x)
        elif isinstance(x, _int) and x == 1:
            out.append(y)
        elif isinstance(y, _int) and y == 1:
            out.append(x)
        elif decide(eq_(tm(x), tm(y))):
            out.append(x if not isinstance(y, _int) else y)
        elif decide(eq_(tm(y), ONE)):
            out.append(x)
        elif decide(eq_(tm(x), ONE)):
            out.append(y)
        else:
            raise raised(ValueError(err))
    return tuple(out)


def bshape(*shapes, err='operands could not be broadcast together'):
    r = ()
    for s in shapes:
        r = _bshape2(r, s, err)
    return r


broadcast_shapes = bshape


def bmap(src, dst):
    """index map from dst (broadcast) to src"""
    k = len(dst) - len(src)
    drop = []
    for d, x in zip(src, dst[k:]):
        if isinstance(d, _int):
            drop.append(d == 1 and not (isinstance(x, _int) and x == 1) or d == 1)
        elif tm(d) is tm(x):
            drop.append(False)
        elif dims_known_eq(d, x):
            drop.append(False)
        elif is1(d):
            drop.append(True)
        else:
            raise Unsupported('broadcast of unrelated axis lengths %s %s' % (show(tm(d)), show(tm(x))))
    if k == 0 and not builtins.any(drop):
        return ident
    return lambda idx: tuple(ZERO if z else i for z, i in zip(drop, idx[k:]))


def broadcast_to(a, shape, subok=False):
    a = asarray(a)
    shape = _shape_arg(shape)
    err = 'operands could not be broadcast together with remapped shapes'
    if len(a._np_shape) > len(shape):
        raise raised(ValueError(err))
    r = _bshape2(a._np_shape, shape, err)
    for x, y in zip(r, shape):
        if not dims_known_eq(x, y) and not decide(eq_(tm(x), tm(y))):
            raise raised(ValueError(err))
    m = bmap(a._np_shape, shape)
    return a._np_view(shape, m, None)


def broadcast_arrays(*arrs, subok=False):
    arrs = [asarray(a) for a in arrs]
    s = bshape(*[a._np_shape for a in arrs], err='shape mismatch: objects cannot be broadcast to a single shape')
    return [broadcast_to(a, s) for a in arrs]


def broadcast(*arrs):
    s = bshape(*[asarray(a)._np_shape for a in arrs])
    return types.SimpleNamespace(shape=s)


# ------------------------------------------------------------------------ ufuncs

class ufunc:
    def __init__(self, name, nin, fn, rdt):
        self.__name__, self.nin, self.fn, self.rdt = name, nin, fn, rdt

    def __repr__(self):
        return '<ufunc %s>' % self.__name__

    def __call__(self, *args, out=None, where=True, dtype=None, casting=None):
        if where is not True:
            raise Unsupported('ufunc where=')
        if len(args) > self.nin:
            out = args[self.nin]
            args = args[:self.nin]
        if isinstance(out, tuple):
            out, = out
        if len(args) != self.nin:
            raise raised(TypeError('%s() takes %d arguments' % (self.__name__, self.nin)))
        arrs = [asanyarray(a) for a in args]
        if builtins.any(isinstance(a, objarray) for a in arrs):
            return _obj_ufunc(self, args, arrs)
        shapes = [a._np_shape for a in arrs]
        shape = bshape(*shapes)
        if out is not None:
            o = _bshape2(shape, out._np_shape, 'non-broadcastable output operand')
            if len(o) != len(out._np_shape) or not builtins.all(
                    dims_known_eq(x, y) or decide(eq_(tm(x), tm(y))) for x, y in zip(o, out._np_shape)):
                raise raised(ValueError('non-broadcastable output operand'))
            shape = out._np_shape
        dts = []
        for a, x in zip(arrs, args):
            dts.append((a._np_dt, isinstance(x, ndarray) and a._np_shape != ()))
        rdt = self.rdt(dts) if dtype is None else _dtype(dtype)
        # subclasses hooks (numpy < 2)
        full_args = tuple(args) + ((out,) if out is not None else ())
        hook = None
        if out is not None:
            if type(out) is not ndarray:
                hook = out
        else:
            best = None
            for a in args:
                if type(a) is ndarray or not isinstance(a, ndarray):
                    continue
                if best is None or a.__array_priority__ > best.__array_priority__:
                    best = a
            hook = best
        maps = [bmap(s, shape) for s in shapes]
        rs = [a.reader() for a in arrs]
        fn = self.fn
        kind = rdt.kind

        def el(idx):
            return cast_term(fn(*[r(m(idx)) for r, m in zip(rs, maps)]), kind)
        if out is not None:
            if hook is not None and hasattr(hook, '__array_prepare__'):
                hook.__array_prepare__(out, (self, full_args, 0))
            if _ORD.index(rdt.kind) > _ORD.index(out._np_dt.kind) and not (
                    rdt.kind == 'i' and out._np_dt.kind == 'u'):
                raise raised(TypeError("Cannot cast ufunc '%s' output from %s to %s" % (self.__name__, rdt, out._np_dt)))
            _store(out, el)
            if hook is not None and hasattr(hook, '__array_wrap__'):
                r = hook.__array_wrap__(out, (self, full_args, 0))
                return r
            return out
        res = ndarray._np_make(el, shape, rdt)
        if hook is not None:
            if hasattr(hook, '__array_prepare__'):
                res = hook.__array_prepare__(res, (self, full_args, 0))
            if hasattr(hook, '__array_wrap__'):
                return hook.__array_wrap__(res, (self, full_args, 0))
        if shape == ():
            return res._np_scalar()
        return res

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False):
        k = {'add': 'sum', 'minimum': 'min', 'maximum': 'max', 'logical_or': 'any', 'logical_and': 'all'}.get(self.__name__)
        if k is None:
            raise Unsupported('reduce')
        return _reduce(k, asarray(a), axis, dtype, out, keepdims)

    def accumulate(self, a, axis=0):
        if self.__name__ != 'add':
            raise Unsupported('accumulate')
        return _cumsum(asarray(a), axis, None, None)

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        return self(a.reshape(a._np_shape + (1,)*b.ndim), b)


def _obj_ufunc(uf, args, arrs):
    raise Unsupported('arithmetic on object arrays')


def _rt_arith(dts):
    arr = [d for d, isarr in dts if isarr]
    sc = [d for d, isarr in dts if not isarr]
    if not arr or not sc:
        r = _join(*(arr or sc))
        if r.kind == 'b':
            return _dtype(_int) if False else r
        return r
    ra, rs = _join(*arr), _join(*sc)
    # value based casting of scalars: only a higher kind matters
    if _ORD.index(rs.kind) > _ORD.index(ra.kind) and not (ra.kind in 'iu' and rs.kind in 'iu'):
        if ra.kind == 'f' and rs.kind == 'c':
            return _dtype(_complex)
        return rs
    return ra


def _rt_float(dts):
    r = _rt_arith(dts)
    return r if r.kind in 'fc' else _dtype(_float)


def _rt_bool(dts):
    return _dtype(_bool)


def _f_add(a, b):
    return or_(a, b) if a.s == b.s == 'B' else add(a, b)


def _f_mul(a, b):
    return and_(a, b) if a.s == b.s == 'B' else mul(a, b)


add_uf = ufunc('add', 2, _f_add, _rt_arith)
subtract = ufunc('subtract', 2, sub, _rt_arith)
multiply = ufunc('multiply', 2, _f_mul, _rt_arith)
divide = true_divide = ufunc('divide', 2, div, _rt_float)
power_uf = ufunc('power', 2, power, _rt_arith)
floor_divide = ufunc('floor_divide', 2, floordiv, _rt_arith)
remainder = mod = ufunc('remainder', 2, imod, _rt_arith)
negative = ufunc('negative', 1, neg, _rt_arith)
positive = ufunc('positive', 1, lambda a: a, _rt_arith)
absolute = ufunc('absolute', 1, t_.tabs, _rt_arith)
fabs = ufunc('fabs', 1, t_.tabs, _rt_float)
sign = ufunc('sign', 1, t_.tsign, _rt_arith)
exp = ufunc('exp', 1, t_.fexp, _rt_float)
expm1 = ufunc('expm1', 1, lambda a: sub(t_.fexp(a), ONE), _rt_float)
log = ufunc('log', 1, t_.flog, _rt_float)
log1p = ufunc('log1p', 1, lambda a: t_.flog(add(ONE, a)), _rt_float)
sqrt = ufunc('sqrt', 1, t_.fsqrt, _rt_float)
square = ufunc('square', 1, lambda a: mul(a, a), _rt_arith)
reciprocal = ufunc('reciprocal', 1, lambda a: div(ONE, a), _rt_arith)
sin = ufunc('sin', 1, lambda a: t_.fsin(a), _rt_float)
cos = ufunc('cos', 1, lambda a: t_.fcos(a), _rt_float)
sinh = ufunc('sinh', 1, lambda a: div(sub(t_.fexp(a), t_.fexp(neg(a))), const(2)), _rt_float)
cosh = ufunc('cosh', 1, lambda a: div(add(t_.fexp(a), t_.fexp(neg(a))), const(2)), _rt_float)
maximum = fmax = ufunc('maximum', 2, t_.tmax, _rt_arith)
minimum = fmin = ufunc('minimum', 2, t_.tmin, _rt_arith)
less = ufunc('less', 2, lt, _rt_bool)
less_equal = ufunc('less_equal', 2, le, _rt_bool)
greater = ufunc('greater', 2, lambda a, b: lt(b, a), _rt_bool)
greater_equal = ufunc('greater_equal', 2, lambda a, b: le(b, a), _rt_bool)
equal = ufunc('equal', 2, eq_, _rt_bool)
not_equal = ufunc('not_equal', 2, ne, _rt_bool)
logical_and = ufunc('logical_and', 2, lambda a, b: and_(tb(a), tb(b)), _rt_bool)
logical_or = ufunc('logical_or', 2, lambda a, b: or_(tb(a), tb(b)), _rt_bool)
logical_not = ufunc('logical_not', 1, lambda a: not_(tb(a)), _rt_bool)
logical_xor = ufunc('logical_xor', 2, lambda a, b: ne(tb(a), tb(b)), _rt_bool)
bitwise_and = ufunc('bitwise_and', 2, lambda a, b: and_(tb(a), tb(b)) if a.s == 'B' else _unsup('&'), _rt_arith)
bitwise_or = ufunc('bitwise_or', 2, lambda a, b: or_(tb(a), tb(b)) if a.s == 'B' else _unsup('|'), _rt_arith)
invert = ufunc('invert', 1, lambda a: not_(a) if a.s == 'B' else sub(const(-1), a), _rt_arith)
isnan = ufunc('isnan', 1, lambda a: TRUE if a is NAN else FALSE, _rt_bool)
isfinite = ufunc('isfinite', 1, lambda a: FALSE if a is NAN or INF in fv(a) else TRUE, _rt_bool)
isinf = ufunc('isinf', 1, lambda a: TRUE if INF in fv(a) else FALSE, _rt_bool)
floor = ufunc('floor', 1, lambda a: app('floor', a, s='I'), _rt_float)
heaviside = ufunc('heaviside', 2, lambda a, b: ite(lt(a, ZERO), ZERO, ite(eq_(a, ZERO), b, ONE)), _rt_float)


def real(x):
    a = asarray(x)
    r = a.reader()
    res = ndarray._np_make(lambda i: t_.fre(r(i)), a._np_shape, _dtype(_float))
    return res._np_scalar() if a._np_shape == () else res


def imag(x):
    a = asarray(x)
    r = a.reader()
    res = ndarray._np_make(lambda i: t_.fim(r(i)), a._np_shape, _dtype(_float))
    return res._np_scalar() if a._np_shape == () else res


def _conj(t):
    x, y = t_.cparts(t)
    return sub(x, mul(J, y))


def conjugate(x):
    a = asarray(x)
    r = a.reader()
    res = ndarray._np_make(lambda i: _conj(r(i)), a._np_shape, a.dtype)
    return res._np_scalar() if a._np_shape == () else res


def _store(view, el):
    """assign element function el to a view, with the proper cast"""
    if view._np_inv is None:
        raise raised(ValueError('assignment destination is read-only'))
    buf = view._np_buf
    if buf.dep is not None:
        raise Unsupported('assignment to what may be a view or a copy')
    old = buf.fn
    inv = view._np_inv
    kind = buf.kind

    def new(idx):
        c, j = inv(idx)
        if c is FALSE:
            return old(idx)
        return ite(c, cast_term(el(j), kind), old(idx)) if c is not TRUE else cast_term(el(j), kind)
    c = ctx()
    c.writes.append((buf, old, lambda idx: inv(idx)[0]))
    buf.fn = memo(new)
    buf.ver += 1


# ----------------------------------------------------------------------- indexing

def _has_ellipsis(key):
    if isinstance(key, tuple):
        return builtins.any(k is Ellipsis for k in key)
    return key is Ellipsis


def slice_norm(s, n):
    """python slice -> (start term, step int, length term) on an axis of length n"""
    step = 1 if s.step is None else _conc(s.step)
    if step == 0:
        raise raised(ValueError('slice step cannot be zero'))
    n = tm(n)

    def clip(v, lo, hi):
        v = tm(v)
        if v.s != 'I':
            raise raised(TypeError('slice indices must be integers'))
        if decide(lt(v, ZERO)):
            v = add(v, n)
            if decide(lt(v, lo)):
                v = lo
        elif decide(lt(hi, v)):
            v = hi
        return v
    if step > 0:
        lo, hi = ZERO, n
        a = lo if s.start is None else clip(s.start, lo, hi)
        b = hi if s.stop is None else clip(s.stop, lo, hi)
    else:
        lo, hi = const(-1), sub(n, ONE)
        a = hi if s.start is None else clip(s.start, lo, hi)
        b = lo if s.stop is None else clip(s.stop, lo, hi)
    span = sub(b, a) if step > 0 else sub(a, b)
    if decide(le(span, ZERO)):
        return a, step, ZERO
    k = builtins.abs(step)
    ln = span if k == 1 else floordiv(add(span, const(k - 1)), const(k))
    return a, step, ln


def norm_int(i, n, what='index'):
    i = tm(i)
    if i.s == 'B':
        raise Unsupported('boolean scalar index')
    if i.s != 'I':
        raise raised(IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer '
                                'or boolean arrays are valid indices'))
    n = tm(n)
    if decide(lt(i, ZERO)):
        if decide(lt(i, neg(n))):
            raise raised(IndexError('index out of bounds'))
        return add(i, n)
    if decide(le(n, i)):
        raise raised(IndexError('index out of bounds'))
    return i


def _isadv(k):
    return isinstance(k, (ndarray, list)) and not (isinstance(k, ndarray) and k._np_shape == () and k._np_dt.kind in 'iu')


def _prep_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    out = []
    for k in key:
        if isinstance(k, str):
            raise raised(IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and '
                                    'integer or boolean arrays are valid indices'))
        if isinstance(k, list) or (isinstance(k, tuple)):
            k = asarray(list(k))
            if k.size == 0:
                k = k.astype(_int)
        if isinstance(k, Sym) and k.kind == 'b' or isinstance(k, _bool):
            raise Unsupported('boolean scalar index')
        if isinstance(k, ndarray) and k._np_shape == () and k._np_dt.kind in 'iu':
            k = k._np_scalar()
        if isinstance(k, _float) or isinstance(k, Sym) and k.kind == 'f':
            raise raised(IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and '
                                    'integer or boolean arrays are valid indices'))
        out.append(k)
    nax = 0
    for k in out:
        if k is None or k is Ellipsis:
            continue
        nax += k.ndim if isinstance(k, ndarray) and k._np_dt.kind == 'b' else 1
    ne_ = _sum(1 for k in out if k is Ellipsis)
    if ne_ > 1:
        raise raised(IndexError("an index can only have a single ellipsis ('...')"))
    if nax > a.ndim:
        raise raised(IndexError('too many indices for array'))
    fill = [slice(None)]*(a.ndim - nax)
    if ne_:
        p = [i for i, k in enumerate(out) if k is Ellipsis][0]
        out[p:p+1] = fill
    else:
        out = out + fill
    return out


def _index(a, key):
    ks = _prep_key(a, key)
    if builtins.any(isinstance(k, ndarray) for k in ks):
        return _adv_index(a, ks)
    shape, spec = [], []   # spec: per source axis ('fix', term) or ('aff', start, step, outaxis)
    ax = 0
    for k in ks:
        if k is None:
            shape.append(1)
            continue
        n = a._np_shape[ax]
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                spec.append(('aff', ZERO, 1, len(shape), n))
                shape.append(n)
            else:
                s, st, ln = slice_norm(k, n)
                spec.append(('aff', s, st, len(shape), D(ln)))
                shape.append(D(ln))
        else:
            spec.append(('fix', norm_int(k, n)))
        ax += 1
    return _affview(a, shape, spec)


def _affview(a, shape, spec, cls=None):
    nout = len(shape)

    def vmap(idx):
        r = []
        for s in spec:
            if s[0] == 'fix':
                r.append(s[1])
            elif s[2] == 1:
                r.append(add(s[1], idx[s[3]]))
            else:
                r.append(add(s[1], mul(const(s[2]), idx[s[3]])))
        return tuple(r)

    def vinv(j):
        out = [ZERO]*nout
        c = []
        for s, i in zip(spec, j):
            if s[0] == 'fix':
                c.append(eq_(i, s[1]))
            else:
                _, st, step, ax, ln = s
                if st is ZERO and step == 1 and tm(ln) is fulllen.get(id(s)):
                    pass
                d = sub(i, st)
                if step == 1:
                    k = d
                elif step == -1:
                    k = neg(d)
                else:
                    sg = d if step > 0 else neg(d)
                    m = const(builtins.abs(step))
                    c.append(eq_(imod(sg, m), ZERO))
                    k = floordiv(sg, m)
                if not (st is ZERO and step == 1 and full_[id(s)]):
                    c.append(le(ZERO, k))
                    c.append(lt(k, tm(ln)))
                out[ax] = k
        return and_(*c), tuple(out)
    fulllen = {}
    full_ = {}
    ax = 0
    for s in spec:
        if s[0] == 'aff':
            full_[id(s)] = tm(s[4]) is tm(a._np_shape[ax])
        ax += 1
    return a._np_view(shape, vmap, vinv, cls=type(a) if (cls is None and type(a) is not ndarray and not isinstance(a, objarray)) else cls)


def mask_fns(mask):
    """selector and rank functions of a boolean array"""
    r = mask.reader()
    n = mask.ndim
    vs = tuple(var('%%m%d' % i, 'I') for i in builtins.range(n))
    body = r(vs)
    c = ctx()
    if n == 1 and isc(tm(mask._np_shape[0])):
        val = [r((const(i),)) for i in builtins.range(_int(cval(tm(mask._np_shape[0]))))]
        if builtins.all(v is TRUE or v is FALSE for v in val):
            # a known mask
            on = [i for i, v in enumerate(val) if v is TRUE]

            def at(k):
                out = ZERO
                for j, i in reversed(list(enumerate(on))):
                    out = const(i) if j == len(on) - 1 else ite(eq_(k, const(j)), const(i), out)
                return (out,)

            def before(idx):
                out = const(0)
                for i in builtins.range(len(val)):
                    out = ite(eq_(idx[0], const(i)), const(builtins.sum(j < i for j in on)), out)
                return out
            return r, at, before, len(on)
    free = sorted(fv(body) - set(vs), key=lambda v: v.id)
    # (the same functions, whatever the name of the variables)
    canon = subst(body, {v: var('%%f%d' % i, v.s) for i, v in enumerate(free)})
    key = 'mask%d' % canon.id + ''.join('_%d' % tm(d).id for d in mask._np_shape)
    if n == 1:
        count = t_.tsum(tm(mask._np_shape[0]), lambda k: ite(r((k,)), ONE, ZERO))
    else:
        def cnt(i, pre):
            if i == n:
                return ite(r(pre), ONE, ZERO)
            return t_.tsum(tm(mask._np_shape[i]), lambda k: cnt(i + 1, pre + (k,)))
        count = cnt(0, ())
    if not isc(count):
        done = c.__dict__.setdefault('masks', {})
        if (key, tuple(free)) not in done:
            done[(key, tuple(free))] = True
            import z3

            def ax(conv, key=key, free=tuple(free), count=count, lv=[v for v in free if v in c.loopvars]):
                k = var('%%mk', 'I')
                lz = [conv(v) for v in lv]
                sel = [app('sel%d:%s' % (d, key), k, *free, s='I') for d in builtins.range(n)]
                rk = app('rank:' + key, *vs, *free, s='I')
                kz = conv(k)
                cz = conv(count)
                if not z3.is_int(cz):
                    cz = z3.ToInt(cz)
                rng = z3.And(kz >= 0, kz < cz)
                inr = z3.And(*[z3.And(conv(s) >= 0, conv(s) < conv(tm(d))) for s, d in zip(sel, mask._np_shape)])
                b = conv(subst(body, dict(zip(vs, sel))))
                back = conv(subst(rk, dict(zip(vs, sel)))) == kz
                p1 = z3.ForAll([kz] + lz, z3.Implies(rng, z3.And(inr, b, back)), patterns=[conv(s) for s in sel[:1]])
                vz = [conv(v) for v in vs]
                bound = z3.And(*[z3.And(v >= 0, v < conv(tm(d))) for v, d in zip(vz, mask._np_shape)])
                rz = conv(rk)
                sb = z3.And(*[conv(subst(s, {k: rk})) == v for s, v in zip(sel, vz)])
                p2 = z3.ForAll(vz + lz, z3.Implies(z3.And(bound, conv(body)), z3.And(rz >= 0, rz < cz, sb)), patterns=[rz] + _pats(conv(body), vz + lz))
                ps = [p1, p2, z3.ForAll(lz, cz >= 0) if lz else cz >= 0]
                if n == 1:
                    k2 = z3.Int('%mk2')
                    s2 = z3.substitute(conv(sel[0]), (kz, k2))
                    ps.append(z3.ForAll([kz, k2] + lz, z3.Implies(z3.And(kz >= 0, kz < k2, k2 < cz), conv(sel[0]) < s2),
                                        patterns=[z3.MultiPattern(conv(sel[0]), s2)]))
                return z3.And(*ps)
            # (true for any value of the loop variables)
            ax.sampled = ()     # (they define the new symbols sel, rank, which are not sampled)
            c.axiom(ax)
    sel = lambda k: tuple(app('sel%d:%s' % (d, key), k, *free, s='I') for d in builtins.range(n))
    rank = lambda idx: app('rank:' + key, *idx, *free, s='I')
    c.__dict__.setdefault('mask_log', []).append((
        r, sel, rank, count,
        lambda idx: t_.implies(and_(*[and_(le(ZERO, i), lt(i, tm(d))) for i, d in zip(idx, mask._np_shape)], r(idx)),
                               and_(le(ZERO, rank(idx)), lt(rank(idx), count), *[eq_(a, b) for a, b in zip(sel(rank(idx)), idx)])),
        lambda k: t_.implies(and_(le(ZERO, k), lt(k, count)),
                             and_(*[and_(le(ZERO, i), lt(i, tm(d))) for i, d in zip(sel(k), mask._np_shape)], r(sel(k)), eq_(rank(sel(k)), k)))))
    return r, sel, rank, D(count)


def _check_mask(m, dims):
    for x, d in zip(m._np_shape, dims):
        if not dims_known_eq(x, d) and not decide(eq_(tm(x), tm(d))):
            raise raised(IndexError('boolean index did not match indexed array'))


def _adv_plan(a, ks):
    """only one advanced index (mask or integer array), others slices/ints/newaxis"""
    adv = [i for i, k in enumerate(ks) if isinstance(k, ndarray)]
    if len(adv) > 1:
        raise Unsupported('several advanced indices')
    return adv[0]


def _adv_index(a, ks):
    p = _adv_plan(a, ks)
    m = ks[p]
    ints = [i for i, k in enumerate(ks) if not isinstance(k, (ndarray, slice)) and k is not None]
    if ints:
        raise Unsupported('advanced and integer indices together')
    if isinstance(a, objarray) or isinstance(m, objarray):
        raise Unsupported('advanced indexing of object arrays')
    # apply the other indices first
    pre = [k for k in ks[:p]]
    nb = m.ndim if m._np_dt.kind == 'b' else 1
    basic = tuple(pre) + (slice(None),)*nb + tuple(ks[p+1:])
    b = _index(a, basic).view(ndarray)
    q = len(pre)
    r = b.reader()
    if m._np_dt.kind == 'b':
        _check_mask(m, b._np_shape[q:q+nb])
        mr, sel, rank, count = mask_fns(m)
        shape = b._np_shape[:q] + (count,) + b._np_shape[q+nb:]
        return _like(a, ndarray._np_make(lambda idx: r(idx[:q] + sel(idx[q]) + idx[q+1:]), shape, b._np_dt))
    if m._np_dt.kind not in 'iu':
        raise raised(IndexError('arrays used as indices must be of integer (or boolean) type'))
    mr = m.reader()
    n = tm(b._np_shape[q])
    k = m.ndim
    ok = FALSE
    _check_bounds(m, n)

    def fn(idx):
        j = mr(idx[q:q+k])
        j = ite(lt(j, ZERO), add(j, n), j)
        return r(idx[:q] + (j,) + idx[q+k:])
    shape = b._np_shape[:q] + m._np_shape + b._np_shape[q+1:]
    return _like(a, ndarray._np_make(fn, shape, b._np_dt))


def _check_bounds(m, n):
    """IndexError unless all entries are in bounds"""
    r = m.reader()

    def rec(i, pre):
        if i == m.ndim:
            v = r(pre)
            return and_(le(neg(n), v), lt(v, n))
        return reduce_('all', tm(m._np_shape[i]), lambda k: rec(i + 1, pre + (k,)))
    c = rec(0, ())
    if not decide(c):
        raise raised(IndexError('index out of bounds'))


def _like(a, r):
    return r if type(a) is ndarray else _subclass_like(r, a)


def _assign(a, key, value):
    ks = _prep_key(a, key)
    if not builtins.any(isinstance(k, ndarray) for k in ks):
        v = _index(a, key).view(ndarray) if type(a) is not ndarray else _index(a, key)
        _put(v, value)
        return
    p = _adv_plan(a, ks)
    m = ks[p]
    if m._np_dt.kind != 'b':
        raise Unsupported('assignment through integer arrays')
    pre = [k for k in ks[:p]]
    if builtins.any(not isinstance(k, slice) for k in pre):
        raise Unsupported('mask after integer index')
    if builtins.any(not isinstance(k, slice) for k in ks[p+1:]):
        raise Unsupported('mask before integer index')
    nb = m.ndim
    b = _index(a, tuple(pre) + (slice(None),)*nb + tuple(ks[p+1:])).view(ndarray)
    q = len(pre)
    _check_mask(m, b._np_shape[q:q+nb])
    mr, sel, rank, count = mask_fns(m)
    val = asarray(value)
    tshape = b._np_shape[:q] + (count,) + b._np_shape[q+nb:]
    vb = broadcast_to(val, tshape)
    vr = vb.reader()
    inv0 = b._np_inv
    mv = object.__new__(ndarray)
    mv._np_buf, mv._np_map, mv._np_shape, mv._np_dt = b._np_buf, None, tshape, b._np_dt

    def inv(idx):
        c, j = inv0(idx)
        e = j[q:q+nb]
        return and_(c, mr(e)), j[:q] + (rank(e),) + j[q+nb:]
    mv._np_inv = inv
    _store(mv, vr)


def _put(view, value):
    if isinstance(view, objarray):
        raise Unsupported('object array')
    val = asarray(value)
    if isinstance(val, objarray):
        raise Unsupported('object value into a numeric array')
    if val._np_dt.kind == 'c' and view._np_dt.kind != 'c' and not isinstance(value, ndarray):
        raise Unsupported('complex value into an array of another kind')
    # assignment drops leading unit axes of the value
    vs = val._np_shape
    while len(vs) > len(view._np_shape) and is1(vs[0]):
        vs = vs[1:]
    if len(vs) != len(val._np_shape):
        k = len(val._np_shape) - len(vs)
        val = val._np_view(vs, lambda idx: (ZERO,)*k + idx, None)
    vb = broadcast_to(val, view._np_shape) if view._np_shape != val._np_shape else val
    _store(view, vb.reader())


# ------------------------------------------------------------------ shape changes

def _reshape(a, shape):
    shape = tuple(D(tm(x)) if isinstance(x, Sym) else x for x in shape)
    if len(shape) == 1 and isinstance(shape[0], ndarray):
        shape = tuple(shape[0])
    if isinstance(a, objarray):
        return a._oreshape(shape)
    src = a._np_shape
    snz = [(i, d) for i, d in enumerate(src) if not (isinstance(d, _int) and d == 1)]
    if builtins.any(isinstance(d, _int) and d == -1 for d in shape):
        # the missing axis takes what is left
        rest = [d for d in shape if not (isinstance(d, _int) and d in (-1, 1))]
        left = [d for _, d in snz]
        for r in rest:
            for j, d in enumerate(left):
                if tm(d) is tm(r):
                    del left[j]
                    break
            else:
                raise Unsupported('reshape with -1')
        n = prodshape(left)
        shape = tuple(n if (isinstance(d, _int) and d == -1) else d for d in shape)
    dnz = [(i, d) for i, d in enumerate(shape) if not (isinstance(d, _int) and d == 1)]
    if len(snz) != len(dnz) or not builtins.all(dims_known_eq(x[1], y[1]) for x, y in zip(snz, dnz)):
        # drop axes known to be one
        snz2 = [x for x in snz if not is1(x[1])]
        dnz2 = [x for x in dnz if not is1(x[1])]
        if len(snz2) == len(dnz2) and builtins.all(dims_known_eq(x[1], y[1]) for x, y in zip(snz2, dnz2)):
            snz, dnz = snz2, dnz2
        elif not snz2 or not dnz2 or (len(snz2) == len(dnz2)):
            tot1, tot2 = prodshape(src), prodshape(shape)
            if not dnz2 or not snz2 or len(snz2) == len(dnz2) == 1:
                if not decide(eq_(tm(tot1), tm(tot2))):
                    raise raised(ValueError('cannot reshape array of size %s into shape %s' % (tot1, shape)))
                if len(snz2) == len(dnz2):
                    snz, dnz = snz2, dnz2
                else:
                    snz = dnz = []
            else:
                return _rs_general(a, shape)
        else:
            return _rs_general(a, shape)
    pairs = [(x[0], y[0]) for x, y in zip(snz, dnz)]
    ns, nd = len(src), len(shape)

    def vmap(idx):
        r = [ZERO]*ns
        for s, d in pairs:
            r[s] = idx[d]
        return tuple(r)

    def vinv(j):
        r = [ZERO]*nd
        for s, d in pairs:
            r[d] = j[s]
        return TRUE, tuple(r)
    return a._np_view(shape, vmap, vinv, cls=type(a) if type(a) is not ndarray else None)


def _rs_general(a, shape):
    """row-major reshape between arbitrary shapes: a view of a contiguous array, otherwise not to be written to"""
    src = a._np_shape
    if all_concrete(src) and all_concrete(shape):
        n1, n2 = math.prod(src), math.prod(shape)
        if n1 != n2:
            raise raised(ValueError('cannot reshape array of size %d into shape %s' % (n1, shape)))
    else:
        n1, n2 = tm(prodshape(src)), tm(prodshape(shape))
        if not decide(eq_(n1, n2)):
            raise raised(ValueError('cannot reshape array'))

    def move(old, new):
        """index map from shape old to shape new"""
        def m(idx):
            f = ZERO
            for i, d in zip(idx, old):
                f = add(mul(f, tm(d)), i)
            if len(new) == 1:
                return (f,)
            out = []
            for d in reversed(new[1:]):
                out.append(imod(f, tm(d)))
                f = floordiv(f, tm(d))
            return tuple(([f] + out[::-1])) if new else ()
        return m
    if _contiguous(a):
        back = move(src, shape)
        return a._np_view(shape, move(shape, src), lambda j: (TRUE, back(j)),
                          cls=type(a) if type(a) is not ndarray else None)
    r, m = a.reader(), move(shape, src)
    z = ndarray._np_make(lambda idx: r(m(idx)), shape, a._np_dt)
    z._np_buf.dep = a._np_buf, a._np_buf.fn
    return z


def _contiguous(a):
    """known to cover a whole buffer, in row-major order"""
    buf = a._np_buf
    if buf.dep is not None:
        return False
    v = tuple(t_.var('_c%d' % i, 'I') for i in builtins.range(len(a._np_shape)))
    try:
        got = a._np_map(v)
    except Unsupported:
        return False
    bs = [d for d in buf.shape if not (isinstance(d, _int) and d == 1)]
    vs = [(x, d) for x, d in zip(v, a._np_shape) if not (isinstance(d, _int) and d == 1)]
    gs = [g for g, d in zip(got, buf.shape) if not (isinstance(d, _int) and d == 1)]
    return len(bs) == len(vs) and builtins.all(g is x for g, (x, _) in zip(gs, vs)) \
        and builtins.all(dims_known_eq(d, e) for d, (_, e) in zip(bs, vs))


def _transpose(a, axes):
    shape = tuple(a._np_shape[x] for x in axes)
    n = len(axes)

    def vmap(idx):
        r = [None]*n
        for d, s in enumerate(axes):
            r[s] = idx[d]
        return tuple(r)
    return a._np_view(shape, vmap, lambda j: (TRUE, tuple(j[s] for s in axes)),
                   cls=type(a) if type(a) is not ndarray else None)


def reshape(a, shape):
    return asanyarray(a).reshape(shape)


def transpose(a, axes=None):
    return asanyarray(a).transpose(axes)


def swapaxes(a, x, y):
    return asanyarray(a).swapaxes(x, y)


def moveaxis(a, src, dst):
    a = asanyarray(a)
    s, d = _axis(src, a.ndim), _axis(dst, a.ndim)
    order = [i for i in builtins.range(a.ndim) if i != s]
    order.insert(d, s)
    return _transpose(a, tuple(order))


def rollaxis(a, axis, start=0):
    raise Unsupported('rollaxis')


def expand_dims(a, axis):
    a = asanyarray(a)
    ax = axis if isinstance(axis, (tuple, list)) else (axis,)
    nd = a.ndim + len(ax)
    ax = sorted(_axis(x, nd) for x in ax)
    shape = list(a._np_shape)
    for x in ax:
        shape.insert(x, 1)
    return a.reshape(tuple(shape))


def squeeze(a, axis=None):
    a = asanyarray(a)
    if axis is None:
        keep = tuple(d for d in a._np_shape if not (isinstance(d, _int) and d == 1) and not decide(eq_(tm(d), ONE)))
        return a.reshape(keep)
    ax = [_axis(x, a.ndim) for x in (axis if isinstance(axis, tuple) else (axis,))]
    for x in ax:
        if not decide(eq_(tm(a._np_shape[x]), ONE)):
            raise raised(ValueError('cannot select an axis to squeeze out which has size not equal to one'))
    return a.reshape(tuple(d for i, d in enumerate(a._np_shape) if i not in ax))


def ravel(a):
    return asarray(a).ravel()


def atleast_1d(a):
    a = asanyarray(a)
    return a.reshape((1,)) if a.ndim == 0 else a


def copy(a):
    return asarray(a).copy()


def take(a, idx, axis=None):
    a = asarray(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('take')
        axis = 0
    ax = _axis(axis, a.ndim)
    return a[(slice(None),)*ax + (idx,)]


def concatenate(arrs, axis=0, out=None, dtype=None):
    if isinstance(arrs, ndarray):
        arrs = list(arrs)
    arrs = [asarray(a) for a in arrs]
    if not arrs:
        raise raised(ValueError('need at least one array to concatenate'))
    nd = arrs[0].ndim
    if nd == 0:
        raise raised(ValueError('zero-dimensional arrays cannot be concatenated'))
    ax = _axis(axis, nd)
    for a in arrs[1:]:
        if a.ndim != nd:
            raise raised(ValueError('all the input array dimensions must match'))
        for i in builtins.range(nd):
            if i != ax and not dims_known_eq(a._np_shape[i], arrs[0]._np_shape[i]) \
                    and not decide(eq_(tm(a._np_shape[i]), tm(arrs[0]._np_shape[i]))):
                raise raised(ValueError('all the input array dimensions except for the concatenation axis must match exactly'))
    rs = [a.reader() for a in arrs]
    offs = [ZERO]
    for a in arrs:
        offs.append(add(offs[-1], tm(a._np_shape[ax])))
    shape = list(arrs[0]._np_shape)
    shape[ax] = D(offs[-1])
    dt = _join(*[a._np_dt for a in arrs]) if dtype is None else _dtype(dtype)
    k = dt.kind

    def fn(idx):
        i = idx[ax]
        r = None
        for j in builtins.range(len(rs) - 1, -1, -1):
            v = lambda j=j: cast_term(rs[j](idx[:ax] + (sub(i, offs[j]),) + idx[ax+1:]), k)
            if r is None:
                r = v()
            else:
                c = lt(i, offs[j+1])
                if c is FALSE:
                    continue
                r = v() if c is TRUE else ite(c, v(), r)
        return r
    res = ndarray._np_make(fn, tuple(shape), dt)
    if nd == 1:
        res._parts = [(offs[j], (lambda i, f=rs[j]: cast_term(f(i), k)), shape_[0]) for j, shape_ in enumerate(a._np_shape for a in arrs)]
    return res


def stack(arrs, axis=0):
    arrs = [asarray(a) for a in arrs]
    return concatenate([expand_dims(a, axis) for a in arrs], axis=axis)


def hstack(arrs):
    arrs = [atleast_1d(a) for a in arrs]
    return concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)


def vstack(arrs):
    arrs = [a.reshape((1,) + a.shape) if asarray(a).ndim == 1 else asarray(a) for a in map(asarray, arrs)]
    return concatenate(arrs, axis=0)


def block(x):
    rows = [concatenate([asarray(y) for y in row], axis=-1) for row in x]
    return concatenate(rows, axis=-2)


def append(a, b, axis=None):
    if axis is None:
        return concatenate((ravel(a), ravel(b)))
    return concatenate((a, b), axis=axis)


def split(*a, **k):
    raise Unsupported('split')


def tile(a, reps):
    raise Unsupported('tile')


def repeat(a, n, axis=None):
    a = asarray(a)
    if axis is None or not isinstance(n, _int):
        if a.ndim != 1:
            raise Unsupported('repeat')
        axis = 0
    if not isinstance(n, _int):
        raise Unsupported('repeat')
    ax = _axis(axis, a.ndim)
    r = a.reader()
    sh = list(a._np_shape)
    sh[ax] = D(mul(tm(sh[ax]), const(n)))
    return ndarray._np_make(lambda i: r(i[:ax] + (floordiv(i[ax], const(n)),) + i[ax+1:]), tuple(sh), a._np_dt)


def roll(a, shift, axis=None):
    a = asarray(a)
    if isinstance(a, objarray):
        n = a._np_shape[0]
        o = objarray(a._np_shape)
        for i in builtins.range(n):
            o.items[((i + shift) % n,)] = a.items[(i,)]
        return o
    if a.ndim != 1:
        raise Unsupported('roll of multidimensional arrays')
    n = a._np_shape[0]
    r = a.reader()
    if isinstance(n, _int) and isinstance(shift, _int):
        vals = [r((const((i - shift) % n),)) for i in builtins.range(n)]

        def fn(idx):
            if isc(idx[0]):
                return vals[_int(cval(idx[0]))]
            x = vals[-1]
            for j in builtins.range(n - 2, -1, -1):
                x = ite(eq_(idx[0], const(j)), vals[j], x)
            return x
        return ndarray._np_make(fn, a._np_shape, a._np_dt)
    return ndarray._np_make(lambda idx: r((imod(sub(idx[0], tm(shift)), tm(n)),)), a._np_shape, a._np_dt)


def flip(a, axis=None):
    a = asarray(a)
    if axis is None:
        return a[(slice(None, None, -1),)*a.ndim]
    ax = _axis(axis, a.ndim)
    return a[(slice(None),)*ax + (slice(None, None, -1),)]


# --------------------------------------------------------------------- reductions

def _reduce(kind, a, axis, dt, out, keepdims):
    if axis is None:
        axes = tuple(builtins.range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(_axis(x, a.ndim) for x in axis)
    else:
        axes = (_axis(axis, a.ndim),)
    r = a.reader()
    dims = [a._np_shape[i] for i in axes]
    if kind in ('min', 'max'):
        for d in dims:
            if decide(eq_(tm(d), ZERO)):
                raise raised(ValueError('zero-size array to reduction operation has no identity'))
    rdt = _dtype(dt) if dt is not None else (
        _dtype(_bool) if kind in ('any', 'all') else
        a._np_dt if kind != 'sum' or a._np_dt.kind != 'b' else _dtype(_int))
    keep = [i for i in builtins.range(a.ndim) if i not in axes]
    shape = tuple((1 if i in axes else a._np_shape[i]) for i in builtins.range(a.ndim)) if keepdims else \
        tuple(a._np_shape[i] for i in keep)
    k = rdt.kind

    def fn(idx):
        full_ = [None]*a.ndim
        if keepdims:
            for i in keep:
                full_[i] = idx[i]
        else:
            for j, i in enumerate(keep):
                full_[i] = idx[j]

        def rec(j):
            if j == len(axes):
                v = r(tuple(full_))
                if kind in ('any', 'all'):
                    return tb(v)
                return cast_term(v, k) if kind == 'sum' else v

            def g(v):
                save = full_[axes[j]]
                full_[axes[j]] = v
                res = rec(j + 1)
                full_[axes[j]] = save
                return res
            return reduce_(kind, tm(dims[j]), g)
        return rec(0)
    res = ndarray._np_make(fn, shape, rdt)
    if out is not None:
        out[...] = res
        return out
    if shape == ():
        return res._np_scalar()
    return res


def _count(a, axis):
    if axis is None:
        return tm(a.size)
    if isinstance(axis, tuple):
        r = ONE
        for x in axis:
            r = mul(r, tm(a._np_shape[_axis(x, a.ndim)]))
        return r
    return tm(a._np_shape[_axis(axis, a.ndim)])


def _mean(a, axis, dt, out, keepdims):
    x = asarray(a)
    if dt is None and x._np_dt.kind in 'biu':
        dt = _float
    rdt = _dtype(dt) if dt is not None else x._np_dt
    # sums are accumulated in the requested type, and divided; integer types truncate the result
    s = _reduce('sum', x, axis, rdt, None, keepdims)
    n = _count(x, axis)
    r = divide(s, Sym(n, 'i'))
    if rdt.kind in 'iu':
        r = r.astype(rdt)
    if out is not None:
        out[...] = r
        return out
    return r


def _var(a, axis, dt, out, ddof, keepdims):
    x = asarray(a)
    if dt is None and x._np_dt.kind in 'biu':
        dt = _float
    rdt = _dtype(dt) if dt is not None else x._np_dt
    if rdt.kind in 'iuc':
        raise Unsupported('variance in a non floating point type')
    m = _mean(x, axis, rdt, None, True)
    d = x - m
    s = _reduce('sum', asarray(d*d), axis, rdt, None, keepdims)
    n = sub(_count(x, axis), tm(ddof))
    n = t_.tmax(n, ZERO) if not ctx().known(le(ZERO, n)) else n
    r = divide(s, Sym(n, 'i' if n.s == 'I' else 'f'))
    if out is not None:
        out[...] = r
        return out
    return r


def _cumsum(a, axis, dt, out):
    x = asarray(a)
    if axis is None:
        if x.ndim != 1:
            raise Unsupported('cumsum of a multidimensional array, with no axis')
        axis = 0
    ax = _axis(axis, x.ndim)
    r = x.reader()
    rdt = _dtype(dt) if dt is not None else (x._np_dt if x._np_dt.kind != 'b' else _dtype(_int))
    k = rdt.kind

    def fn(idx):
        return t_.tsum(add(idx[ax], ONE), lambda j: cast_term(r(idx[:ax] + (j,) + idx[ax+1:]), k))
    res = ndarray._np_make(fn, x._np_shape, rdt)
    if out is not None:
        _store(out, res.reader())
        return out
    return res


def sum(a, axis=None, dtype=None, out=None, keepdims=False):
    return asanyarray(a).sum(axis=axis, dtype=dtype, out=out, keepdims=keepdims)


def mean(a, axis=None, dtype=None, out=None, keepdims=False):
    return asanyarray(a).mean(axis=axis, dtype=dtype, out=out, keepdims=keepdims)


def var_(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    return asanyarray(a).var(axis=axis, dtype=dtype, out=out, ddof=ddof, keepdims=keepdims)


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    return asanyarray(a).std(axis=axis, dtype=dtype, out=out, ddof=ddof, keepdims=keepdims)


def amin(a, axis=None, out=None, keepdims=False):
    return asanyarray(a).min(axis=axis, out=out, keepdims=keepdims)


def amax(a, axis=None, out=None, keepdims=False):
    return asanyarray(a).max(axis=axis, out=out, keepdims=keepdims)


def any(a, axis=None, out=None, keepdims=False):
    a = asanyarray(a)
    if a._np_dt.kind == 'O' and a.ndim < 2 and axis is None and not keepdims:
        r = False
        for x in a.items.values():
            r = r or x
        return r
    return a.any(axis=axis, keepdims=keepdims)


def all(a, axis=None, out=None, keepdims=False):
    a = asanyarray(a)
    if a._np_dt.kind == 'O' and a.ndim < 2 and axis is None and not keepdims:
        r = True
        for x in a.items.values():
            r = r and x
        return r
    return a.all(axis=axis, keepdims=keepdims)


def cumsum(a, axis=None, dtype=None, out=None):
    return asanyarray(a).cumsum(axis=axis, dtype=dtype, out=out)


def count_nonzero(a, axis=None):
    a = asarray(a)
    return (a != 0).sum(axis=axis) if a._np_dt.kind != 'b' else a.sum(axis=axis)


def diff(a, n=1, axis=-1):
    if n != 1:
        raise Unsupported('diff of order > 1')
    a = asanyarray(a)
    if a.ndim == 0:
        raise raised(ValueError('diff requires input that is at least one dimensional'))
    ax = _axis(axis, a.ndim)
    k1 = [slice(None)]*a.ndim
    k2 = [slice(None)]*a.ndim
    k1[ax], k2[ax] = slice(1, None), slice(None, -1)
    return a[tuple(k1)] - a[tuple(k2)]


# -------------------------------------------------------------------- comparisons

def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._np_shape, b._np_shape):
        if not dims_known_eq(x, y) and not decide(eq_(tm(x), tm(y))):
            return False
    u = getattr(b, '_unique_of', None)
    r = all(asarray(equal(a, b)))
    return _bool(r) if isinstance(r, Sym) else r


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    ta, tb_, rt, at = (asarray(x) for x in (a, b, rtol, atol))
    f = ufunc('isclose', 4, lambda x, y, r, s: le(t_.tabs(sub(x, y)), add(s, mul(r, t_.tabs(y)))), _rt_bool)
    return f(ta, tb_, rt, at)


def allclose(a, b, rtol=1e-05, atol=1e-08):
    return _bool(all(asarray(isclose(a, b, rtol, atol))))


def isscalar(x):
    if isinstance(x, Sym):
        return True
    return isinstance(x, (_int, _float, _complex, str, bytes, generic))


def where(c, x=None, y=None):
    c = asarray(c)
    if x is None:
        if c.ndim != 1:
            raise Unsupported('where on a multidimensional array')
        if c._np_dt.kind != 'b':
            c = asarray(c != 0)
        mr, sel, rank, count = mask_fns(c)
        if not isc(tm(count)) and not ctx().loopvars:
            # mention the first two positions, so that axioms are instantiated on them
            a, b = sel(ZERO)[0], sel(ONE)[0]
            ctx().axiom(lambda conv: conv(a) + conv(b) == conv(var(ctx().freshname('%hint'), 'I')))
            # instances of contracts
            selected = ctx().mask_log[-1][5] if ctx().__dict__.get('mask_log') else None
            for f in [selected(ZERO), selected(ONE)] if selected and sel(ZERO) == ctx().mask_log[-1][1](ZERO) else []:
                if f is not TRUE:
                    ctx().assume(f)
            for u in ctx().__dict__.get('unique_log', [])[-1:]:
                f = u._order(a, b)
                if f is not TRUE:
                    ctx().assume(f)
        return (ndarray._np_make(lambda i: sel(i[0])[0], (count,), _dtype(_int)),)
    x, y = asarray(x), asarray(y)
    shape = bshape(c._np_shape, x._np_shape, y._np_shape)
    mc, mx, my = bmap(c._np_shape, shape), bmap(x._np_shape, shape), bmap(y._np_shape, shape)
    rc, rx, ry = c.reader(), x.reader(), y.reader()
    dt = _join(x._np_dt, y._np_dt)
    return ndarray._np_make(lambda i: ite(tb(rc(mc(i))), cast_term(rx(mx(i)), dt.kind), cast_term(ry(my(i)), dt.kind)), shape, dt)


def nonzero(a):
    return where(a)


def flatnonzero(a):
    return where(asarray(a).ravel())[0]


def select(*a, **k):
    raise Unsupported('select')


def clip(a, lo, hi, out=None):
    r = asanyarray(a)
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def searchsorted(a, v, side='left'):
    raise Unsupported('searchsorted')


def _pick(val, k):
    """the k-th of some terms"""
    if not val:
        return ZERO
    out = val[-1]
    for i, v in reversed(list(enumerate(val[:-1]))):
        out = ite(eq_(k, const(i)), v, out)
    return out


def unique(x, **kw):
    """sorted distinct elements: uninterpreted enumeration, with its axioms"""
    if kw:
        raise Unsupported('unique options')
    import z3
    x = asarray(x)
    if x.ndim != 1:
        if x._np_shape == ():
            return x.reshape((1,))
        raise Unsupported('unique of multidimensional array')
    c = ctx()
    r = x.reader()
    n = tm(x._np_shape[0])
    k0 = var('%u', 'I')
    if isc(n):
        val = [r((const(i),)) for i in builtins.range(_int(cval(n)))]
        if builtins.all(isc(v) for v in val):
            # known values
            val = sorted(set(val), key=cval)
            return ndarray._np_make(lambda idx: _pick(val, idx[0]), (len(val),), x._np_dt)
    body = r((k0,))
    key = 'unique%d_%d' % (body.id, n.id)
    free = sorted((fv(body) | fv(n)) - {k0}, key=lambda v: v.id)
    m = app('len:' + key, s='I')
    s = 'I' if x._np_dt.kind in 'iu' else 'R'
    el = lambda i: app('el:' + key, i, s=s)
    pos = lambda i: app('pos:' + key, i, s='I')
    src = lambda i: app('src:' + key, i, s='I')
    if c.loopvars:
        raise Unsupported('unique in a generic iteration')
    done = c.__dict__.setdefault('uniques', {})
    if key not in done:
        done[key] = True

        def ax(conv):
            i, j = var('%ui', 'I'), var('%uj', 'I')
            iz, jz = conv(i), conv(j)
            nz, mz = conv(n), conv(m)
            e = lambda q: conv(el(q))
            ps = [mz >= 0, mz <= nz, (mz > 0) == (nz > 0)]
            ps.append(z3.ForAll([iz, jz], z3.Implies(z3.And(0 <= iz, iz < jz, jz < mz), e(i) < e(j)),
                                patterns=[z3.MultiPattern(e(i), e(j))]))
            xi = conv(r((i,)))
            p = conv(pos(i))
            ps.append(z3.ForAll([iz], z3.Implies(z3.And(0 <= iz, iz < nz),
                                                 z3.And(p >= 0, p < mz, _zeq(e(pos(i)), xi))),
                                patterns=[p] + ([xi] if _is_app_with(xi, iz) else [])))
            sz = conv(src(i))
            ps.append(z3.ForAll([iz], z3.Implies(z3.And(0 <= iz, iz < mz),
                                                 z3.And(sz >= 0, sz < nz, _zeq(e(i), conv(r((src(i),)))))),
                                patterns=[e(i)]))
            # a strictly increasing array is left as it is
            w = app('wit:' + key, s='I')
            wz = conv(w)
            same = z3.ForAll([iz], z3.Implies(z3.And(0 <= iz, iz < nz), _zeq(e(i), xi)),
                             patterns=[e(i)] + ([xi] if _is_app_with(xi, iz) else []))
            ps.append(z3.Or(z3.And(0 <= wz, wz + 1 < nz, conv(le(r((add(w, ONE),)), r((w,))))), z3.And(mz == nz, same)))
            if isc(n) and cval(n) <= 4:
                # instances
                es = [conv(el(const(g))) for g in builtins.range(_int(cval(n)))]
                for g in builtins.range(len(es)):
                    ps.append(z3.Implies(g < mz, z3.Or(*[_zeq(es[g], conv(r((const(h),)))) for h in builtins.range(len(es))])))
                    for h in builtins.range(g + 1, len(es)):
                        ps.append(z3.Implies(h < mz, es[g] < es[h]))
            for o, f, q in getattr(x, '_parts', ()) if x._np_buf.ver == 0 else ():
                xi = conv(f((i,)))
                p = conv(pos(add(o, i)))
                pats = _pats(xi, [iz])
                if pats:
                    ps.append(z3.ForAll([iz], z3.Implies(z3.And(0 <= iz, iz < conv(tm(q))),
                                                         z3.And(p >= 0, p < mz, _zeq(e(pos(add(o, i))), xi))), patterns=pats))
            return z3.And(*ps)
        ax.sampled = ()
        c.axiom(ax)
    res = ndarray._np_make(lambda i: el(i[0]), (D(m),), x._np_dt)
    res._pos = pos
    res._len = m
    res._arg = x
    # instances of the axioms
    res._order = lambda i, j: t_.implies(and_(le(ZERO, i), lt(i, j), lt(j, m)), lt(el(i), el(j)))
    res._holds = lambda k: t_.implies(and_(le(ZERO, k), lt(k, n)), and_(le(ZERO, pos(k)), lt(pos(k), m), eq_(el(pos(k)), r((k,)))))
    res._comes = lambda i: t_.implies(and_(le(ZERO, i), lt(i, m)), and_(le(ZERO, src(i)), lt(src(i), n), eq_(el(i), r((src(i),)))))
    res._src = src
    c.__dict__.setdefault('unique_log', []).append(res)
    return res


def _pats(e, vs):
    """applications of uninterpreted functions containing variables, alternative patterns"""
    import z3
    out = {}

    def has(x, v):
        return x.eq(v) or builtins.any(has(y, v) for y in x.children())

    def go(x):
        if z3.is_quantifier(x):
            return
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and builtins.all(has(x, v) for v in vs):
                if builtins.all(z3.is_app(y) and (y.decl().kind() == z3.Z3_OP_UNINTERPRETED or z3.is_int_value(y) or z3.is_rational_value(y))
                                for y in x.children()):
                    out.setdefault(x.get_id(), x)
                    return
            for y in x.children():
                go(y)
    go(e)
    return list(out.values())


def _zeq(a, b):
    import z3
    if a.sort() != b.sort():
        a = z3.ToReal(a) if z3.is_int(a) else a
        b = z3.ToReal(b) if z3.is_int(b) else b
    return a == b


def _is_app_with(x, v):
    import z3
    return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and builtins.any(ch.eq(v) for ch in x.children())


def sort(*a, **k):
    raise Unsupported('sort')


argsort = interp = sort


def histogram(sample, bins=10, range=None, density=None, weights=None):
    """counts of the sample in consecutive bins (the last one closed)"""
    x = asarray(sample)
    if x.ndim != 1:
        raise Unsupported('histogram of a multidimensional sample')
    c = ctx()
    r = x.reader()
    n = tm(x._np_shape[0])
    if weights is not None or density:
        raise Unsupported('options of histogram')
    if isinstance(bins, str) or isinstance(bins, _int) or isinstance(bins, Sym):
        if isinstance(bins, str):
            # an unspecified positive number of bins
            m = app('%%len:%s' % bins, *c.loopvars, s='I') if c.loopvars else c.fresh('nbins', 'I')
            if c.loopvars:
                m = t_.ite(le(ONE, m), m, ONE)
            else:
                c.assume(le(ONE, m))
        else:
            m = tm(bins)
            if decide(le(m, ZERO)):
                raise raised(ValueError('`bins` must be positive, when an integer'))
        if range is None:
            if decide(eq_(n, ZERO)):
                lo, hi = ZERO, ONE
            else:
                lo, hi = (t_.reduce_(kd, n, lambda j: r((j,))) for kd in ('min', 'max'))
        else:
            lo, hi = (tm(q) for q in range)
            if decide(lt(hi, lo)):
                raise raised(ValueError('max must be larger than min in range parameter.'))
        same = eq_(lo, hi)
        lo, hi = ite(same, sub(lo, t_.HALF), lo), ite(same, add(hi, t_.HALF), hi)
        edges = ndarray._np_make(lambda i: add(lo, div(mul(i[0], sub(hi, lo)), m)), (D(add(m, ONE)),), _dtype(_float))
    else:
        edges = asarray(bins)
        if edges.ndim != 1:
            raise raised(ValueError('`bins` must be 1d, when an array'))
        m = sub(tm(edges._np_shape[0]), ONE)
    er = edges.reader()
    m1 = sub(m, ONE)

    def fn(i):
        k = i[0]
        lo, hi = er((k,)), er((add(k, ONE),))
        return t_.tsum(n, lambda j: ite(and_(le(lo, r((j,))), or_(lt(r((j,)), hi),
                                        and_(eq_(k, m1), le(r((j,)), hi)))), ONE, ZERO))
    counts = ndarray._np_make(fn, (D(m),), _dtype(_int))
    return counts, edges


# ------------------------------------------------------------------ linear algebra

def einsum(spec, *ops, **kw):
    ops = [asarray(o) for o in ops]
    ins, outs = spec.replace(' ', '').split('->')
    ins = ins.split(',')
    ell = ()
    dims = {}
    labels = []
    for s, o in zip(ins, ops):
        if '...' in s:
            a, b = s.split('...')
            k = o.ndim - len(a) - len(b)
            ell = bshape(ell, o._np_shape[len(a):len(a)+k])
            lab = list(a) + ['.%d' % i for i in builtins.range(-k, 0)] + list(b)
        else:
            lab = list(s)
            if len(lab) != o.ndim:
                raise raised(ValueError('einstein sum subscripts string does not match the number of axes'))
        labels.append(lab)
        for l, d in zip(lab, o._np_shape):
            if l[0] == '.':
                continue
            if l in dims and not dims_known_eq(dims[l], d):
                if not decide(eq_(tm(dims[l]), tm(d))):
                    raise raised(ValueError('operand has a mismatch in its core dimension'))
            dims.setdefault(l, d)
    for i, d in zip(builtins.range(-len(ell), 0), ell):
        dims['.%d' % i] = d
    a, *b = outs.split('...')
    ol = list(a) + ((['.%d' % i for i in builtins.range(-len(ell), 0)] + list(b[0])) if b else [])
    summed = [l for l in dict.fromkeys(l for lab in labels for l in lab) if l not in ol]
    rs = [o.reader() for o in ops]
    shape = tuple(dims[l] for l in ol)

    def fn(idx):
        env = dict(zip(ol, idx))

        def rec(j):
            if j == len(summed):
                return mul(*[r(tuple(env[l] if not (isinstance(d, _int) and d == 1 and l[0] == '.') else ZERO
                                     for l, d in zip(lab, o._np_shape)))
                             for r, lab, o in zip(rs, labels, ops)])

            def g(v):
                env[summed[j]] = v
                return rec(j + 1)
            return t_.tsum(tm(dims[summed[j]]), g)
        return rec(0)
    return ndarray._np_make(fn, shape, _join(*[o._np_dt for o in ops]))


def matmul(a, b, out=None):
    a, b = asarray(a), asarray(b)
    if a.ndim == b.ndim == 2:
        return einsum('ij,jk->ik', a, b)
    if a.ndim == 2 and b.ndim > 2:
        return einsum('ij,...jk->...ik', a, b)
    if b.ndim == 2 and a.ndim > 2:
        return einsum('...ij,jk->...ik', a, b)
    if a.ndim == 2 and b.ndim == 1:
        return einsum('ij,j->i', a, b)
    if a.ndim == 1 and b.ndim == 1:
        r = einsum('j,j->', a, b)
        return r._np_scalar()
    if a.ndim > 2 and b.ndim > 2:
        return einsum('...ij,...jk->...ik', a, b)
    raise Unsupported('matmul')


dot = matmul


def tensordot(*a, **k):
    raise Unsupported('tensordot')


def inv(a):
    a = asarray(a)
    if a.ndim != 2:
        raise raised(LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % a.ndim)) \
            if a.ndim < 2 else Unsupported('inv of a stack')
    n = a._np_shape[0]
    if not dims_known_eq(n, a._np_shape[1]) and not decide(eq_(tm(n), tm(a._np_shape[1]))):
        raise raised(LinAlgError('Last 2 dimensions of the array must be square'))
    r = a.reader()
    if not isinstance(n, _int) or n > 2 or getattr(ctx(), 'abstract_inverse', False):
        # a matrix X with a X = X a = 1, for a invertible; facts are instantiated by the contracts
        c = ctx()
        name = c.freshname('inv')
        c.__dict__.setdefault('inverses', []).append((name, r, n))
        if c.loopvars:
            raise Unsupported('inverse of a matrix of symbolic size in a loop')
        return ndarray._np_make(lambda i: app(name, *i), (n, n), _dtype(_float))
    if n == 1:
        return ndarray._np_make(lambda i: div(ONE, r((ZERO, ZERO))), (1, 1), _dtype(_float))
    if n == 2:
        m = [[r((const(i), const(j))) for j in (0, 1)] for i in (0, 1)]
        d = sub(mul(m[0][0], m[1][1]), mul(m[0][1], m[1][0]))
        x = [[div(m[1][1], d), div(neg(m[0][1]), d)], [div(neg(m[1][0]), d), div(m[0][0], d)]]
        return asarray([[Sym(v, 'f') for v in row] for row in x])


class LinAlgError(ValueError):
    pass


def solve(a, b):
    """the product of the inverse and b (a single right hand side, or the columns of a matrix)"""
    b = asarray(b)
    if b.ndim not in (1, 2):
        raise Unsupported('solve for a stack')
    return matmul(inv(a), b)


class _LinalgModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('numpy.linalg.%s has no contract' % name)


linalg = _LinalgModule('numpy.linalg')
linalg.inv, linalg.solve, linalg.LinAlgError = inv, solve, LinAlgError



# ------------------------------------------------------------------ object arrays

def instantiate(x, env):
    """the object, with the given values of variables"""
    if type(x) is ndarray:
        r = x.reader()

        def fn(idx):
            return subst(r(idx), env)
        a = ndarray._np_make(fn, tuple(D(subst(tm(d), env)) for d in x._np_shape), x._np_dt)
        return a
    if isinstance(x, Sym):
        return Sym(subst(x.t_, env), x.kind, x.npy, x.dtype_)
    if isinstance(x, dict):
        return {k: instantiate(v, env) for k, v in x.items()}
    if type(x) in (tuple, list):
        return type(x)(instantiate(v, env) for v in x)
    if x is None or isinstance(x, (_int, float, str, Fr)):
        return x
    raise Unsupported('an object array element of type %s' % type(x).__name__)


class _Layer:
    def __init__(self, vs, cond, value):
        self.vs, self.cond, self.value = vs, cond, value


class objarray(ndarray):
    """array of objects: of concrete shape, an object for each index; of symbolic shape, layers of objects,
    each one a function of the index, for the indices satisfying a condition"""

    def __new__(cls, shape):
        if not all_concrete(shape) and cls is objarray:
            return symobj(shape)
        self = object.__new__(cls)
        self._np_shape = tuple(shape)
        self._np_dt = _dtype(object)
        self.items = {i: None for i in _cidx(self._np_shape)}
        return self

    def __array_finalize__(self, obj):
        pass

    def _key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if len(key) == len(self._np_shape) and builtins.all(isinstance(k, (_int, Sym)) for k in key):
            out = []
            for k, n in zip(key, self._np_shape):
                k = _conc(k)
                if not -n <= k < n:
                    raise raised(IndexError('index out of bounds'))
                out.append(k % n)
            return tuple(out)
        return None

    def __getitem__(self, key):
        k = self._key(key)
        if k is not None:
            return self.items[k]
        if key is Ellipsis or key == (Ellipsis,):
            return self
        raise Unsupported('indexing of object arrays')

    def __setitem__(self, key, value):
        k = self._key(key)
        if k is not None:
            old = self.items[k]
            if len(ctx().frames) > 1:
                raise Unsupported('object array update in a generic iteration')
            self.items[k] = value
            return
        if key is Ellipsis or key == (Ellipsis,) or key == slice(None):
            if isinstance(value, objarray):
                if value._np_shape == self._np_shape:
                    self.items = dict(value.items)
                    return
                if value._np_shape == ():
                    value = value.items[()]
                else:
                    raise Unsupported('object array broadcasting')
            for i in self.items:
                self.items[i] = value
            return
        raise Unsupported('assignment to object arrays')

    def flatten(self):
        o = objarray((len(self.items),))
        for n, i in enumerate(_cidx(self._np_shape)):
            o.items[(n,)] = self.items[i]
        return o

    def _oreshape(self, shape):
        if math.prod(shape) != len(self.items):
            raise Unsupported('reshape of object arrays')
        o = objarray(shape)
        for i, j in zip(_cidx(self._np_shape), _cidx(shape)):
            o.items[j] = self.items[i]
        return o

    def copy(self):
        o = objarray(self._np_shape)
        o.items = dict(self.items)
        return o

    def view(self, cls=None):
        return self

    def reader(self):
        raise Unsupported('numeric use of an object array')

    def __iter__(self):
        if len(self._np_shape) != 1:
            raise Unsupported('iteration on object arrays')
        return iter([self.items[(i,)] for i in builtins.range(self._np_shape[0])])


class symobj(objarray):
    def __new__(cls, shape):
        self = object.__new__(cls)
        self._np_shape = tuple(shape)
        self._np_dt = _dtype(object)
        self.layers = [_Layer((), TRUE, None)]
        self.pending = []         # writes of the current generic iteration
        self.handed = []          # elements read, which might be updated in place
        self.root, self.prefix = self, ()
        return self

    @classmethod
    def family(cls, shape, f):
        """elements f(index terms)"""
        self = cls(shape)
        vs = tuple(ctx().fresh('%o', 'I') for _ in shape)
        self.layers.append(_Layer(vs, TRUE, f(*vs)))
        return self

    def sub(self, prefix):
        o = symobj(self._np_shape[len(prefix):])
        o.root, o.prefix = self.root, self.prefix + tuple(prefix)
        return o

    # elements, by the index in the root
    def _get(self, idx):
        c = ctx()
        inloop = len(c.frames) > 1
        self._settle()
        for w, val in reversed(self.pending):
            if w == idx:
                return val
            raise Unsupported('object array: elements at different indices in an iteration')
        if inloop:
            c.objreads = getattr(c, 'objreads', [])
            c.objreads.append((self, idx))
        for L in reversed(self.layers):
            env = dict(zip(L.vs, idx))
            cond = L.cond if L.vs == () and L.cond is TRUE else subst(L.cond, env)
            if decide(cond):
                val = instantiate(L.value, env)
                if isinstance(val, ndarray):
                    self.handed.append((idx, val, val._np_buf.ver))
                return val
        raise Unsupported('object array')

    def _set(self, idx, value):
        c = ctx()
        self.handed = [h for h in self.handed if h[1] is not value]
        self._settle()
        if isinstance(value, ndarray) and value.ndim == 0:
            pass
        if len(c.frames) > 1:
            if tuple(c.loopvars) != tuple(idx):
                raise Unsupported('object array update at another index than that of the iteration')
            self.pending.append((idx, value))
            c.objwrites = getattr(c, 'objwrites', [])
            if not builtins.any(x is self for x in c.objwrites):
                c.objwrites.append(self)
            return
        vs = tuple(c.fresh('%o', 'I') for _ in idx)
        self.layers.append(_Layer(vs, and_(*[eq_(a, b) for a, b in zip(vs, idx)]), freeze(value)))

    def _settle(self):
        """elements updated in place are updated in the array"""
        for idx, val, ver in self.handed:
            if val._np_buf.ver != ver:
                raise Unsupported('an element of an object array is updated in place')

    def _k(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if key and key[-1] is Ellipsis:
            key = key[:-1]
        if len(key) > len(self._np_shape):
            return None
        out = []
        for k, n in zip(key, self._np_shape):
            if isinstance(k, ndarray) and k.shape == () and k.dtype.kind in 'iu':
                k = k.item()
            if not isinstance(k, (_int, Sym)):
                return None
            out.append(norm_int(k, n))
        return tuple(out)

    def __getitem__(self, key):
        if key is Ellipsis or key == () or key == (Ellipsis,) or (isinstance(key, slice) and key == slice(None)):
            return self
        k = self._k(key)
        if k is None:
            raise Unsupported('indexing of object arrays')
        if len(k) == len(self._np_shape):
            return self.root._get(self.prefix + k)
        return self.sub(k)

    def __setitem__(self, key, value):
        if key is Ellipsis or key == (Ellipsis,) or (isinstance(key, slice) and key == slice(None)):
            if self.root is not self or len(ctx().frames) > 1:
                raise Unsupported('assignment to object arrays')
            if isinstance(value, ndarray):
                raise Unsupported('object array broadcasting')
            self.layers.append(_Layer((), TRUE, freeze(value)))
            return
        k = self._k(key)
        if k is None or len(k) != len(self._np_shape):
            raise Unsupported('assignment to object arrays')
        self.root._set(self.prefix + k, value)

    def _end_path(self):
        """end of a generic iteration: [(index, value)] written"""
        self._settle()
        out = [(i, freeze(v)) for i, v in self.pending[-1:]]
        self.pending = []
        return out

    def flatten(self):
        if not ctx().known(eq_(tm(self.size), ONE)):
            raise Unsupported('flatten of an object array')
        o = objarray((1,))
        o.items[(0,)] = self.root._get(self.prefix + (ZERO,)*len(self._np_shape))
        return o

    def _oreshape(self, shape):
        raise Unsupported('reshape of an object array')

    def copy(self):
        o = symobj(self._np_shape)
        if self.root is not self:
            raise Unsupported('copy of an object array')
        o.layers = list(self.layers)
        return o

    def __iter__(self):
        raise Unsupported('iteration on object arrays')


def freeze(x):
    """a picture of an object"""
    if type(x) is ndarray:
        r = x.reader()
        return ndarray._np_make(r, x._np_shape, x._np_dt)
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, (tuple, list)) and type(x) in (tuple, list):
        return type(x)(freeze(v) for v in x)
    return x


def _cidx(shape):
    import itertools
    return list(itertools.product(*[builtins.range(n) for n in shape]))


class ndindex:
    def __new__(cls, *shape):
        from . import loops
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = _shape_arg(shape)
        fc = getattr(ctx(), 'for_contract', None)
        if fc is not None:
            frame = sys._getframe(1)
            if fc.applies(frame):
                return fc.iterate(frame, shape)
        if all_concrete(shape) and math.prod(shape) <= 64:
            return iter(_cidx(shape))
        return loops.generic(shape)


class ndenumerate:
    def __new__(cls, a):
        a = asarray(a)
        shape = a._np_shape
        fc = getattr(ctx(), 'for_contract', None)
        frame = sys._getframe(1)
        if fc is not None and fc.applies(frame):
            it = fc.iterate(frame, shape)
        elif all_concrete(shape) and math.prod(shape) <= 64:
            it = iter(_cidx(shape))
        else:
            from . import loops
            it = loops._generic(_shape_arg(shape), None, False, frame)
        return ((i, a[i]) for i in it)


def vectorize(f, *a, **k):
    raise Unsupported('vectorize')


class IndexExpression:
    def __getitem__(self, k):
        return k if isinstance(k, tuple) else (k,)


class _S:
    def __getitem__(self, k):
        return k


index_exp = IndexExpression()
s_ = _S()


def seterr(**kw):
    return dict(divide='warn', over='warn', under='ignore', invalid='warn')


class errstate:
    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class finfo:
    def __init__(self, dt=None):
        self.resolution = 1e-15
        self.eps = 2.220446049250313e-16
        self.tiny = 2.2250738585072014e-308


def ix_(*a):
    raise Unsupported('ix_')


def apply_along_axis(*a, **k):
    raise Unsupported('apply_along_axis')


def isreal(x):
    raise Unsupported('isreal')


def shape(a):
    return asarray(a)._np_shape


def ndim(a):
    return asarray(a).ndim


def size(a):
    return asarray(a).size


def fill_diagonal(a, v):
    raise Unsupported('fill_diagonal')


def may_share_memory(a, b):
    return asarray(a)._np_buf is asarray(b)._np_buf


shares_memory = may_share_memory

# public aliases of names clashing with python's, or with this module's helpers
EXPORT = dict(abs=absolute, add=add_uf, power=power_uf, float_power=power_uf, var=var_, min=amin, max=amax,
              bool=_bool, int=_int, float=_float, object=object, concat=concatenate,
              conj=conjugate,
              str=str, ndarray=ndarray, __name__='numpy', __version__='1.26.4')


class NumpyModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('numpy.%s has no contract' % name)


def module():
    from . import srandom
    m = NumpyModule('numpy')
    g = globals()
    hide = {'inv', 'solve', 'LinAlgError', 't_', 'builtins', 'math', 'types', 'const', 'tm', 'app', 'ite', 'fv', 'subst', 'T'}
    for k, v in g.items():
        if not k.startswith('_') and k not in hide:
            setattr(m, k, v)
    for k, v in EXPORT.items():
        setattr(m, k, v)
    m.random = srandom.module()
    m.sum, m.any, m.all = sum, any, all
    m.round = lambda *a, **k: _unsup('round')
    return m
