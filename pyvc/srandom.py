"""Contracts on numpy.random.Generator: each call returns fresh draws, one per
entry of the requested shape, with the requested law; entries with different
indices are independent (vectors along the last axis, for multivariate_normal).
ctx().draws records name -> law."""
import types
from . import terms as t_
from .terms import const, tm, app, add, sub, mul, le, lt, and_, ZERO, ONE, TRUE, ite, var
from .engine import Sym, Unsupported, ctx, D, raised
from . import snp


class Law:
    def __init__(self, name, kind, shape, loopvars, params, gen):
        self.name, self.kind, self.shape, self.loopvars, self.params, self.gen = \
            name, kind, shape, tuple(loopvars), params, gen

    def __repr__(self):
        return 'Law(%s,%s)' % (self.name, self.kind)


def _size(size, *params):
    """draw shape: requested, or that of the parameters"""
    ps = [snp.asarray(p) for p in params]
    b = snp.bshape(*[p.shape for p in ps])
    if size is None:
        return b
    shape = snp._shape_arg(size)
    snp._bshape2(b, shape, 'shape mismatch: objects cannot be broadcast to a single shape')
    if len(b) > len(shape):
        raise raised(ValueError('Output size is not compatible with broadcast dimensions of inputs'))
    return shape


def draw(gen, kind, shape, params, s='R', dt=float):
    c = ctx()
    name = c.freshname('%s:%s' % (gen.name, kind))
    lv = list(c.loopvars)
    readers = []
    for p in params:
        a = snp.asarray(p)
        m = snp.bmap(a.shape, shape)
        r = a.reader()
        readers.append(lambda idx, r=r, m=m: r(m(idx)))
    law = Law(name, kind, shape, lv, readers, gen)
    c.draws.append(law)
    c.laws = getattr(c, 'laws', {})
    c.laws[name] = law
    return snp.ndarray._np_make(lambda idx: app(name, *lv, *idx, s=s), shape, snp.dtype(dt))


def out(a, size):
    if size is None and a.shape == ():
        return a._np_scalar()
    return a


class Generator:
    def __init__(self, name='rng'):
        self.name = name

    def _require(self, cond, msg):
        """ValueError unless the condition holds for all entries"""
        if not bool(snp.all(snp.asarray(cond))):
            raise raised(ValueError(msg))

    def normal(self, loc=0., scale=1., size=None):
        shape = _size(size, loc, scale)
        z = draw(self, 'normal', shape, ())
        if not (isinstance(scale, (int, float)) and scale >= 0):
            self._require(snp.greater_equal(scale, 0), 'scale < 0')
        if loc == 0 and scale == 1 if isinstance(loc, (int, float)) and isinstance(scale, (int, float)) else False:
            return out(z, size)
        return out(snp.asarray(snp.asarray(scale)*z + snp.asarray(loc)), size)

    def standard_normal(self, size=None, dtype=None, out=None):
        if out is not None:
            raise Unsupported('standard_normal(out=)')
        return self.normal(0., 1., size)

    def multivariate_normal(self, mean, cov, size=None, check_valid='warn', tol=1e-8, **kw):
        mean, cov = snp.asarray(mean), snp.asarray(cov)
        if mean.ndim != 1:
            raise raised(ValueError('mean must be 1 dimensional'))
        if cov.ndim != 2 or not snp.decide(t_.eq(tm(cov.shape[0]), tm(cov.shape[1]))):
            raise raised(ValueError('cov must be 2 dimensional and square'))
        if not snp.decide(t_.eq(tm(mean.shape[0]), tm(cov.shape[0]))):
            raise raised(ValueError('mean and cov must have same length'))
        shape = (() if size is None else snp._shape_arg(size)) + (mean.shape[0],)
        z = draw(self, 'mvnormal', shape, ())
        law = ctx().draws[-1]
        law.cov = cov.reader()
        law.dim = cov.shape[0]
        return snp.asarray(z + mean)

    def poisson(self, lam=1., size=None):
        shape = _size(size, lam)
        self._require(snp.greater_equal(lam, 0), 'lam < 0 or lam is NaN')
        return out(draw(self, 'poisson', shape, (lam,), s='I', dt=int), size)

    def binomial(self, n, p, size=None):
        shape = _size(size, n, p)
        n_ = snp.asarray(n)
        if n_.dtype.kind not in 'iu':
            n = n_.astype(int)
        self._require(snp.greater_equal(n, 0), 'n < 0')
        self._require(snp.greater_equal(p, 0), 'p < 0, p > 1 or p is NaN')
        self._require(snp.less_equal(p, 1), 'p < 0, p > 1 or p is NaN')
        a = draw(self, 'binomial', shape, (n, p), s='I', dt=int)
        law = ctx().draws[-1]
        return out(a, size)

    def uniform(self, low=0., high=1., size=None):
        shape = _size(size, low, high)
        u = draw(self, 'uniform', shape, ())
        return out(snp.asarray(snp.asarray(low) + (snp.asarray(high) - snp.asarray(low))*u), size)

    def random(self, size=None):
        return self.uniform(0., 1., size)

    def exponential(self, scale=1., size=None):
        shape = _size(size, scale)
        z = draw(self, 'exponential', shape, ())
        return out(snp.asarray(snp.asarray(scale)*z), size)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('Generator.%s has no contract' % name)


_default = Generator('default_rng')


def module():
    m = snp.NumpyModule('numpy.random')
    m.default_rng = lambda seed=None: _default if seed is None else Generator('rng%s' % seed)
    m.Generator = Generator
    return m
