"""python3-vt tools/selftest.py [-v]: the numpy contracts (pyvc/snp.py) against the real numpy.

Each case is an expression of arrays.  It is run once on symbolic arrays (arbitrary entries, symbolic lengths, as in
the verification conditions), and on numpy arrays of random values, for several values of the lengths: shape, kind of data type
and every entry of the result (or the type of the exception raised) should be the same once symbols are given those values.
Exits 1 if any differs; cases outside of the modelled subset are counted apart."""
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import numpy
from pyvc import snp, terms as t_
from pyvc.api import *
from pyvc.engine import Engine, Unsupported, Sym
from pyvc.numcheck import Ev, Skip

SHAPES = {'x': ('N', 'M'), 'y': ('N', 'M'), 'v': ('M',), 'c': ('N', 1), 's': (), 't': ('N',), 'z': ('N', 'M', 'P'), 'w': ('P',),
          'o': (1,), 'q': ('M', 'M'), 'j': ('N', 'M'), 'b': ('N', 'M'), 'f': ('N', 1, 'P'), 'd': (2, 'M')}
KIND = {'j': int, 'b': bool}
DIMS = [dict(N=3, M=2, P=4), dict(N=1, M=3, P=2), dict(N=2, M=2, P=1), dict(N=4, M=1, P=3), dict(N=3, M=3, P=3)]

CASES = '''
x + y; x - v; x*c; x/s; x**2; 2**x; -x; +x; abs(x); x + 1; 3 - x; x/2; x*v + c; z*w; z + f; f - w; c*v; t[:, None] + v
x + t; z + x[..., None]; z*v[:, None]; x < y; x <= v; x > 0; x >= y; x == x; x != y; b & (x > 0); b | (x > 0); ~b
np.exp(x); np.sqrt(np.abs(x)); np.log(np.abs(x) + 1); np.sign(x); np.maximum(x, y); np.minimum(x, 0.); np.maximum(0., v); np.square(x)
np.sin(x); np.cos(x); np.negative(x); np.where(b, x, y); np.where(x > 0, x, 0.); np.where(b, v, c); np.logical_and(b, x > 0)
np.logical_or(b, x > 0); np.logical_not(b); np.isfinite(x); np.isnan(x); np.add(x, y); np.subtract(x, v); np.multiply(x, c)
np.divide(x, 2.); np.power(x, 2); np.reciprocal(x + 5); np.floor(x); np.clip(x, -.5, .5); np.heaviside(x, .5)
x.sum(); x.sum(axis=0); x.sum(axis=-1); x.sum(axis=1, keepdims=True); z.sum(axis=(0, 1)); z.sum(axis=(0, -1)); z.sum(axis=-2)
x.mean(axis=0); x.mean(axis=-1); z.mean(axis=-1); x.mean(); x.var(axis=-1); x.std(axis=0); x.var(axis=0, ddof=1); np.var(x, axis=1)
x.min(axis=0); x.max(axis=-1); z.min(axis=1); x.max(); b.any(axis=0); b.all(axis=-1); b.any(); b.all(); b.sum(); b.sum(axis=0); j.sum(axis=1)
j.max(); np.sum(x, axis=0); np.mean(z, axis=0); np.max(x, axis=1); np.min(x); np.count_nonzero(b); np.any(b, axis=1)
x.cumsum(axis=0); np.cumsum(x, axis=1); z.cumsum(axis=0); np.cumsum(t); np.diff(t); np.diff(x, axis=0); np.diff(x); np.diff(z, axis=0)
x[0]; x[-1]; x[:, 0]; x[..., -1]; x[0, 0]; z[0, ..., -1]; x[1:]; x[:-1]; x[::-1]; x[::2]; x[1::2]; x[:, ::-1]; z[..., 0, :]; z[:, -1]
x[-1:]; x[None]; x[:, None]; x[..., None]; z[:, None, ..., 0]; x[:1]; x[0:1, ...]; t[-2:]; t[:-1][1:]; x[1:-1]; x[2::-1]; x[:0]
x[()]; x[...]; z[..., :1]; z[0][0]; x.T; z.T; x.reshape(-1); x.ravel(); t.reshape((-1, 1)); t.reshape(t.shape + (1, 1))
x.reshape((1,) + x.shape); z.reshape(z.shape[:1] + (-1,)); x.swapaxes(0, 1); z.swapaxes(-1, -2); np.swapaxes(z, 0, 2)
np.moveaxis(z, 0, -1); np.moveaxis(z, -1, 0); np.moveaxis(z, 1, -1); np.moveaxis(z, -2, 0); np.transpose(z, (1, 0, 2)); z.transpose(2, 0, 1)
np.expand_dims(x, 0); np.expand_dims(x, -1); np.atleast_1d(s); np.atleast_1d(x); np.broadcast_to(v, x.shape); np.broadcast_to(c, x.shape)
np.broadcast_to(s, z.shape); np.broadcast_to(x, v.shape); np.broadcast_arrays(x, v)[1]; np.broadcast_arrays(c, v)[0]; np.broadcast_to(w, z.shape)
np.concatenate((x, y)); np.concatenate((x, y), axis=-1); np.concatenate((x, c), axis=1); np.concatenate((t, v)); np.concatenate((x[:1], x))
np.concatenate((z, f), axis=1); np.concatenate((z, z, f), axis=-2); np.concatenate((d, x)); np.stack((x, y)); np.stack((x, y), axis=-1); np.hstack((t, v))
np.stack((t, t), axis=1); np.append(t, v); np.repeat(t, 2); np.tile(t, 2); np.roll(t, 1); np.roll(t, -1); np.flip(t, 0); np.roll(x, 1, axis=0)
np.zeros(x.shape); np.ones((2,) + x.shape); np.full(x.shape, 3.); np.full(z.shape, t[0]); np.empty_like(x)*0; np.zeros_like(x); np.ones_like(j)
np.full_like(x, 2); np.eye(3); np.eye(x.shape[1]); np.diag(v); np.diag(q); np.arange(3); np.arange(1, 4)*2; np.arange(x.shape[0]); np.linspace(0, 1, 5)
np.linspace(-1., 2., x.shape[0] + 1); np.array([1., 2., 3.]); np.array([[1, 2], [3, 4]]); np.array([s, s]); np.asarray(x); np.array(x); np.array(1.)
np.array([x, y]); np.asarray((t, t)); np.array((1, 2.5)); np.asarray(True); np.array([1j, 2]); x.astype(float); j.astype(float); b.astype(int); b*1; b*x; j*2; j + .5; j/2; x.astype(complex)
np.asarray(x, dtype=complex)*1j; x*1j + y; np.real(x + 1j*y); np.imag(x + 1j*y); (x + 1j*y).real; (x + 1j*y).imag; np.conj(x + 1j*y); np.exp(1j*x); np.abs(1j*x)
(x + 1j*y)*(y - 1j*x); x @ q; q @ q; q @ v; v @ q; x @ v; v @ v; np.matmul(x, q); np.dot(x, q); np.einsum('ij,...jk->...ik', q, z); np.einsum('ij,jk->ik', x, q)
np.einsum('ij,ij->i', x, y); np.einsum('ij->ji', x); np.einsum('ii->i', q); x @ x; z @ w[:, None]; np.array_equal(x, x); np.array_equal(x, v); np.array_equal(t, t[:-1])
np.searchsorted(np.cumsum(np.abs(t)), .3); np.isclose(x, x); x.size; x.ndim; z.shape[1:]; len(x); x.shape == y.shape; np.ndim(x); np.shape(z); np.size(t); np.isscalar(s)
np.squeeze(c, axis=1); np.squeeze(f, axis=-2); np.squeeze(x, axis=0); np.take(t, 0); np.take(x, 0, axis=1); np.sort(t[:1]); np.select([b], [x]); x.copy() + 1
np.result_type(j, float); np.result_type(x).kind; x.dtype.kind; (j > 0).dtype.kind; (j/j.size).dtype.kind; (x*2).dtype.kind; (j*2).dtype.kind; np.sum(b).dtype.kind; np.mean(j).dtype.kind
np.linalg.inv(q + 3*np.eye(q.shape[0])) if q.shape[0] < 3 else 0; np.cov(x); x.item(); o.item(); s.item(); o + x; o*t; float(o[0]); np.asarray(s)*1
x.prod(axis=0); np.prod(x.shape); np.outer(t, v); np.ix_([0], [0]); np.interp(s, t, t); np.vstack((x, d)); x.flatten()[0]; x.tolist; np.block([[q, q], [q, q]])
np.nan_to_num(x); np.sqrt(4.); np.exp(0.); np.abs(-3); np.maximum(1, 2); np.sign(-2.5); np.cosh(x); np.sinh(x); np.divide(j, 2); np.floor_divide(j, 2); j % 2; j // 2; -j; j**2; abs(j)
np.unique(np.array([3., 1., 3.])); np.rollaxis(z, -1); np.rollaxis(z, 2, 1); z.max(axis=-1, keepdims=True); (x > 0).mean(axis=-1); (x <= y).sum(axis=-1)/3; b.mean(); np.any(b & ~b)
x[np.array([0, -1])]; x[:, np.array([0])]; x[[0]]; t[[-1, 0]]; x[np.arange(x.shape[0])]; x[np.array([0, 0]), np.array([0, -1])]; np.take(t, np.array([0, -1])); z[0, [0, -1]]; z[[0], 0]; x[[5]]; x[9]; x[:, 9]; t[-9]
x[np.newaxis, ..., np.newaxis]; np.index_exp[..., 0]; z[np.index_exp[..., 0]]; np.s_[1:]; x.any(); x.all(axis=0); np.where(s > 0, s, -s); np.array(s).shape; np.ndim(3.); (x, y)[0]; x.sum(axis=2); x.sum(axis=-3)
'''
STATEMENTS = '''
a = x.copy(); a[0] = 5.; r = a
a = x.copy(); a[...] = v; r = a
a = x.copy(); a[:, 0] = t; r = a
a = x.copy(); a[::2] = 0; r = a
a = x.copy(); a[1:] = a[:-1]; r = a
a = x.copy(); a[:-1] = a[1:]; r = a
a = x.copy(); a += y; r = a
a = x.copy(); a *= v; a -= c; r = a
a = x.copy(); a /= 2; a **= 2; r = a
a = x.copy(); w_ = a[..., 0]; w_ += 1; r = a
a = x.copy(); w_ = a.T; w_[0] = 2; r = a
a = x.copy(); w_ = a[::-1]; w_[0] = 2; r = a
a = x.copy(); w_ = a[1:]; w_[...] = w_*2; r = a
a = x.copy(); w_ = a.reshape(-1); w_[0] = 7; r = a
a = x.copy(); a[b] = 0.; r = a
a = x.copy(); a[x > y] = 1; r = a
a = x.copy(); a[b] = -x[b]; r = a
a = x.copy(); np.add(a, y, out=a); r = a
a = x.copy(); np.exp(a, out=a); r = a
a = np.empty(x.shape); a[...] = x; a[0, 0] = 1; r = a
a = np.empty((2,) + x.shape); a[0], a[1] = x, y; r = a
a = np.zeros(z.shape); a[..., 0] = x; r = a
a = np.zeros(z.shape); a[:, :, :1] = x[..., None]; r = a
a = np.full(t.size*2, 0.); a[::2] = t; a[1::2] = t; r = a
a = np.full((x.shape[0]*2,) + x.shape[1:], 0.); a[1::2] = x; a[2:-1:2] = x[:-1]; a[0] = x[0]; r = a
a = np.full((x.shape[0]*2,) + x.shape[1:], 0.); a[::2] = x; a[1:-1:2] = x[1:]; a[-1] = x[-1]; r = a
a = j.copy(); a[0] = 2.7; r = a
a = j.copy(); a += 1; r = a
a = j.copy(); a += .5; r = a
a = x.copy(); a += 1j; r = a
a = x.copy(); a[0] = 1j; r = a
a = x.copy(); a += z; r = a
a = x.copy(); a[0] = t; r = a
a = x.copy(); a[...] = np.zeros((7, 7, 7)); r = a
a = x.copy(); a.T[...] = y.T; r = a
a = x; w_ = a.astype(float, copy=False); r = w_ is a
a = np.empty(2, dtype=object); a[0], a[1] = x, y; r = a[1]
a = np.empty(2, dtype=object); a[0], a[1] = x, y; a[...] = np.roll(a, -1); r = a[0]
a = x.copy(); w_ = a.view(); w_[0] = 3; r = a
a = x.copy(); w_ = a.swapaxes(0, 1); w_[0] += 1; r = a
a = x.copy(); w_ = np.moveaxis(a, 0, -1); w_[..., 0] = 1; r = a
a = x.copy(); w_ = a[None]; w_ += 1; r = a
a = x.copy(); w_ = np.asarray(a); w_[0] = 0; r = a
a = x.copy(); w_ = np.array(a); w_[0] = 0; r = a
a = x.copy(); w_ = a*1; w_[0] = 0; r = a
a = x.copy(); w_ = a.ravel(); w_[0] = 0; r = a
a = x.copy(); w_ = np.broadcast_to(a, (2,) + a.shape); w_[0] = 0; r = a
a = x.copy(); a[0], a[-1] = a[-1].copy(), a[0].copy(); r = a
a = t.copy(); a[0], a[1:] = 0, np.cumsum(t)[1:]; r = a
a = np.zeros(x.shape); [a.__setitem__(i, x[i]*2) for i in np.ndindex(x.shape)]; r = a
'''


class Table(Ev):
    """values of the symbols"""

    def __init__(self, dims, values):
        super().__init__(random.Random(0), 3)
        self.dims, self.values = dims, values

    def leaf(self, key, s):
        if isinstance(key, tuple):
            n = key[0]
            if n.startswith('a:') and n[2:] in self.values:
                idx = key[1:]
                a = self.values[n[2:]]
                if any(i != int(i) or not 0 <= i < d for i, d in zip(idx, a.shape)):
                    raise Skip()
                v = a[tuple(int(i) for i in idx)]
                return v.item()
        elif key.op == 'v' and key.a[0] in self.dims:
            return self.dims[key.a[0]]
        raise Skip()


class Differs(Exception):
    pass


def as_real(ev, r):
    """value of a result of the symbolic run"""
    if isinstance(r, snp.ndarray):
        if r._np_dt.kind == 'O':
            raise Skip()
        shape = tuple(int(ev.E(tm(d))) for d in r.shape)
        out = numpy.empty(shape, dtype={'f': float, 'i': int, 'u': int, 'b': bool, 'c': complex}[r._np_dt.kind])
        for i in numpy.ndindex(shape):
            out[i] = ev.E(tm(r.at(*[const(k) for k in i])))
        return out
    if isinstance(r, tuple):
        return tuple(as_real(ev, u) for u in r)
    if isinstance(r, Sym):
        return ev.E(tm(r))
    if isinstance(r, snp.dtype):
        return r.kind
    if isinstance(r, slice):
        return r
    return r


def same(a, b):
    if isinstance(b, numpy.dtype):
        return a == b.kind
    if isinstance(b, (tuple, slice)) or isinstance(b, str):
        return a == b
    x, y = numpy.asarray(a), numpy.asarray(b)
    if x.shape != y.shape or isinstance(a, numpy.ndarray) and x.dtype.kind != y.dtype.kind:
        return False
    if x.dtype.kind == 'O' or y.dtype.kind == 'O':
        return True
    return bool(numpy.allclose(x, y, rtol=1e-7, atol=1e-9))


def case(code, dims, rng, npm):
    names = [n for n in SHAPES]
    vals = {}
    for n in names:
        sh = tuple(dims.get(d, d) for d in SHAPES[n])
        vals[n] = (rng.integers(0, 4, sh) if n == 'j' else rng.random(sh) < .5 if n == 'b' else rng.uniform(-1, 1, sh))
        vals[n] = numpy.asarray(vals[n])
    is_stmt = '=' in code and '; r =' in code

    def go(np, arrays):
        env = dict(arrays, np=np)
        if is_stmt:
            exec(code, env)
            return env['r']
        return eval(code, env)
    try:
        with numpy.errstate(all='ignore'):
            real, rexc = go(numpy, {n: v.copy() for n, v in vals.items()}), None
    except Exception as e:
        real, rexc = None, e
    ev = Table(dims, vals)
    out = []

    def run():
        D = {d: dim(d, 1) for d in dims}
        for d, k in dims.items():
            assume(eq(tm(D[d]), const(k)))
        arrays = {n: arr(n, tuple(D.get(d, d) for d in SHAPES[n]), KIND.get(n, float)) for n in names}
        try:
            got = go(npm, arrays)
        except Exception as e:
            if rexc is None:
                out.append('raises %s: %s' % (type(e).__name__, str(e)[:90]))
            elif not isinstance(e, type(rexc)) and not isinstance(rexc, type(e)) and type(e).__name__ != type(rexc).__name__:
                out.append('raises %s, numpy %s' % (type(e).__name__, type(rexc).__name__))
            else:
                out.append(None)
            return
        if rexc is not None:
            out.append('numpy raises %s: %s' % (type(rexc).__name__, str(rexc)[:90]))
            return
        if callable(got) and not isinstance(got, snp.ndarray):
            out.append(None)
            return
        g = as_real(ev, got)
        out.append(None if same(g, real) else 'got %r, numpy %r' % (g, real))
    eng = Engine('selftest', max_paths=60, timeout=4000, budget=20)
    eng.explore(run)
    return out


def main(verbose=False, stride=1, offset=0):
    snp_module = snp.module()
    rng = numpy.random.default_rng(0)
    codes = [c.strip() for l in CASES.strip().split('\n') for c in l.split(';')] + \
        [l.strip() for l in STATEMENTS.strip().split('\n')]
    n = bad = 0
    apart = []
    for c in codes:
        for dims in DIMS:
            try:
                for r in case(c, dims, rng, snp_module):
                    n += 1
                    if r:
                        bad += 1
                        print('DIFFERS %s, %s: %s' % (c, dims, r[:300]))
            except (Unsupported, Skip) as e:
                apart.append(c)
                if verbose:
                    print('apart   %s: %s' % (c, str(e)[:100]))
                break
    print('numpy contracts: %d expressions, %d comparisons with numpy, %d differ; %d expressions outside of the subset'
          % (len(codes), n, bad, len(apart)))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main('-v' in sys.argv))
