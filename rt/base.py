"""Run-time contract checks on the real code (real numpy and scipy): the
bounded stand-in for functions out of the verifier's reach, the cross-check of
the library contracts, and the search for a failing input when an obligation
fails.  Everything is derived from (seed, property, checker, index)."""
import json
import os
import sys
import time
import traceback
import warnings
import zlib
import numpy as np

CHECKS = {}


class Fail(Exception):
    pass


def prop(p, n=40, w=1.):
    """register a checker: f(case); n: cases tried in a quick run"""
    def deco(f):
        CHECKS.setdefault(p, []).append((f.__name__, f, n, w))
        return f
    return deco


def _short(x, depth=0):
    if isinstance(x, np.ndarray):
        s = np.array2string(np.asarray(x), threshold=40, precision=17)
        return '%s%s %s' % (x.dtype, x.shape, s if len(s) < 1500 else s[:1500] + '...')
    if isinstance(x, dict):
        return {str(k): _short(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and depth < 2:
        return [_short(v, depth + 1) for v in x]
    r = repr(x)
    return r if len(r) < 600 else r[:600] + '...'


class Case:
    def __init__(self, p, name, seed, i):
        self.p, self.name, self.seed, self.i = p, name, seed, i
        self.rng = np.random.default_rng([seed, zlib.crc32(('%s.%s' % (p, name)).encode()), i])
        self.log = {}

    # -------------------------------------------------------------- drawing
    def note(self, **kw):
        for k, v in kw.items():
            self.log[k] = _short(v)
        return list(kw.values())[0] if len(kw) == 1 else None

    def choice(self, xs):
        return xs[int(self.rng.integers(len(xs)))]

    def cycle(self, xs):
        """all alternatives in turn"""
        return xs[self.i % len(xs)]

    def int(self, a, b):
        return int(self.rng.integers(a, b + 1))

    def bool(self, p=.5):
        return bool(self.rng.random() < p)

    def uni(self, a=0., b=1., size=None):
        r = self.rng.uniform(a, b, size)
        return float(r) if size is None else r

    def child(self):
        return np.random.default_rng(int(self.rng.integers(2**31)))

    def timeline(self, n=None, kind=None, lo=1):
        n = self.int(lo, 7) if n is None else n
        kind = kind or self.choice(['any', 'any', 'regular', 'neg', 'int', 'tiny', 'big'])
        if kind == 'int':
            t = np.cumsum(self.rng.integers(1, 4, n)) - self.int(0, 4)
        elif kind == 'regular':
            t = np.linspace(0, self.uni(.5, 4), n) if n > 1 else np.array([0.])
        else:
            t = np.cumsum(self.rng.uniform(.05, 1.5, n))
            if kind == 'neg':
                t = t - t[-1]*self.uni(.3, 1.2)
            elif kind == 'tiny':
                t = t*1e-3
            elif kind == 'big':
                t = t*10 + 100
        return self.note(timeline=t)

    def vshape(self, maxdim=3):
        return self.note(vshape=self.choice([v for v in [(), (), (1,), (2,), (3,), (2, 3), (3, 1), (2, 1, 2), (1, 3)]
                                             if len(v) <= maxdim]))

    def paths(self):
        return self.note(paths=self.choice([1, 2, 3, 5, 8]))

    def values(self, shape, dtype=None):
        dtype = dtype or self.choice([float, float, float, complex, 'f4'])
        x = self.rng.normal(size=shape)*self.choice([1., 1., 10., .1]) + self.choice([0., 0., 3.])
        if np.dtype(dtype).kind == 'c':
            x = x + 1j*self.rng.normal(size=shape)
        if np.dtype(dtype).kind in 'iu':
            x = self.rng.integers(0 if np.dtype(dtype).kind == 'u' else -9, 10, shape)
        return np.asarray(x).astype(dtype)

    # ------------------------------------------------------------- asserting
    def ok(self, cond, what, **kw):
        if not cond:
            self.note(**kw) if kw else None
            raise Fail(what)

    def same(self, a, b, what, exact=False, rtol=1e-9, atol=1e-12, dtype=None):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Fail('%s: shape %s, expected %s' % (what, a.shape, b.shape))
        if a.dtype == np.dtype('f4') or b.dtype == np.dtype('f4') or dtype == 'f4':
            rtol, atol = max(rtol, 2e-4), max(atol, 1e-5)
        if a.dtype == object or b.dtype == object:
            good = np.all(a == b)
        elif exact:
            good = np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc' and b.dtype.kind in 'fc')
        else:
            good = np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not good:
            self.note(got=a, expected=b)
            raise Fail('%s: values differ' % what)

    def raises(self, exc, f, what):
        try:
            r = f()
        except exc:
            return
        except Exception as e:
            raise Fail('%s: raised %s (%s), expected %s' % (what, type(e).__name__, e, exc))
        self.note(returned=r)
        raise Fail('%s: no exception, expected %s' % (what, exc))

    # ------------------------------------------------------------ statistics
    def zmean(self, x, m, var, what, k=6.):
        """sample mean (axis 0) of iid rows with the given mean and variance"""
        x = np.asarray(x, float)
        n = x.shape[0]
        d = np.abs(x.mean(axis=0) - m)
        bad = d > k*np.sqrt(np.asarray(var)/n) + 1e-12
        if np.any(bad) or np.any(np.isnan(d)):
            self.note(sample_mean=x.mean(axis=0), expected_mean=np.asarray(m), tolerance=k*np.sqrt(np.asarray(var)/n))
            raise Fail('%s: sample mean too far from the expected one' % what)

    def zcov(self, x, C, what, k=6.5):
        """rows of x: iid zero mean Gaussian with covariance C"""
        x = np.asarray(x, float)
        n = x.shape[0]
        S = x.T @ x/n
        d = np.diag(C)
        tol = k*np.sqrt((np.outer(d, d) + C*C)/n) + 1e-12
        if np.any(~(np.abs(S - C) <= tol)):
            self.note(sample_cov=S, expected_cov=C, tolerance=tol)
            raise Fail('%s: sample covariance too far from the expected one' % what)


def run_one(p, name, f, seed, i):
    c = Case(p, name, seed, i)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            f(c)
        return None
    except Fail as e:
        msg = str(e)
    except Exception as e:
        tb = traceback.format_exc()
        msg = 'unexpected %s: %s\n%s' % (type(e).__name__, e, tb[-1500:])
    return dict(property=p, checker=name, seed=seed, case=i, message=msg, inputs=c.log)


def run(p, seed, budget, scale=1.):
    """-> dict(cases, per checker counts, failure)"""
    t0 = time.time()
    out = dict(property=p, cases=0, checkers={}, failures=[])
    checks = CHECKS.get(p, [])
    todo = [[name, f, int(n*scale), 0] for name, f, n, w in checks]
    # round robin, so that all checkers get their share of the time
    live = True
    done = set()
    while live:
        live = False
        for item in todo:
            name, f, n, i = item
            if i >= n or name in done:
                continue
            if time.time() - t0 > budget and i >= 2:
                continue
            live = True
            r = run_one(p, name, f, seed, i)
            item[3] += 1
            out['cases'] += 1
            out['checkers'][name] = out['checkers'].get(name, 0) + 1
            if r is not None:
                out['failures'].append(r)
                done.add(name)
                if len(out['failures']) >= 3:
                    out['wall'] = time.time() - t0
                    return out
    out['wall'] = time.time() - t0
    return out
