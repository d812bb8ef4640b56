"""Numeric evaluation of terms on random points (vectorised).

Only used to avoid hopeless solver calls and to propose counter-examples and
hints: no obligation is ever discharged by sampling."""
import math

import numpy as np

from . import terms as T
from .terms import R, B

N = 3000


class Samples:
    def __init__(self, seed=12345, n=N):
        self.rng = np.random.RandomState(seed)
        self.n = n
        self.avals = {}
        self.vvals = {}
        self.ranges = {}
        self.mask = np.ones(n, dtype=bool)
        self.bvals = {}

    def clone_fresh(self):
        self.mask = np.ones(self.n, dtype=bool)

    def var(self, name):
        v = self.vvals.get(name)
        if v is None:
            lo, hi = self.ranges.get(name, (None, None))
            if lo is None and hi is None:
                v = self.rng.uniform(-3, 3, self.n)
            elif hi is None:
                v = lo + np.exp(self.rng.uniform(-2, 2, self.n))
            elif lo is None:
                v = hi - np.exp(self.rng.uniform(-2, 2, self.n))
            else:
                v = self.rng.uniform(lo, hi, self.n)
            self.vvals[name] = v
        return v

    def atom(self, aid):
        v = self.avals.get(aid)
        if v is not None:
            return v
        a = T._ATOMS[aid]
        k = a.kind
        with np.errstate(all='ignore'):
            if k == 'var':
                v = self.var(a.args[0])
            elif k == 'pi':
                v = np.full(self.n, np.pi)
            elif k in ('cos', 'sin'):
                kind, x, frac = a.args
                if kind == 'const':
                    base = np.radians(self.real(x))
                elif isinstance(x, R):
                    base = self.real(x) * float(frac)
                else:
                    base = self.atom(x.id) * float(frac)
                    if kind == 'deg':
                        base = np.radians(base)
                v = np.cos(base) if k == 'cos' else np.sin(base)
            elif k == 'sqrt':
                v = np.sqrt(np.maximum(self.real(a.args[0]), 0))
            elif k == 'inv':
                v = 1. / self.real(a.args[0])
            elif k == 'abs':
                v = np.abs(self.real(a.args[0]))
            elif k == 'ite':
                v = np.where(self.bool(a.args[0]), self.real(a.args[1]),
                             self.real(a.args[2]))
            elif k == 'mod':
                v = np.mod(self.real(a.args[0]), self.real(a.args[1]))
            elif k == 'fn':
                nm = a.args[0]
                xs = [self.real(x) for x in a.args[1:]]
                if nm == 'atan2':
                    v = np.arctan2(*xs)
                elif nm == 'acos':
                    v = np.arccos(np.clip(xs[0], -1, 1))
                elif nm == 'asin':
                    v = np.arcsin(np.clip(xs[0], -1, 1))
                elif nm == 'atan':
                    v = np.arctan(xs[0])
                elif nm == 'erf':
                    v = np.array([math.erf(u) for u in xs[0]])
                elif nm == 'exp':
                    v = np.exp(xs[0])
                elif nm == 'pow':
                    v = np.power(xs[0], xs[1])
                elif nm == 'rest':
                    v = np.abs(self.rng.uniform(1, 3, self.n))
                else:
                    v = self.rng.uniform(-1, 1, self.n)
            else:
                v = self.rng.uniform(-1, 1, self.n)
        v = np.asarray(v, dtype=float)
        self.avals[aid] = v
        return v

    def real(self, r):
        out = np.zeros(self.n)
        with np.errstate(all='ignore'):
            for m, c in r.p.items():
                t = float(c)
                for aid, e in m:
                    x = self.atom(aid)
                    t = t * (x if e == 1 else x ** e)
                out = out + t
        return out

    def bool(self, b):
        v = self.bvals.get(b.n)
        if v is not None:
            return v
        op = b.op
        if op == 'const':
            v = np.full(self.n, b.args[0])
        elif op == 'gt':
            v = self.real(b.args[0]) > 0
        elif op == 'ge':
            v = self.real(b.args[0]) >= 0
        elif op == 'eq':
            v = np.abs(self.real(b.args[0])) < 1e-9
        elif op == 'bvar':
            v = self.rng.uniform(0, 1, self.n) < .5
        elif op == 'not':
            v = ~self.bool(b.args[0])
        elif op == 'and':
            v = np.ones(self.n, dtype=bool)
            for x in b.args:
                v = v & self.bool(x)
        else:
            v = np.zeros(self.n, dtype=bool)
            for x in b.args:
                v = v | self.bool(x)
        self.bvals[b.n] = v
        return v

    def margin(self, b):
        """how far from flipping (atomic comparisons), None otherwise"""
        if b.op in ('gt', 'ge'):
            return np.abs(self.real(b.args[0]))
        return None

    def add_fact(self, b):
        self.mask = self.mask & self.bool(b)

    def verdict(self, b):
        """'both' | 'true' | 'false' | None (no sample)"""
        k = int(self.mask.sum())
        if k == 0:
            return None
        v = self.bool(b)[self.mask]
        if v.all():
            return 'true'
        if not v.any():
            return 'false'
        if b.op in ('gt', 'ge'):
            m = self.real(b.args[0])[self.mask]
            if (m > 1e-9).any() and (m < -1e-9).any():
                return 'both'
            return 'true' if not (m < -1e-9).any() else 'false'
        return 'both'

    def zero(self, r):
        """False if r is numerically non-zero at some sample point"""
        v = self.real(r)
        if self.mask.any():
            v = v[self.mask]
        v = v[np.isfinite(v)]
        if not len(v):
            return True
        scale = 1e-6 * (1 + self.scale(r))
        return not (np.abs(v) > scale).any()

    def scale(self, r):
        s = 0.
        with np.errstate(all='ignore'):
            for m, c in r.p.items():
                t = abs(float(c))
                for aid, e in m:
                    x = np.abs(self.atom(aid))
                    t = t * (x if e == 1 else x ** e)
                t = np.asarray(t, dtype=float)
                t = t[np.isfinite(t)] if t.ndim else t
                s = max(s, float(np.median(t)) if np.size(t) else 0.)
        return s

    def counterexample(self, goal, names):
        """values of the named variables at a point where facts hold and the
        goal clearly fails"""
        v = ~self.bool(goal) & self.mask
        if goal.op in ('gt', 'ge'):
            v = v & (self.real(goal.args[0]) < -1e-6)
        elif goal.op == 'eq':
            v = v & (np.abs(self.real(goal.args[0])) > 1e-6)
        idx = np.nonzero(v)[0]
        if not len(idx):
            return None
        i = int(idx[0])
        return {n: float(self.vvals[n][i]) for n in self.vvals}
