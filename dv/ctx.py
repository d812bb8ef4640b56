"""Contexts in which a contract (harness) is evaluated.

A harness is one Python function ``h(c, **cfg)``: it draws inputs from ``c``,
calls the real pvfactors code on them and states what must hold.  With a
SymCtx the inputs are arbitrary reals and every stated fact is a proof
obligation; with a NumCtx the inputs are sampled (or replayed) floats and
every stated fact is evaluated (the falsifier, and the replay of
counter-models)."""
import math
import random
import re

import numpy as np

from . import terms as T
from .engine import PathInfeasible
from .terms import R, B, TRUE, FALSE


def foreign(name, pid):
    """a clause of another property than the one being decided"""
    m = re.match(r'C\d\d(?=\.)', name)
    return bool(pid and m and m.group() != pid)


class Reject(Exception):
    """sampled input outside the precondition"""


class Failed(Exception):
    """contract violated on a concrete input"""

    def __init__(self, name, info, inputs):
        super().__init__('%s: %s' % (name, info))
        self.name, self.info, self.inputs = name, info, inputs


# ------------------------------------------------------------------ numeric
class NumMath:
    inf = float('inf')
    pi = math.pi

    @staticmethod
    def cosd(x):
        return math.cos(math.radians(x))

    @staticmethod
    def sind(x):
        return math.sin(math.radians(x))

    @staticmethod
    def sqrt(x):
        return math.sqrt(max(x, 0.))

    @staticmethod
    def abs(x):
        return abs(x)

    @staticmethod
    def min(*a):
        return min(a)

    @staticmethod
    def max(*a):
        return max(a)

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    @staticmethod
    def and_(*a):
        return all(bool(x) for x in a)

    @staticmethod
    def or_(*a):
        return any(bool(x) for x in a)

    @staticmethod
    def not_(a):
        return not a

    @staticmethod
    def mod(a, m):
        return a % m

    @staticmethod
    def acosd(x):
        return math.degrees(math.acos(min(1., max(-1., x))))

    @staticmethod
    def atand(x):
        return math.degrees(math.atan(x))


class NumCtx:
    sym = False
    M = NumMath

    def __init__(self, rng=None, values=None, T_=None, pid=None):
        self.pid = pid
        self.rng = rng or random.Random(0)
        self.values = dict(values or {})
        self.inputs = {}
        self.nT = T_
        self.checks = 0
        self.nontrivial = set()

    # -- inputs
    def steps(self, n=None):
        if 'T' in self.values:
            self.nT = self.values['T']
        elif self.nT is None:
            self.nT = n or self.rng.choice([1, 2, 3, 5, 8])
        self.inputs['T'] = self.nT
        self.T = self.nT
        return list(range(self.nT))

    def _draw(self, name, lo, hi, special, strict):
        if name in self.values:
            v = self.values[name]
        else:
            if special and self.rng.random() < .25:
                v = self.rng.choice(special)
            else:
                v = self.rng.uniform(lo, hi)
        self.inputs[name] = v
        return v

    def num(self, name, lo, hi, special=(), strict=False):
        return self._draw(name, lo, hi, special, strict)

    def angle(self, name, lo, hi, special=(), strict=False):
        return self._draw(name, lo, hi, special, strict)

    def ser(self, name, lo, hi, special=(), strict=False):
        return np.array([float(self._draw('%s[%d]' % (name, t), lo, hi,
                                          special, strict))
                         for t in range(self.T)])

    def aser(self, name, lo, hi, special=(), strict=False):
        return self.ser(name, lo, hi, special, strict)

    def choice(self, name, options):
        if name in self.values:
            v = self.values[name]
            v = options[v] if isinstance(v, int) and v < len(options) else v
        else:
            v = self.rng.choice(options)
        self.inputs[name] = options.index(v)
        return v

    def arr(self, xs):
        return np.array([float(x) for x in xs])

    def arr2(self, rows):
        return np.array(rows)

    def at(self, a, t):
        if isinstance(a, np.ndarray):
            if a.ndim == 0:
                return a.item()
            a = a[t]
        if isinstance(a, np.ndarray):
            raise TypeError('expected one value per timestep')
        if isinstance(a, (bool, np.bool_)):
            return bool(a)
        return float(a)

    # -- logic
    def fact(self, cond):
        if not cond:
            raise Reject()

    def split(self, name, cases):
        for lab, cond in cases:
            if cond:
                return lab
        raise Reject()

    # -- statements
    def fail(self, name, info):
        if foreign(name, self.pid):
            return
        raise Failed(name, info, dict(self.inputs))

    def eq(self, name, a, b, tol=1e-7, scale=0., keep=False, modulo=()):
        self.checks += 1
        a, b = float(a), float(b)
        if a == b:
            return
        if not (abs(a - b) <= tol * (1 + scale + max(abs(a), abs(b)))):
            self.fail(name, 'got %r, contract says %r' % (a, b))

    def le(self, name, a, b, tol=1e-7):
        self.checks += 1
        if not (float(a) <= float(b) + tol * (1 + abs(float(b)))):
            self.fail(name, '%r <= %r does not hold' % (float(a), float(b)))

    def ok(self, name, cond, info='', keep=False):
        self.checks += 1
        if not bool(cond):
            self.fail(name, 'does not hold %s' % (info,))

    def same(self, name, a, b):
        """identity / plain Python equality (structure, not numbers)"""
        self.checks += 1
        if not (a is b or a == b):
            self.fail(name, 'got %r, contract says %r' % (a, b))

    def note(self, key):
        self.nontrivial.add(key)

    def hint(self, *terms):
        pass

    def iff(self, name, a, b, margin=None):
        """booleans agree; margin: distance of the numbers compared from
        their threshold (skipped when below float noise)"""
        self.checks += 1
        if margin is not None and abs(margin) < 1e-10:
            return
        if bool(a) != bool(b):
            self.fail(name, 'got %r, contract says %r' % (bool(a), bool(b)))


# ------------------------------------------------------------------ symbolic
class SymMath:
    inf = float('inf')
    pi = T.PI

    @staticmethod
    def cosd(x):
        return T.trig(T.lift(x) * T.PI_180)[0]

    @staticmethod
    def sind(x):
        return T.trig(T.lift(x) * T.PI_180)[1]

    @staticmethod
    def sqrt(x):
        return T.sqrt(T.sos(T.lift(x)))

    @staticmethod
    def abs(x):
        return T.absolute(T.lift(x))

    @staticmethod
    def min(*a):
        r = a[0]
        for x in a[1:]:
            r = T.minimum(r, x)
        return r

    @staticmethod
    def max(*a):
        r = a[0]
        for x in a[1:]:
            r = T.maximum(r, x)
        return r

    @staticmethod
    def ite(c, a, b):
        return T.ite(_b(c), a, b)

    @staticmethod
    def and_(*a):
        return T.and_(*[_b(x) for x in a])

    @staticmethod
    def or_(*a):
        return T.or_(*[_b(x) for x in a])

    @staticmethod
    def not_(a):
        return ~_b(a)

    @staticmethod
    def mod(a, m):
        return T.modulo(T.lift(a), T.lift(m))

    @staticmethod
    def acosd(x):
        return T.angle_fn('acos', T.lift(x)) * T.INV_PI_180

    @staticmethod
    def acos(x):
        return T.angle_fn('acos', T.lift(x))

    @staticmethod
    def erf(x):
        return T.angle_fn('erf', T.lift(x))

    @staticmethod
    def sin(x):
        return T.trig(T.lift(x))[1]

    @staticmethod
    def atand(x):
        return T.angle_fn('atan', T.lift(x)) * T.INV_PI_180


def _b(x):
    if isinstance(x, B):
        return x
    return TRUE if x else FALSE


class SymCtx:
    sym = True
    M = SymMath

    def __init__(self, eng, nT=2, focus=None, pid=None):
        self.pid = pid
        self.eng = eng
        self.nT = nT
        self.focus(nT - 1 if focus is None else focus)
        self.splits = {}
        self.checks = 0

    def focus(self, t):
        """the timestep the obligations are about"""
        self.t0 = t
        mark = '[%d]' % t
        self.eng.focus = lambda vs: not any(
            '[' in v and not v.endswith(mark) for v in vs)

    def steps(self, n=None):
        self.T = self.nT
        return [self.t0]

    def _range(self, v, lo, hi, strict):
        (m, _), = v.p.items()
        self.eng.samples.ranges[T._ATOMS[m[0][0]].name] = (lo, hi)
        if lo is not None and lo > -1e9:
            self.eng.assume(v > lo if strict else v >= lo)
        if hi is not None and hi < 1e9:
            self.eng.assume(v < hi if strict else v <= hi)

    def num(self, name, lo, hi, special=(), strict=False):
        v = T.var(name, pos=(lo is not None and
                             (lo > 0 or (lo == 0 and strict))),
                  nonneg=lo is not None and lo >= 0)
        self._range(v, lo, hi, strict)
        return v

    def angle(self, name, lo, hi, special=(), strict=False):
        v = T.var(name)
        self._range(v, lo, hi, strict)
        if hi - lo < 360:
            self._angle_facts(v, lo, hi, strict)
        return v

    def _angle_facts(self, v, lo, hi, strict):
        c, s = T.trig(v * T.PI_180)
        ss = self.eng
        def rel(x):
            return x > 0 if strict else x >= 0
        if 0 <= lo and hi <= 180:
            ss.assume(rel(s))
        if -90 <= lo and hi <= 90:
            ss.assume(rel(c))
        if -180 <= lo and hi <= 0:
            ss.assume(rel(-s))

    def _ser(self, name, one):
        from . import sym
        a = np.empty((self.T,), dtype=object)
        for t in range(self.T):
            a[t] = one('%s[%d]' % (name, t), t)
        return a.view(sym.SymArray)

    def ser(self, name, lo, hi, special=(), strict=False):
        def one(nm, t):
            if t == self.t0:
                return self.num(nm, lo, hi, special, strict)
            return T.var(nm)
        return self._ser(name, one)

    def aser(self, name, lo, hi, special=(), strict=False):
        def one(nm, t):
            if t == self.t0:
                return self.angle(nm, lo, hi, special, strict)
            return T.var(nm)
        return self._ser(name, one)

    def choice(self, name, options):
        return self.eng.choose(name, options)

    def arr(self, xs):
        from . import sym
        return sym.asym(list(xs))

    def arr2(self, rows):
        from . import sym
        return sym.NP.array(rows)

    def at(self, a, t):
        from . import sym
        if isinstance(a, np.ndarray):
            a = np.asarray(a)
            if a.ndim == 0:
                return sym.norm(a.item())
            a = a[t]
        if isinstance(a, np.ndarray):
            raise TypeError('expected one value per timestep')
        return sym.norm(a)

    def fact(self, cond):
        self.eng.assume(_b(cond))

    def split(self, name, cases):
        i = self.eng.choose_case(name, [(l, _b(c)) for l, c in cases])
        return cases[i][0]

    def eq(self, name, a, b, tol=0, scale=0, lemmas=(), keep=False,
           modulo=()):
        """keep: once proved, the equality is a fact for what follows;
        modulo: terms that are zero by the contract of a callee"""
        from . import sym
        if not keep and foreign(name, self.pid):
            return False
        a, b = sym.norm(a), sym.norm(b)
        if isinstance(a, B) or isinstance(b, B):
            return self.iff(name, a, b)
        if not isinstance(a, R) or not isinstance(b, R):
            if isinstance(a, R) and not isinstance(b, R) and b == 0:
                b = T.ZERO
            elif isinstance(b, R) and not isinstance(a, R) and a == 0:
                a = T.ZERO
            else:
                good = (not isinstance(a, R) and not isinstance(b, R)
                        and a == b)
                return self._plain(name, good, a, b)
        self.checks += 1
        if modulo:
            d = T.lift(a) - b
            for z in modulo:
                d = T.reduce_by(d, z)
            if T.provably_zero(d):
                self.eng.record(name, 'proved', 'linear combination', 0.)
                return True
            lemmas = list(lemmas) + [T.cmp0(z, 'eq') for z in modulo]
        g = T.cmp_(a, b, '==')
        r = self.eng.prove(name, g, extra=lemmas,
                           timeout=1500 if modulo else None)[0]
        if r and keep and g.op != 'const':
            if keep == 'opaque':     # used by later obligations as it is
                self.eng.kept.append(g)
            else:
                self.eng.assume(g)
        return r

    def le(self, name, a, b, tol=0, lemmas=()):
        from . import sym
        if foreign(name, self.pid):
            return False
        a, b = sym.norm(a), sym.norm(b)
        self.checks += 1
        if not isinstance(a, R):
            a, b = b, a
            g = T.cmp_(a, b, '>=') if isinstance(a, R) else (
                TRUE if b <= a else FALSE)
        else:
            g = T.cmp_(a, b, '<=')
        return self.eng.prove(name, g, extra=lemmas)[0]

    def ok(self, name, cond, info='', lemmas=(), keep=False):
        if not keep and foreign(name, self.pid):
            return False
        self.checks += 1
        return self.eng.prove(name, _b(cond), extra=lemmas)[0]

    def same(self, name, a, b):
        if foreign(name, self.pid):
            return False
        good = a is b
        if not good:
            e = (a == b)
            if isinstance(e, B):
                return self.ok(name, e)
            good = bool(e)
        return self._plain(name, good, a, b)

    def _plain(self, name, good, a, b):
        """a comparison of plain values, on a path that may be infeasible"""
        self.checks += 1
        st = 'proved'
        if not good:
            f = self.eng.feasible(2 * self.eng.prove_ms)
            if f == 'unsat':
                raise PathInfeasible()
            st = 'refuted' if f == 'sat' else 'unknown'
        self.eng.record(name, st, 'evaluation', 0., None if good else
                        dict(goal='%r == %r' % (a, b)))
        return good

    def note(self, key):
        pass

    def hint(self, *terms):
        self.eng.hints.extend(T.lift(x) for x in terms)

    def iff(self, name, a, b, margin=None):
        if foreign(name, self.pid):
            return False
        a, b = _b(a), _b(b)
        self.checks += 1
        if a.n == b.n:
            self.eng.record(name, 'proved', 'normal-form', 0.)
            return True
        g = (a & b) | (~a & ~b)
        return self.eng.prove(name, g)[0]
