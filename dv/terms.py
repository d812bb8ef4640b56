"""Symbolic real and boolean terms in a canonical (hash-consed) normal form.

A real term ``R`` is a Laurent polynomial with rational coefficients over
*atoms*: variables, cos/sin of base angles, square roots, inverses of
multi-term polynomials, if-then-else terms, opaque function applications...
The normal form is computed at construction time, so that two expressions
equal by ring reasoning, cos^2+sin^2=1, sqrt(x)^2=x and angle addition have
the same representation.  A boolean term ``B`` is a formula over polynomial
comparisons.  Everything here is mathematics on terms: no solver involved.
"""
from fractions import Fraction
import math
import numbers
import numpy as np

F0, F1 = Fraction(0), Fraction(1)


class Unsupported(Exception):
    """The verifier cannot express an operation of the code under proof."""


# --------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'name', 'nonneg', 'pos', 'nonzero',
                 'is_int', 'arg_sos', 'vars')

    def __repr__(self):
        return self.name


_ATOMS = []
_ATOM_BY_KEY = {}


def atom(kind, args, name, nonneg=False, pos=False, nonzero=False,
         is_int=False, arg_sos=False):
    key = (kind,) + _keyify(args)
    a = _ATOM_BY_KEY.get(key)
    if a is None:
        a = Atom()
        a.id = len(_ATOMS)
        a.kind, a.args, a.name = kind, args, name
        if len(name) > 60:
            a.name = name[:50] + '~%d' % a.id
        a.pos, a.nonneg, a.nonzero = pos, nonneg or pos, nonzero or pos
        a.is_int, a.arg_sos = is_int, arg_sos
        vs = set()
        for x in args:
            if isinstance(x, (R, B)):
                vs |= x.vars()
        if kind == 'var':
            vs = {name}
        elif kind in ('cos', 'sin'):
            vs = set(_base_vars(args))
        a.vars = frozenset(vs)
        _ATOMS.append(a)
        _ATOM_BY_KEY[key] = a
    elif arg_sos and not a.arg_sos:
        a.arg_sos = True
    return a


def _keyify(args):
    out = []
    for x in args:
        if isinstance(x, R):
            out.append(x.key())
        elif isinstance(x, B):
            out.append(('B', x.n))
        elif isinstance(x, tuple):
            out.append(_keyify(x))
        elif isinstance(x, Atom):
            out.append(('A', x.id))
        else:
            out.append(x)
    return tuple(out)


def _base_vars(args):
    out = set()
    for x in args:
        if isinstance(x, Atom):
            out |= x.vars
        elif isinstance(x, R):
            out |= x.vars()
        elif isinstance(x, tuple):
            out |= _base_vars(x)
    return out


# --------------------------------------------------------------- monomials
# monomial: tuple of (atom_id, exponent) sorted by atom id, exponents != 0
_sq_cache = {}


def _reduce_pow(aid, e):
    """Return None if (atom, e) is irreducible, else poly dict for atom**e."""
    a = _ATOMS[aid]
    if e >= 2:
        if a.kind == 'sin':
            c = atom('cos', a.args, '').id
            return {(): F1, ((c, 2),): -F1}
        if a.kind == 'sqrt':
            return a.args[0].p
        if a.kind == 'abs':
            return _pmul(a.args[0].p, a.args[0].p)
    return None


def _mono_mul(m1, m2):
    """multiply monomials -> (monomial, list of (aid, e>=2 to reduce))"""
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] < b[0]:
            out.append(a)
            i += 1
        elif a[0] > b[0]:
            out.append(b)
            j += 1
        else:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


_needs_cache = {}


def _needs_reduction(m):
    for aid, e in m:
        if e >= 2 and _ATOMS[aid].kind in ('sin', 'sqrt', 'abs'):
            return True
    return False


def _add_into(d, m, c):
    v = d.get(m)
    if v is None:
        d[m] = c
    else:
        v = v + c
        if v:
            d[m] = v
        else:
            del d[m]


def _add_reduced(d, m, c):
    if not _needs_reduction(m):
        _add_into(d, m, c)
        return
    for k, (aid, e) in enumerate(m):
        if e >= 2:
            r = _reduce_pow(aid, 2)
            if r is not None:
                rest = m[:k] + (((aid, e - 2),) if e > 2 else ()) + m[k + 1:]
                for m2, c2 in r.items():
                    _add_reduced(d, _mono_mul(rest, m2), c * c2)
                return
    _add_into(d, m, c)


LIMIT = 6000


def _pmul(p, q):
    d = {}
    if len(p) * len(q) > 4000000:
        raise Unsupported('polynomial too large')
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            _add_reduced(d, _mono_mul(m1, m2), c1 * c2)
    if len(d) > LIMIT:
        raise Unsupported('polynomial too large')
    return d


def _padd(p, q, s=1):
    d = dict(p)
    for m, c in q.items():
        _add_into(d, m, c if s == 1 else -c)
    return d


def _frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    x = float(x)
    return Fraction(x)


class Special(Exception):
    pass


def is_special(x):
    """a float that must keep IEEE meaning: inf, nan, -0.0"""
    if isinstance(x, (float, np.floating)):
        return math.isinf(x) or math.isnan(x) or (
            x == 0 and math.copysign(1, x) < 0)
    return False


# --------------------------------------------------------------- reals
_R_CACHE = {}
HOOK = None      # engine: sign / decide queries (set by engine.py)


class R(numbers.Real):
    __slots__ = ('p', 'sos', '_h', '_key', '_vars')

    @staticmethod
    def make(p, sos=False):
        r = R.__new__(R)
        r.p = p
        r.sos = sos
        r._h = r._key = r._vars = None
        return r

    # --- basics
    def key(self):
        if self._key is None:
            self._key = frozenset(self.p.items())
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def same(self, o):
        return self.p == o.p

    def is_const(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    def const(self):
        return self.p.get((), F0)

    def vars(self):
        if self._vars is None:
            s = set()
            for m in self.p:
                for aid, _ in m:
                    s |= _ATOMS[aid].vars
            self._vars = frozenset(s)
        return self._vars

    def atoms(self):
        s = set()
        for m in self.p:
            for aid, _ in m:
                s.add(aid)
        return s

    def __repr__(self):
        if not self.p:
            return '0'
        out = []
        for m, c in list(self.p.items())[:12]:
            t = '*'.join('%s%s' % (_ATOMS[a].name, '' if e == 1 else '^%d' % e)
                         for a, e in m)
            out.append('%s%s' % (_cstr(c), ('*' + t) if t else ''))
        s = ' + '.join(out)
        if len(self.p) > 12:
            s += ' + ...[%d terms]' % len(self.p)
        return s

    # --- arithmetic
    def _bin(self, o):
        """coerce other operand; returns R, special float, or None"""
        if isinstance(o, R):
            return o
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return self._bin(o.item())
            return None
        if isinstance(o, B):
            return o.as_real()
        if is_special(o):
            return o
        if isinstance(o, numbers.Real) or isinstance(o, np.bool_):
            return lift(o)
        return None

    def __add__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, R):
            return self if o == 0 else np.float64(o)
        return R.make(_padd(self.p, o.p), self.sos and o.sos)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, R):
            return self if o == 0 else np.float64(-o)
        return R.make(_padd(self.p, o.p, -1))

    def __rsub__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, R):
            return -self if o == 0 else np.float64(o)
        return R.make(_padd(o.p, self.p, -1))

    def __neg__(self):
        if not self.p:
            # the sign of a zero constant matters for flat rows
            return np.float64(-0.0)
        return R.make({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, R):
            if o == 0:
                return ZERO
            if math.isnan(o):
                return o
            s = HOOK.sign(self)
            return np.float64(o * s) if s else np.float64('nan')
        if self is o:
            return R.make(_pmul(self.p, o.p), True)
        return R.make(_pmul(self.p, o.p), self.sos and o.sos)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, R):
            if o == 0:
                s = HOOK.sign(self)
                return np.float64(s) / np.float64(o)
            return o if math.isnan(o) else ZERO
        return divide(self, o)

    def __rtruediv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, R):
            s = HOOK.sign(self)
            return np.float64(o) * s if s else np.float64('nan')
        return divide(o, self)

    def __pow__(self, e):
        if isinstance(e, R) and e.is_const():
            e = e.const()
        if isinstance(e, (R, np.ndarray)):
            if isinstance(e, np.ndarray):
                return NotImplemented
            return opaque('pow', self, e)
        if float(e) == 0.5:
            return self.sqrt()
        if float(e) != int(e):
            return opaque('pow', self, lift(e))
        e = int(e)
        if e < 0:
            return divide(ONE, self ** (-e))
        out = {(): F1}
        for _ in range(e):
            out = _pmul(out, self.p)
        return R.make(out, e % 2 == 0 or self.sos)

    def __rpow__(self, o):
        return opaque('pow', lift(o), self)

    def __mod__(self, o):
        return modulo(self, lift(o))

    def __rmod__(self, o):
        return modulo(lift(o), self)

    def __floordiv__(self, o):
        o = lift(o)
        return divide(self - modulo(self, o), o)

    def __rfloordiv__(self, o):
        return lift(o).__floordiv__(self)

    def __abs__(self):
        return absolute(self)

    # --- comparisons give boolean terms
    def __eq__(self, o):
        return cmp_(self, o, '==')

    def __ne__(self, o):
        r = cmp_(self, o, '==')
        return r if r is NotImplemented else ~r

    def __lt__(self, o):
        return cmp_(self, o, '<')

    def __le__(self, o):
        return cmp_(self, o, '<=')

    def __gt__(self, o):
        return cmp_(self, o, '>')

    def __ge__(self, o):
        return cmp_(self, o, '>=')

    def __bool__(self):
        return bool(~cmp_(self, 0, '=='))

    # --- things demanded by numbers.Real
    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        raise Unsupported('symbolic value used as an index')

    def __trunc__(self):
        return self.__int__()

    def __floor__(self):
        raise Unsupported('floor')

    def __ceil__(self):
        raise Unsupported('ceil')

    def __round__(self, n=None):
        raise Unsupported('round')

    def conjugate(self):
        return self

    # --- numpy object-loop methods
    def sqrt(self):
        return sqrt(self)

    def cos(self):
        return trig(self)[0]

    def sin(self):
        return trig(self)[1]

    def tan(self):
        c, s = trig(self)
        return divide(s, c)

    def deg2rad(self):
        return self * PI_180

    radians = deg2rad

    def rad2deg(self):
        return self * INV_PI_180

    degrees = rad2deg

    def arctan2(self, o):
        return atan2(self, lift(o))

    def arctan(self):
        return angle_fn('atan', self)

    def arccos(self):
        return angle_fn('acos', self)

    def arcsin(self):
        return angle_fn('asin', self)

    def exp(self):
        return opaque('exp', self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return UFUNC(uf, method, inputs, kw)


def _cstr(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    return repr(f)


def lift(x):
    if isinstance(x, R):
        return x
    if isinstance(x, B):
        return x.as_real()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, str) or x is None:
        raise Unsupported('lift %r' % (x,))
    c = _frac(x)
    return R.make({(): c} if c else {}, c >= 0)


def from_mono(m, c=F1):
    return R.make({m: c} if c else {})


def from_atom(a):
    return R.make({((a.id, 1),): F1}, a.nonneg)


def var(name, **kw):
    return from_atom(atom('var', (name,), name, **kw))


# --------------------------------------------------------------- division
def content_normalise(r):
    """r = (coefficient) * (monomial gcd) * primitive; returns c, m, prim"""
    items = list(r.p.items())
    # common monomial: min exponent of each atom over all terms
    common = dict(items[0][0])
    for m, _ in items[1:]:
        dm = dict(m)
        for aid in list(common):
            e = dm.get(aid, 0)
            cur = common[aid]
            if e == 0 and cur > 0:
                del common[aid]
            else:
                common[aid] = min(cur, e)
                if common[aid] == 0:
                    del common[aid]
        for aid, e in m:
            if aid not in common and e < 0:
                common[aid] = e
    # atoms with negative exponent in one term but absent in others
    for m, _ in items:
        dm = dict(m)
        for aid, e in dm.items():
            if e < 0:
                common[aid] = min(common.get(aid, 0), e)
    common = {a: e for a, e in common.items() if e}
    cm = tuple(sorted(common.items()))
    inv = tuple((a, -e) for a, e in cm)
    d = {}
    for m, c in items:
        _add_reduced(d, _mono_mul(m, inv), c)
    lead = min(d)     # deterministic choice
    c = d[lead]
    d = {m: v / c for m, v in d.items()}
    return c, cm, R.make(d)


def divide(a, b):
    if not b.p:
        if not a.p:
            return opaque('undef')
        s = HOOK.sign(a)
        return np.float64(s) * np.inf
    if not a.p:
        HOOK.divisor(b)
        return ZERO
    if b.is_const():
        c = b.const()
        return R.make({m: v / c for m, v in a.p.items()}, a.sos and c > 0)
    HOOK.divisor(b)
    if len(b.p) == 1:
        (m, c), = b.p.items()
        inv = tuple((x, -e) for x, e in m if _ATOMS[x].kind != 'inv' or e < 0)
        d = {}
        for m1, c1 in a.p.items():
            _add_reduced(d, _mono_mul(m1, inv), c1 / c)
        for x, e in m:
            if _ATOMS[x].kind == 'inv' and e > 0:
                for _ in range(e):
                    d = _pmul(d, _ATOMS[x].args[0].p)
        return R.make(d)
    if a.p == b.p:
        return ONE
    c, cm, prim = content_normalise(b)
    q = exact_quotient(a, prim)
    inv = tuple((x, -e) for x, e in cm)
    if q is None:
        ia = atom('inv', (prim,), '1/(%r)' % prim)
        inv = _mono_mul(inv, ((ia.id, 1),))
        q = a
    d = {}
    for m1, c1 in q.p.items():
        _add_reduced(d, _mono_mul(m1, inv), c1 / c)
    return R.make(d)


def exact_quotient(a, b):
    """a/b when a is a constant multiple of b (cheap check only)"""
    if len(a.p) != len(b.p):
        return None
    m = min(b.p)
    if m in a.p:
        k = a.p[m] / b.p[m]
        if all(a.p.get(mm) == k * c for mm, c in b.p.items()):
            return lift(k)
    return None


# --------------------------------------------------------------- sqrt, abs
def poly_sqrt(p):
    """s with s*s == p (as polynomials, no reduction), or None"""
    if not p:
        return {}
    # use a total order: tuples compare; graded by total degree then lex
    def key(m):
        return (sum(e for _, e in m), m)
    lead = max(p, key=key)
    c = p[lead]
    if c < 0:
        return None
    rc = _frac_sqrt(c)
    if rc is None or any(e % 2 for _, e in lead):
        return None
    lm = tuple((a, e // 2) for a, e in lead)
    s = {lm: rc}
    rem = _padd(p, _pmul(s, s), -1)
    n = 0
    while rem:
        n += 1
        if n > 8:
            return None
        m = max(rem, key=key)
        qm = _mono_mul(m, tuple((a, -e) for a, e in lm))
        if any(e < 0 and all(e0 >= 0 for mm in p for a0, e0 in mm if a0 == a)
               for a, e in qm):
            return None
        qc = rem[m] / (2 * rc)
        if qm in s:
            return None
        t = {qm: qc}
        # rem -= 2*s*t + t^2
        st = _pmul(s, t)
        rem = _padd(rem, {k: 2 * v for k, v in st.items()}, -1)
        rem = _padd(rem, _pmul(t, t), -1)
        s[qm] = qc
    return s


def _isqrt_exact(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def _frac_sqrt(c):
    a, b = _isqrt_exact(c.numerator), _isqrt_exact(c.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b)


def mono_known_sign(m):
    """+1 if the monomial is known > 0, 0 if unknown, 2 if known >= 0"""
    strict = True
    for aid, e in m:
        a = _ATOMS[aid]
        if e % 2 == 0:
            if not a.nonzero:
                strict = False
            continue
        if a.pos:
            continue
        if a.nonneg:
            strict = False
            continue
        s = HOOK.atom_sign(a)
        if s == 1:
            continue
        return 0
    return 1 if strict else 2


def sqrt(r):
    if r.is_const():
        c = r.const()
        if c < 0:
            return opaque('sqrt_neg', r)
        s = _frac_sqrt(c)
        if s is not None:
            return lift(s)
    ps = poly_sqrt(r.p)
    if ps is not None:
        return absolute(R.make(ps))
    h = HOOK.sqrt_hint(r)
    if h is not None:
        return absolute(h)
    # pull square factors of positive atoms out of the content
    c, cm, prim = content_normalise(r)
    if c < 0:
        c, prim = -c, R.make({m: -v for m, v in prim.p.items()})
    outm, inm = [], []
    for aid, e in cm:
        if e % 2 == 0 and (_ATOMS[aid].pos or
                           HOOK.atom_sign(_ATOMS[aid]) == 1):
            outm.append((aid, e // 2))
        else:
            inm.append((aid, e))
    rc = _frac_sqrt(c)
    if rc is None:
        outc, inc = F1, c
    else:
        outc, inc = rc, F1
    inner = R.make(_pmul(prim.p, {tuple(inm): inc}))
    a = atom('sqrt', (inner,), 'sqrt(%r)' % inner, nonneg=True,
             arg_sos=r.sos)
    d = {}
    _add_reduced(d, _mono_mul(tuple(outm), ((a.id, 1),)), outc)
    return R.make(d, True)


def absolute(r):
    if r.is_const():
        return lift(abs(r.const()))
    if len(r.p) == 1:
        x = _atan_arg(next(iter(r.p)))
        if x is not None:        # |c atan(x)| = |c| atan(|x|)
            (m, c), = r.p.items()
            v = angle_fn('atan', absolute(x)) * lift(abs(c))
            return from_mono(tuple(q for q in m if _is_const_atom(q[0]))) * v
    s = HOOK.sign_quick(r)
    if s is not None:
        if s > 0:
            return R.make(r.p, r.sos)
        return -r
    if len(r.p) == 1:
        (m, c), = r.p.items()
        k = mono_known_sign(m)
        if k:
            return R.make({m: abs(c)})
        # |c*m| = |c| * known part * |rest|
        known = tuple((a, e) for a, e in m if e % 2 == 0 or _ATOMS[a].nonneg)
        rest = tuple((a, e) for a, e in m
                     if not (e % 2 == 0 or _ATOMS[a].nonneg))
        base = from_mono(rest)
        aa = atom('abs', (base,), '|%r|' % base, nonneg=True)
        d = {}
        _add_reduced(d, _mono_mul(known, ((aa.id, 1),)), abs(c))
        return R.make(d, True)
    lead = min(r.p)
    if r.p[lead] < 0:
        r = -r
    aa = atom('abs', (r,), '|%r|' % r, nonneg=True)
    return R.make({((aa.id, 1),): F1}, True)


def reduce_by(r, z):
    """r minus the rational multiple of z that removes most of its
    monomials (any such multiple is sound when z == 0)"""
    votes = {}
    for m, v in z.p.items():
        if m in r.p:
            f = r.p[m] / v
            votes[f] = votes.get(f, 0) + 1
    if not votes:
        return r
    f = max(votes, key=votes.get)
    d = R.make(_padd(r.p, {k: v * f for k, v in z.p.items()}, -1))
    return d if len(d.p) < len(r.p) + len(z.p) / 2 else r


def _is_const_atom(aid):
    return _ATOMS[aid].kind not in ('fn',) and _ATOMS[aid].pos


def _atan_arg(m):
    """x if the monomial is a positive atom product times atan(x)"""
    x = None
    for aid, e in m:
        a = _ATOMS[aid]
        if a.kind == 'fn' and a.args[0] == 'atan' and e == 1 and x is None:
            x = a.args[1]
        elif not _is_const_atom(aid):
            return None
    return x


# --------------------------------------------------------------- functions
def opaque(name, *args):
    args = tuple(lift(x) if not isinstance(x, (R, B)) else x for x in args)
    a = atom('fn', (name,) + args, '%s(%s)' % (name, ', '.join(map(repr, args))))
    return from_atom(a)


def modulo(r, m):
    if r.is_const() and m.is_const():
        return lift(r.const() % m.const())
    if m.is_const():
        # drop constant multiples of the modulus
        k = m.const()
        c = r.p.get((), F0)
        r = r - lift((c // k) * k) if c else r
    a = atom('mod', (r, m), 'mod(%r, %r)' % (r, m), nonneg=True)
    return from_atom(a)


# trigonometry ------------------------------------------------------------
_PI = atom('pi', (), 'PI', pos=True)
PI = from_atom(_PI)


def _angle_parts(r):
    """radian polynomial -> (list of (base, integer multiple), quarter turns)
    base is an opaque hashable describing an angle in radians."""
    parts = {}
    quarters = F0
    leftover = {}
    for m, c in r.p.items():
        dm = dict(m)
        if m == ((_PI.id, 1),):
            quarters += c * 2
            continue
        if dm.get(_PI.id) == 1 and len(m) == 2:
            (aid, e), = [(a, e) for a, e in m if a != _PI.id]
            if e == 1:
                q = c * 180          # multiple of the atom in degrees
                base = ('deg', _ATOMS[aid], Fraction(1, q.denominator))
                parts[base] = parts.get(base, 0) + q.numerator
                continue
        if len(m) == 1 and m[0][1] == 1:
            q = c
            base = ('rad', _ATOMS[m[0][0]], Fraction(1, q.denominator))
            parts[base] = parts.get(base, 0) + q.numerator
            continue
        leftover[m] = c
    if leftover:
        lr = R.make(leftover)
        lead = min(lr.p)
        sgn = 1
        if lr.p[lead] < 0:
            lr = R.make({m: -v for m, v in lr.p.items()})
            sgn = -1
        base = ('gen', lr, F1)
        parts[base] = parts.get(base, 0) + sgn
    return parts, quarters


def _base_cs(base):
    kind, x, frac = base
    if kind == 'rad' and frac == 1 and x.kind == 'fn':
        nm = x.args[0]
        if nm == 'atan2':
            y, xx = x.args[1], x.args[2]
            n = sqrt(sos(xx * xx + y * y))
            return divide(xx, n), divide(y, n)
        if nm == 'acos':
            c = x.args[1]
            return c, sqrt(ONE - c * c)
        if nm == 'asin':
            s = x.args[1]
            return sqrt(ONE - s * s), s
        if nm == 'atan':
            t = x.args[1]
            n = sqrt(sos(ONE + t * t))
            return divide(ONE, n), divide(t, n)
    nm = x.name if isinstance(x, Atom) else repr(x)
    if frac != 1:
        nm = '%s/%d' % (nm, frac.denominator)
    ca = atom('cos', (kind, x, frac), 'cos[%s]' % nm)
    sa = atom('sin', (kind, x, frac), 'sin[%s]' % nm)
    return from_atom(ca), from_atom(sa)


def sos(r):
    return R.make(r.p, True)


def trig(r):
    parts, quarters = _angle_parts(r)
    c, s = ONE, ZERO
    for base, n in sorted(parts.items(), key=lambda t: repr(t[0])):
        if n == 0:
            continue
        bc, bs = _base_cs(base)
        if n < 0:
            bs = R.make({m: -v for m, v in bs.p.items()})
            n = -n
        if n > 16:
            raise Unsupported('angle multiple too large')
        for _ in range(n):
            c, s = c * bc - s * bs, s * bc + c * bs
    q = quarters % 4
    if q.denominator == 1:
        for _ in range(int(q)):
            c, s = R.make({m: -v for m, v in s.p.items()}), c
    else:
        qc, qs = _const_trig(q)
        c, s = c * qc - s * qs, s * qc + c * qs
    return c, s


def _const_trig(q):
    # exact values for multiples of 30 and 45 degrees, else opaque atoms
    deg = q * 90
    tab = {30: (sqrt(lift(3)) / 2, lift(Fraction(1, 2))),
           45: (sqrt(lift(2)) / 2, sqrt(lift(2)) / 2),
           60: (lift(Fraction(1, 2)), sqrt(lift(3)) / 2)}
    k, rem = divmod(deg, 90)
    if rem in tab:
        c, s = tab[rem]
    else:
        ca = atom('cos', ('const', lift(rem), F1), 'cosd(%s)' % rem,
                  pos=0 < rem < 90)
        sa = atom('sin', ('const', lift(rem), F1), 'sind(%s)' % rem,
                  pos=0 < rem < 90)
        c, s = from_atom(ca), from_atom(sa)
    for _ in range(int(k)):
        c, s = -s, c
    return c, s


def atan2(y, x):
    if y.is_const() and x.is_const() and not y.p and x.const() > 0:
        return ZERO
    return opaque('atan2', y, x)


def angle_fn(name, r):
    if r.is_const():
        c = r.const()
        if name == 'acos':
            if c == 1:
                return ZERO
            if c == -1:
                return PI
            if c == 0:
                return PI / 2
        if name in ('atan', 'asin', 'erf') and c == 0:
            return ZERO
    if name in ('atan', 'erf') and r.p and r.p[min(r.p)] < 0:
        return -opaque(name, -r)           # odd
    if name == 'acos' and r.p and r.p[min(r.p)] < 0:
        return PI - opaque(name, -r)
    return opaque(name, r)


# --------------------------------------------------------------- booleans
class B:
    """boolean term.  op: 'const','gt','ge','eq','and','or','not','bvar'"""
    __slots__ = ('op', 'args', '_h', '_vars', '_neg', 'n')
    _cache = {}

    @staticmethod
    def make(op, *args):
        k = (op,) + _keyify(args)
        b = B._cache.get(k)
        if b is None:
            b = B.__new__(B)
            b.op, b.args, b._vars, b._neg = op, args, None, None
            b.n = len(B._cache)
            b._h = b.n
            B._cache[k] = b
        return b

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if isinstance(o, B):
            if self is o:
                return TRUE
            return (self & o) | (~self & ~o)
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    def vars(self):
        if self._vars is None:
            s = set()
            if self.op == 'bvar':
                s.add(self.args[0])
            for a in self.args:
                if isinstance(a, (R, B)):
                    s |= a.vars()
            self._vars = frozenset(s)
        return self._vars

    def __repr__(self):
        if self.op == 'const':
            return str(self.args[0])
        if self.op == 'gt':
            return '(%r > 0)' % self.args
        if self.op == 'ge':
            return '(%r >= 0)' % self.args
        if self.op == 'eq':
            return '(%r == 0)' % self.args
        if self.op == 'bvar':
            return self.args[0]
        if self.op == 'not':
            return '~%r' % self.args
        return '(' + (' & ' if self.op == 'and' else ' | ').join(
            map(repr, self.args)) + ')'

    def _co(self, o):
        if isinstance(o, B):
            return o
        if isinstance(o, (bool, np.bool_)):
            return TRUE if o else FALSE
        if isinstance(o, np.ndarray):
            return None
        if isinstance(o, numbers.Real):
            return TRUE if o else FALSE
        return None

    def __and__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return and_(self, o)
    __rand__ = __and__

    def __or__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return or_(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        o = self._co(o)
        return (self & ~o) | (~self & o)

    def __invert__(self):
        if self._neg is None:
            self._neg = self._negate()
        return self._neg

    def _negate(self):
        if self.op == 'const':
            return FALSE if self.args[0] else TRUE
        if self.op == 'gt':
            return cmp0(R.make({m: -c for m, c in self.args[0].p.items()}),
                        'ge')
        if self.op == 'ge':
            return cmp0(R.make({m: -c for m, c in self.args[0].p.items()}),
                        'gt')
        if self.op == 'not':
            return self.args[0]
        if self.op == 'and':
            return or_(*[~a for a in self.args])
        if self.op == 'or':
            return and_(*[~a for a in self.args])
        return B.make('not', self)

    def __bool__(self):
        if self.op == 'const':
            return self.args[0]
        return HOOK.fork(self)

    def as_real(self):
        if self.op == 'const':
            return ONE if self.args[0] else ZERO
        return ite(self, ONE, ZERO)

    # arithmetic on booleans as numbers
    def __add__(self, o):
        return self.as_real() + (o.as_real() if isinstance(o, B) else o)
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_real() - (o.as_real() if isinstance(o, B) else o)

    def __rsub__(self, o):
        return o - self.as_real()

    def __mul__(self, o):
        return self.as_real() * (o.as_real() if isinstance(o, B) else o)
    __rmul__ = __mul__

    def logical_not(self):
        return ~self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return UFUNC(uf, method, inputs, kw)


UFUNC = None      # set by sym.py
TRUE = B.make('const', True)
FALSE = B.make('const', False)


def bvar(name):
    return B.make('bvar', name)


def and_(*xs):
    out = []
    for x in xs:
        if x.op == 'const':
            if not x.args[0]:
                return FALSE
            continue
        for y in (x.args if x.op == 'and' else (x,)):
            if y not in _idset(out):
                out.append(y)
    s = _idset(out)
    for y in out:
        if id(~y) in {id(z) for z in out}:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return B.make('and', *sorted(out, key=lambda b: b._h))


def or_(*xs):
    out = []
    for x in xs:
        if x.op == 'const':
            if x.args[0]:
                return TRUE
            continue
        for y in (x.args if x.op == 'or' else (x,)):
            if y not in _idset(out):
                out.append(y)
    ids = {id(z) for z in out}
    for y in out:
        if id(~y) in ids:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return B.make('or', *sorted(out, key=lambda b: b._h))


class _idset:
    def __init__(self, lst):
        self.ids = {id(x) for x in lst}

    def __contains__(self, x):
        return id(x) in self.ids


def implies(a, b):
    return or_(~a, b)


def _angle_order(q):
    """atan2(y1, x1) - atan2(y2, x2) with y1, y2 > 0: both angles lie in
    (0, pi), so the difference has the sign of its sine y1 x2 - x1 y2"""
    ang = {}
    for m, v in q.p.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = _ATOMS[m[0][0]]
        if a.kind != 'fn' or a.args[0] != 'atan2':
            return None
        ang[v] = a.args[1:]
    vs = sorted(ang)
    if len(vs) != 2 or vs[0] != -vs[1]:
        return None
    (y2, x2), (y1, x1) = ang[vs[0]], ang[vs[1]]
    for y in (y1, y2):
        b = cmp0(y, 'gt')
        if b.op == 'const':
            if not b.args[0]:
                return None
        elif HOOK.decide(b) is not True:
            return None
    return y1 * x2 - x1 * y2


def cmp0(r, op):
    """canonical comparison of r with 0"""
    if r.is_const():
        c = r.const()
        return TRUE if (c > 0 if op == 'gt' else c >= 0 if op == 'ge'
                        else c == 0) else FALSE
    # divide by the positive content
    c, cm, prim = content_normalise(r)
    # keep sign-significant monomial factors, drop known-positive ones
    keep = tuple((a, e) for a, e in cm
                 if not (_ATOMS[a].pos or HOOK.atom_sign(_ATOMS[a]) == 1)
                 and not (e % 2 == 0 and _ATOMS[a].nonzero))
    flip = 1
    keep2 = []
    for a, e in keep:
        if e % 2 and HOOK.atom_sign(_ATOMS[a]) == -1:
            flip = -flip
        elif e % 2:
            keep2.append((a, 1))
        elif e > 0:
            keep2.append((a, 2))
        else:
            keep2.append((a, 2))
    q = prim if not keep2 else R.make(
        _pmul(prim.p, {tuple(keep2): F1}))
    if op == 'eq':
        if q.is_const():
            return TRUE if not q.p else FALSE
        lead = min(q.p)
        if q.p[lead] < 0:
            q = R.make({m: -v for m, v in q.p.items()})
        return B.make('eq', q)
    if (c < 0) != (flip < 0):
        q = R.make({m: -v for m, v in q.p.items()})
    if q.is_const():
        return cmp0(q, op)
    if len(q.p) == 1:            # atan keeps the sign
        (m, v), = q.p.items()
        x = _atan_arg(m)
        if x is not None:
            return cmp0(x if v > 0 else -x, op)
    if len(q.p) == 2:
        x = _angle_order(q)
        if x is not None:
            return cmp0(x, op)
    # all-known-sign monomials of one sign decide immediately
    if op != 'eq':
        signs = set()
        strict = False
        for m, v in q.p.items():
            k = mono_known_sign(m)
            if not k:
                signs = None
                break
            signs.add(1 if v > 0 else -1)
            if k == 1:
                strict = True
        if signs is not None and len(signs) == 1:
            s = signs.pop()
            if s > 0 and (op == 'ge' or strict):
                return TRUE
            if s < 0 and (op == 'gt' or strict):
                return FALSE
    return B.make(op, q)


def cmp_(a, b, op):
    if isinstance(b, np.ndarray) and b.ndim:
        return NotImplemented
    if isinstance(b, np.ndarray):
        b = b.item()
    if b is None or isinstance(b, str):
        return NotImplemented
    if is_special(b):
        if b == 0:
            b = ZERO
        elif math.isnan(b):
            return FALSE
        else:
            big = b > 0
            res = {'<': big, '<=': big, '>': not big, '>=': not big,
                   '==': False}[op]
            return TRUE if res else FALSE
    try:
        b = lift(b)
    except (Unsupported, TypeError, ValueError):
        return NotImplemented
    d = R.make(_padd(a.p, b.p, -1))
    if op == '>':
        return cmp0(d, 'gt')
    if op == '>=':
        return cmp0(d, 'ge')
    if op == '==':
        return cmp0(d, 'eq')
    n = R.make({m: -c for m, c in d.p.items()})
    return cmp0(n, 'gt' if op == '<' else 'ge')


# --------------------------------------------------------------- ite
def ite(c, a, b):
    """if-then-else on reals (or special floats / booleans)"""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if c.op == 'const':
        return a if c.args[0] else b
    d = HOOK.decide(c)
    if d is not None:
        return a if d else b
    return raw_ite(c, a, b)


def raw_ite(c, a, b):
    if isinstance(a, (bool, np.bool_)):
        a = TRUE if a else FALSE
    if isinstance(b, (bool, np.bool_)):
        b = TRUE if b else FALSE
    if isinstance(a, B) and isinstance(b, B):
        return (c & a) | (~c & b)
    if is_special(a) or is_special(b):
        sa, sb = is_special(a), is_special(b)
        if sa and sb and (a == b or (a != a and b != b)):
            return a
        if (sa and a == 0) or (sb and b == 0):
            a = ZERO if sa and a == 0 else a
            b = ZERO if sb and b == 0 else b
            if not (is_special(a) or is_special(b)):
                return raw_ite(c, a, b)
        return a if HOOK.fork(c) else b
    a, b = lift(a), lift(b)
    if a.p == b.p:
        return a
    if c.op in ('gt', 'ge'):
        # the larger or the smaller of a and b, whichever way it is written
        d = _padd(a.p, b.p, -1)
        q = c.args[0]
        if len(q.p) == len(d):
            d = R.make(d)
            up = c is cmp0(d, 'gt') or c is cmp0(d, 'ge')
            nd = R.make({m: -v for m, v in d.p.items()})
            if up or c is cmp0(nd, 'gt') or c is cmp0(nd, 'ge'):
                if d.p[min(d.p)] < 0:
                    a, b, d = b, a, nd
                    # (a, b) swapped: still their maximum when `up`
                c = cmp0(d, 'ge')
                if not up:
                    a, b = b, a
                if c.op == 'const':
                    return a if c.args[0] else b
                return _raw_ite(c, a, b)
    return _raw_ite(c, a, b)


def _raw_ite(c, a, b):
    # canonical polarity
    n = ~c
    if repr_key(n) < repr_key(c):
        c, a, b = n, b, a
    # pull the common part out:  ite(c, x+k, y+k) = k + ite(c, x, y)
    common = {m: v for m, v in a.p.items() if b.p.get(m) == v}
    if common:
        a2 = R.make({m: v for m, v in a.p.items() if m not in common})
        b2 = R.make({m: v for m, v in b.p.items() if m not in common})
        return R.make(_padd(raw_ite2(c, a2, b2).p, common))
    return raw_ite2(c, a, b)


def raw_ite2(c, a, b):
    at = atom('ite', (c, a, b), 'ite(%r, %r, %r)' % (c, a, b),
              nonneg=_quick_nonneg(a) and _quick_nonneg(b))
    return from_atom(at)


def _quick_nonneg(r):
    """intrinsic (path independent) non-negativity"""
    for m, v in r.p.items():
        if v < 0:
            return False
        for aid, e in m:
            if e % 2 and not _ATOMS[aid].nonneg:
                return False
    return True


def repr_key(b):
    return (b._h)


def minimum(a, b):
    if is_special(a) or is_special(b):
        if is_special(a) and is_special(b):
            return np.minimum(a, b)
        sp, o = (a, b) if is_special(a) else (b, a)
        if math.isnan(sp):
            return sp
        if sp == 0:
            return minimum(ZERO, lift(o))
        return o if sp > 0 else sp
    a, b = lift(a), lift(b)
    return ite(a <= b, a, b)


def maximum(a, b):
    if is_special(a) or is_special(b):
        if is_special(a) and is_special(b):
            return np.maximum(a, b)
        sp, o = (a, b) if is_special(a) else (b, a)
        if math.isnan(sp):
            return sp
        if sp == 0:
            return maximum(ZERO, lift(o))
        return sp if sp > 0 else o
    a, b = lift(a), lift(b)
    return ite(a >= b, a, b)


ZERO = R.make({}, True)
ONE = R.make({(): F1}, True)
PI_180 = PI / 180 if False else R.make({((_PI.id, 1),): Fraction(1, 180)}, True)
INV_PI_180 = R.make({((_PI.id, -1),): Fraction(180)}, True)


class _NullHook:
    def sqrt_hint(self, r):
        return None

    def sign(self, r):
        raise Unsupported('sign needed')

    def sign_quick(self, r):
        return None

    def atom_sign(self, a):
        return 0

    def divisor(self, r):
        pass

    def decide(self, b):
        return None

    def fork(self, b):
        raise Unsupported('fork needed')


HOOK = _NullHook()


def set_hook(h):
    global HOOK
    HOOK = h


def clear_inverses(r):
    """multiply r by (positive powers of) its multi-term denominators and
    negative powers, returning a polynomial with the same zeros wherever the
    denominators do not vanish."""
    for _ in range(12):
        mx = {}
        neg = {}
        for m in r.p:
            for aid, e in m:
                if _ATOMS[aid].kind == 'inv':
                    mx[aid] = max(mx.get(aid, 0), e)
                elif e < 0:
                    neg[aid] = min(neg.get(aid, 0), e)
        if neg:
            mono = tuple(sorted((a, -e) for a, e in neg.items()))
            r = R.make(_pmul(r.p, {mono: F1}))
            continue
        if not mx:
            return r
        aid = max(mx)
        k = mx[aid]
        den = _ATOMS[aid].args[0].p
        powers = [{(): F1}]
        for _i in range(k):
            powers.append(_pmul(powers[-1], den))
        d = {}
        for m, c in r.p.items():
            e = dict(m).get(aid, 0)
            rest = tuple((a, x) for a, x in m if a != aid)
            for m2, c2 in powers[k - e].items():
                _add_reduced(d, _mono_mul(rest, m2), c * c2)
        r = R.make(d)
    return r


def provably_zero(r):
    if not r.p:
        return True
    try:
        return not clear_inverses(r).p
    except Unsupported:
        return False


# --------------------------------------------------------------- rebuilding
_HAS_ITE = {}


def atom_has_ite(aid):
    v = _HAS_ITE.get(aid)
    if v is None:
        a = _ATOMS[aid]
        v = a.kind == 'ite' or any(_arg_has_ite(x) for x in a.args)
        _HAS_ITE[aid] = v
    return v


def _arg_has_ite(x):
    if isinstance(x, R):
        return any(atom_has_ite(aid) for aid in x.atoms())
    if isinstance(x, B):
        return bool_has_ite(x)
    if isinstance(x, Atom):
        return atom_has_ite(x.id)
    if isinstance(x, tuple):
        return any(_arg_has_ite(y) for y in x)
    return False


_BHAS_ITE = {}


def bool_has_ite(b):
    v = _BHAS_ITE.get(b.n)
    if v is None:
        v = any(_arg_has_ite(x) for x in b.args
                if isinstance(x, (R, B)))
        _BHAS_ITE[b.n] = v
    return v


class Rebuilder:
    """re-evaluates terms under the facts now known: if-then-else atoms whose
    condition became decided are replaced by their branch.  ``open`` collects
    the innermost conditions that stay undecided."""

    def __init__(self):
        self.ac, self.rc, self.bc = {}, {}, {}
        self.open = []
        self.seen = set()

    def real(self, r):
        if not _arg_has_ite(r):
            return r
        k = r.key()
        v = self.rc.get(k)
        if v is None:
            v = ZERO
            for m, c in r.p.items():
                t = lift(c)
                for aid, e in m:
                    if atom_has_ite(aid):
                        x = self.atom(aid)
                    else:
                        x = from_atom(_ATOMS[aid])
                    if e < 0:
                        x = divide(ONE, x)
                        e = -e
                        if not isinstance(x, R):
                            raise Unsupported('division by zero in a case')
                    for _ in range(e):
                        t = t * x
                v = v + t
            v = R.make(v.p, r.sos)
            self.rc[k] = v
        return v

    def atom(self, aid):
        v = self.ac.get(aid)
        if v is not None:
            return v
        a = _ATOMS[aid]
        k = a.kind
        if k == 'ite':
            n0 = len(self.open)
            c = self.bool(a.args[0])
            inner = len(self.open) > n0
            if c.op != 'const':
                d = HOOK.decide(c)
                if d is not None:
                    c = TRUE if d else FALSE
            if c.op == 'const':
                del self.open[n0:]
                v = self.real(a.args[1] if c.args[0] else a.args[2])
            else:
                if not inner and c.n not in self.seen:
                    self.seen.add(c.n)
                    self.open.append(c)
                v = raw_ite(c, self.real(a.args[1]), self.real(a.args[2]))
        elif k == 'sqrt':
            x = self.real(a.args[0])
            v = sqrt(sos(x) if a.arg_sos else x)
        elif k == 'inv':
            v = divide(ONE, self.real(a.args[0]))
        elif k == 'abs':
            v = absolute(self.real(a.args[0]))
        elif k == 'mod':
            v = modulo(self.real(a.args[0]), self.real(a.args[1]))
        elif k == 'fn':
            xs = [self.real(x) if isinstance(x, R) else
                  self.bool(x) if isinstance(x, B) else x
                  for x in a.args[1:]]
            if a.args[0] == 'atan2':
                v = atan2(*xs)
            elif a.args[0] in ('acos', 'asin', 'atan'):
                v = angle_fn(a.args[0], *xs)
            else:
                v = opaque(a.args[0], *xs)
        elif k in ('cos', 'sin'):
            kind, x, frac = a.args
            if isinstance(x, Atom):
                base = self.atom(x.id)
            else:
                base = self.real(x)
            ang = base * lift(frac)
            if kind == 'deg':
                ang = ang * PI_180
            v = trig(ang)[0 if k == 'cos' else 1]
        else:
            v = from_atom(a)
        if not isinstance(v, R):
            raise Unsupported('special value in a case')
        self.ac[aid] = v
        return v

    def bool(self, b):
        if not bool_has_ite(b):
            return b
        v = self.bc.get(b.n)
        if v is None:
            if b.op in ('gt', 'ge', 'eq'):
                v = cmp0(self.real(b.args[0]), b.op)
            elif b.op == 'and':
                v = and_(*[self.bool(x) for x in b.args])
            elif b.op == 'or':
                v = or_(*[self.bool(x) for x in b.args])
            elif b.op == 'not':
                v = ~self.bool(b.args[0])
            else:
                v = b
            self.bc[b.n] = v
        return v
