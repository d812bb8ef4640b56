"""numpy on symbolic elements: SymArray (object array with symbolic ufuncs)
and NP, the stand-in for the ``np`` module global of the code under proof.

Shapes, indexing, broadcasting and data movement are numpy's own, on object
arrays; only elementwise arithmetic, comparisons, selections, array creation
and linear algebra are given symbolic meaning here."""
import math
import numbers
import types

import numpy as np

from . import terms as T
from .terms import R, B, TRUE, FALSE, Unsupported, is_special


def norm(x):
    """element normalisation"""
    if isinstance(x, (R, B)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, (float, np.floating)):
        if is_special(x):
            return np.float64(x)
        return T.lift(float(x))
    if isinstance(x, numbers.Real):
        return T.lift(x)
    return x


def asym(x):
    """to SymArray (or element when 0-d)"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, (R, B)):
        return x
    a = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
    if a.ndim == 0:
        return norm(a.item())
    if a.dtype != object:
        a = a.astype(object)
    out = np.empty(a.shape, dtype=object)
    fl, ol = a.reshape(-1), out.reshape(-1)
    for i in range(fl.size):
        ol[i] = norm(fl[i])
    return out.view(SymArray)


def base(x):
    return np.asarray(x) if isinstance(x, SymArray) else x


def _lift2(f):
    def g(a, b):
        return f(norm(a), norm(b))
    return g


def num(x):
    return x.as_real() if isinstance(x, B) else x


def boo(x):
    if isinstance(x, B):
        return x
    if isinstance(x, R):
        return ~(x == 0)
    return TRUE if x else FALSE


def _cmp(op):
    def f(a, b):
        a, b = norm(a), norm(b)
        if isinstance(a, B) and isinstance(b, B):
            if op == '==':
                return a == b
            if op == '!=':
                return ~(a == b)
        a, b = num(a), num(b)
        if not isinstance(a, R):
            if not isinstance(b, R):
                r = {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b,
                     '==': a == b, '!=': a != b}[op]
                return TRUE if r else FALSE
            if a == 0:
                a = T.ZERO
            else:
                flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<=',
                        '==': '==', '!=': '!='}[op]
                return f2(b, a, flip)
        return f2(a, b, op)

    def f2(a, b, op):
        if op == '!=':
            return ~T.cmp_(a, b, '==')
        return T.cmp_(a, b, op)
    return f


def _special_call(fn, a, *rest):
    with np.errstate(all='ignore'):
        return norm(fn(a, *rest))


def _un(method, npf):
    def f(a):
        a = num(norm(a))
        if isinstance(a, R):
            return norm(getattr(a, method)())
        if a == 0 and method == 'cos':
            return T.ONE
        return _special_call(npf, a)
    return f


_OP = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__',
       '**': '__pow__', '%': '__mod__', '//': '__floordiv__'}
_ROP = {k: '__r' + v[2:] for k, v in _OP.items()}


def _ar(op):
    def f(a, b):
        a, b = num(norm(a)), num(norm(b))
        if op == '**' and isinstance(b, R) and b.is_const() and \
                not isinstance(a, R):
            b = float(b.const())
        if not isinstance(a, R) and isinstance(b, R):
            return norm(getattr(b, _ROP[op])(a))
        if isinstance(a, R) and not isinstance(b, R):
            if op == '/' and b == 0 and not a.p:
                return np.float64('nan')
            return norm(getattr(a, _OP[op])(b))
        with np.errstate(all='ignore'):
            if op == '+':
                r = a + b
            elif op == '-':
                r = a - b
            elif op == '*':
                r = a * b
            elif op == '/':
                if not isinstance(b, R) and b == 0 and isinstance(a, R) \
                        and not a.p:
                    return np.float64('nan')
                r = a / b
            elif op == '**':
                r = a ** b
            elif op == '%':
                r = a % b
            elif op == '//':
                r = a // b
        return norm(r)
    return f


def _arctan2(a, b):
    a, b = num(norm(a)), num(norm(b))
    if not isinstance(a, R) and a == 0:
        a = T.ZERO
    if not isinstance(b, R) and b == 0:
        b = T.ZERO
    if not isinstance(a, R) or not isinstance(b, R):
        if isinstance(b, R) and math.isinf(a):
            return T.PI / 2 if a > 0 else -(T.PI / 2)
        if isinstance(a, R) and math.isinf(b):
            if b > 0:
                return T.ZERO
            return T.PI if T.HOOK.sign(a) >= 0 else -T.PI
        return _special_call(np.arctan2, float(a), float(b))
    return T.atan2(a, b)


def _neg(a):
    a = num(norm(a))
    return norm(-a)


def _abs(a):
    a = num(norm(a))
    return norm(abs(a))


def _min(a, b):
    return T.minimum(num(norm(a)), num(norm(b)))


def _max(a, b):
    return T.maximum(num(norm(a)), num(norm(b)))


def _clip(x, lo, hi):
    if lo is not None:
        x = _max(x, lo)
    if hi is not None:
        x = _min(x, hi)
    return x


def _isnan(a):
    a = norm(a)
    return FALSE if isinstance(a, (R, B)) else (
        TRUE if math.isnan(a) else FALSE)


def _isinf(a):
    a = norm(a)
    return FALSE if isinstance(a, (R, B)) else (
        TRUE if math.isinf(a) else FALSE)


def _isfinite(a):
    a = norm(a)
    return TRUE if isinstance(a, (R, B)) else (
        TRUE if math.isfinite(a) else FALSE)


def _sign(a):
    a = num(norm(a))
    if not isinstance(a, R):
        return norm(np.sign(a))
    return T.ite(a > 0, T.ONE, T.ite(a < 0, T.lift(-1), T.ZERO))


def _and(a, b):
    return T.and_(boo(norm(a)), boo(norm(b)))


def _or(a, b):
    return T.or_(boo(norm(a)), boo(norm(b)))


def _xor(a, b):
    return boo(norm(a)) ^ boo(norm(b))


def _not(a):
    return ~boo(norm(a))


def _invert(a):
    a = norm(a)
    if isinstance(a, B):
        return ~a
    raise Unsupported('bitwise not of a number')


def _square(a):
    a = num(norm(a))
    return norm(a ** 2) if isinstance(a, R) else norm(a * a)


def _recip(a):
    return _ar('/')(1, a)


def _hypot(a, b):
    return (_square(a) + _square(b)).sqrt()


def _cosd(a):
    return norm(num(norm(a)).deg2rad().cos())


_FNS = {
    'add': (_ar('+'), 2), 'subtract': (_ar('-'), 2),
    'multiply': (_ar('*'), 2), 'divide': (_ar('/'), 2),
    'true_divide': (_ar('/'), 2), 'power': (_ar('**'), 2),
    'float_power': (_ar('**'), 2),
    'remainder': (_ar('%'), 2), 'mod': (_ar('%'), 2),
    'floor_divide': (_ar('//'), 2),
    'negative': (_neg, 1), 'positive': (norm, 1), 'absolute': (_abs, 1),
    'fabs': (_abs, 1),
    'greater': (_cmp('>'), 2), 'greater_equal': (_cmp('>='), 2),
    'less': (_cmp('<'), 2), 'less_equal': (_cmp('<='), 2),
    'equal': (_cmp('=='), 2), 'not_equal': (_cmp('!='), 2),
    'logical_and': (_and, 2), 'logical_or': (_or, 2),
    'logical_xor': (_xor, 2), 'logical_not': (_not, 1),
    'bitwise_and': (_and, 2), 'bitwise_or': (_or, 2),
    'bitwise_xor': (_xor, 2), 'invert': (_invert, 1),
    'maximum': (_max, 2), 'minimum': (_min, 2), 'fmax': (_max, 2),
    'fmin': (_min, 2), 'clip': (_clip, 3),
    'sqrt': (_un('sqrt', np.sqrt), 1), 'square': (_square, 1),
    'reciprocal': (_recip, 1), 'hypot': (_hypot, 2),
    'cos': (_un('cos', np.cos), 1), 'sin': (_un('sin', np.sin), 1),
    'tan': (_un('tan', np.tan), 1),
    'arccos': (_un('arccos', np.arccos), 1),
    'arcsin': (_un('arcsin', np.arcsin), 1),
    'arctan': (_un('arctan', np.arctan), 1),
    'arctan2': (_arctan2, 2), 'exp': (_un('exp', np.exp), 1),
    'deg2rad': (_un('deg2rad', np.deg2rad), 1),
    'radians': (_un('deg2rad', np.deg2rad), 1),
    'rad2deg': (_un('rad2deg', np.rad2deg), 1),
    'degrees': (_un('rad2deg', np.rad2deg), 1),
    'isnan': (_isnan, 1), 'isinf': (_isinf, 1), 'isfinite': (_isfinite, 1),
    'sign': (_sign, 1), 'conjugate': (norm, 1),
}
_UF = {k: np.frompyfunc(f, n, 1) for k, (f, n) in _FNS.items()}


def wrap(r):
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return norm(r.item())
        return r.view(SymArray) if r.dtype == object else r
    return r


def ufunc(uf, method, inputs, kw):
    name = uf.__name__
    if name == 'matmul':
        ins = [np.asarray(asym(i)) for i in inputs]
        if method != '__call__':
            raise Unsupported('matmul.' + method)
        r = np.matmul(*ins)
        return _out(r, kw.get('out'))
    f = _UF.get(name)
    if f is None:
        raise Unsupported('numpy function %s on symbolic values' % name)
    kw = dict(kw)
    out = kw.pop('out', None)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('subok', None)
    kw.pop('order', None)
    wh = kw.pop('where', True)
    ins = [base(i) for i in inputs]
    if method == '__call__':
        if kw:
            raise Unsupported('%s with %s' % (name, sorted(kw)))
        conv = []
        for i in ins:
            if isinstance(i, np.ndarray) and i.dtype != object:
                i = i.astype(object)
            elif not isinstance(i, np.ndarray):
                if isinstance(i, (list, tuple)):
                    i = np.array(i, dtype=object)
                else:
                    c = np.empty((), dtype=object)
                    c[()] = i
                    i = c
            conv.append(i)
        r = f(*conv)
        if not (isinstance(wh, (bool, np.bool_)) and wh):
            old = out[0] if out is not None else None
            if old is None:
                raise Unsupported('where= without out=')
            r = select(asym(wh), r, old)
        return _out(r, out)
    if method == 'reduce':
        if not (isinstance(wh, (bool, np.bool_)) and wh):
            raise Unsupported('reduce where=')
        kw.pop('initial', None) if kw.get('initial') is np._NoValue else None
        a = ins[0]
        if a.dtype != object:
            a = a.astype(object)
        axis = kw.pop('axis', 0)
        keep = kw.pop('keepdims', False)
        ini = kw.pop('initial', None)
        if ini is np._NoValue:
            ini = None
        return _out(_reduce(f, name, a, axis, keep, ini), out)
    if method in ('accumulate', 'outer'):
        r = getattr(f, method)(*[np.asarray(asym(i)) for i in ins], **kw)
        return _out(r, out)
    raise Unsupported('ufunc method %s.%s' % (name, method))


_IDENT = {'add': T.ZERO, 'multiply': T.ONE, 'logical_and': TRUE,
          'logical_or': FALSE, 'bitwise_and': TRUE, 'bitwise_or': FALSE}


def _cell(x):
    if isinstance(x, np.ndarray):
        return x
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _reduce(f, name, a, axis, keep, ini):
    if axis is None:
        axis = tuple(range(a.ndim))
    axes = (axis,) if isinstance(axis, numbers.Integral) else tuple(axis)
    axes = tuple(x % a.ndim for x in axes)
    r = a
    for ax in sorted(axes, reverse=True):
        n = r.shape[ax]
        m = np.moveaxis(r, ax, 0)
        if n == 0:
            if name not in _IDENT:
                raise ValueError('zero-size reduction')
            acc = np.empty(m.shape[1:], dtype=object)
            acc.fill(_IDENT[name])
        else:
            if name in _IDENT:
                acc = np.empty(m.shape[1:], dtype=object)
                acc.fill(_IDENT[name])
                k0 = 0
            else:
                acc, k0 = m[0], 1
            for k in range(k0, n):
                acc = f(_cell(acc), _cell(m[k]))
        if not isinstance(acc, np.ndarray):
            c = np.empty((), dtype=object)
            c[()] = acc
            acc = c
        r = acc
        if keep:
            r = np.expand_dims(r, ax)
    if ini is not None:
        r = f(r, ini)
    return r


def _out(r, out):
    if isinstance(out, tuple):
        out = out[0]
    if out is not None:
        if isinstance(out, np.ndarray) and out.dtype == object:
            np.asarray(out)[...] = r
            return out
        raise Unsupported('in-place update of a float array with symbolic '
                          'values')
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return norm(r.item())
        return r.view(SymArray)
    return norm(r)


T.UFUNC = ufunc


def _ite3(c, a, b):
    c = boo(norm(c))
    a, b = norm(a), norm(b)
    if isinstance(a, B) != isinstance(b, B):
        a, b = num(a), num(b)
    return T.ite(c, a, b)


_ITE = np.frompyfunc(_ite3, 3, 1)


def select(c, a, b):
    c, a, b = (np.asarray(asym(x)) if isinstance(asym(x), np.ndarray)
               else _zero_d(asym(x)) for x in (c, a, b))
    return wrap(_ITE(c, a, b))


def _zero_d(x):
    c = np.empty((), dtype=object)
    c[()] = x
    return c


_HANDLED = {}


def implements(*fns):
    def deco(f):
        for x in fns:
            _HANDLED[x] = f
        return f
    return deco


def has_sym(x, depth=0):
    if isinstance(x, (R, B, SymArray)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    return False


class SymArray(np.ndarray):
    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, tps, args, kwargs):
        h = _HANDLED.get(func)
        if h is not None:
            return h(*args, **kwargs)
        args = _unwrap(args)
        kwargs = {k: _unwrap(v) for k, v in kwargs.items()}
        r = func(*args, **kwargs)
        return wrap(r)

    def __getitem__(self, k):
        k = _key(k)
        if isinstance(k, _Mask):
            raise Unsupported('selection by a symbolic mask')
        r = np.asarray(self)[k]
        if isinstance(r, np.ndarray):
            return r.view(SymArray)
        return r

    def __setitem__(self, k, v):
        k = _key(k)
        a = np.asarray(self)
        if isinstance(k, _Mask):
            vv = asym(v)
            if isinstance(vv, np.ndarray) and vv.ndim and \
                    vv.shape != self.shape:
                raise Unsupported('masked assignment of a selection')
            a[...] = np.asarray(asym(select(k.m, vv, self)))
            return
        v = asym(v)
        if isinstance(v, np.ndarray):
            a[k] = np.asarray(v)
        else:
            if isinstance(a[k], np.ndarray):
                a[k].fill(v) if a[k].base is not None or True else None
                sub = a[k]
                fill = np.empty(sub.shape, dtype=object)
                fill.fill(v)
                a[k] = fill
            else:
                a[k] = v

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return ufunc(np.add, 'reduce', (self,),
                     dict(axis=axis, keepdims=keepdims))

    def max(self, axis=None, **kw):
        return ufunc(np.maximum, 'reduce', (self,), dict(axis=axis))

    def min(self, axis=None, **kw):
        return ufunc(np.minimum, 'reduce', (self,), dict(axis=axis))

    def mean(self, axis=None, **kw):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def all(self, axis=None, **kw):
        return ufunc(np.logical_and, 'reduce', (self,), dict(axis=axis))

    def any(self, axis=None, **kw):
        return ufunc(np.logical_or, 'reduce', (self,), dict(axis=axis))

    def clip(self, lo=None, hi=None, **kw):
        return clip(self, lo, hi)

    def dot(self, o):
        return wrap(np.dot(np.asarray(self), np.asarray(asym(o))))

    def astype(self, dtype, *a, **k):
        if dtype in (float, np.float64, 'float', 'float64'):
            return _map(num, self)
        if dtype in (bool, np.bool_):
            return _map(boo, self)
        if dtype == object:
            return self.copy()
        raise Unsupported('astype(%r)' % (dtype,))

    def __deepcopy__(self, memo):
        return np.array(np.asarray(self), dtype=object,
                        copy=True).view(SymArray)

    def __bool__(self):
        if self.size == 1:
            return bool(boo(norm(np.asarray(self).reshape(-1)[0])))
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous.')

    def tolist(self):
        return np.asarray(self).tolist()


class _Mask:
    def __init__(self, m):
        self.m = m


def _key(k):
    if isinstance(k, np.ndarray) and k.dtype == object:
        return _Mask(k.view(SymArray))
    if isinstance(k, B):
        return _Mask(k)
    if isinstance(k, tuple):
        return tuple(_idx(x) for x in k)
    return _idx(k)


def _idx(x):
    if isinstance(x, R):
        return x.__index__()
    if isinstance(x, np.ndarray) and x.dtype == object:
        raise Unsupported('symbolic fancy index')
    return x


def _map(f, a):
    r = np.frompyfunc(lambda x: f(norm(x)), 1, 1)(np.asarray(a))
    return wrap(r)


def _unwrap(x):
    if isinstance(x, SymArray):
        return np.asarray(x)
    if isinstance(x, tuple):
        return tuple(_unwrap(y) for y in x)
    if isinstance(x, list):
        return [_unwrap(y) for y in x]
    return x


@implements(np.where)
def where(c, *ab):
    if not ab:
        raise Unsupported('np.where with one argument')
    if not has_sym(c) and not has_sym(ab[0]) and not has_sym(ab[1]):
        return asym(np.where(c, *ab))
    return select(c, *ab)


@implements(np.clip)
def clip(a, a_min=None, a_max=None, **kw):
    r = asym(a)
    if a_min is not None:
        r = ufunc(np.maximum, '__call__', (r, a_min), {})
    if a_max is not None:
        r = ufunc(np.minimum, '__call__', (r, a_max), {})
    return r


REST = [0]


@implements(np.nansum)
def nansum(a, axis=None, **kw):
    """Sum over the modelled timesteps plus an unknown rest: the batch holds
    arbitrarily many other timesteps (a non-negative rest when every summed
    value is a length)."""
    a = asym(a)
    if not isinstance(a, np.ndarray):
        return a
    a = _map(lambda x: T.ZERO if not isinstance(x, (R, B)) and x != x else x,
             a)
    if axis is None and a.ndim == 1:
        s = a.sum()
        if isinstance(s, R) and all(
                isinstance(x, R) and x.sos or T._quick_nonneg(num(norm(x)))
                for x in np.asarray(a) if isinstance(norm(x), (R, B))):
            # memoised per summed value: same values, same rest
            rest = T.from_atom(T.atom('fn', ('rest', s), 'rest(%r)' % s,
                                      nonneg=True))
            return s + rest
        return s
    return a.sum(axis=axis)


@implements(np.sum)
def np_sum(a, axis=None, keepdims=False, **kw):
    a = asym(a)
    if not isinstance(a, np.ndarray):
        return a
    return a.sum(axis=axis, keepdims=keepdims)


@implements(np.zeros_like)
def zeros_like(a, *r, **k):
    return full(np.shape(a), 0.)


@implements(np.ones_like)
def ones_like(a, *r, **k):
    return full(np.shape(a), 1.)


@implements(np.full_like)
def full_like(a, v, *r, **k):
    return full(np.shape(a), v)


@implements(np.any)
def np_any(a, axis=None, **k):
    return asym(a).any(axis=axis)


@implements(np.all)
def np_all(a, axis=None, **k):
    return asym(a).all(axis=axis)


@implements(np.max, np.amax)
def np_max(a, axis=None, **k):
    return asym(a).max(axis=axis)


@implements(np.min, np.amin)
def np_min(a, axis=None, **k):
    return asym(a).min(axis=axis)


@implements(np.copy)
def np_copy(a, *r, **k):
    return np.array(np.asarray(a), dtype=object).view(SymArray)


@implements(np.linalg.norm)
def la_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported('norm ord')
    x = asym(x)
    sq = ufunc(np.square, '__call__', (x,), {})
    s = sq.sum(axis=axis, keepdims=keepdims)
    return ufunc(np.sqrt, '__call__', (s,), {})


LINALG = {}
LINSPACE = []      # hooks that put arbitrary numbers in its place


@implements(np.linalg.inv)
def la_inv(a):
    if 'inv' not in LINALG:
        raise Unsupported('matrix inverse outside a contract for it')
    return LINALG['inv'](asym(a))


@implements(np.linalg.solve)
def la_solve(a, b):
    if 'solve' not in LINALG:
        raise Unsupported('linear solve outside a contract for it')
    return LINALG['solve'](asym(a), asym(b))


@implements(np.einsum)
def einsum(spec, *ops, **kw):
    """einsum by explicit index loops (no implicit output handling beyond
    numpy's own rule)"""
    if not isinstance(spec, str):
        raise Unsupported('einsum spec')
    kw.pop('optimize', None)
    ops = [asym(o) for o in ops]
    return wrap(np.einsum(spec, *[np.asarray(o) for o in ops]))


def full(shape, v, *r, **k):
    a = np.empty(_shape(shape), dtype=object)
    a.fill(norm(v))
    return a.view(SymArray)


def _shape(s):
    if isinstance(s, R):
        return s.__index__()
    if isinstance(s, tuple):
        return tuple(_shape(x) for x in s)
    return s


class _Linalg:
    def __getattr__(self, n):
        return _dispatch(getattr(np.linalg, n))


def _dispatch(f):
    def g(*a, **k):
        if f in _HANDLED and (has_sym(list(a)) or has_sym(list(k.values()))):
            return _HANDLED[f](*a, **k)
        if not has_sym(list(a)) and not has_sym(list(k.values())):
            return symback(f(*a, **k))
        return wrap(f(*a, **k))
    g.__name__ = getattr(f, '__name__', 'f')
    return g


def symback(r):
    """results of creation functions become symbolic arrays"""
    if isinstance(r, tuple):
        return tuple(symback(x) for x in r)
    if isinstance(r, np.ndarray) and r.dtype.kind in 'fiub' and r.ndim:
        return asym(r)
    return r


class NPShim(types.ModuleType):
    """what the code under proof sees as ``np``"""

    def __init__(self):
        super().__init__('numpy')
        self.linalg = _Linalg()
        self.pi = T.PI

    def __getattr__(self, n):
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            return v
        if isinstance(v, type) or not callable(v):
            return v
        return _dispatch(v)

    def array(self, x, dtype=None, copy=True, **k):
        return self._mk(x, dtype, True)

    def asarray(self, x, dtype=None, **k):
        return self._mk(x, dtype, False)

    asanyarray = asarray

    def _mk(self, x, dtype, copy):
        if isinstance(x, SymArray) and not copy:
            return x
        if dtype is not None and dtype not in (float, np.float64, object):
            return np.array(x, dtype=dtype)
        if hasattr(x, 'values') and not isinstance(x, (dict, np.ndarray)):
            x = x.values
        if not has_sym(x):
            a = np.array(x)
            if a.dtype.kind not in 'fiub':
                return a
            if a.ndim == 0:
                return norm(a.item())
            return asym(a)
        a = np.array(_unwrap(x), dtype=object)
        r = asym(a)
        return r

    def zeros(self, shape, *a, **k):
        return full(shape, 0.)

    def ones(self, shape, *a, **k):
        return full(shape, 1.)

    def empty(self, shape, *a, **k):
        return full(shape, 0.)

    def full(self, shape, v, *a, **k):
        return full(shape, v)

    zeros_like = staticmethod(zeros_like)
    ones_like = staticmethod(ones_like)
    full_like = staticmethod(full_like)

    def eye(self, n, *a, **k):
        return asym(np.eye(n, *a))

    identity = eye

    def arange(self, *a, **k):
        return asym(np.arange(*a))

    def linspace(self, a, b, num=50, endpoint=True, **k):
        n = int(num)
        d = n - 1 if endpoint else n
        a, b = T.lift(a), T.lift(b)
        out = np.empty((n,), dtype=object)
        for i in range(n):
            out[i] = a + (b - a) * T.lift(T.Fraction(i, d) if d else 0)
        for f in LINSPACE:
            f(out)
        return out.view(SymArray)

    def where(self, c, *ab):
        return where(c, *ab)

    def isscalar(self, x):
        return isinstance(x, (R, B)) or np.isscalar(x)

    def diag(self, v, k=0):
        v = asym(v)
        if v.ndim == 1:
            n = v.shape[0]
            m = full((n, n), 0.)
            for i in range(n):
                m[i, i] = v[i]
            return m
        return wrap(np.diag(np.asarray(v), k))


NP = NPShim()


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        self.pi = T.PI

    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f

        def g(*a):
            if n == 'erf' and not is_special(a[0]):
                return T.angle_fn('erf', T.lift(a[0]))
            if not has_sym(list(a)):
                return f(*a)
            nm = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan',
                  'atan2': 'arctan2', 'fabs': 'absolute', 'pow': 'power'
                  }.get(n, n)
            if nm in _FNS:
                return _FNS[nm][0](*a)
            return T.opaque(n, *a)
        return g


MATH = MathShim()
