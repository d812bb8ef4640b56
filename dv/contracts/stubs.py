"""Contracts assumed for functions outside the proof's reach.

Each stand-in returns, per timestep, an arbitrary function (uninterpreted in
the proofs, a fixed smooth one in the concrete evaluations) of the arguments
of that timestep: nothing else is assumed about pvlib or pandas."""
import contextlib
import math
import sys

import numpy as np

from .. import terms as T


def value(name, *args):
    """the uninterpreted function `name` at one timestep"""
    from .. import terms as T
    if any(isinstance(a, (T.R, T.B)) for a in args):
        return T.opaque(name, *args)
    x = sum((k + 1.3) * .37 * float(a) for k, a in enumerate(args))
    return 120. * (1.2 + math.sin(x + 7. * len(name)))


def series(name, *args):
    """elementwise over the timesteps"""
    from .. import sym
    n = max(len(a) for a in args if isinstance(a, np.ndarray) and a.ndim)
    rows = [[(np.asarray(a)[t] if isinstance(a, np.ndarray) and a.ndim
              else a) for a in args] for t in range(n)]
    if sym.has_sym(list(args)):
        out = np.empty((n,), dtype=object)
        for t in range(n):
            out[t] = value(name, *[sym.norm(x) for x in rows[t]])
        return out.view(sym.SymArray)
    return np.array([value(name, *r) for r in rows])


class Column:
    def __init__(self, v):
        self.values = v

    def to_numpy(self):
        return self.values


class Frame:
    """the data frame perez_diffuse_luminance returns"""
    names = ('luminance_isotropic', 'luminance_circumsolar', 'poa_horizon',
             'poa_circumsolar')

    def __init__(self, cols):
        self.cols = cols

    def __getattr__(self, n):
        try:
            return Column(self.__dict__['cols'][n])
        except KeyError:
            raise AttributeError(n)

    def __getitem__(self, n):
        return Column(self.cols[n])


ORDER = ('surface_tilt', 'surface_azimuth', 'solar_zenith', 'solar_azimuth',
         'dni', 'dhi')


USED = set()


def perez(timestamps, surface_tilt, surface_azimuth, solar_zenith,
          solar_azimuth, dni, dhi):
    USED.add('perez')
    a = (surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni, dhi)
    return Frame({n: series(n, np.asarray(timestamps), *a)
                  for n in Frame.names})


def total(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni,
          ghi, dhi, dni_extra=None, airmass=None, albedo=.25, **kw):
    v = series('poa_global', surface_tilt, surface_azimuth, solar_zenith,
               solar_azimuth, dni, ghi, dhi, albedo)
    return {'poa_global': v}


@contextlib.contextmanager
def irradiance(need=()):
    """pvlib's and pandas' part of the irradiance models replaced"""
    USED.clear()
    import pvlib.irradiance as P
    from pvfactors.irradiance import utils
    rep = {id(utils.perez_diffuse_luminance): perez,
           id(P.get_total_irradiance): total}
    mods = [m for k, m in list(sys.modules.items())
            if k.startswith('pvfactors.') and '.tests' not in k] + [P]
    saved = []
    try:
        for m in mods:
            for k, v in list(vars(m).items()):
                if id(v) in rep:
                    saved.append((m, k, v))
                    setattr(m, k, rep[id(v)])
        yield
        if not set(need) <= USED:
            raise AttributeError('stand-in not used')
    finally:
        for m, k, v in saved:
            setattr(m, k, v)


def stamps(c, T):
    """timestamps, known only by an arbitrary number per timestep"""
    return c.ser('stamp', None, None) if c.sym else np.arange(float(T))


def weather(c, s, albedo_scalar=False):
    """weather of a run whose pvlib part is replaced"""
    from .common import Weather
    w = Weather()
    if not c.sym:
        w.dni = c.ser('dni', 1., 1000., special=(1000., 300.))
        w.dhi = c.ser('dhi', 1., 500., special=(100., 50.))
        w.albedo = c.num('albedo', .05, .9) if albedo_scalar else \
            c.ser('albedo', .05, .9)
    else:
        w.dni = c.ser('dni', 0., None)
        w.dhi = c.ser('dhi', 0., None)
        w.albedo = c.num('albedo', 0., None, strict=True) if albedo_scalar \
            else c.ser('albedo', 0., None, strict=True)
    w.timestamps = stamps(c, s.T)
    return w


def optics(c):
    if not c.sym:
        from .common import optics as o
        return o(c)
    return dict(rho_front=c.num('rho_front', 0., None, strict=True),
                rho_back=c.num('rho_back', 0., None, strict=True),
                module_transparency=c.num('transparency', 0., 1.),
                module_spacing_ratio=c.num('spacing', 0., 1.))


def loss(name):
    """an arbitrary angle-of-incidence loss function"""
    def fn(angles):
        if isinstance(angles, np.ndarray) and angles.ndim:
            return series(name, angles)
        return value(name, angles)
    return fn


def free(c, name, lo=None, hi=None):
    """an arbitrary value per timestep"""
    return c.ser(name, None, None) if c.sym else c.ser(name, lo, hi)


class Linear:
    """assumed contract of the linear algebra library, per timestep: the
    inverse M of a (regular) matrix A satisfies A M = M A = 1, the solution x
    of a system satisfies A x = b.  Nothing else is known about M and x."""

    def __init__(self, c):
        self.c = c
        self.inverses, self.solutions = [], []

    def _new(self, nm, shape, lead):
        from .. import sym, terms as T
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = T.var('%s%s[%d]' % (nm, '_'.join(
                map(str, ix[lead:])), ix[0] if lead else self.c.t0))
        return out.view(sym.SymArray)

    def inv(self, a):
        lead = a.ndim - 2
        assert lead in (0, 1)
        m = self._new('inv%d_' % len(self.inverses), a.shape, lead)
        self.inverses.append((np.array(a), m))
        return m

    def solve(self, a, b):
        if a.ndim == b.ndim:
            shape, vec = a.shape[:-1] + b.shape[-1:], False
        else:
            shape, vec = a.shape[:-1], True
        lead = a.ndim - 2
        assert lead in (0, 1)
        x = self._new('sol%d_' % len(self.solutions), shape, lead)
        self.solutions.append((np.array(a), x, np.array(b), vec))
        return x

    def __enter__(self):
        if self.c.sym:
            from .. import sym
            self.saved = dict(sym.LINALG)
            sym.LINALG.update(inv=self.inv, solve=self.solve)
        return self

    def __exit__(self, *a):
        if self.c.sym:
            from .. import sym
            sym.LINALG.clear()
            sym.LINALG.update(self.saved)

    def zeros(self, t, i, b, factors):
        """terms that vanish by the contracts: row i of A (M b) - b and of
        A x - b, and their multiples"""
        from .. import sym, terms as T
        out = []
        for a, m in self.inverses:
            a, m = [np.asarray(v)[t] if v.ndim == 3 else np.asarray(v)
                    for v in (a, m)]
            n = a.shape[0]
            r = -T.lift(b[i])
            for j in range(n):
                x = sym.norm(a[i, j])
                if not isinstance(x, T.R) and x == 0 or \
                        isinstance(x, T.R) and not x.p:
                    continue
                for k in range(n):
                    r = r + x * (sym.norm(m[j, k]) * T.lift(b[k]))
            out.append(r)
        for a, x, rhs, vec in self.solutions:
            a, x, rhs = [np.asarray(v)[t] if v.shape[0] == self.c.T and
                         a.ndim == 3 else np.asarray(v)
                         for v in (a, x, rhs)]
            cols = [()] if vec else [(q,) for q in range(rhs.shape[-1])]
            for q in cols:
                r = -T.lift(sym.norm(rhs[(i,) + q]))
                for j in range(a.shape[0]):
                    r = r + sym.norm(a[i, j]) * sym.norm(x[(j,) + q])
                out.append(r)
        return [r * f for r in out for f in factors]


class Losses:
    """in place of the three AOI methods: whatever they write"""

    def __init__(self, c, arr):
        self.c, self.arr = c, arr

    def fit(self, n):
        pass

    def _write(self, nm, mat, cols):
        from .vf import tag_surfaces
        for i, (kind, k, side, x) in tag_surfaces(self.arr).items():
            if kind == 'row':
                for j in cols:
                    mat[i, j, :] = free(self.c, '%s_%d_%d' % (nm, i, j), 0.,
                                        .05)

    def vf_aoi_pvrow_to_gnd(self, rows, ground, left, mat):
        self._write('aoi', mat, [x.index for x in ground.all_ts_surfaces])

    def vf_aoi_pvrow_to_pvrow(self, rows, left, mat):
        self._write('aoi', mat, [x.index for r in rows
                                 for x in r.all_ts_surfaces])

    def vf_aoi_pvrow_to_sky(self, rows, ground, left, mat):
        self._write('aoi', mat, [mat.shape[1] - 1])
