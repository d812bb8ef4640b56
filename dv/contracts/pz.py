"""C17: perez_diffuse_luminance, the real function on the real pandas (columns
of symbolic terms, object dtype).  pvlib's part is assumed to be any function
of the arguments of one timestep; the projection of the sun on a surface
changes sign with the surface's orientation."""
import contextlib

import numpy as np

from .common import modular

ARGS = ('surface_tilt', 'surface_azimuth', 'solar_zenith', 'solar_azimuth',
        'dni', 'dhi')
DAYS = ('2019-06-21 12:00', '2019-01-05 08:30', '2019-06-21 18:00')


def rows(args):
    """arguments of each timestep"""
    n = max(len(a) for a in args if np.ndim(a))
    return [[np.asarray(a, dtype=object)[i] if np.ndim(a) else a
             for a in args] for i in range(n)]


def like(args, vals):
    import pandas as pd
    for a in args:
        if isinstance(a, pd.Series):
            return pd.Series(vals, index=a.index, dtype=object)
    out = np.empty(len(vals), dtype=object)
    out[:] = vals
    return out


def each(name, *args):
    """any function of the arguments of a timestep"""
    from . import stubs
    if not any(np.ndim(a) for a in args):
        return stubs.value(name, *args)
    return like(args, [stubs.value(name, *r) for r in rows(args)])


class Pvlib:
    """in place of pvlib.irradiance and pvlib.atmosphere"""

    def __init__(self):
        self.seen = []

    def get_extra_radiation(self, day, *a, **k):
        return each('extra', np.asarray(day, dtype=float))

    def get_relative_airmass(self, zenith, *a, **k):
        return each('airmass', zenith)

    def aoi_projection(self, tilt, azimuth, zenith, sun):
        from . import stubs
        out = []
        for r in rows([tilt, azimuth, zenith, sun]):
            for q, v in self.seen:
                if r[2] is q[2] and r[3] is q[3] and same(r[0], q[0]) and \
                        same(r[1], q[1]):
                    out.append(v)
                    break
                if r[2] is q[2] and r[3] is q[3] and \
                        same(r[0], 180. - q[0]) and \
                        same(r[1], np.mod(q[1] - 180., 360.)):
                    out.append(-v)
                    break
            else:
                out.append(stubs.value('aoi', *r))
                self.seen.append((r, out[-1]))
        return like([tilt, azimuth, zenith, sun], out)

    def perez(self, tilt, azimuth, dhi, dni, extra, zenith, sun, airmass,
              model='allsitescomposite1990', return_components=False):
        import pandas as pd
        a = [tilt, azimuth, dhi, dni, extra, zenith, sun, airmass]
        assert return_components
        return pd.DataFrame({k: each(k, *a) for k in (
            'sky_diffuse', 'isotropic', 'circumsolar', 'horizon')})


def same(a, b):
    from .. import terms as T
    d = T.lift(a) - T.lift(b)
    return isinstance(d, T.R) and not d.p


class OnSeries:
    """numpy functions applied to the values of pandas columns"""

    def __init__(self, np_):
        self.np_ = np_

    def __getattr__(self, n):
        f = getattr(self.np_, n)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **k):
            import pandas as pd
            if not any(isinstance(x, pd.Series) for x in a):
                return f(*a, **k)
            from .. import sym
            r = f(*[np.asarray(x, dtype=object).view(sym.SymArray)
                    if isinstance(x, pd.Series) else x for x in a], **k)
            return like(a, list(np.asarray(r, dtype=object)))
        return g


@contextlib.contextmanager
def replaced(c):
    if not c.sym:
        yield
        return
    from pvfactors.irradiance import utils
    p = Pvlib()
    new = {'irradiance': p, 'atmosphere': p,
           'np': OnSeries(utils.np), 'cosd': lambda x: each('cosd', x),
           'sind': lambda x: each('sind', x)}
    saved = {k: getattr(utils, k) for k in new}
    try:
        for k, v in new.items():
            setattr(utils, k, v)
        yield
    finally:
        for k, v in saved.items():
            setattr(utils, k, v)


def column(c, name, n, special, lo, hi):
    if c.sym:
        out = np.empty(n, dtype=object)
        for t in range(n):
            out[t] = c.num('%s %d' % (name, t), None, None)
        return out
    return np.array([c.num('%s %d' % (name, t), lo, hi, special=special)
                     for t in range(n)])


@modular
def batch(c, n=2):
    """C17: sky luminance and components of a timestep"""
    import pandas as pd
    from pvfactors.irradiance.utils import perez_diffuse_luminance as f
    c.steps(1)
    order, kind = c.choice('timestamps', [
        ('increasing', 'strings'), ('decreasing', 'index'),
        ('equal', 'array')] if n > 1 else [
        ('increasing', k) for k in ('strings', 'index', 'array')])
    ix = {'increasing': range(n), 'decreasing': range(n)[::-1],
          'equal': [0] * n}[order]
    days = [DAYS[i % len(DAYS)] for i in ix]
    if kind != 'strings':
        days = pd.DatetimeIndex(days)
    if kind == 'array':
        days = days.values
    a = dict(surface_tilt=column(c, 'tilt', n, (0., 90., 60., 120.), 0.,
                                 180.),
             surface_azimuth=column(c, 'azimuth', n, (90., 270., 180.), 0.,
                                    360.),
             solar_zenith=column(c, 'zenith', n, (80., 90., 95., 20.), 0.,
                                 100.),
             solar_azimuth=column(c, 'sun azimuth', n, (90., 270.), 0.,
                                  360.),
             dni=column(c, 'dni', n, (0., 1000.), 0., 1000.),
             dhi=column(c, 'dhi', n, (0., 100.), 0., 500.))
    with replaced(c):
        A = f(days, *[a[k] for k in ARGS])
        t = c.choice('focus', list(range(n)))
        B = f(days[t:t + 1], *[a[k][t:t + 1] for k in ARGS])
    c.same('C17.luminance table: rows', (len(A), len(B)), (n, 1))
    c.same('C17.luminance table: columns', list(A.columns), list(B.columns))
    for k in B.columns:
        u, v = A[k].values[t], B[k].values[0]
        if nan(u) and nan(v):
            continue
        c.eq('C17.luminance table: ' + k, u, v, 1e-12, 1.)


def nan(v):
    return isinstance(v, (float, np.floating)) and np.isnan(v)
