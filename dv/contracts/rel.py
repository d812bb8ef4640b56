"""C17, C19: relations between two runs of the real code (a product program:
both runs start from the same arbitrary inputs, and every value one of them
stores must be the value the other stores)."""
import numpy as np

from .common import site, make_array, cuts, modular
from .geom import scheme


class Inputs:
    pass


def inputs(c, n, tag='', albedo_scalar=False, ghi=False):
    """inputs of a fit: any numbers at every timestep (no precondition on
    the sun, the tilt or the weather in the proofs)"""
    from . import stubs
    s = Inputs()
    s.n, s.times, s.T = n, c.steps(), c.T
    if c.sym:
        c.eng.lazy, c.eng.decide_ms = True, 0   # (nothing needs deciding)
    lim = (lambda lo, hi: (None, None)) if c.sym else (lambda lo, hi:
                                                       (lo, hi))
    s.z = c.ser(tag + 'zenith', *lim(1., 88.))
    s.az = c.ser(tag + 'sun azimuth', *lim(0., 360.))
    s.tilt = c.ser(tag + 'tilt', *lim(0., 60.))
    s.saz = c.ser(tag + 'azimuth', *lim(0., 360.))
    s.dni = c.ser(tag + 'dni', *lim(1., 1000.))
    s.dhi = c.ser(tag + 'dhi', *lim(1., 500.))
    s.albedo = c.num(tag + 'albedo', *lim(.1, .9)) if albedo_scalar else \
        c.ser(tag + 'albedo', *lim(.1, .9))
    s.ghi = c.ser(tag + 'ghi', *lim(1., 900.)) if ghi else None
    s.stamp = c.ser(tag + 'stamp', None, None) if c.sym else \
        np.arange(float(s.T))
    return s


def params(c, n):
    """of an array"""
    num = (lambda nm, lo, hi: c.num(nm, 0., None, strict=True)) if c.sym \
        else c.num
    return dict(n_pvrows=n, axis_azimuth=c.num('axis', -360., 720.) if
                not c.sym else c.num('axis', None, None),
                gcr=num('gcr', .1, .95), pvrow_width=num('width', .5, 4.),
                pvrow_height=num('height', 2., 5.),
                cut=scheme(c, n) if c.sym else cuts(c, n))


def array(p):
    from pvfactors.geometry import OrderedPVArray
    return OrderedPVArray.init_from_dict(dict(p), param_names=['q0', 'qinc'])


def compare(c, name, a, ta, b, tb):
    """value of a at ta is the value of b at tb"""
    if isinstance(a, dict) or isinstance(b, dict):
        c.same(name + ': same entries', sorted(a), sorted(b))
        for k in b:
            if k in a:
                compare(c, '%s %s' % (name, k), a[k], ta, b[k], tb)
        return
    if a is None or b is None or isinstance(a, (str, bool)):
        c.ok(name, a is b or (isinstance(a, (str, bool)) and a == b))
        return
    x, y = last(a, ta), last(b, tb)
    c.same(name + ': same shape', np.shape(x), np.shape(y))
    x, y = np.asarray(x), np.asarray(y)
    if x.shape == y.shape:
        for ix in np.ndindex(*x.shape):
            u, v = x[ix], y[ix]
            if is_nan(u) and is_nan(v):
                continue
            if isinstance(u, (bool, np.bool_)) or is_bool(u):
                c.iff(name, u, v)
            else:
                c.eq(name, u, v, 1e-9, 1.)


def is_nan(v):
    return isinstance(v, (float, np.floating)) and np.isnan(v)


def is_bool(v):
    from .. import terms as T
    return isinstance(v, T.B)


def last(a, t):
    if t is None or not isinstance(a, np.ndarray) or a.ndim == 0:
        return a
    return np.asarray(a)[..., t]


def geometry(c, name, A, ta, B, tb):
    """every stored part of a fitted array"""
    for k in ('rotation_vec', 'solar_2d_vectors', 'has_direct_shading',
              'distance', 'height', 'width', 'n_pvrows', 'gcr', 'y_ground',
              'n_ts_surfaces'):
        if hasattr(B, k):
            a, b = getattr(A, k), getattr(B, k)
            if isinstance(b, list):
                c.same(name + ': ' + k, len(a), len(b))
                for x, y in zip(a, b):
                    compare(c, '%s: %s' % (name, k), x, ta, y, tb)
            else:
                compare(c, '%s: %s' % (name, k), a, ta, b, tb)
    xs, ys = A.all_ts_surfaces, B.all_ts_surfaces
    c.same(name + ': surfaces', [(x.index, bool(x.shaded)) for x in xs],
           [(y.index, bool(y.shaded)) for y in ys])
    for x, y in zip(xs, ys):
        for p in ('b1', 'b2'):
            for q in ('x', 'y'):
                compare(c, '%s: %s%s of a surface' % (name, p, q),
                        getattr(getattr(x, p), q), ta,
                        getattr(getattr(y, p), q), tb)
        compare(c, name + ': length of a surface', x.length, ta, y.length,
                tb)
        compare(c, name + ': normal of a surface', x.n_vector, ta,
                y.n_vector, tb)
    for x, y in zip(A.ts_pvrows, B.ts_pvrows):
        for q in ('b1', 'b2', 'highest_point', 'lowest_point'):
            for r in ('x', 'y'):
                compare(c, name + ': row', getattr(getattr(
                    x.full_pvrow_coords, q), r), ta, getattr(getattr(
                        y.full_pvrow_coords, q), r), tb)
        compare(c, name + ': row length', x.length, ta, y.length, tb)
    for x, y in zip(A.ts_ground.cut_point_coords,
                    B.ts_ground.cut_point_coords):
        compare(c, name + ': cut point', x.x, ta, y.x, tb)
    for x, y in zip(A.ts_ground.shadow_coords_left_of_cut_point(0),
                    B.ts_ground.shadow_coords_left_of_cut_point(0)):
        compare(c, name + ': shadow', x.b1.x, ta, y.b1.x, tb)
        compare(c, name + ': shadow', x.b2.x, ta, y.b2.x, tb)


def values(c, name, A, ta, B, tb, only=None):
    """the parameters on every surface"""
    for x, y in zip(A.all_ts_surfaces, B.all_ts_surfaces):
        if only is None or y.index in only:
            compare(c, name, x.params, ta, y.params, tb)


IRR = ('gnd_shaded', 'gnd_illum', 'pvrow_shaded', 'pvrow_illum',
       'sky_luminance', 'albedo', 'DNI', 'DHI', 'rho_front', 'rho_back',
       'direct', 'circumsolar', 'horizon', 'GHI')


def irradiance(c, name, A, ta, B, tb):
    for k in IRR:
        if hasattr(B, k):
            compare(c, '%s: %s' % (name, k), getattr(A, k), ta,
                    getattr(B, k), tb)


# ---------------------------------------------------------------- C17
def batch_fit(c, n=2, T=2):
    """C17: fitting an array with a batch is fitting each timestep alone"""
    p = params(c, n)
    if c.sym:
        c.nT = T
        c.t0 = c.choice('focus', list(range(c.nT)))
    s = inputs(c, n)
    A, B = array(p), array(p)
    A.fit(s.z, s.az, s.tilt, s.saz)
    t = c.t0 if c.sym else c.choice('at', s.times)
    one = slice(t, t + 1)
    B.fit(s.z[one], s.az[one], s.tilt[one], s.saz[one])
    geometry(c, 'C17.geometry', A, t, B, 0)
    values(c, 'C17.parameters', A, t, B, 0)


class Solver:
    """assumed contract of the linear algebra library: the inverse (or the
    solution) at a timestep is a function of the matrices of that timestep,
    about which nothing is known"""

    def __init__(self, c):
        self.c, self.memo, self.calls = c, {}, 0

    def _fresh(self, kind, mats, shape):
        from .. import sym, terms as T
        key = (kind,) + tuple(
            tuple(k(sym.norm(v)) for v in np.asarray(m).ravel())
            for m in mats)
        if key not in self.memo:
            nm = '%s%d' % (kind, len(self.memo))
            out = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                out[ix] = T.var('%s_%s' % (nm, '_'.join(map(str, ix))))
            self.memo[key] = out
        return self.memo[key]

    def inv(self, a):
        from .. import sym
        self.calls += 1
        if a.ndim == 2:
            return self._fresh('inv', [a], a.shape).view(sym.SymArray)
        out = np.empty(a.shape, dtype=object)
        for t in range(a.shape[0]):
            out[t] = self._fresh('inv', [a[t]], a.shape[1:])
        return out.view(sym.SymArray)

    def solve(self, a, b):
        from .. import sym
        self.calls += 1
        vec = a.ndim != b.ndim
        one = lambda x, y: self._fresh('sol', [x, y], np.shape(y))
        if a.ndim == 2:
            return one(a, b).view(sym.SymArray)
        out = np.empty(np.shape(b), dtype=object)
        for t in range(a.shape[0]):
            out[t] = one(a[t], b[t])
        return out.view(sym.SymArray)

    def __enter__(self):
        if self.c.sym:
            from .. import sym
            self.saved = dict(sym.LINALG)
            sym.LINALG.update(inv=self.inv, solve=self.solve)
        return self

    def __exit__(self, *a):
        if self.c.sym:
            from .. import sym
            sym.LINALG.clear()
            sym.LINALG.update(self.saved)


def k(v):
    from .. import terms as T
    if isinstance(v, T.R):
        return frozenset(v.p.items())
    return ('c', float(v))


class Options:
    """of an engine, drawn once"""

    def __init__(self, c, n, model='perez', losses=False):
        from . import stubs
        self.c, self.n, self.model, self.losses = c, n, model, losses
        self.par = params(c, n)
        self.opt = stubs.optics(c)
        if model == 'perez':
            self.opt['horizon_band_angle'] = c.num(
                'band', 0., 90., strict=True) if c.sym else \
                c.num('band', 1., 40.)
        if losses:
            self.fns = {q: stubs.loss('loss_' + q)
                        for q in ('front', 'back')}
            self.opt.update(faoi_fn_front=self.fns['front'],
                            faoi_fn_back=self.fns['back'])

    def engine(self, **kw):
        from pvfactors.engine import PVEngine
        from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
        from pvfactors.viewfactors import VFCalculator
        vf = VFCalculator(self.fns['front'], self.fns['back'],
                          n_aoi_integral_sections=2) if self.losses \
            else VFCalculator()
        cls = HybridPerezOrdered if self.model == 'perez' \
            else IsotropicOrdered
        return PVEngine(array(self.par), vf_calculator=vf,
                        irradiance_model=cls(**self.opt), **kw)


def fit_with(eng, s, ix=slice(None), ghi=True):
    a = s.albedo[ix] if isinstance(s.albedo, np.ndarray) else s.albedo
    eng.fit(s.stamp[ix], s.dni[ix], s.dhi[ix], s.z[ix], s.az[ix],
            s.tilt[ix], s.saz[ix], a,
            ghi=None if s.ghi is None else s.ghi[ix])
    return eng


def full_results(c, name, A, ta, B, tb):
    """after a full-mode run"""
    for m in ('ts_vf_matrix', 'ts_vf_aoi_matrix'):
        compare(c, '%s: %s' % (name, m), getattr(A.pvarray, m), ta,
                getattr(B.pvarray, m), tb)


@modular
def batch_engine(c, n=1, model='perez', losses=False, run='fit', T=2):
    """C17: fitting and running a batch is fitting and running each timestep
    alone"""
    from . import stubs
    o = Options(c, n, model, losses)
    if c.sym:
        c.nT = T
        c.t0 = c.choice('focus', list(range(c.nT)))
    given = c.choice('given', [(False, True), (True, False)] if c.sym else
                     [(a, b) for a in (False, True) for b in (False, True)])
    s = inputs(c, n, albedo_scalar=given[0], ghi=given[1])
    t = c.t0 if c.sym else c.choice('at', s.times)
    A, B = o.engine(), o.engine()
    with stubs.irradiance(['perez'] * (model == 'perez')), Solver(c):
        fit_with(A, s)
        fit_with(B, s, slice(t, t + 1))
        geometry(c, 'C17.geometry', A.pvarray, t, B.pvarray, 0)
        values(c, 'C17.sky terms', A.pvarray, t, B.pvarray, 0)
        irradiance(c, 'C17.irradiance model', A.irradiance, t, B.irradiance,
                   0)
        compare(c, 'C17.skipped timesteps', A.skip_step, t, B.skip_step, 0)
        if run == 'full':
            A.run_full_mode()
            B.run_full_mode()
            full_results(c, 'C17.full mode', A, t, B, 0)
        if run == 'fast':
            r = c.choice('row', list(range(n)))
            A.run_fast_mode(pvrow_index=r)
            B.run_fast_mode(pvrow_index=r)
        if run != 'fit':
            values(c, 'C17.%s mode' % run, A.pvarray, t, B.pvarray, 0)


@modular
def scalar_inputs(c, n=1, model='perez', run='fit'):
    """C17: scalar inputs are one-element arrays, a scalar albedo is a
    constant one"""
    from . import stubs
    o = Options(c, n, model)
    s = inputs(c, n, ghi=c.choice('ghi', [False, True]))
    t = s.T - 1
    s.albedo[:] = s.albedo[t]
    A, B, D, E = [o.engine() for _ in range(4)]
    one = slice(t, t + 1)
    args = [x[t] for x in (s.dni, s.dhi, s.z, s.az, s.tilt, s.saz,
                           s.albedo)]
    with stubs.irradiance(['perez'] * (model == 'perez')), Solver(c):
        fit_with(A, s, one)
        B.fit(s.stamp[t], *args, ghi=None if s.ghi is None else s.ghi[t])
        fit_with(D, s)
        s.albedo = s.albedo[t]
        fit_with(E, s)
        for e in (A, B, D, E):
            if run == 'full':
                e.run_full_mode()
            if run == 'fast':
                e.run_fast_mode(pvrow_index=0)
    same_engine(c, 'C17.scalar inputs', B, A, run)
    same_engine(c, 'C17.scalar albedo', E, D, run)


@modular
def model_fit(c, model='perez', T=2):
    """C17: the irradiance model on its own: a batch is its timesteps, scalar
    inputs are one-element arrays, a scalar albedo a constant one"""
    from . import stubs
    o = Options(c, 1, model)
    if c.sym:
        c.nT = T
        c.t0 = c.choice('focus', list(range(c.nT)))
    s = inputs(c, 1, ghi=c.choice('ghi', [False, True]))
    t = c.t0 if c.sym else c.choice('at', s.times)
    A, B, D, E, F = [o.engine().irradiance for _ in range(5)]

    def fit(m, pick, albedo):
        v = [x if x is None else pick(x) for x in (
            s.stamp, s.dni, s.dhi, s.z, s.az, s.tilt, s.saz, s.ghi)]
        m.fit(*v[:-1], albedo, ghi=v[-1])
    one = slice(t, t + 1)
    with stubs.irradiance(['perez'] * (model == 'perez')):
        fit(A, lambda x: x, s.albedo)
        fit(B, lambda x: x[one], s.albedo[one])
        fit(D, lambda x: x[t], s.albedo[t])
        s.albedo[:] = s.albedo[t]
        fit(E, lambda x: x, s.albedo)
        fit(F, lambda x: x, s.albedo[t])
    irradiance(c, 'C17.model on its own', A, t, B, 0)
    irradiance(c, 'C17.model on scalars', D, 0, B, 0)
    for t in range(s.T):
        irradiance(c, 'C17.model, scalar albedo', F, t, E, t)


def same_engine(c, name, A, B, run, only=None):
    """everything an engine shows, at every timestep"""
    T = B.n_points
    c.same(name + ': timesteps', A.n_points, T)
    if A.n_points != T:
        return
    for t in range(T):
        geometry(c, name + ', geometry', A.pvarray, t, B.pvarray, t)
        irradiance(c, name + ', irradiance model', A.irradiance, t,
                   B.irradiance, t)
        compare(c, name + ', skipped timesteps', A.skip_step, t,
                B.skip_step, t)
        values(c, name + ', surface values', A.pvarray, t, B.pvarray, t,
               only)
        full_results(c, name, A, t, B, t)


# ---------------------------------------------------------------- C19
class Kept:
    """what a caller passed in, element by element"""

    def __init__(self, s, *dicts):
        self.arrays = {k: (v, list(v)) for k, v in vars(s).items()
                       if isinstance(v, np.ndarray)}
        self.dicts = [(d, freeze(d)) for d in dicts]

    def check(self, c, name):
        for k, (v, was) in self.arrays.items():
            c.ok(name + ': inputs kept', len(v) == len(was) and all(
                unchanged(a, b) for a, b in zip(v, was)), k)
        for d, was in self.dicts:
            c.same(name + ': parameters kept', freeze(d), was)


def unchanged(a, b):
    from .. import terms as T
    if a is b:
        return True
    if isinstance(a, T.R) and isinstance(b, T.R):
        return a.p == b.p
    if is_nan(a) and is_nan(b):
        return True
    return not isinstance(a, T.R) and not isinstance(b, T.R) and a == b


def freeze(d):
    from .. import terms as T
    if isinstance(d, dict):
        return tuple(sorted((repr(q), freeze(v)) for q, v in d.items()))
    if isinstance(d, (list, tuple)):
        return tuple(freeze(v) for v in d)
    if isinstance(d, T.R):
        return k(d)
    if isinstance(d, np.ndarray):
        return tuple(freeze(v) for v in np.asarray(d).ravel())
    return d if isinstance(d, (int, float, str, bool, type(None))) \
        else id(d)


class Image:
    """the complete state: every value reachable from an engine, with the
    sharing between them"""

    def __init__(self, eng):
        self.ids, self.items, self.keep = {}, [], []
        self.walk('', eng)

    def key(self):
        return tuple(self.items)

    def walk(self, path, v):
        from .. import terms as T
        if isinstance(v, T.R):
            self.items.append((path, k(v) if v.p else ('c', 0.)))
        elif isinstance(v, T.B):
            self.items.append((path, 'b', v.n))
        elif is_nan(v):
            self.items.append((path, 'nan'))
        elif isinstance(v, (bool, np.bool_)):
            self.items.append((path, bool(v)))
        elif isinstance(v, (int, float, np.number)):
            self.items.append((path, ('c', float(v))))
        elif v is None or isinstance(v, (str, bytes, type)) or \
                (callable(v) and not hasattr(v, '__dict__')):
            self.items.append((path, repr(v) if not callable(v) else id(v)))
        elif id(v) in self.ids:
            self.items.append((path, 'same as', self.ids[id(v)]))
        else:
            self.ids[id(v)] = len(self.ids)
            self.keep.append(v)
            if isinstance(v, np.ndarray):
                self.items.append((path, 'array', v.shape))
                for i, x in enumerate(np.asarray(v).ravel()):
                    self.walk(path + '[%d]' % i, x)
            elif isinstance(v, dict):
                self.items.append((path, 'dict', tuple(map(repr, v))))
                for q in v:
                    self.walk('%s[%r]' % (path, q), v[q])
            elif isinstance(v, (list, tuple)):
                self.items.append((path, type(v).__name__, len(v)))
                for i, x in enumerate(v):
                    self.walk(path + '[%d]' % i, x)
            elif type(v).__module__.startswith('pvfactors'):
                self.items.append((path, type(v).__name__))
                for q in sorted(vars(v)):
                    self.walk('%s.%s' % (path, q), vars(v)[q])
            else:
                self.items.append((path, 'object', id(v)))


def other(c, n, tag, T):
    """inputs of an earlier fit, with another number of timesteps"""
    saved = c.T, c.nT
    c.T = c.nT = T
    if not c.sym:
        saved_v = c.values.pop('T', None)
        c.values['T'] = T
    s = inputs(c, n, tag)
    if not c.sym:
        c.values.pop('T', None)
        if saved_v is not None:
            c.values['T'] = saved_v
    c.T, c.nT = saved
    return s


def do(eng, op):
    if op == 'full':
        eng.run_full_mode()
    else:
        eng.run_fast_mode(pvrow_index=op)


@modular
def refit_engine(c, n=1, model='perez', losses=False):
    """C19: [fit; run; run; fit] leaves what a fit leaves"""
    from . import stubs
    o = Options(c, n, model, losses)
    s = inputs(c, n)
    s1 = other(c, n, 'earlier ', c.choice('T1', [1, 3]))
    ops = ['full'] + list(range(n))
    h1, h2 = c.choice('history', [(x, y) for x in ops + [None]
                                  for y in ops + [None] if x or y is None
                                  or x == 0])
    op = c.choice('run', ops + [None])
    A, B = o.engine(), o.engine()
    kept = Kept(s, o.par, o.opt)
    kept1 = Kept(s1)
    with stubs.irradiance(['perez'] * (model == 'perez')), Solver(c):
        fit_with(A, s1)
        for x in (h1, h2):
            if x is not None:
                do(A, x)
        fit_with(A, s)
        fit_with(B, s)
        same_engine(c, 'C19.re-fit', A, B, None)
        same_state(c, 'fit', A, B)
        if op is not None:
            do(A, op)
            do(B, op)
            same_engine(c, 'C19.run after a re-fit', A, B, op)
    kept.check(c, 'C19.re-fit')
    kept1.check(c, 'C19.re-fit')


def same_state(c, what, A, B):
    """complete states agree: nothing that follows can tell them apart (a
    difference here alone is no violation: a cache is not observable)"""
    if c.sym:
        v = c.eng.notes.setdefault('complete state after %s is that of a '
                                   'fresh engine' % what, [0, 0])
        v[0] += Image(A).key() == Image(B).key()
        v[1] += 1


@modular
def alternate(c, n=1, model='perez', losses=False, most=3, limit=30):
    """C19: a run gives what it gives on a fresh engine, whatever ran before;
    explores every complete state the runs can reach"""
    from . import stubs
    o = Options(c, n, model, losses)
    s = inputs(c, n)
    ops = ['full'] + list(range(n))
    kept = Kept(s, o.par, o.opt)
    with stubs.irradiance(['perez'] * (model == 'perez')), Solver(c):
        fresh, wrote = {}, {}
        for op in ops:
            fresh[op] = fit_with(o.engine(), s)
            arr = fresh[op].pvarray
            pre = [dict(x.params) for x in arr.all_ts_surfaces]
            do(fresh[op], op)
            wrote[op] = [[q for q, v in x.params.items()
                          if q not in p or p[q] is not v]
                         for x, p in zip(arr.all_ts_surfaces, pre)]
        seen, todo, closed = set(), [()], True
        while todo:
            h = todo.pop(0)
            for op in ops:
                A = fit_with(o.engine(), s)
                for x in h + (op,):
                    do(A, x)
                key = hash(Image(A).key()) if c.sym else h
                B = fresh[op]
                for t in s.times:
                    geometry(c, 'C19.geometry after runs', A.pvarray, t,
                             B.pvarray, t)
                    irradiance(c, 'C19.irradiance model after runs',
                               A.irradiance, t, B.irradiance, t)
                    for x, y, qs in zip(A.pvarray.all_ts_surfaces,
                                        B.pvarray.all_ts_surfaces,
                                        wrote[op]):
                        compare(c, 'C19.run after other runs',
                                {q: v for q, v in x.params.items()
                                 if q in qs}, t,
                                {q: y.params[q] for q in qs}, t)
                    if op == 'full':
                        full_results(c, 'C19.run after other runs', A, t, B,
                                     t)
                if key not in seen:
                    seen.add(key)
                    if len(h) + 1 < most and len(seen) < limit:
                        todo.append(h + (op,))
                    else:
                        closed = False
        if c.sym:
            v = c.eng.notes.setdefault(
                'runs reach finitely many complete states, all explored',
                [0, 0])
            v[0] += closed
            v[1] += 1
    kept.check(c, 'C19.runs')


@modular
def separate(c, n=1, model='perez'):
    """C19: engines share nothing"""
    from . import stubs
    o = Options(c, n, model)
    s, s2 = inputs(c, n), other(c, n, 'other ', 3)
    op = c.choice('run', ['full', 0])
    op2 = c.choice('other run', ['full', 0])
    ref = {}
    kept = Kept(s, o.par, o.opt)
    with stubs.irradiance(['perez'] * (model == 'perez')), Solver(c):
        R = fit_with(o.engine(), s)         # before there is another one
        do(R, op)
        A, B = o.engine(), o.engine()
        fit_with(A, s)
        fit_with(B, s2)
        do(A, op)
        do(B, op2)
        same_engine(c, 'C19.another engine', A, R, op)
        was = Image(R).key() if c.sym else None
        D = fit_with(o.engine(), s2)
        do(D, op2)
        same_engine(c, 'C19.another engine', B, D, op2)
        E = fit_with(o.engine(), s)
        do(E, op)
        same_engine(c, 'C19.another engine', E, R, op)
        if c.sym:
            v = c.eng.notes.setdefault(
                'complete state of an engine untouched by others', [0, 0])
            v[0] += Image(R).key() == was
            v[1] += 1
    kept.check(c, 'C19.another engine')


def refit_array(c, n=2):
    """C19: re-fitting an array is fitting a fresh one"""
    p = params(c, n)
    s, s1 = inputs(c, n), other(c, n, 'earlier ', c.choice('T1', [1, 3]))
    kept, kept1 = Kept(s, p), Kept(s1)
    A, B = array(p), array(p)
    A.fit(s1.z, s1.az, s1.tilt, s1.saz)
    for x in A.all_ts_surfaces:
        x.update_params({'q0': s1.dni, 'stale': s1.dhi})
    A.fit(s.z, s.az, s.tilt, s.saz)
    B.fit(s.z, s.az, s.tilt, s.saz)
    for t in s.times if not c.sym else range(s.T):
        geometry(c, 'C19.re-fitted array', A, t, B, t)
        values(c, 'C19.re-fitted array', A, t, B, t)
    for q in ('illum_params', 'shaded_params'):
        c.same('C19.re-fitted array: ground parameters',
               freeze(getattr(A.ts_ground, q)),
               freeze(getattr(B.ts_ground, q)))
    same_state(c, 'array fit', A, B)
    kept.check(c, 'C19.re-fitted array')
    kept1.check(c, 'C19.re-fitted array')
