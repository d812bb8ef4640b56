"""C17 (timesteps are independent) and C19 (no trace of earlier runs)."""
import copy

import numpy as np

from .common import site, make_array, cuts, weather, make_engine, optics

SHORT = 1e-7


def at_t(v, t, T):
    """value at t of anything an engine stores (time is the last axis)"""
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, dict):
        return {k: at_t(x, t, T) for k, x in v.items()}
    a = np.asarray(v)
    if a.dtype == object:
        return None
    if a.ndim and a.shape[-1] == T:
        return a[..., t]
    return a


def state(eng, t, T, modes):
    """everything observable of an engine at a timestep"""
    arr, irr = eng.pvarray, eng.irradiance
    out = {}
    out['array'] = {
        'rotation': at_t(arr.rotation_vec, t, T),
        'sun': at_t(arr.solar_2d_vectors, t, T),
        'direct shading': at_t(arr.has_direct_shading, t, T)}
    for x in arr.all_ts_surfaces:
        L = float(x.length[t])
        d = {'b1x': x.b1.x[t], 'b1y': x.b1.y[t], 'b2x': x.b2.x[t],
             'b2y': x.b2.y[t]}
        out['surface %d geometry' % x.index] = d
        if not 0 < L < SHORT:
            out['surface %d' % x.index] = {
                k: at_t(v, t, T) for k, v in x.params.items()}
    out['irradiance'] = {
        k: at_t(getattr(irr, k), t, T)
        for k in ('gnd_shaded', 'gnd_illum', 'pvrow_shaded', 'pvrow_illum',
                  'sky_luminance', 'albedo', 'DNI', 'DHI')
        if hasattr(irr, k)}
    if 'full' in modes:
        short = [x.index for x in arr.all_ts_surfaces
                 if 0 < float(x.length[t]) < SHORT]
        for nm, M in (('vf', arr.ts_vf_matrix), ('aoi',
                                                 arr.ts_vf_aoi_matrix)):
            m = np.array(M[:, :, t])
            m[short, :] = 0
            m[:, short] = 0
            out[nm] = {'matrix': m}
    out['skip'] = {'skip': at_t(eng.skip_step, t, T)}
    return out


def close(a, b, tol):
    if a is None or b is None or isinstance(a, str):
        return a is b or a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and \
            all(close(a[k], b[k], tol) for k in a)
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.isclose(a, b, rtol=tol, atol=tol * 10,
                                  equal_nan=True)))


def compare(c, what, got, want, tol=1e-8, keys=True):
    c.same('%s: same parts' % what, sorted(got), sorted(want))
    for p in want:
        if keys:
            c.same('%s: same values stored on %s' % (what, kind(p)),
                   sorted(got[p]), sorted(want[p]))
        for k, v in want[p].items():
            c.ok('%s: %s %s' % (what, kind(p), k),
                 k in got[p] and close(got[p][k], v, tol),
                 '%s: got %r, contract says %r' % (p, got[p].get(k), v))


def kind(p):
    return 'surface' if p.startswith('surface') else p


class Data:
    pass


def data(c, n, tag, T, wild=True):
    """inputs of one fit"""
    d = Data()
    d.T = T

    def ser(nm, lo, hi, special=()):
        return np.array([c.num('%s%s[%d]' % (tag, nm, t), lo, hi,
                               special=special) for t in range(T)])
    d.zenith = ser('zenith', 2., 85., (20., 60., 75., 85.))
    if wild:
        for t in range(T):
            if c.choice('%swild[%d]' % (tag, t), [0, 0, 0, 0, 1]):
                d.zenith[t] = c.num('%snight[%d]' % (tag, t), 91., 130.)
    d.phi = ser('phi', -180., 180., (10., 170., -3.))
    d.saz = ser('saz', 0., 360., (90., 270., 90., 270.))
    d.tilt = ser('tilt', .5, 60., (0., 0., 10., 20., 45., 60.))
    d.dni = ser('dni', 1., 1000., (1000., 300.))
    d.dhi = ser('dhi', 1., 500., (100., 50.))
    d.albedo = ser('albedo', .05, .9, (.2,))
    if wild:
        for t in range(T):
            k = c.choice('%sdark[%d]' % (tag, t), [0, 0, 0, 0, 0, 1, 2])
            if k:
                d.dni[t] = 0.
            if k == 2:
                d.dhi[t] = 0.
    if wild and c.choice(tag + 'missing data', [0, 0, 0, 0, 1]):
        d.dni[c.choice(tag + 'missing at', list(range(T)))] = np.nan
    if wild and c.choice(tag + 'negative data', [0, 0, 0, 0, 1]):
        x = c.choice(tag + 'negative what', ['dni', 'dhi'])
        getattr(d, x)[c.choice(tag + 'negative at', list(range(T)))] = -3.
    d.ghi = ser('ghi', 0., 900.) if c.choice(tag + 'ghi', [0, 0, 1]) \
        else None
    import pandas as pd
    day = c.choice(tag + 'day', [0, 100, 181, 300])
    d.times = (pd.date_range('2019-01-01 06:00', periods=T, freq='37min')
               + pd.Timedelta(days=day))
    return d


def passed(arr, d, idx=None):
    """the caller's arrays, newly made"""
    ix = list(range(d.T)) if idx is None else list(idx)
    az = arr.axis_azimuth
    return [d.dni[ix], d.dhi[ix], d.zenith[ix], (az + 90. + d.phi)[ix],
            d.tilt[ix], (az + d.saz)[ix], d.albedo[ix]]


def fit(eng, arr, d, idx=None):
    ix = list(range(d.T)) if idx is None else list(idx)
    args = passed(arr, d, idx)
    eng.fit(d.times[ix], *args, ghi=None if d.ghi is None else d.ghi[ix])
    return args


def same_array(v, w):
    if v.dtype.kind == 'f':
        return np.array_equal(v, w, equal_nan=True)
    return np.array_equal(v, w)


class Setup:
    """draws the options once, builds fresh engines from them"""

    def __init__(self, c, n, models=('perez', 'perez', 'isotropic')):
        self.c, self.n = c, n
        self.pars = dict(
            n_pvrows=n, axis_azimuth=c.num('axis', 0., 360.,
                                           special=(0., 180.)),
            gcr=c.num('gcr', .1, .95, special=(.4,)),
            pvrow_width=c.num('width', .5, 4., special=(1.,)),
            pvrow_height=c.num('height', 2., 5.),
            cut=cuts(c, n))
        self.model = c.choice('model', list(models))
        self.opt = optics(c)
        if self.model == 'perez':
            self.opt['horizon_band_angle'] = c.num('band', 2., 30.)
        self.faoi = c.choice('faoi', [False, False, True])
        if self.faoi:
            from .common import losses
            self.fns = losses(c)

    def engine(self):
        from pvfactors.engine import PVEngine
        from pvfactors.geometry import OrderedPVArray
        from pvfactors.irradiance import (HybridPerezOrdered,
                                          IsotropicOrdered)
        from pvfactors.viewfactors import VFCalculator
        arr = OrderedPVArray.init_from_dict(self.pars,
                                            param_names=['q0', 'qinc'])
        o = dict(self.opt)
        vf = None
        if self.faoi:
            o.update(faoi_fn_front=self.fns[0], faoi_fn_back=self.fns[1])
            vf = VFCalculator(self.fns[0], self.fns[1],
                              n_aoi_integral_sections=20)
        cls = HybridPerezOrdered if self.model == 'perez' \
            else IsotropicOrdered
        return PVEngine(arr, vf_calculator=vf, irradiance_model=cls(**o))


def run(c, eng, op):
    if op[0] == 'full':
        eng.run_full_mode()
    else:
        eng.run_fast_mode(pvrow_index=op[1], segment_index=op[2])


def operation(c, nm, su):
    if c.choice(nm + ' mode', ['full', 'fast']) == 'full':
        return ('full',)
    k = c.choice(nm + ' row', list(range(su.n)))
    ns = su.pars['cut'].get(k, {}).get('back', 1)
    seg = c.choice(nm + ' segment', [None] + list(range(ns)))
    return ('fast', k, seg)


# ---------------------------------------------------------------- C17
def independent(c, n=3):
    """a batch and any sub-batch of it, in any order, agree"""
    T = c.choice('T', [2, 3, 4, 6])
    su = Setup(c, n)
    d = data(c, n, '', T)
    op = operation(c, 'run', su)
    m = c.choice('size', [1, 1, 2, T])
    ix = []
    for j in range(m):
        r = [i for i in range(T) if i not in ix]
        if r:
            ix.append(r[c.choice('pick%d' % j, list(range(T))) % len(r)])
    a, b = su.engine(), su.engine()
    fit(a, a.pvarray, d)
    run(c, a, op)
    fit(b, b.pvarray, d, ix)
    run(c, b, op)
    for p, t in enumerate(ix):
        compare(c, 'C17', state(b, p, len(ix), op), state(a, t, T, op))


def scalars(c, n=3):
    """scalar inputs are one-element arrays, a scalar albedo is constant"""
    su = Setup(c, n)
    d = data(c, n, '', 1)
    op = operation(c, 'run', su)
    a, b, e = su.engine(), su.engine(), su.engine()
    args = fit(a, a.pvarray, d)
    run(c, a, op)
    b.fit(d.times[0], *[x[0] for x in args],
          ghi=None if d.ghi is None else d.ghi[0])
    run(c, b, op)
    e.fit(d.times, *(args[:-1] + [float(args[-1][0])]), ghi=d.ghi)
    run(c, e, op)
    want = state(a, 0, 1, op)
    compare(c, 'C17.scalar inputs', state(b, 0, 1, op), want)
    compare(c, 'C17.scalar albedo', state(e, 0, 1, op), want)
    T = c.choice('T', [2, 3])
    d = data(c, n, 'batch ', T)
    d.albedo = np.full(T, d.albedo[0])
    a, b = su.engine(), su.engine()
    args = fit(a, a.pvarray, d)
    run(c, a, op)
    b.fit(d.times, *(args[:-1] + [float(d.albedo[0])]), ghi=d.ghi)
    run(c, b, op)
    for t in range(T):
        compare(c, 'C17.scalar albedo', state(b, t, T, op),
                state(a, t, T, op))


# ---------------------------------------------------------------- C19
def everything(eng, modes):
    T = eng.n_points
    return [state(eng, t, T, modes) for t in range(T)]


def surfaces_of(eng, op):
    """indices of the surfaces a mode writes on"""
    if op[0] == 'full':
        return None
    back = eng.pvarray.ts_pvrows[op[1]].back
    segs = back.list_segments
    if op[2] is not None:
        segs = [segs[op[2]]]
    return {x.index for s in segs for x in s.all_ts_surfaces}


def refit(c, n=2, steps=4):
    """any sequence of fits and runs against a fresh engine"""
    su = Setup(c, n)
    pars0, opt0 = copy.deepcopy(su.pars), copy.deepcopy(su.opt)
    eng = su.engine()
    other = su.engine()
    d2 = data(c, n, 'other ', 2)
    fit(other, other.pvarray, d2)
    other.run_full_mode()
    ref_other = everything(other, ('full',))
    cur, since = None, []
    for i in range(steps):
        if cur is None or c.choice('step%d' % i, ['run', 'fit']) == 'fit':
            cur = data(c, n, 'fit%d ' % i, c.choice('T%d' % i, [1, 2, 3]))
            keep = copy.deepcopy(vars(cur))
            args = fit(eng, eng.pvarray, cur)
            since = []
            fresh = su.engine()
            args2 = passed(eng.pvarray, cur)
            fit(fresh, fresh.pvarray, cur)
            for x, y in zip(args, args2):
                c.ok('C19.fit keeps its inputs', np.array_equal(
                    x, y, equal_nan=True))
            for a, b in zip(everything(eng, ()), everything(fresh, ())):
                compare(c, 'C19.re-fit', a, b)
        op = operation(c, 'op%d' % i, su)
        run(c, eng, op)
        since.append(op)
        fresh = su.engine()
        fit(fresh, fresh.pvarray, cur)
        run(c, fresh, op)
        only = surfaces_of(fresh, op)
        for a, b in zip(everything(eng, op), everything(fresh, op)):
            if only is not None:
                for p in list(b):
                    if p.startswith('surface') and 'geometry' not in p and \
                            int(p.split()[1]) not in only:
                        del b[p]
                        del a[p]
            if len(since) > 1:
                # not written by this mode
                for q in b.values():
                    for k in [k for k, v in q.items() if v is None]:
                        del q[k]
            compare(c, 'C19.%s-mode run' % op[0], a, b,
                    keys=len(since) == 1)
        for x, y in zip(args, args2):
            c.ok('C19.runs keep the inputs', np.array_equal(
                x, y, equal_nan=True))
        for k, v in keep.items():
            w = getattr(cur, k)
            c.ok('C19.inputs kept: %s' % k, same_array(v, w)
                 if isinstance(v, np.ndarray) else
                 (v is None and w is None) or np.all(v == w))
    c.same('C19.array parameters kept', su.pars, pars0)
    c.same('C19.model parameters kept', su.opt, opt0)
    for a, b in zip(everything(other, ('full',)), ref_other):
        compare(c, 'C19.another engine', a, b)
    if not su.faoi:
        return
    N = other.pvarray.n_ts_surfaces
    before = np.array(other.pvarray.ts_vf_matrix)
    fresh = su.engine()
    fit(fresh, fresh.pvarray, d2)
    c.ok('C19.plain view factors survive a run', np.allclose(
        before, fresh.vf_calculator.build_ts_vf_matrix(fresh.pvarray),
        equal_nan=True))


def array_refit(c, n=3):
    """geometry: re-fitting an array equals a fresh one"""
    s = site(c, n, cut=cuts(c, n), T=c.choice('T1', [1, 2, 3]))
    arr = make_array(s, param_names=['q'])
    T0 = c.choice('T0', [1, 2, 4])

    def ser(nm, lo, hi):
        return np.array([c.num('%s[%d]' % (nm, t), lo, hi)
                         for t in range(T0)])
    arr.fit(ser('z0', 1., 88.), ser('a0', 0., 360.), ser('t0', 0., 60.),
            ser('sa0', 0., 360.))
    arr.update_params({'q': 3., 'stale': 1.})
    ins = [s.z, s.az, s.tilt, s.saz]
    keep = [np.array(x) for x in ins]
    arr.fit(*ins)
    for a, b in zip(ins, keep):
        c.ok('C19.array fit keeps its inputs', np.array_equal(a, b))
    ref = make_array(s, param_names=['q'])
    ref.fit(*ins)
    A, B = arr.all_ts_surfaces, ref.all_ts_surfaces
    c.same('C19.re-fitted array: surfaces', len(A), len(B))
    for x, y in zip(A, B):
        c.same('C19.re-fitted array: index', x.index, y.index)
        c.same('C19.re-fitted array: parameters', x.params, y.params)
        c.ok('C19.re-fitted array: coordinates', np.array_equal(
            x.coords.as_array, y.coords.as_array, equal_nan=True))
    for k in ('illum_params', 'shaded_params'):
        c.same('C19.re-fitted array: ground parameters',
               getattr(arr.ts_ground, k), getattr(ref.ts_ground, k))
    c.ok('C19.re-fitted array: rotation',
         np.array_equal(arr.rotation_vec, ref.rotation_vec))
