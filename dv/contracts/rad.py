"""C08, C09, C15: radiosity equilibrium, fast mode, absorbed irradiance."""
import numpy as np

from .common import (site, make_array, fit, cuts, weather, make_engine,
                     fit_engine, direction, modular)
from .vf import tag_surfaces, matrix_of


def terms_of(model):
    return ['direct'] if model == 'isotropic' else \
        ['direct', 'circumsolar', 'horizon']


def expected_rho(eng, kind, nm, w, t, T):
    if kind == 'gnd':
        a = w.albedo
        return float(a) if np.isscalar(a) else float(a[t])
    return eng.optics.get('rho_%s' % nm, {'front': .01, 'back': .03}[nm])


def full(c, n=2, model='perez', faoi=False):
    """C08 + C15 on a full-mode run"""
    s = site(c, n, cut=cuts(c, n), tilt_max=80)
    w = weather(c, s, albedo_scalar=c.choice('scalar_albedo', [False, True]))
    arr = make_array(s)
    eng = make_engine(c, s, arr, model, faoi)
    fit_engine(s, w, eng)
    seen = []
    value = c.choice('report', ['report', 0, [], {}, False, '', None, 3])
    if c.choice('run twice', [False, False, True]):
        c.same('C08.no report function, no report', eng.run_full_mode(),
               None)

    def report(pv):
        seen.append((pv, [dict(x.params) for x in pv.all_ts_surfaces]))
        return value
    before = [{k: np.array(v, dtype=float) for k, v in x.params.items()
               if k in terms_of(model)} for x in arr.all_ts_surfaces]
    out = eng.run_full_mode(fn_build_report=report)
    c.same('C08.report called once', len(seen), 1)
    c.ok('C08.report value returned', out is value, repr(out))
    c.ok('C08.report gets the array', seen[0][0] is arr)
    for x, p in zip(arr.all_ts_surfaces, seen[0][1]):
        for k in ('q0', 'qinc', 'isotropic', 'reflection', 'qabs'):
            c.ok('C08.results stored before the report',
                 k in p and np.array_equal(p[k], x.get_param(k),
                                           equal_nan=True), k)
    F = matrix_of(arr)
    info = tag_surfaces(arr)
    N = len(info)
    for t in s.times:
        q0 = np.array([c.at(info[i][3].get_param('q0'), t)
                       for i in range(N)])
        sky = c.at(eng.irradiance.sky_luminance, t)
        for i in range(N):
            kind, k, nm, x = info[i]
            rho = expected_rho(eng, kind, nm, w, t, s.T)
            qinc = c.at(x.get_param('qinc'), t)
            iso = c.at(x.get_param('isotropic'), t)
            refl = c.at(x.get_param('reflection'), t)
            own = sum(c.at(before[i][m], t) for m in terms_of(model))
            L = c.at(x.length, t)
            tol = 1e-6
            c.eq('C08.radiosity is reflectivity times incident', q0[i],
                 rho * qinc, tol)
            c.eq('C08.isotropic term', iso, F[i, N, t] * sky, tol)
            c.eq('C08.reflection term', refl,
                 float(np.dot(F[i, :N, t], q0)), tol, 1.)
            c.eq('C08.incident irradiance', qinc, own + iso + refl, tol, 1.)
            absorbed(c, eng, s, w, model, faoi, i, info, t, q0, sky, rho, F)


def absorbed(c, eng, s, w, model, faoi, i, info, t, q0, sky, rho, F):
    kind, k, nm, x = info[i]
    N = len(info)
    qabs = c.at(x.get_param('qabs'), t)
    qinc = c.at(x.get_param('qinc'), t)
    own = {m: c.at(x.get_param(m), t) for m in terms_of(model)}
    if not faoi:
        c.eq('C15.absorbed = (1 - reflectivity) incident', qabs,
             (1. - rho) * qinc, 1e-6, 1.)
        return
    A = np.array(eng.pvarray.ts_vf_aoi_matrix)[i, :, t]
    got = float(np.dot(A[:N], q0)) + A[N] * sky
    if kind == 'gnd':
        a = 1. - rho
        for m in own:
            got += own[m] * a
    else:
        f = eng.fns[0 if nm == 'front' else 1]
        M = c.M
        tilt, z = c.at(s.tilt, t), c.at(s.z, t)
        proj = M.cosd(z) * M.cosd(tilt) + M.sind(z) * M.sind(tilt) * \
            M.cosd(c.at(s.az, t) - c.at(s.saz, t))
        aoi = M.acosd(proj)
        plane = abs(90. - (aoi if nm == 'front' else 180. - aoi))
        for m in own:
            ang = tilt if m == 'horizon' else plane
            got += own[m] * float(f(np.array([ang]))[0])
    c.eq('C15.absorbed irradiance term by term', qabs, got, 1e-6, 1.)


def fast(c, n=3, model='perez', where='run'):
    """C09 on a fast-mode run"""
    s = site(c, n, cut=cuts(c, n), tilt_max=80)
    w = weather(c, s, albedo_scalar=c.choice('scalar_albedo', [False, True]))
    arr = make_array(s)
    k = c.choice('row', list(range(n)))
    nseg = s.cut.get(k, {}).get('back', 1)
    seg = c.choice('segment', [None] + list(range(nseg)))
    other = c.choice('engine_row', [None] + list(range(n)))
    if where == 'run':
        oseg = c.choice('engine_segment', [None, 0])
        eng = make_engine(c, s, arr, model, False, fast_mode_pvrow_index=other,
                          fast_mode_segment_index=oseg)
        if seg is None and oseg is not None:
            seg = oseg
            kw = dict(pvrow_index=k)
        else:
            kw = dict(pvrow_index=k, segment_index=seg)
    else:
        eng = make_engine(c, s, arr, model, False, fast_mode_pvrow_index=k,
                          fast_mode_segment_index=seg)
        kw = {}
    fit_engine(s, w, eng)
    if c.choice('used before', [False, False, True]):
        # earlier run on the same fit, then new sky terms
        if c.choice('used how', ['same', 'full']) == 'full':
            eng.run_full_mode()
        else:
            eng.run_fast_mode(**kw)
        for x in arr.all_ts_surfaces:
            m = c.choice('new term', terms_of(model))
            x.update_params({m: x.get_param(m) + 10. * (1 + x.index)})
    pre = [dict(x.params) for x in arr.all_ts_surfaces]
    seen = []

    def report(pv):
        seen.append((pv is arr, [dict(x.params)
                                 for x in pv.all_ts_surfaces]))
        return ['value']
    out = eng.run_fast_mode(fn_build_report=report, **kw)
    c.same('C09.report value returned', out, ['value'])
    c.ok('C09.report gets the array', len(seen) == 1 and seen[0][0])
    info = tag_surfaces(arr)
    chosen = arr.ts_pvrows[k].back.list_segments
    if seg is not None:
        chosen = [chosen[seg]]
    mine = set()
    for sg in chosen:
        mine |= {x.index for x in sg.all_ts_surfaces}
    irr = eng.irradiance
    rf = eng.optics.get('rho_front', .01)
    for i, (kind, r, nm, x) in info.items():
        if i not in mine:
            c.ok('C09.only the selected surfaces are written',
                 set(x.params) == set(pre[i]) and
                 all(x.params[m] is pre[i][m] for m in pre[i]))
            continue
        vf = x.get_param('view_factors')
        for t in s.times:
            v = {m: c.at(vf[m], t) for m in vf if m != 'to_each_gnd_shadow'}
            al = w.albedo if np.isscalar(w.albedo) else w.albedo[t]
            parts = dict(
                reflection_gnd_shaded=v['to_gnd_shaded'] * al *
                c.at(irr.gnd_shaded, t),
                reflection_gnd_illum=v['to_gnd_illum'] * al *
                c.at(irr.gnd_illum, t),
                reflection_pvrow_shaded=v['to_pvrow_shaded'] * rf *
                c.at(irr.pvrow_shaded, t),
                reflection_pvrow_illum=v['to_pvrow_illum'] * rf *
                c.at(irr.pvrow_illum, t))
            refl = sum(parts.values())
            parts['reflection'] = refl
            parts['isotropic'] = v['to_sky'] * c.at(irr.sky_luminance, t)
            own = sum(c.at(pre[i][m], t) for m in terms_of(model))
            parts['qinc'] = refl + parts['isotropic'] + own
            for m, e in parts.items():
                c.eq('C09.' + m, c.at(x.get_param(m), t), e, 1e-8, 1.)
            c.eq('C09.shaded + lit ground = ground',
                 v['to_gnd_shaded'] + v['to_gnd_illum'], v['to_gnd_total'])
            c.eq('C09.shaded + lit rows = rows',
                 v['to_pvrow_shaded'] + v['to_pvrow_illum'],
                 v['to_pvrow_total'])
            each = np.asarray(vf['to_each_gnd_shadow'])
            c.same('C09.one view factor per shadow', each.shape,
                   (n, s.T))
            c.eq('C09.shaded ground = sum over shadows',
                 v['to_gnd_shaded'], each[:, t].sum())
            c.eq('C09.ground + rows + sky = 1', v['to_gnd_total'] +
                 v['to_pvrow_total'] + v['to_sky'], 1.)
            # the view factors are those of the surface itself
            L = c.at(x.length, t)
            if L > 1e-4:
                c.ok('C09.view factors within [0, 1]', all(
                    -1e-6 <= q <= 1 + 1e-6 for q in v.values()), repr(v))


# ------------------------------------------ view factors, params arbitrary
@modular
def equilibrium(c, n=1, model='perez', aoi=False):
    """C08, C15: the equilibrium for any view factors (zero sky row),
    reflectivities and sky terms, per timestep"""
    from . import stubs
    from pvfactors.engine import PVEngine
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    from .geom import scheme
    free = stubs.free
    s = site(c, n, cut=scheme(c, n) if c.sym else cuts(c, n), tilt_max=80)
    w = stubs.weather(c, s)
    arr = make_array(s)
    irr = (HybridPerezOrdered if model == 'perez' else IsotropicOrdered)(
        **stubs.optics(c))
    eng = PVEngine(arr, irradiance_model=irr)
    with stubs.irradiance():
        fit_engine(s, w, eng)
    info = tag_surfaces(arr)
    N = len(info)
    c.same('C08.surfaces carry the indices', sorted(info), list(range(N)))
    # any parameters
    comp = terms_of(model)
    par = {}
    for i, (kind, k, nm, x) in info.items():
        p = {m: free(c, '%s_%d' % (m, i), 0., 300.) for m in comp}
        p.update({m + '_absorbed': free(c, '%s_abs_%d' % (m, i), 0., 300.)
                  for m in comp})
        inv = c.ser('invrho_%d' % i, 0., None, strict=True) if c.sym else \
            c.ser('invrho_%d' % i, 1.05, 1e4, special=(2., 1e4))
        p.update(inv_rho=inv, rho=1 / inv, total_perez=np.zeros(s.T))
        par[i] = dict(p)
        x.update_params({m: (v.copy() if isinstance(v, np.ndarray) else v)
                         for m, v in p.items()})
    # any view factors
    F = {(i, j): free(c, 'F_%d_%d' % (i, j), 0., 1. / (N + 1))
         for i in range(N) for j in range(N + 1)}
    calls = []

    def build(pvarray):
        calls.append(pvarray)
        m = np.zeros((N + 1, N + 1, s.T), dtype=object if c.sym else float)
        if c.sym:
            from .. import sym
            m = m.view(sym.SymArray)
        for (i, j), v in F.items():
            m[i, j, :] = v
        eng.vf_calculator.vf_matrix = m
        return m
    eng.vf_calculator.build_ts_vf_matrix = build
    if aoi:
        eng.vf_calculator.vf_aoi_methods = stubs.Losses(c, arr)
    seen = []
    value = object()

    def report(pv):
        seen.append((pv, [dict(x.params) for x in pv.all_ts_surfaces]))
        return value
    with stubs.Linear(c) as lin:
        out = eng.run_full_mode(fn_build_report=report)
    if not calls or any(x is not arr for x in calls):
        raise AttributeError('view factor matrix built elsewhere')
    c.same('C08.report called once', len(seen), 1)
    c.ok('C08.report value returned', out is value)
    c.ok('C08.report gets the array', seen[0][0] is arr)
    got = ('q0', 'qinc', 'isotropic', 'reflection', 'qabs')
    for x, p in zip(arr.all_ts_surfaces, seen[0][1]):
        for k in got:
            c.ok('C08.results stored before the report',
                 k in p and p[k] is x.get_param(k), k)
    A = np.asarray(arr.ts_vf_aoi_matrix)
    for t in s.times:
        sky = c.at(irr.sky_luminance, t)
        f = {ij: c.at(v, t) for ij, v in F.items()}
        q0 = [c.at(info[i][3].get_param('q0'), t) for i in range(N)]
        own = [sum(c.at(par[i][m], t) for m in comp) for i in range(N)]
        b = own + [sky]
        for i in range(N):
            kind, k, nm, x = info[i]
            g = {m: c.at(x.get_param(m), t) for m in got}
            rho = at(c, par[i]['rho'], t)
            inv = at(c, par[i]['inv_rho'], t)
            z = lin.zeros(t, i, b, (1, rho, inv)) if c.sym else ()
            if c.sym and not z:
                from ..terms import Unsupported
                raise Unsupported('no linear algebra under contract')
            sky_z = lin.zeros(t, N, b, (1,)) if c.sym else ()
            kw = dict(tol=1e-6, scale=1., modulo=list(z) + list(sky_z))
            refl = 0
            for j in range(N):
                refl = refl + f[i, j] * q0[j]
            c.eq('C08.radiosity is reflectivity times incident', g['q0'],
                 rho * g['qinc'], **kw)
            c.eq('C08.isotropic term', g['isotropic'], f[i, N] * sky,
                 **kw)
            if c.sym:       # row i of the system holds the sky's radiosity
                kw['modulo'] = list(z) + [v * f[i, N] for v in sky_z]
            c.eq('C08.reflection term', g['reflection'], refl, **kw)
            c.eq('C08.incident irradiance', g['qinc'],
                 own[i] + f[i, N] * sky + refl, **kw)
            if not aoi:
                if c.sym:
                    kw['modulo'] = [v * f[i, N] * (1 - rho) for v in sky_z]
                # (with absorbed terms (1 - rho) own: (1 - rho) qinc)
                e = sum(at(c, par[i][m + '_absorbed'], t) for m in comp) \
                    + (1 - rho) * f[i, N] * sky
                for j in range(N):
                    e = e + (1 - rho) * f[i, j] * q0[j]
                c.eq('C15.absorbed = (1 - reflectivity) incident',
                     g['qabs'], e, **kw)
                continue
            e = sum(at(c, par[i][m + '_absorbed'], t) for m in comp)
            for j in range(N):
                e = e + c.at(A[i, j], t) * q0[j]
            if c.sym:
                kw['modulo'] = [v * c.at(A[i, N], t) for v in sky_z]
            c.eq('C15.absorbed irradiance term by term', g['qabs'],
                 e + c.at(A[i, N], t) * sky, **kw)


def at(c, v, t):
    return c.at(v, t) if isinstance(v, np.ndarray) else v


VFS = ('to_gnd_shaded', 'to_gnd_illum', 'to_gnd_total', 'to_pvrow_total',
       'to_pvrow_shaded', 'to_pvrow_illum', 'to_sky')


@modular
def selected(c, n=2, model='perez'):
    """C09: who is written and what, for any view factors and sky terms"""
    from . import stubs
    from pvfactors.engine import PVEngine
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    free = stubs.free
    cut = {0: {'back': 2}} if c.sym else cuts(c, n)
    s = site(c, n, cut=cut, tilt_max=80, flat=not c.sym)
    w = stubs.weather(c, s, c.choice('scalar_albedo', [False, True]))
    arr = make_array(s)
    k = c.choice('row', list(range(n)))
    nseg = cut.get(k, {}).get('back', 1)
    seg = c.choice('segment', [None] + list(range(nseg)))
    where = c.choice('where', ['run', 'engine', 'row in run',
                               'segment in run'])
    ekw, kw = {}, {}
    if where in ('run', 'row in run'):
        kw['pvrow_index'] = k
        ekw['fast_mode_pvrow_index'] = n - 1 - k if n > 1 else None
    else:
        ekw['fast_mode_pvrow_index'] = k
    if where in ('run', 'segment in run'):
        kw['segment_index'] = seg
        # (None in the run leaves the engine's choice)
        ekw['fast_mode_segment_index'] = None if seg is None else \
            nseg - 1 - seg
    else:
        ekw['fast_mode_segment_index'] = seg
    o = stubs.optics(c)
    irr = (HybridPerezOrdered if model == 'perez' else IsotropicOrdered)(**o)
    eng = PVEngine(arr, irradiance_model=irr, **ekw)
    with stubs.irradiance():
        fit_engine(s, w, eng)
    info = tag_surfaces(arr)
    comp = terms_of(model)
    par = {}
    for i, (kind, r, nm, x) in info.items():
        par[i] = {m: free(c, '%s_%d' % (m, i), 0., 300.) for m in comp}
        x.update_params({m: v.copy() for m, v in par[i].items()})
    pre = {i: dict(v[3].params) for i, v in info.items()}
    calls = {}

    def element(pvrow_idx, pvrow_element, ts_pvrows, ts_ground, rotation_vec,
                pvrow_width):
        i = pvrow_element.index
        calls.setdefault(i, []).append(
            (pvrow_idx, pvrow_element, ts_pvrows, ts_ground, rotation_vec,
             pvrow_width))
        return {m: free(c, 'vf_%d_%s' % (i, m), 0., 1.) for m in VFS}
    eng.vf_calculator.get_vf_ts_pvrow_element = element
    seen = []
    value = object()

    def report(pv):
        seen.append((pv, [dict(x.params) for x in pv.all_ts_surfaces]))
        return value
    out = eng.run_fast_mode(fn_build_report=report, **kw)
    c.ok('C09.report value returned', out is value)
    c.ok('C09.report gets the array', len(seen) == 1 and seen[0][0] is arr)
    chosen = arr.ts_pvrows[k].back.list_segments
    mine = {x.index for q, sg in enumerate(chosen)
            if seg is None or q == seg for x in sg.all_ts_surfaces}
    if not mine <= set(calls):
        raise AttributeError('view factors taken from elsewhere')
    for i, (kind, r, nm, x) in info.items():
        now = seen[0][1][[y.index for y in arr.all_ts_surfaces].index(i)]
        if i not in mine:
            c.ok('C09.only the selected surfaces are written',
                 set(x.params) == set(pre[i]) and
                 all(x.params[m] is pre[i][m] for m in pre[i]))
            continue
        c.ok('C09.view factors of the surface in its array',
             all(a[0] == k and a[1] is x and len(a[2]) == n
                 for a in calls[i]))
        vf = x.get_param('view_factors')
        for t in s.times:
            v = {m: c.at(vf[m], t) for m in VFS}
            al = at(c, w.albedo, t)
            rf = o['rho_front']
            e = dict(
                reflection_gnd_shaded=v['to_gnd_shaded'] * al *
                c.at(irr.gnd_shaded, t),
                reflection_gnd_illum=v['to_gnd_illum'] * al *
                c.at(irr.gnd_illum, t),
                reflection_pvrow_shaded=v['to_pvrow_shaded'] * rf *
                c.at(irr.pvrow_shaded, t),
                reflection_pvrow_illum=v['to_pvrow_illum'] * rf *
                c.at(irr.pvrow_illum, t))
            e['reflection'] = sum(e.values())
            e['isotropic'] = v['to_sky'] * c.at(irr.sky_luminance, t)
            e['qinc'] = e['reflection'] + e['isotropic'] + \
                sum(c.at(par[i][m], t) for m in comp)
            for m, q in e.items():
                c.ok('C09.results stored before the report',
                     m in now and now[m] is x.get_param(m))
                c.eq('C09.' + m, c.at(x.get_param(m), t), q, 1e-8, 1.)
            for m in comp:
                c.eq('C09.own terms stay', c.at(x.get_param(m), t),
                     c.at(par[i][m], t))


@modular
def element(c, n=2):
    """C09: the view factors of one surface, for whatever the geometric
    view factor methods return"""
    from . import stubs
    from pvfactors.viewfactors import VFCalculator
    free = stubs.free
    s = site(c, n, cut=None if c.sym else cuts(c, n), flat=not c.sym)
    arr = fit(s, make_array(s))
    k = c.choice('row', list(range(n)))
    side = c.choice('side', ['back', 'front'])
    x = getattr(arr.ts_pvrows[k], side).all_ts_surfaces[
        c.choice('surface', [0, 1])]
    log = []

    class Methods:
        def calculate_vf_to_shadow_obstruction_hottel(
                self, pvrow_element, pvrow_idx, n_shadows, n_steps,
                tilted_to_left, ts_pvrows, shadow_left, shadow_right,
                pvrow_element_length):
            i = sum(1 for q in log if q[0] == 'shadow')
            log.append(('shadow', pvrow_element, pvrow_idx, n_shadows,
                        ts_pvrows, shadow_left, shadow_right))
            return free(c, 'shadow_%d' % i, 0., .1)

        def calculate_vf_to_gnd(self, coords, pvrow_idx, n_pvrows, n_steps,
                                y_ground, cut_point, length, left, rows):
            log.append(('gnd', coords, pvrow_idx, n_pvrows, rows, cut_point,
                        y_ground))
            return free(c, 'gnd', 0., .6)

        def calculate_vf_to_pvrow(self, coords, pvrow_idx, n_pvrows, n_steps,
                                  rows, length, left, width, rotation_vec):
            log.append(('row', coords, pvrow_idx, n_pvrows, rows, width,
                        rotation_vec))
            return free(c, 'rows', 0., .3), free(c, 'shaded', 0., .3)
    calc = VFCalculator()
    calc.vf_ts_methods = Methods()
    vf = calc.get_vf_ts_pvrow_element(k, x, arr.ts_pvrows, arr.ts_ground,
                                      arr.rotation_vec, arr.width)
    sh = [q for q in log if q[0] == 'shadow']
    if len(sh) != n:
        raise AttributeError('view factors of the shadows from elsewhere')
    for q in sh:
        c.ok('C09.shadow of this surface and array', q[1].index == x.index
             and q[2] == k and q[3] == n)
    rest = [q for q in log if q[0] != 'shadow']
    for q in rest:
        c.ok('C09.ground and rows of this surface and array',
             q[2] == k and q[3] == n)
        for t in s.times:
            for p, e in ((q[1].b1, x.b1), (q[1].b2, x.b2)):
                c.eq('C09.ground and rows of this surface and array',
                     c.at(p.x, t), c.at(e.x, t))
                c.eq('C09.ground and rows of this surface and array',
                     c.at(p.y, t), c.at(e.y, t))
            if q[0] == 'gnd':
                p, e = q[5], arr.ts_ground.cut_point_coords[k]
                c.eq('C09.cut point of the row', c.at(p.x, t), c.at(e.x, t))
    each = np.asarray(vf['to_each_gnd_shadow'])
    c.same('C09.one view factor per shadow', each.shape, (n, s.T))
    for t in s.times:
        v = {m: c.at(vf[m], t) for m in VFS}
        c.eq('C09.shaded + lit ground = ground',
             v['to_gnd_shaded'] + v['to_gnd_illum'], v['to_gnd_total'])
        c.eq('C09.shaded + lit rows = rows',
             v['to_pvrow_shaded'] + v['to_pvrow_illum'],
             v['to_pvrow_total'])
        tot = 0
        for i in range(n):
            tot = tot + c.at(each[i], t)
        c.eq('C09.shaded ground = sum over shadows', v['to_gnd_shaded'], tot)
        c.eq('C09.ground + rows + sky = 1', v['to_gnd_total'] +
             v['to_pvrow_total'] + v['to_sky'], 1)
