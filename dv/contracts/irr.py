"""C11, C12, C13: irradiance components, horizon band, circumsolar disk."""
import math

import numpy as np

from .common import (site, make_array, fit, cuts, weather, make_engine,
                     fit_engine, direction, optics, modular)
from .vf import tag_surfaces, row_ends, side_of


def cos_aoi(c, s, t):
    M = c.M
    tilt, z = c.at(s.tilt, t), c.at(s.z, t)
    return M.cosd(z) * M.cosd(tilt) + M.sind(z) * M.sind(tilt) * \
        M.cosd(c.at(s.az, t) - c.at(s.saz, t))


def perez_reference(s, w, t):
    """pvlib's Perez components for the front at t, evaluated alone"""
    import pandas as pd
    from pvlib import atmosphere, irradiance
    ts = pd.DatetimeIndex([w.timestamps[t]])
    et = np.asarray(irradiance.get_extra_radiation(ts.dayofyear))
    am = atmosphere.get_relative_airmass(s.z[t:t + 1])
    comp = irradiance.perez(s.tilt[t:t + 1], s.saz[t:t + 1], w.dhi[t:t + 1],
                            w.dni[t:t + 1], et, s.z[t:t + 1],
                            s.az[t:t + 1], am, return_components=True)
    return {k: float(np.asarray(v)[0]) for k, v in comp.items()}


def components(c, n=2, model='perez'):
    """C11 after fit and transform"""
    M = c.M
    s = site(c, n, cut=cuts(c, n), tilt_max=80)
    w = weather(c, s, albedo_scalar=c.choice('scalar_albedo', [False, True]))
    arr = make_array(s)
    eng = make_engine(c, s, arr, model, False, optics(c))
    ghi = None
    if c.choice('with_ghi', [False, True]):
        ghi = w.dni * np.cos(np.radians(s.z)) + w.dhi
    fit_engine(s, w, eng, ghi)
    irr = eng.irradiance
    o = eng.optics
    keep = o['module_spacing_ratio'] + (1 - o['module_spacing_ratio']) * \
        o['module_transparency']
    info = tag_surfaces(arr)
    for t in s.times:
        ca = cos_aoi(c, s, t)
        if abs(ca) < 1e-9:
            continue
        dni, dhi, z = w.dni[t], w.dhi[t], c.at(s.z, t)
        gd = dni * M.cosd(z)
        direct = dict(gnd=gd, front=max(0., ca) * dni,
                      back=max(0., -ca) * dni)
        if model == 'perez':
            ref = perez_reference(s, w, t)
            cg = [c.at(x.get_param('circumsolar'), t)
                  for k, r, nm, x in info.values()
                  if k == 'gnd' and not x.shaded][0]
            circ = dict(gnd=cg, front=ref['circumsolar'] if ca > 0 else 0.,
                        back=-ca / M.cosd(z) * cg if ca < 0 else 0.)
            if ca > 0.01 and z < 85:
                # the circumsolar light on the ground and on the front come
                # from the same luminance
                c.eq('C11.circumsolar on lit ground', cg,
                     ref['circumsolar'] / ca * max(M.cosd(z), M.cosd(85)),
                     1e-6)
        for kind, k, nm, x in info.values():
            who = 'gnd' if kind == 'gnd' else nm
            f = keep if x.shaded else 1.
            c.eq('C11.direct on %s' % who, c.at(x.get_param('direct'), t),
                 f * direct[who], 1e-6)
            if model == 'perez':
                c.eq('C11.circumsolar on %s' % who,
                     c.at(x.get_param('circumsolar'), t), f * circ[who],
                     1e-6)
                if who == 'gnd':
                    c.eq('C11.no horizon term on the ground',
                         c.at(x.get_param('horizon'), t), 0.)
            rho = (w.albedo if np.isscalar(w.albedo) else w.albedo[t]) \
                if who == 'gnd' else o['rho_' + nm]
            c.eq('C11.reflectivity of %s' % who, c.at(x.get_param('rho'), t),
                 rho)
            c.eq('C11.inverse reflectivity of %s' % who,
                 c.at(x.get_param('inv_rho'), t), 1. / rho)
        lost = (1 - keep) * (direct['gnd'] + (circ['gnd']
                                              if model == 'perez' else 0.))
        c.eq('C11.reference for shaded ground', c.at(irr.gnd_shaded, t),
             c.at(irr.gnd_illum, t) - lost, 1e-6, 1.)
        c.eq('C11.reference for lit ground', c.at(irr.gnd_illum, t),
             gd + dhi, 1e-6, 1.)
        lost = (1 - keep) * (direct['front'] + (circ['front']
                                                if model == 'perez' else 0.))
        c.eq('C11.reference for shaded front', c.at(irr.pvrow_shaded, t),
             c.at(irr.pvrow_illum, t) - lost, 1e-6, 1.)


def horizon(c, n=3):
    """C12 after fit and transform"""
    M = c.M
    s = site(c, n, cut=cuts(c, n), tilt_max=80)
    w = weather(c, s)
    arr = make_array(s)
    band = c.num('band', 1., 40., special=(6.5,))
    o = optics(c)
    o['horizon_band_angle'] = band
    eng = make_engine(c, s, arr, 'perez', False, o)
    fit_engine(s, w, eng)
    info = tag_surfaces(arr)
    for t in s.times:
        d = direction(c, s, t)
        un = abs(perez_reference(s, w, t)['horizon'])
        for kind, k, nm, x in info.values():
            if kind == 'gnd':
                continue
            h = c.at(x.get_param('horizon'), t)
            if nm == 'front':
                c.eq('C12.front keeps the unshaded horizon term', h, un,
                     1e-6)
                continue
            nb = k + (1 if d == 'left' else -1)
            pct = 0.
            if 0 <= nb < n:
                top = row_ends(c, s, nb, t, d)[1]
                e = [c.at(p, t) for p in (x.b1.x, x.b1.y, x.b2.x, x.b2.y)]
                cx, cy = .5 * (e[0] + e[2]), .5 * (e[1] + e[3])
                ang = math.degrees(math.atan2(max(0., top[1] - cy),
                                              abs(top[0] - cx)))
                if abs(ang - band) < 1e-7 or abs(top[0] - cx) < 1e-6:
                    continue
                pct = 100. if ang >= band else 100. * ang / band
            c.eq('C12.horizon shading percentage',
                 c.at(x.get_param('horizon_shd_pct'), t), pct, 1e-6)
            c.ok('C12.percentage in [0, 100]', -1e-9 <= c.at(
                x.get_param('horizon_shd_pct'), t) <= 100 + 1e-9)
            c.eq('C12.horizon irradiance on the back', h,
                 un * (1 - pct / 100.), 1e-6)
            c.eq('C12.unshaded term', c.at(
                x.get_param('horizon_unshaded'), t), un, 1e-6)


def band(c):
    """C12: the percentage as a function of the two angles"""
    M = c.M
    from pvfactors.irradiance.utils import calculate_horizon_band_shading
    b = c.num('band', 0., 90., strict=True) if c.sym else \
        c.num('band', .5, 80., special=(6.5,))
    c.steps()
    a = c.ser('angle', 0., 90., special=(0., 6.5, 90.))
    p = calculate_horizon_band_shading(a, b)
    for t in ([c.t0] if c.sym else range(c.T)):
        x, v = c.at(a, t), c.at(p, t)
        c.eq('C12.percentage of the band', v,
             M.ite(x >= b, 100. if not c.sym else 100, x * 100 / b))
        c.le('C12.percentage >= 0', 0, v)
        c.le('C12.percentage <= 100', v, 100)


def circumsolar(c, model='uniform_disk'):
    """C13: bounds, ends, symmetry, monotonicity, continuity, reference"""
    from pvfactors import PVFactorsError
    from pvfactors.irradiance.utils import calculate_circumsolar_shading
    f = lambda x: float(calculate_circumsolar_shading(x, model=model))
    x = c.num('pct', -50., 150., special=(0., 100., 50., 1e-9, 100 - 1e-9))
    y = c.num('pct2', -50., 150., special=(50 + 1e-7, 99.999, .001))
    lo, hi = min(x, y), max(x, y)
    a, b = f(lo), f(hi)
    tol = 1e-9
    for q, v in ((lo, a), (hi, b)):
        c.ok('C13.within [0, 100]', -tol <= v <= 100 + tol)
        if q <= 0:
            c.eq('C13.nothing covered', v, 0.)
        if q >= 100:
            c.eq('C13.all covered', v, 100.)
        c.eq('C13.symmetric about half', v + f(100. - q), 100., 1e-8)
        if 0 <= q <= 100:
            u = q / 100.
            if model == 'gaussian':
                e = .5 * (1 + math.erf((2 * u - 1) * 3 / math.sqrt(2)) /
                          math.erf(3 / math.sqrt(2)))
            else:
                h = 1 - 2 * u
                e = (math.acos(h) - h * math.sqrt(max(0., 1 - h * h))) \
                    / math.pi
            c.eq('C13.equals its disk integral', v, 100. * e, 1e-7)
    c.le('C13.non-decreasing', a, b, tol)
    c.le('C13.continuous', b - a, 2.5 * (hi - lo), 1e-9)
    c.eq('C13.half covered', f(50.), 50., 1e-9)
    if c.choice('bad', [False, True]):
        name = c.choice('name', ['', 'uniform', 'Gaussian', 'uniform_disk ',
                                 'none', 'gauss'])
        try:
            calculate_circumsolar_shading(x, model=name)
            c.ok('C13.unknown model rejected', False, name)
        except PVFactorsError:
            c.ok('C13.unknown model rejected', True)


def disk(c, model='uniform_disk', what='value'):
    """C13, for arbitrary percentages.

    Assumed of the elementary functions: acos is decreasing on [-1, 1] with
    acos(-x) = pi - acos(x); sin x <= x for x >= 0; erf is odd, increasing
    and Lipschitz."""
    if not c.sym:
        return circumsolar(c, model)
    from pvfactors.irradiance.utils import calculate_circumsolar_shading
    M = c.M
    c.steps()
    gauss = model == 'gaussian'
    f = lambda x: calculate_circumsolar_shading(x, model=model)
    p = c.num('pct', None, None)
    if what == 'value':
        v, w = f(p), f(100 - p)
        if gauss:
            from pvfactors.config import N_SIGMA, SIGMA
            y = N_SIGMA * SIGMA
            z = (p * 2 / 100 - 1) * y
            c.fact(M.erf(y) > 0)
            for e in (-y, y):
                c.fact(M.or_(z > e, z < e, M.erf(z) - M.erf(e) >= 0))
                c.fact(M.or_(z > e, z < e, M.erf(z) - M.erf(e) <= 0))
        for q, r in ((p, v), (100 - p, w)):
            c.ok('C13.nothing covered', M.or_(q > 0, eq_(r, 0)))
            c.ok('C13.all covered', M.or_(q < 100, eq_(r, 100)))
        c.eq('C13.symmetric about half', v + w, 100)
        e = exact(c, model, p)
        case = c.split('where', [('inside', M.and_(p >= 0, p <= 100)),
                                 ('outside', M.or_(p < 0, p > 100))])
        if case == 'inside':
            c.eq('C13.equals its disk integral', v, 100 * e)
        c.eq('C13.half covered', f(c.arr([50])[0]), 50)
        from pvfactors import PVFactorsError
        try:
            calculate_circumsolar_shading(p, model=other_name(c))
            c.same('C13.unknown model rejected', 'accepted', 'rejected')
        except PVFactorsError:
            c.same('C13.unknown model rejected', 1, 1)
        return
    # order: two percentages
    q = p + c.num('more', 0., None, strict=True)
    a, b = f(p), f(q)
    where = c.split('where', [
        ('inside', M.and_(p >= 0, q <= 100)),
        ('end', M.and_(p < 0, 0 <= q, q <= 100)),
        ('outside', M.or_(q < 0, p > 100)),
        ('across', M.and_(p < 0, q > 100)),
        ('start', M.and_(p >= 0, p <= 100, q > 100))])
    if gauss:
        from pvfactors.config import N_SIGMA, SIGMA
        y = N_SIGMA * SIGMA
        z = [-y, (p * 2 / 100 - 1) * y, (q * 2 / 100 - 1) * y, y]
        E = [M.erf(x) for x in z]
        L = c.num('L', 0., None, strict=True)   # erf' <= L
        c.fact(E[3] > 0)
        for i in range(4):
            for j in range(i + 1, 4):
                if where != 'inside' and i * (3 - j):
                    continue
                for u, v in ((i, j), (j, i)):
                    c.fact(M.or_(z[u] > z[v], M.and_(
                        E[u] <= E[v], E[v] - E[u] <= L * (z[v] - z[u]))))
        slope = L * y / E[3]
    else:
        # h = cos of the half angle; 100 p = (acos h - h sqrt(1 - h^2)) / pi
        def g(h):
            return M.acos(h) - h * M.sqrt(1 - h * h)
        hs = dict(p=1 - p / 50, q=1 - q / 50, lo=1, hi=-1)
        pairs = dict(inside=['lo p', 'p q', 'q hi'], end=['lo q', 'q hi'],
                     start=['lo p', 'p hi'], outside=[], across=['lo hi'])
        whole = dict(inside='p q', end='lo q', start='p hi', across='lo hi')
        bound = 0
        for pair in pairs[where]:
            u, v = (hs[k] + 0 * p for k in pair.split())
            A, B = M.acos(v), M.acos(u)
            s_ = A - B
            c.ok('lemma: arguments', M.and_(v <= u, v >= -1, u <= 1),
                 keep=True)
            c.fact(s_ >= 0)                # acos is decreasing
            su, sv = M.sqrt(1 - u * u), M.sqrt(1 - v * v)
            sn, cs = sv * u - v * su, u * v - su * sv
            c.fact(sn <= s_)               # sin x <= x
            c.ok('lemma: sine', sn >= 0, keep=True)
            c.ok('lemma: cosine', M.and_(cs <= 1, cs >= -1), keep=True)
            c.eq('lemma: sum', v * sv - u * su, sn * cs, keep=True)
            c.ok('lemma: product', M.and_(sn * cs <= sn, sn * cs >= -sn),
                 keep=True)
            c.ok('lemma: increasing', g(v) - g(u) >= 0, keep=True)
            c.ok('lemma: continuous', g(v) - g(u) <= 2 * s_, keep=True)
            if pair == whole[where]:
                bound = 2 * s_
    for v in (a, b):
        c.ok('C13.within [0, 100]', M.and_(v >= 0, v <= 100))
    c.ok('C13.non-decreasing', a <= b)
    # (acos and erf are continuous)
    c.ok('C13.continuous', b - a <= (
        slope * (q - p) if gauss else 100 * bound / M.pi))


def other_name(c):
    """any name but those of the two models: compared with another literal
    it may be equal to it or not"""
    class Name(str):
        def __eq__(self, o):
            if o in ('uniform_disk', 'gaussian'):
                return False
            return c.choice('model name == %r' % (o,), [False, True])

        def __ne__(self, o):
            return not self == o

        __hash__ = str.__hash__
    return Name('other')


def eq_(a, b):
    from .. import terms as T
    x = T.lift(a) - T.lift(b)
    return T.TRUE if not x.p else T.cmp0(x, 'eq')


def exact(c, model, p):
    """the fraction of the disk covered at p percent of its diameter"""
    M = c.M
    if model == 'gaussian':
        from pvfactors.config import N_SIGMA, SIGMA
        y = N_SIGMA * SIGMA
        # integral of exp(-t^2) from -y to (2 p / 100 - 1) y over the whole
        return (M.erf((p * 2 / 100 - 1) * y) + M.erf(y)) / (2 * M.erf(y))
    h = 1 - p / 50
    return (M.acos(h) - h * M.sqrt(1 - h * h)) / M.pi


# ------------------------------------------------ with pvlib's part opaque
def squares(c, *xs):
    """the theorem: a sum of squares is not negative"""
    if c.sym:
        r = sum(x * x for x in xs)
        assert r.sos or not r.p
        c.fact(r >= 0)


def aoi_facts(c, s, t):
    """cos(AOI) of the front, and -1 <= cos(AOI) <= 1 (two unit vectors)"""
    M = c.M
    P = cos_aoi(c, s, t)
    if c.sym:
        a = c.at(s.az, t) - c.at(s.saz, t)
        tilt, z = c.at(s.tilt, t), c.at(s.z, t)
        for k in (1, -1):
            squares(c, M.sind(tilt) + k * M.sind(z) * M.cosd(a),
                    M.sind(z) * M.sind(a), M.cosd(tilt) + k * M.cosd(z))
        c.le('cosine of incidence below one', P, 1)
        c.le('cosine of incidence above minus one', -1, P)
        c.fact(P <= 1)
        c.fact(P >= -1)
    return P


@modular
def model(c, n=2, model='perez', losses=False, horizon=True):
    """C11, C12 and the absorbed terms of C15 after fit and transform, for
    whatever pvlib and the Perez decomposition return
    (horizon: with the shading of the horizon band on back surfaces)"""
    from . import stubs
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    from .geom import scheme
    M = c.M
    cut = scheme(c, n) if c.sym else cuts(c, n)
    s = site(c, n, cut=cut, tilt_max=80)
    given = c.choice('given', [False, True])
    w = stubs.weather(c, s, given if c.sym else
                      c.choice('scalar_albedo', [False, True]))
    P = {t: aoi_facts(c, s, t) for t in s.times}
    case = {}
    for t in s.times:
        case[t] = c.split('sun', [('front', P[t] > 0), ('back', P[t] < 0),
                                  ('in plane', M.and_(P[t] <= 0,
                                                      P[t] >= 0))])
    o = stubs.optics(c)
    if model == 'perez':
        o['horizon_band_angle'] = c.num('band', 0., 90., strict=True) \
            if c.sym else c.num('band', 1., 40., special=(6.5,))
    fns = {'front': None, 'back': None}
    if losses:
        fns = {k: stubs.loss('loss_' + k) for k in fns}
        o.update(faoi_fn_front=fns['front'], faoi_fn_back=fns['back'])
    ghi = None
    if given:
        ghi = c.ser('ghi', None, None) if c.sym else c.ser('ghi', 1., 900.)
    arr = fit(s, make_array(s))
    if c.sym and model == 'perez' and horizon:
        horizon_geometry(c, s, arr, s.times[0])
    irr = (HybridPerezOrdered if model == 'perez' else IsotropicOrdered)(**o)
    with stubs.irradiance(['perez'] * (model == 'perez')):
        irr.fit(w.timestamps, w.dni, w.dhi, s.z, s.az, s.tilt, s.saz,
                w.albedo, ghi=ghi)
        irr.transform(arr)
    keep = o['module_spacing_ratio'] + (1 - o['module_spacing_ratio']) * \
        o['module_transparency']
    info = tag_surfaces(arr)
    for t in s.times:
        dni, dhi = c.at(w.dni, t), c.at(w.dhi, t)
        tilt, z, saz, az = [c.at(x, t) for x in (s.tilt, s.z, s.saz, s.az)]
        args = (c.at(w.timestamps, t), tilt, saz, z, az, dni, dhi)
        ref = {k: stubs.value(k, *args) for k in stubs.Frame.names}
        g = c.at(ghi, t) if ghi is not None else dni * M.cosd(z) + dhi
        face = case[t]
        if not c.sym and abs(P[t]) < 1e-9:
            continue
        al = c.at(w.albedo, t) if isinstance(w.albedo, np.ndarray) \
            else w.albedo
        direct = dict(gnd=dni * M.cosd(z),
                      front=P[t] * dni if face != 'back' else 0,
                      back=-P[t] * dni if face == 'back' else 0)
        lum = ref['luminance_circumsolar']
        circ = dict(gnd=lum, front=ref['poa_circumsolar']
                    if face != 'back' else 0,
                    back=-P[t] / M.cosd(z) * lum if face == 'back' else 0)
        if face == 'in plane':
            circ.pop('front')       # (grazing: either value is the limit)
        if model != 'perez':
            circ = {}
        aoi = M.acosd(P[t])
        hor = M.abs(ref['poa_horizon'])
        for kind, k, nm, x in info.values():
            who = 'gnd' if kind == 'gnd' else nm
            f = keep if x.shaded else 1
            own = dict(direct=f * direct[who])
            if who in circ:
                own['circumsolar'] = f * circ[who]
            rho = al if who == 'gnd' else o['rho_' + nm]
            for m, e in own.items():
                c.eq('C11.%s on %s' % (m, who), c.at(x.get_param(m), t), e,
                     1e-8, 1.)
            c.eq('C11.reflectivity of %s' % who, c.at(x.get_param('rho'), t),
                 rho)
            c.eq('C11.inverse reflectivity of %s' % who,
                 c.at(x.get_param('inv_rho'), t) * rho, 1)
            if model == 'perez':
                if who == 'gnd':
                    own['horizon'] = 0
                    c.eq('C11.no horizon term on the ground',
                         c.at(x.get_param('horizon'), t), 0)
                elif who == 'front':
                    own['horizon'] = hor
                    c.eq('C12.front keeps the unshaded horizon term',
                         c.at(x.get_param('horizon'), t), hor)
                elif horizon:
                    own['horizon'] = shaded_horizon(
                        c, s, arr, t, k, x, hor, o['horizon_band_angle'])
                else:
                    own['horizon'] = c.at(x.get_param('horizon'), t)
            # absorbed: incident after the losses of the side
            for m, e in own.items():
                if who == 'gnd':
                    q = 1 - al
                elif fns[who] is None:
                    q = 1 - rho
                else:
                    ang = tilt if m == 'horizon' else M.abs(90 - aoi)
                    q = stubs.value('loss_' + who, ang)
                e = c.at(x.get_param(m), t)
                c.eq('C15.absorbed %s on %s' % (m, who),
                     c.at(x.get_param(m + '_absorbed'), t), e * q, 1e-8, 1.)
        gnd = direct['gnd'] + circ.get('gnd', 0)
        front = direct['front'] + circ.get('front', 0)
        c.eq('C11.reference for lit ground', c.at(irr.gnd_illum, t), g,
             1e-8, 1.)
        if ghi is None:
            c.eq('C11.reference for shaded ground', c.at(irr.gnd_shaded, t),
                 g - (1 - keep) * gnd, 1e-8, 1.)
        else:
            # (a measured GHI need not equal the modelled components)
            c.eq('C11.reference for shaded ground', c.at(irr.gnd_shaded, t),
                 dni * M.cosd(z) + dhi - (1 - keep) * gnd, 1e-8, 1.)
        if face != 'in plane' or model != 'perez':
            c.eq('C11.reference for shaded front', c.at(irr.pvrow_shaded, t),
                 c.at(irr.pvrow_illum, t) - (1 - keep) * front, 1e-8, 1.)
        c.eq('C11.sky luminance', c.at(irr.sky_luminance, t),
             ref['luminance_isotropic'] if model == 'perez' else dhi)


@modular
def backs(c, n=2):
    """C12 alone, on every surface of the rows"""
    from . import stubs
    from pvfactors.irradiance import HybridPerezOrdered
    from .geom import scheme
    M = c.M
    s = site(c, n, cut=scheme(c, n) if c.sym else cuts(c, n), tilt_max=80)
    w = stubs.weather(c, s)
    o = stubs.optics(c)
    o['horizon_band_angle'] = c.num('band', 0., 90., strict=True) \
        if c.sym else c.num('band', 1., 40., special=(6.5,))
    arr = fit(s, make_array(s))
    if c.sym:
        horizon_geometry(c, s, arr, s.times[0])
    irr = HybridPerezOrdered(**o)
    with stubs.irradiance(['perez']):
        irr.fit(w.timestamps, w.dni, w.dhi, s.z, s.az, s.tilt, s.saz,
                w.albedo)
        irr.transform(arr)
    for t in s.times:
        args = [c.at(x, t) for x in (w.timestamps, s.tilt, s.saz, s.z, s.az,
                                     w.dni, w.dhi)]
        hor = M.abs(stubs.value('poa_horizon', *args))
        for kind, k, nm, x in tag_surfaces(arr).values():
            if nm == 'front':
                c.eq('C12.front keeps the unshaded horizon term',
                     c.at(x.get_param('horizon'), t), hor)
            elif nm == 'back':
                shaded_horizon(c, s, arr, t, k, x, hor,
                               o['horizon_band_angle'])


def to_top(c, arr, t, nb, x, top=None):
    """from the middle of surface x to the highest point of row nb (top:
    the specification's, else the code's, proved equal in horizon_geometry)
    """
    e = [c.at(p, t) for p in (x.b1.x, x.b1.y, x.b2.x, x.b2.y)]
    if top is None:
        p = arr.ts_pvrows[nb].full_pvrow_coords.highest_point
        top = c.at(p.x, t), c.at(p.y, t)
    return top[0] - (e[0] + e[2]) / 2, top[1] - (e[1] + e[3]) / 2


def horizon_geometry(c, s, arr, t):
    """what the back surfaces see towards their neighbours (proofs only);
    kept as facts for the branches the code takes afterwards"""
    M = c.M
    d = direction(c, s, t)
    step = 1 if d == 'left' else -1
    for k, row in enumerate(arr.ts_pvrows):
        if not 0 <= k + step < s.n:
            continue
        hp = arr.ts_pvrows[k + step].full_pvrow_coords.highest_point
        top = row_ends(c, s, k + step, t, d)[1]
        for q, v in enumerate((c.at(hp.x, t), c.at(hp.y, t))):
            c.eq('C12.highest point of the neighbour', v, top[q])
        for x in row.back.all_ts_surfaces:
            dx, dy = to_top(c, arr, t, k + step, x)
            for g, v in (('above', dy), ('beside', dx * step),
                         ('angle', dy / dx * step)):
                if c.ok('C12.top of the neighbour is %s' % g, v >= 0):
                    c.fact(v >= 0)


def shaded_horizon(c, s, arr, t, k, x, hor, band):
    """C12 on a back surface"""
    M = c.M
    d = direction(c, s, t)
    nb = k + (1 if d == 'left' else -1)
    got = c.at(x.get_param('horizon_shd_pct'), t)
    pct = 0
    if 0 <= nb < s.n:
        top = row_ends(c, s, nb, t, d)[1]
        dx, dy = to_top(c, arr, t, nb, x, None if c.sym else top)
        if not c.sym and abs(dx) < 1e-6:
            return c.at(x.get_param('horizon'), t)
        ang = M.abs(M.atand(dy / dx))
        if not c.sym and abs(ang - band) < 1e-7:
            return c.at(x.get_param('horizon'), t)
        pct = M.ite(ang >= band, 100, ang * 100 / band)
    c.eq('C12.horizon shading percentage', got, pct, 1e-8, keep=True)
    if not c.sym:        # (proved of this expression for any angle: band())
        c.le('C12.percentage >= 0', 0, got)
        c.le('C12.percentage <= 100', got, 100)
    e = hor * (1 - got / 100)
    c.eq('C12.horizon irradiance on the back',
         c.at(x.get_param('horizon'), t), e, 1e-8, 1.)
    c.eq('C12.unshaded term', c.at(x.get_param('horizon_unshaded'), t), hor)
    return e
