"""Input spaces shared by the contracts."""


def modular(h):
    """a contract that puts stand-ins for callees into the code: an exception
    may come from a stand-in that the current code uses in another way, so it
    is no verdict (the contracts on the whole code decide that)"""
    h.modular = True
    return h


class Site:
    """a PV array and one sun/tilt state per timestep"""


def site(c, n, cut=None, spread=True, flat=True, axis_turns=False,
         rows_above_ground=True, low_sun=False, T=None, tilt_max=90,
         zmax=88.):
    """Draw array parameters and timestep inputs.

    precondition: sun above the horizon, 0 < gcr <= 1, rows above ground."""
    M = c.M
    s = Site()
    s.n = n
    s.times = c.steps(T)
    s.T = c.T
    s.axis = c.angle('axis', -360., 720., special=(0., 90., 180.))
    s.gcr = c.num('gcr', 0., 1., special=(.3, .4, .8), strict=True) \
        if c.sym else c.num('gcr', .1, .95, special=(.3, .4, .8))
    s.width = c.num('width', 0., None, strict=True) if c.sym \
        else c.num('width', .5, 4., special=(1., 2.))
    s.z = c.aser('zenith', 0., 90., strict=True) if c.sym \
        else c.aser('zenith', .5, zmax, special=(20., 60., 75., 80., 85.,
                                                  min(zmax, 87.9)))
    s.phi = c.aser('phi', -180., 180.) if c.sym \
        else c.aser('phi', -180., 540., special=(10., 170., -3., 5.))
    s.saz0 = c.aser('saz0', 0., 360.) if c.sym else \
        c.aser('saz0', 0., 360., special=(90., 270., 90., 270.))
    if c.sym:
        # tilt = 0, or 0 < tilt <= 90 on either half circle: every state
        s.dir = c.choice('tilt', ['left', 'right', 'flat'] if flat
                         else ['left', 'right'])
        s.tilt = c.aser('tilt', 0., 90., strict=True)
        for t in s.times:
            c.fact(M.cosd(c.at(s.tilt, t)) >= 0)
        if s.dir == 'flat':
            for t in s.times:
                s.tilt[t] = 0
    else:
        s.tilt = c.aser('tilt', .1, tilt_max - 1.,
                        special=(0., 0., 10., 20., 45., 60.) if flat
                        else (10., 20., 45., 60.))
    # normalised so that saz - axis = saz0 (mod 360)
    turns = 0.
    if not c.sym:
        turns = c.choice('turns', [0., 360., -360.])
    s.turns = turns
    s.saz = s.axis + s.saz0 + turns
    s.az = s.axis + 90. + s.phi + turns
    if c.sym:
        for t in s.times:
            m = M.mod(c.at(s.saz, t) - s.axis, 360.)
            if s.dir != 'flat':
                c.fact(m > 180. if s.dir == 'left' else m <= 180.)
        s.height = c.num('height', 0., None, strict=True)
        for t in s.times:
            st = M.sind(c.at(s.tilt, t))
            c.fact(s.height * 2 > s.width * st)
    else:
        lo = max(s.width / 2 * M.sind(c.at(s.tilt, t)) for t in s.times)
        s.height = lo + c.num('clearance', .05, 3.)
        c.inputs['height'] = s.height
        if c.choice('edge', [0, 0, 0, 0, 1]):
            edge_on(c, s)
    s.cut = cut
    return s


def edge_on(c, s):
    """some timesteps of a batch at the limits: sun (nearly) in the plane
    of the rows, shading about to start, far away shadows"""
    import math
    for t in s.times:
        k = c.choice('edge kind[%d]' % t, [0, 1, 2, 3])
        tilt = s.tilt[t]
        if k == 0 or tilt == 0 or tilt > 80:
            continue
        left = (s.saz[t] - s.axis) % 360. > 180.
        sg = 1. if left else -1.
        if k == 3:
            s.z[t] = max(s.z[t], 84.)
            continue
        # sun perpendicular to the rows, low on the back or front side
        side = c.choice('edge side[%d]' % t, [-1., 1.])
        s.phi[t] = 0. if side * sg > 0 else 180.
        s.az[t] = s.axis + 90. + s.phi[t] + s.turns
        off = c.num('edge off[%d]' % t, -1., 1.)
        if k == 1:
            # elevation = tilt: the rays run along the rows
            z = 90. - tilt + off * 10. ** c.choice(
                'edge scale[%d]' % t, [-1, -3, -5])
        else:
            # profile angle at which shading starts: width*cos(inc) =
            # pitch*cos(z)
            lo, hi = 0., 90.
            f = lambda q: math.cos(math.radians(q)) - s.gcr * abs(
                math.cos(math.radians(q)) * math.cos(math.radians(tilt))
                - side * math.sin(math.radians(q)) *
                math.sin(math.radians(tilt)))
            for _ in range(60):
                m = .5 * (lo + hi)
                if f(m) > 0:
                    lo = m
                else:
                    hi = m
            z = lo + off * 10. ** c.choice('edge scale[%d]' % t,
                                           [-1, -3, -5, -6])
        if .5 < z < 89.:
            s.z[t] = z
            c.inputs['zenith[%d]' % t] = z
    # (the drawn values are kept as inputs: a replay draws them again)


def direction(c, s, t, flat=True):
    """case: row tilted to the left / right / flat at t"""
    if c.sym:
        return s.dir
    if c.at(s.tilt, t) == 0:
        return 'flat'
    return 'left' if (c.at(s.saz, t) - s.axis) % 360. > 180. else 'right'


def make_array(s, **kw):
    from pvfactors.geometry import OrderedPVArray
    arr = OrderedPVArray(axis_azimuth=s.axis, gcr=s.gcr,
                         pvrow_height=s.height, n_pvrows=s.n,
                         pvrow_width=s.width, cut=s.cut, **kw)
    return arr


def fit(s, arr):
    arr.fit(s.z, s.az, s.tilt, s.saz)
    return arr


def rot(c, s, t, d):
    """the signed rotation the specification prescribes"""
    tilt = c.at(s.tilt, t)
    return tilt if d == 'left' else (-tilt if d == 'right' else 0.)


def sun2d(c, s, t):
    z, phi = c.at(s.z, t), c.at(s.phi, t)
    return c.M.sind(z) * c.M.cosd(phi), c.M.cosd(z)


# ------------------------------------------------------------ weather
def cuts(c, n, most=3):
    """random discretisation of the sides (numeric contexts)"""
    cut = {}
    for k in range(n):
        d = {}
        for side in ('front', 'back'):
            m = c.choice('cut_%s_%d' % (side, k), [1, 1, 2, 3][:most + 1])
            if m > 1:
                d[side] = m
        if d:
            cut[k] = d
    return cut


class Weather:
    pass


def weather(c, s, albedo_scalar=False, zero=False):
    import pandas as pd
    w = Weather()
    w.dni = c.ser('dni', 0. if zero else 1., 1000., special=(1000., 300.))
    w.dhi = c.ser('dhi', 1., 500., special=(100., 50.))
    w.albedo = c.num('albedo', .05, .9) if albedo_scalar else \
        c.ser('albedo', .05, .9, special=(.2,))
    day = c.choice('day', [0, 100, 181, 300])
    w.timestamps = pd.date_range('2019-01-01 06:00', periods=s.T,
                                 freq='37min') + pd.Timedelta(days=day)
    return w


def optics(c, transp=True):
    kw = dict(rho_front=c.num('rho_front', .005, .9,
                              special=(.01, 1e-4, 1e-6)),
              rho_back=c.num('rho_back', .005, .9,
                             special=(.03, 1e-4, 1e-6)))
    if transp:
        kw['module_transparency'] = c.num('transparency', 0., 1.,
                                          special=(0., 0., .1))
        kw['module_spacing_ratio'] = c.num('spacing', 0., 1.,
                                           special=(0., 0., .2))
    return kw


def faoi_fn(a, b, p):
    """a smooth angle-of-incidence loss function of the angle measured from
    the surface plane, asymmetric about 90 degrees"""
    import numpy as np

    def fn(angles):
        x = np.asarray(angles, dtype=float)
        return a + b * np.sin(np.radians(np.clip(x, 0, 180))) ** p \
            + .05 * np.cos(np.radians(x))
    return fn


def losses(c):
    f = faoi_fn(c.num('fa_front', .1, .4), c.num('fb_front', .1, .5), 1)
    b = faoi_fn(c.num('fa_back', .1, .4), c.num('fb_back', .1, .5), 2)
    return f, b


def make_engine(c, s, arr, model='perez', faoi=False, opt=None, sections=60,
                **kw):
    from pvfactors.engine import PVEngine
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    from pvfactors.viewfactors import VFCalculator
    o = dict(optics(c) if opt is None else opt)
    vf = VFCalculator()
    fns = None
    if faoi:
        fns = losses(c)
        vf = VFCalculator(fns[0], fns[1], n_aoi_integral_sections=sections)
        o.update(faoi_fn_front=fns[0], faoi_fn_back=fns[1])
    cls = HybridPerezOrdered if model == 'perez' else IsotropicOrdered
    irr = cls(**o)
    eng = PVEngine(arr, vf_calculator=vf, irradiance_model=irr, **kw)
    eng.optics = o
    eng.fns = fns
    return eng


def fit_engine(s, w, eng, ghi=None):
    eng.fit(w.timestamps, w.dni, w.dhi, s.z, s.az, s.tilt, s.saz, w.albedo,
            ghi=ghi)
    return eng
