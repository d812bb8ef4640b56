"""C06, C07, C10: view factors."""
import math

from .common import (site, direction, make_array, fit, rot, cuts, weather,
                     make_engine, fit_engine)

EPS = 1e-8


# ------------------------------------------------------------ oracle
def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def blocks(p, g, row):
    """does the row (low, high) cut the open segment p-g ?  > 0: yes,
    signed distance of the decision"""
    (ax, ay), (bx, by) = row
    dx, dy = g[0] - p[0], g[1] - p[1]
    ex, ey = bx - ax, by - ay
    den = dx * ey - dy * ex
    if den == 0:
        return False
    u = ((ax - p[0]) * ey - (ay - p[1]) * ex) / den
    v = ((ax - p[0]) * dy - (ay - p[1]) * dx) / den
    return 0 < u < 1 and 0 < v < 1


def string(p, g, row):
    if row is not None and blocks(p, g, row):
        o = row[0]
        return dist(p, o) + dist(o, g)
    return dist(p, g)


def crossed(p1, p2, g1, g2, length, row=None):
    """Hottel's crossed strings between p1p2 and g1g2"""
    a = string(p1, g1, row) + string(p2, g2, row)
    b = string(p1, g2, row) + string(p2, g1, row)
    return abs(a - b) / (2. * length)


def pt(c, p, t):
    return (c.at(p.x, t), c.at(p.y, t))


def tag_surfaces(arr):
    """index -> (kind, row, side, surface)"""
    info = {}
    for x in arr.ts_ground.all_ts_surfaces:
        info[x.index] = ('gnd', None, None, x)
    for k, row in enumerate(arr.ts_pvrows):
        for nm, side in (('front', row.front), ('back', row.back)):
            for x in side.all_ts_surfaces:
                info[x.index] = ('row', k, nm, x)
    return info


def row_ends(c, s, k, t, d):
    """lowest and highest point of row k"""
    r = rot(c, s, t, d)
    xc = k * s.width / s.gcr
    e = [(xc + q * s.width / 2 * c.M.cosd(r),
          s.height + q * s.width / 2 * c.M.sind(r)) for q in (-1, 1)]
    return (e[0], e[1]) if d == 'left' else (e[1], e[0])


def side_of(nm, d):
    """which side of the row a face looks at"""
    return 'left' if (nm == 'front') == (d == 'left') else 'right'


def expected(c, s, info, i, j, t, d):
    """Hottel's view factor from surface i to j; None: not facing"""
    ki, ri, ni, a = info[i]
    kj, rj, nj, b = info[j]
    L = c.at(a.length, t)
    p1, p2 = pt(c, a.b1, t), pt(c, a.b2, t)
    q1, q2 = pt(c, b.b1, t), pt(c, b.b2, t)
    if ki == kj == 'gnd':
        return None
    if ki == kj == 'row':
        sd = side_of(ni, d)
        if rj == ri + (1 if sd == 'right' else -1) and nj != ni:
            return crossed(p1, p2, q1, q2, L)
        return None
    if ki == 'gnd':
        f = expected(c, s, info, j, i, t, d)
        return None if f is None else f * c.at(b.length, t) / L
    sd = side_of(ni, d)
    if d == 'flat':
        if ni == 'front':
            return None
        obs = ri - 1
        sd = 'left'
    else:
        r = rot(c, s, t, d)
        cut = ri * s.width / s.gcr - s.height * c.M.cosd(r) / c.M.sind(r)
        mid = .5 * (q1[0] + q2[0])
        if (mid < cut) != (sd == 'left'):
            return None
        obs = ri + (1 if sd == 'right' else -1)
    row = row_ends(c, s, obs, t, d) if 0 <= obs < s.n else None
    return crossed(p1, p2, q1, q2, L, row)


def matrix_of(arr):
    from pvfactors.viewfactors import VFCalculator
    return VFCalculator().build_ts_vf_matrix(arr)


def matrix(c, n=3):
    """C06 + C07 on the whole matrix"""
    s = site(c, n, cut=cuts(c, n))
    arr = fit(s, make_array(s))
    F = matrix_of(arr)
    N = arr.n_ts_surfaces
    info = tag_surfaces(arr)
    c.same('C06.shape', F.shape, (N + 1, N + 1, s.T))
    for t in s.times:
        d = direction(c, s, t)
        L = [c.at(info[i][3].length, t) for i in range(N)]
        f = F[:, :, t]
        for j in range(N + 1):
            c.eq('C06.sky row is zero', f[N, j], 0.)
        for i in range(N):
            tol = 1e-7 + 1e-11 / max(L[i], 1e-9)
            if L[i] < EPS:
                if L[i] < .9 * EPS:
                    c.eq('C06.degenerate surface sees no sky', f[i, N], 0.)
                    for j in range(N):
                        c.eq('C06.degenerate surface entries vanish',
                             f[i, j], 0.)
                continue
            if L[i] < 1e-5:
                continue
            c.eq('C06.rows sum to one', f[i].sum(), 1., tol)
            for j in range(N + 1):
                c.ok('C06.entries in [0, 1]', -tol <= f[i, j] <= 1 + tol,
                     '%r' % f[i, j])
            for j in range(N):
                if 0 < L[j] < 1e-5:
                    continue
                if L[j] < EPS:
                    c.eq('C06.nothing reaches a degenerate surface', f[i, j],
                         0., 1e-6)
                    continue
                c.eq('C06.reciprocity', L[i] * f[i, j], L[j] * f[j, i],
                     1e-8)
                e = expected(c, s, info, i, j, t, d)
                if e is None:
                    c.eq('C06.zero where nothing faces', f[i, j], 0., 1e-9)
                else:
                    c.eq("C07.crossed strings", f[i, j], e, tol)


def additive(c, n=3):
    """C07: cutting the sides differently does not change the exchange
    between whole sides, and ground elements add up"""
    from .common import Site
    s = site(c, n, cut=cuts(c, n))
    arr = fit(s, make_array(s))
    F = matrix_of(arr)
    s.cut = None
    ref = fit(s, make_array(s))
    G = matrix_of(ref)
    A, B = tag_surfaces(arr), tag_surfaces(ref)

    def group(x):
        k, r, nm, sf = x
        return ('gnd', bool(sf.shaded)) if k == 'gnd' else (r, nm)
    for t in s.times:
        def total(M_, info):
            out = {}
            for i in info:
                if info[i][0] == 'gnd':
                    continue
                li = c.at(info[i][3].length, t)
                if li < 1e-6:
                    continue
                for j in list(info) + ['sky']:
                    key = (group(info[i]),
                           'sky' if j == 'sky' else group(info[j]))
                    jj = len(info) if j == 'sky' else j
                    out[key] = out.get(key, 0.) + li * M_[i, jj, t]
            return out
        a, b = total(F, A), total(G, B)
        for k in b:
            c.eq('C07.additive over subdivisions', a.get(k, 0.), b[k], 1e-6)


def beyond(c, s, x, k, t, d):
    """view factor from a back surface to the ground beyond the extent"""
    BIG = 1e6
    p1, p2 = pt(c, x.b1, t), pt(c, x.b2, t)
    L = c.at(x.length, t)
    if d == 'flat':
        return crossed(p1, p2, (-BIG, 0.), (-100., 0.), L) + \
            crossed(p1, p2, (100., 0.), (BIG, 0.), L)
    sd = side_of('back', d)
    r = rot(c, s, t, d)
    cut = k * s.width / s.gcr - s.height * c.M.cosd(r) / c.M.sind(r)
    lo, hi = (-BIG, max(-BIG, cut)) if sd == 'left' else (min(BIG, cut), BIG)
    obs = k + (1 if sd == 'right' else -1)
    row = row_ends(c, s, obs, t, d) if 0 <= obs < s.n else None
    out = 0.
    for a, b in ((lo, min(hi, -100.)), (max(lo, 100.), hi)):
        if b > a:
            out += crossed(p1, p2, (a, 0.), (b, 0.), L, row)
    return out


def fast_vs_full(c, n=3):
    """C10: fast-mode view factors are sums of matrix entries"""
    s = site(c, n, cut=cuts(c, n), tilt_max=80)
    arr = make_array(s)
    w = weather(c, s)
    eng = make_engine(c, s, arr, opt={})
    fit_engine(s, w, eng)
    for k in range(n):
        eng.run_fast_mode(pvrow_index=k)
    F = matrix_of(arr)
    info = tag_surfaces(arr)
    N = arr.n_ts_surfaces
    for i in range(N):
        kind, k, nm, x = info[i]
        if nm != 'back':
            continue
        vf = x.get_param('view_factors')
        for t in s.times:
            L = c.at(x.length, t)
            if L < 1e-5:
                continue
            d = direction(c, s, t)
            tol = 1e-6 + 1e-11 / L
            nb = [j for j in range(N) if info[j][0] == 'row']
            row = F[i, :, t]
            sh = [j for j in range(N)
                  if info[j][0] == 'gnd' and info[j][3].shaded]
            g = [j for j in range(N) if info[j][0] == 'gnd']
            c.eq('C10.shaded ground', c.at(vf['to_gnd_shaded'], t),
                 row[sh].sum(), tol)
            c.eq('C10.neighbour rows', c.at(vf['to_pvrow_total'], t),
                 row[nb].sum(), tol)
            c.eq('C10.shaded part of neighbours',
                 c.at(vf['to_pvrow_shaded'], t),
                 row[[j for j in nb if info[j][3].shaded]].sum(), tol)
            c.eq('C10.lit part of neighbours',
                 c.at(vf['to_pvrow_illum'], t),
                 row[[j for j in nb if not info[j][3].shaded]].sum(), tol)
            tot, full = c.at(vf['to_gnd_total'], t), row[g].sum()
            c.le('C10.whole ground at least the matrix sum', full, tot, tol)
            c.le('C10.excess is the ground beyond the extent', tot,
                 full + beyond(c, s, x, k, t, d), tol + 1e-6)
