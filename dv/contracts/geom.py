"""C01-C04: signed frame, sides, inter-row shading, ground."""
from .common import (site, direction, make_array, fit, rot, sun2d, cuts,
                     weather, make_engine, fit_engine)


def frame(c, n=2):
    """C01: rotation, projected sun vector, normals"""
    M = c.M
    s = site(c, n)
    arr = fit(s, make_array(s))
    for t in s.times:
        d = direction(c, s, t)
        r = c.at(arr.rotation_vec, t)
        tilt = c.at(s.tilt, t)
        c.eq('C01.rotation magnitude equals tilt', M.abs(r), tilt)
        if d == 'left':
            c.ok('C01.left half circle is positive rotation', r > 0)
        else:
            c.ok('C01.otherwise not positive', M.not_(r > 0))
        sx, sy = sun2d(c, s, t)
        c.eq('C01.projected sun x', c.at(arr.solar_2d_vectors[0], t), sx)
        c.eq('C01.projected sun y', c.at(arr.solar_2d_vectors[1], t), sy)


def aoi(c, n=2):
    """C01: perpendicular rows, n.s/w = cos(AOI)"""
    M = c.M
    s = site(c, n)
    side = c.choice('side', [90., 270.])
    s.saz0 = 0. * s.saz0 + side
    s.saz = s.axis + s.saz0 + s.turns
    arr = fit(s, make_array(s))
    for t in s.times:
        direction(c, s, t)
        tilt, z = c.at(s.tilt, t), c.at(s.z, t)
        az, saz = c.at(s.az, t), c.at(s.saz, t)
        spec = M.cosd(z) * M.cosd(tilt) + \
            M.sind(z) * M.sind(tilt) * M.cosd(az - saz)
        sx, sy = [c.at(v, t) for v in arr.solar_2d_vectors]
        for k, row in enumerate(arr.ts_pvrows):
            nx, ny = [c.at(v, t) for v in row.front.n_vector]
            c.eq('C01.front normal . sun = cos(AOI)',
                 (nx * sx + ny * sy) / s.width, spec)


def ray(c, s, t):
    """ray tracing between neighbouring rows at t: (tilt case, side facing
    the sun, shaded length of a facing side that has a neighbour)

    a ray from point u of the row hits the neighbour's line at
    u + D*sy/|cn|, cn = component of the sun along the front normal"""
    M = c.M
    d = direction(c, s, t)
    r = rot(c, s, t, d)
    sx, sy = sun2d(c, s, t)
    cn = sy * M.cosd(r) - sx * M.sind(r)
    face = c.split('sun', [('front', cn > 0), ('back', cn < 0),
                           ('in plane', M.and_(cn >= 0, cn <= 0))])
    if face == 'in plane' or (not c.sym and abs(cn) < 1e-6):
        return d, 'in plane', 0, 0
    raw = s.width - s.width / s.gcr * sy / (cn if face == 'front' else -cn)
    if d == 'flat':
        return d, face, 0, raw
    hit = c.split('shading', [('some', raw > 0), ('none', raw <= 0)])
    c.hint(raw)
    return d, face, (raw if hit == 'some' else 0), raw


def shading(c, n=3):
    """C03: shaded lengths equal ray tracing against the neighbour"""
    M = c.M
    s = site(c, n)
    arr = make_array(s)
    if c.sym:
        pre = {t: ray(c, s, t) for t in s.times}
    fit(s, arr)
    for t in s.times:
        d, face, hit, raw = pre[t] if c.sym else ray(c, s, t)
        if face == 'in plane':
            continue
        for k, row in enumerate(arr.ts_pvrows):
            for nm, side in (('front', row.front), ('back', row.back)):
                left_nb = (d == 'left') == (nm == 'front')
                has_nb = k > 0 if left_nb else k < n - 1
                spec = hit if (nm == face and has_nb) else 0
                L = c.at(side.shaded_length, t)
                c.eq('C03.shaded length of %s' % nm, L, spec)
                c.le('C03.shaded length >= 0', 0, L)
                c.le('C03.shaded length <= width', L, s.width)
        top = hit if n > 1 else 0
        c.iff('C03.direct shading flag', c.at(arr.has_direct_shading, t),
              top > 1e-8, margin=None if c.sym else float(top) - 1e-8)


# ------------------------------------------------------------------ C02
def on_row(c, pt, t, center, r):
    """coordinates of a point along the row (from its first end) and across"""
    M = c.M
    x, y = c.at(pt.x, t) - center[0], c.at(pt.y, t) - center[1]
    return (x * M.cosd(r) + y * M.sind(r), y * M.cosd(r) - x * M.sind(r))


def check_row(c, row, t, center, w, r, d, ncut, L, tag='C02'):
    """every clause of C02 for one row at t; L = shaded length per side"""
    M = c.M

    def span(line, what):
        a, pa = on_row(c, line.b1, t, center, r)
        b, pb = on_row(c, line.b2, t, center, r)
        c.eq(tag + '.%s lies on the row line' % what, pa, 0)
        c.eq(tag + '.%s lies on the row line' % what, pb, 0)
        return a + w / 2, b + w / 2
    a, b = span(row.full_pvrow_coords, 'row')
    c.eq(tag + '.row starts at one end', a, 0)
    c.eq(tag + '.row ends at the other end', b, w)
    for nm, side in (('front', row.front), ('back', row.back)):
        n = ncut[nm]
        c.same(tag + '.number of segments', len(side.list_segments), n)
        sgn = 1 if nm == 'front' else -1
        c.eq(tag + '.normal of %s' % nm, c.at(side.n_vector[0], t),
             -sgn * w * M.sind(r))
        c.eq(tag + '.normal of %s' % nm, c.at(side.n_vector[1], t),
             sgn * w * M.cosd(r))
        tot = 0
        for i, seg in enumerate(side.list_segments):
            c.same(tag + '.segment index', seg.index, i)
            s0, s1 = i * w / n, (i + 1) * w / n
            a, b = span(seg.coords, 'segment')
            c.eq(tag + '.segment start', a, s0)
            c.eq(tag + '.segment end', b, s1)
            if d == 'left':
                lo, hi = s0, M.max(s0, M.min(s1, L[nm]))
                li, hl = hi, s1
            elif d == 'right':
                lo, hi = M.min(s1, M.max(s0, w - L[nm])), s1
                li, hl = s0, lo
            else:
                lo = hi = s0
                li, hl = s0, s1
            for what, col, p, q in (('shaded', seg.shaded, lo, hi),
                                    ('illuminated', seg.illum, li, hl)):
                ends = []
                total = 0
                for surf in col.list_ts_surfaces:
                    c.same(tag + '.shading flag', bool(surf.shaded),
                           what == 'shaded')
                    e, f = span(surf.coords, what + ' surface')
                    ends.append((e, f))
                    total = total + M.abs(f - e)
                    for k in (0, 1):
                        c.eq(tag + '.surface normal', c.at(
                            surf.n_vector[k], t), c.at(side.n_vector[k], t))
                    c.eq(tag + '.surface length', c.at(surf.length, t),
                         M.abs(f - e), keep=True)
                c.eq(tag + '.%s length of the segment' % what, total, q - p,
                     keep=True)
                if len(ends) == 1:
                    e, f = ends[0]
                    non = q - p > (0 if c.sym else 1e-9)
                    c.ok(tag + '.%s surface is the right part' % what,
                         M.or_(M.not_(non), M.and_(
                             same_num(c, M.min(e, f), p),
                             same_num(c, M.max(e, f), q))))
                elif not c.sym:
                    for e, f in ends:
                        if abs(e - f) > 1e-9:
                            c.le(tag + '.%s surface in its part' % what, p,
                                 min(e, f))
                            c.le(tag + '.%s surface in its part' % what,
                                 max(e, f), q)
                if what == 'shaded':
                    tot = tot + total
            c.eq(tag + '.segment length', c.at(seg.length, t), w / n,
                 keep=True)
        want = L[nm] if d != 'flat' else 0
        c.eq(tag + '.shaded length of the side', tot, want)
        c.eq(tag + '.reported shaded length', c.at(side.shaded_length, t),
             want)
        c.eq(tag + '.length of the side', c.at(side.length, t), w)


def same_num(c, a, b):
    if c.sym:
        from .. import terms as T
        return T.cmp_(a, b, '==')
    return abs(a - b) <= 1e-7


def sides(c, nf=2, nb=1):
    """C02: a row built from any shaded lengths"""
    M = c.M
    c.steps()
    from pvfactors.geometry.pvrow import TsPVRow
    w = c.num('width', 0., None, strict=True) if c.sym else \
        c.num('width', .5, 4.)
    center = (c.num('xc', -50., 50.), c.num('yc', .5, 6.))
    d = c.choice('tilt', ['left', 'right', 'flat'])
    rot_ = c.aser('rot', 0., 90., strict=True) if c.sym else \
        c.aser('rot', .1, 179., special=(30., 90., 120.))
    if d == 'right':
        rot_ = -rot_
    if d == 'flat':
        rot_ = rot_ * 0.
    frac = {k: c.ser('shaded_' + k, 0., 1., special=(0., 0., 1.))
            for k in ('front', 'back')}
    times = [c.t0] if c.sym else list(range(c.T))
    n = dict(front=nf, back=nb)
    if c.sym:
        for k in ('front', 'back'):
            x = c.at(frac[k], c.t0)
            cases = [('seg%d' % i, M.and_(x >= 0 if i == 0 else
                                          x * n[k] > i, x * n[k] <= i + 1))
                     for i in range(n[k])]
            c.split('shade end ' + k, cases)
    Ls = {k: frac[k] * w for k in frac}
    row = TsPVRow.from_raw_inputs(center, w, rot_, n, Ls['front'],
                                  Ls['back'], index=0)
    for t in times:
        L = {k: c.at(Ls[k], t) for k in Ls}
        check_row(c, row, t, center, w, c.at(rot_, t), d, n, L)


def rows(c, n=3):
    """C02 after a fit (numeric): positions, cuts and shading together"""
    s = site(c, n, cut=cuts(c, n))
    arr = fit(s, make_array(s))
    c.same('C02.number of rows', len(arr.ts_pvrows), n)
    for t in s.times:
        d, face, hit, raw = ray(c, s, t)
        if face == 'in plane':
            continue
        for k, row in enumerate(arr.ts_pvrows):
            L = {}
            for nm in ('front', 'back'):
                left_nb = (d == 'left') == (nm == 'front')
                has_nb = k > 0 if left_nb else k < n - 1
                L[nm] = hit if (nm == face and has_nb) else 0
            nc = {x: s.cut.get(k, {}).get(x, 1) for x in ('front', 'back')}
            check_row(c, row, t, (k * s.width / s.gcr, s.height), s.width,
                      rot(c, s, t, d), d, nc, L)


# ------------------------------------------------------------------ C04
def ground(c, n=3):
    """C04: shadows, lit elements and cut zones of the ground"""
    M = c.M
    s = site(c, n)
    arr = fit(s, make_array(s))
    g = arr.ts_ground
    X = 100.
    clip = lambda x: M.max(-X, M.min(X, x))
    for t in s.times:
        d = direction(c, s, t)
        r = rot(c, s, t, d)
        sx, sy = sun2d(c, s, t)
        ct, st = M.cosd(r), M.sind(r)
        a, b, cp = [], [], []
        for k in range(n):
            xc = k * s.width / s.gcr
            e = [xc + q * s.width / 2 * ct -
                 (s.height + q * s.width / 2 * st) * sx / sy
                 for q in (-1, 1)]
            a.append(M.min(*e))
            b.append(M.max(*e))
            cp.append(None if d == 'flat' else xc - s.height * ct / st)
        direct = c.at(arr.has_direct_shading, t)
        lo = [clip(x) for x in a]
        hi = [clip(M.ite(direct, a[k + 1], b[k]) if k < n - 1 else b[k])
              for k in range(n)]
        c.same('C04.number of shadows', len(g.shadow_elements), n)
        c.same('C04.number of lit elements', len(g.illum_elements), n + 1)
        tol = 1e-6
        els = []
        for k, el in enumerate(g.shadow_elements):
            c.same('C04.shadow is shaded', bool(el.shaded), True)
            c.eq('C04.shadow starts at the projection', c.at(el.b1.x, t),
                 lo[k], tol)
            c.eq('C04.shadow ends at the projection', c.at(el.b2.x, t),
                 hi[k], tol)
            els.append((el, lo[k], hi[k]))
        for k, el in enumerate(g.illum_elements):
            c.same('C04.lit element is lit', bool(el.shaded), False)
            p = -X if k == 0 else hi[k - 1]
            q = X if k == n else lo[k]
            c.eq('C04.lit element starts where the shadow ends',
                 c.at(el.b1.x, t), p, tol)
            c.eq('C04.lit element ends where the shadow starts',
                 c.at(el.b2.x, t), q, tol)
            c.le('C04.elements do not overlap', p, q, tol)
            els.append((el, p, q))
        for k in range(n):
            if cp[k] is not None:
                c.eq('C04.cut point is where the row meets the ground',
                     c.at(g.cut_point_coords[k].x, t), cp[k],
                     1e-6 * (1 + abs(cp[k])))
        for el, p, q in els:
            c.eq('C04.on the ground', c.at(el.b1.y, t), 0)
            c.eq('C04.on the ground', c.at(el.b2.y, t), 0)
            c.same('C04.one surface per zone', len(el.surface_list), n + 1)
            for j, sf in enumerate(el.surface_list):
                c.same('C04.shading of surfaces', bool(sf.shaded),
                       bool(el.shaded))
                left = p if j == 0 or d == 'flat' else max(p, cp[j - 1])
                right = q if j == n or d == 'flat' else min(q, cp[j])
                if d == 'flat' and j > 0:
                    left = right = q
                part(c, 'C04.zone surface', sf.coords, t, left, right, tol)
        # sides of the cut points
        for k in range(n):
            cut = cp[k] if d != 'flat' else float('inf')
            for side in ('left', 'right'):
                got = g.ts_surfaces_side_of_cut_point(side, k)
                for shaded in (True, False):
                    L = sum(float(c.at(x.length, t)) for x in got
                            if bool(x.shaded) == shaded)
                    want = sum(max(0., (min(q, cut) - p) if side == 'left'
                                   else (q - max(p, cut)))
                               for el, p, q in els
                               if bool(el.shaded) == shaded)
                    c.eq('C04.surfaces %s of cut point' % side, L, want,
                         1e-5)
                for x in got:
                    if c.at(x.length, t) > 1e-6:
                        for pt in (x.b1, x.b2):
                            xx = c.at(pt.x, t)
                            c.ok('C04.surface on the %s' % side,
                                 xx <= cut + 1e-5 if side == 'left'
                                 else xx >= cut - 1e-5)
                c.same('C04.each surface once', len(set(map(id, got))),
                       len(got))
            for side, got in (
                    ('left', g.shadow_coords_left_of_cut_point(k)),
                    ('right', g.shadow_coords_right_of_cut_point(k))):
                c.same('C04.one shadow part per shadow', len(got), n)
                for i, line in enumerate(got):
                    p, q = lo[i], hi[i]
                    if side == 'left':
                        part(c, 'C04.shadow left of cut', line, t, p,
                             min(q, cut), tol)
                    else:
                        part(c, 'C04.shadow right of cut', line, t,
                             max(p, cut), q, tol)


def ground_fit(c, n=2):
    """C04: shadows are projections of the row ends, cut points are where
    the rows' lines meet the ground, and both are ordered as the contract of
    the ground (ground_parts) requires"""
    M = c.M
    s = site(c, n)
    arr = make_array(s)
    pre = {t: ray(c, s, t) for t in s.times}
    fit(s, arr)
    g = arr.ts_ground
    X = 100.
    clip = lambda x: M.max(-X, M.min(X, x))
    for t in s.times:
        d, face, hit, raw = pre[t]
        r = rot(c, s, t, d)
        sx, sy = sun2d(c, s, t)
        ct, st = M.cosd(r), M.sind(r)
        cn = sy * ct - sx * st
        a, b = [], []
        for k in range(n):
            xc = k * s.width / s.gcr
            e = [xc + q * s.width / 2 * ct -
                 (s.height + q * s.width / 2 * st) * sx / sy
                 for q in (-1, 1)]
            a.append(e[0] if face == 'front' else e[1])
            b.append(e[1] if face == 'front' else e[0])
            if face == 'in plane':
                a[-1], b[-1] = M.min(*e), M.max(*e)
            c.le('C04.projection of the low and high end', a[-1], b[-1])
        direct = c.at(arr.has_direct_shading, t)
        if c.sym and n > 1:
            direct = c.split('direct shading', [
                ('flagged', direct), ('not flagged', M.not_(direct))]) \
                == 'flagged'
        c.same('C04.number of shadows', len(g.shadow_elements), n)
        tol = 1e-6
        for k, el in enumerate(g.shadow_elements):
            c.eq('C04.shadow starts at the projection', c.at(el.b1.x, t),
                 clip(a[k]), tol)
            end = clip(b[k])
            if k < n - 1:
                end = M.ite(direct, clip(a[k + 1]), end)
                # (without direct shading the shadows overlap by at most
                # the projection of the 1e-8 tolerance)
                c.ok('C04.shadows overlap only with direct shading', M.or_(
                    direct, (b[k] - a[k + 1]) * sy <= (
                        1e-8 if not c.sym else 1e-8) * M.abs(cn) +
                    (0 if c.sym else 1e-9)))
                c.le('C04.shadows are ordered', a[k], a[k + 1])
            c.eq('C04.shadow ends at the projection', c.at(el.b2.x, t), end,
                 tol)
            c.eq('C04.on the ground', c.at(el.b1.y, t), 0)
            c.eq('C04.on the ground', c.at(el.b2.y, t), 0)
            if d != 'flat':
                x = k * s.width / s.gcr - s.height * ct / st
                c.eq('C04.cut point is where the row meets the ground',
                     c.at(g.cut_point_coords[k].x, t), x,
                     1e-6 * (1 + (0 if c.sym else abs(x))))
                if k < n - 1:
                    c.le('C04.cut points are ordered',
                         c.at(g.cut_point_coords[k].x, t),
                         c.at(g.cut_point_coords[k + 1].x, t))
            else:
                x = c.at(g.cut_point_coords[k].x, t)
                c.same('C04.the line of a flat row never meets the ground',
                       float(x), float('inf'))
                c.same('C04.shadows of flat rows lie on the left', len(
                    g.ts_surfaces_side_of_cut_point('left', k)) > 0, True)


def any_ground(c, n, names=None, inf=True):
    """a ground made from any ordered shadows and any ordered cut points:
    (ground, shadow starts, shadow ends, cut points)"""
    import numpy as np
    from pvfactors.geometry.pvground import TsGround
    M = c.M
    ts = c.steps()
    y0 = c.ser('y0', 0., 0.)
    flat = c.choice('flat', [False, True]) if inf else False
    gap = lambda nm: c.ser(nm, 0., None if c.sym else 60., special=(
        0., 0., 5.))
    if c.sym:
        a0 = c.ser('a0', None, None)
        c0 = c.ser('c0', None, None)
    else:
        a0 = c.ser('a0', -260., 150., special=(-100., -50., 0.))
        c0 = c.ser('c0', -300., 150., special=(-100., 0., 100.))
    a, b, cp = [], [], []
    x, q = a0, c0
    for k in range(n):
        a.append(x)
        b.append(x + gap('w%d' % k))
        x = b[-1] + gap('g%d' % k)
        cp.append(q)
        q = q + gap('h%d' % k)
    over = c.choice('overlap', ['none', 'some'])
    fl = (c.ser('flag', 0., 1.) > .5) if over == 'some' else None
    if fl is not None:
        # overlapping shadows: only their starts are ordered
        b = [a[k] + gap('v%d' % k) for k in range(n)]
        for t in ts:
            for k in range(n - 1):
                if c.sym:
                    c.fact(M.or_(c.at(fl, t), c.at(b[k], t) <=
                                 c.at(a[k + 1], t)))
                elif not c.at(fl, t):
                    b[k][t] = min(b[k][t], a[k + 1][t])
    if c.sym:
        from .. import sym
        arr = sym.NP.array([[[a[k], y0], [b[k], y0]] for k in range(n)])
    else:
        arr = np.array([[[a[k], y0], [b[k], y0]] for k in range(n)])
    from pvfactors.geometry.timeseries import TsPointCoords
    cuts_ = cp if not flat else [y0 + float('inf') for _ in range(n)]
    g = TsGround.from_ordered_shadows_coords(
        arr, flag_overlap=fl, param_names=names, y_ground=0.,
        cut_point_coords=[TsPointCoords(x, y0) for x in cuts_])
    out = {}
    X = 100.
    for t in ts:
        clip = lambda v: M.max(-X, M.min(X, v))
        A = [c.at(x, t) for x in a]
        E = [c.at(x, t) for x in b]
        if fl is not None:
            f = c.at(fl, t)
            E = [M.ite(f, A[k + 1], E[k]) if k < n - 1 else E[k]
                 for k in range(n)]
        out[t] = ([clip(x) for x in A], [clip(x) for x in E],
                  [c.at(x, t) for x in cp], flat)
    return g, ts, out


def ground_parts(c, n=2):
    """C04: any ordered shadows and cut points give a ground tiled by
    elements, each cut into one surface per zone"""
    M = c.M
    g, ts, out = any_ground(c, n)
    for t in ts:
        lo, hi, cp, flat = out[t]
        tiles(c, g, t, n, lo, hi, cp, flat)


def tiles(c, g, t, n, lo, hi, cp, flat, tol=1e-6):
    M = c.M
    X = 100.
    els = []
    c.same('C04.number of shadows', len(g.shadow_elements), n)
    c.same('C04.number of lit elements', len(g.illum_elements), n + 1)
    for k, el in enumerate(g.shadow_elements):
        c.same('C04.shadow is shaded', bool(el.shaded), True)
        c.eq('C04.shadow starts at the projection', c.at(el.b1.x, t),
             lo[k], tol)
        c.eq('C04.shadow ends at the projection', c.at(el.b2.x, t), hi[k],
             tol)
        els.append((el, lo[k], hi[k]))
    for k, el in enumerate(g.illum_elements):
        c.same('C04.lit element is lit', bool(el.shaded), False)
        p = -X if k == 0 else hi[k - 1]
        q = X if k == n else lo[k]
        c.eq('C04.lit element starts where the shadow ends',
             c.at(el.b1.x, t), p, tol)
        c.eq('C04.lit element ends where the shadow starts',
             c.at(el.b2.x, t), q, tol)
        els.append((el, p, q))
    for el, p, q in els:
        c.le('C04.elements do not overlap', p, q, tol)
        c.eq('C04.on the ground', c.at(el.b1.y, t), 0)
        c.eq('C04.on the ground', c.at(el.b2.y, t), 0)
        c.same('C04.one surface per zone', len(el.surface_list), n + 1)
        for j, sf in enumerate(el.surface_list):
            c.same('C04.shading of surfaces', bool(sf.shaded),
                   bool(el.shaded))
            if flat:
                left, right = (p, q) if j == 0 else (q, q)
            else:
                left = p if j == 0 else M.max(p, cp[j - 1])
                right = q if j == n else M.min(q, cp[j])
            part(c, 'C04.zone surface', sf.coords, t, left, right, tol)
    for k in range(n):
        for side in ('left', 'right'):
            got = g.ts_surfaces_side_of_cut_point(side, k)
            want = [x for el, p, q in els
                    for j, x in enumerate(el.surface_list)
                    if (j <= k) == (side == 'left')]
            c.same('C04.surfaces %s of cut point' % side,
                   sorted(map(id, got)), sorted(map(id, want)))
        for side, got in (
                ('left', g.shadow_coords_left_of_cut_point(k)),
                ('right', g.shadow_coords_right_of_cut_point(k))):
            c.same('C04.one shadow part per shadow', len(got), n)
            for i, line in enumerate(got):
                p, q = lo[i], hi[i]
                if flat:
                    u, v = (p, q) if side == 'left' else (q, q)
                elif side == 'left':
                    u, v = p, M.min(q, cp[k])
                else:
                    u, v = M.max(p, cp[k]), q
                part(c, 'C04.shadow %s of cut' % side, line, t, u, v, tol)


def part(c, name, line, t, left, right, tol):
    """the line is [left, right], or empty when left >= right"""
    M = c.M
    x1, x2 = c.at(line.b1.x, t), c.at(line.b2.x, t)
    if c.sym:
        non = right > left
        c.ok(name + ' start and end', M.or_(M.not_(non), M.and_(
            same_num(c, x1, left), same_num(c, x2, right))))
        c.ok(name + ' is empty', M.or_(non, same_num(c, x1, x2)))
        return
    if right - left > 1e-7:
        c.eq(name + ' start', x1, left, tol)
        c.eq(name + ' end', x2, right, tol)
    else:
        c.eq(name + ' is empty', abs(x2 - x1), 0., 1e-5)


# ------------------------------------------------------------------ C05
def indices(c, n=3):
    """C05: indices enumerate the surfaces in the fixed order"""
    cut = cuts(c, n) if not c.sym else scheme(c, n)
    s = site(c, n, cut=cut)
    names = c.choice('names', [None, ['qinc'], ['qinc', 'isotropic', 'z']])
    arr = fit(s, make_array(s, param_names=names))
    check_indices(c, s, arr, names)
    if c.sym:
        fit(s, arr)
        check_indices(c, s, arr, names)
        return check_vectors(c, s, arr)
    if c.choice('run before', [False, True]):
        # a full-mode run between the two fits
        w = weather(c, s)
        eng = make_engine(c, s, arr, 'isotropic', False, {})
        fit_engine(s, w, eng)
        eng.run_full_mode()
        fit(s, arr)
        check_indices(c, s, arr, names)
    fit(s, arr)
    check_indices(c, s, arr, names)
    t = c.choice('t', list(range(s.T)))
    # snapshots carry the same indices
    live = {}
    for x in arr.all_ts_surfaces:
        live[x.index] = x
    for row in arr.ts_pvrows:
        for ps in row.at(t).all_surfaces:
            c.ok('C05.snapshot index', ps.index in live)
            if ps.index in live:
                x = live[ps.index]
                c.same('C05.snapshot shading', bool(ps.shaded),
                       bool(x.shaded))
                c.eq('C05.snapshot surface is the indexed one', ps.length,
                     x.length[t])
                c.eq('C05.snapshot position', ps.centroid.x,
                     x.centroid.x[t])
    for ps in arr.ts_ground.at(t, merge_if_flag_overlap=False).all_surfaces:
        c.ok('C05.snapshot index', ps.index in live)
        if ps.index in live:
            x = live[ps.index]
            c.same('C05.snapshot shading', bool(ps.shaded), bool(x.shaded))
            c.eq('C05.snapshot position', ps.centroid.x, x.centroid.x[t])
    check_vectors(c, s, arr)


def scheme(c, n):
    """cut schemes of the symbolic runs (the numeric ones are random)"""
    k = c.choice('cut', [0, 1, 2])
    return {} if k == 0 else {
        r: {'front': 1 + (r + k) % 3, 'back': 1 + (r * k + 1) % 4}
        for r in range(0, n, k)}


def check_vectors(c, s, arr):
    """modelling vectors and view factor matrices use the same index"""
    import numpy as np
    from pvfactors.irradiance import HybridPerezOrdered
    from pvfactors.viewfactors import VFCalculator
    m = HybridPerezOrdered()
    val = {}

    def series(nm, k, v):
        a = c.ser('%s_%d' % (nm, k), None, None) if c.sym else \
            np.full(s.T, float(v))
        for t in s.times:
            val[nm, k, t] = c.at(a, t)
        return a
    for x in arr.all_ts_surfaces:
        k = x.index
        x.update_params(dict(
            direct=series('direct', k, k),
            circumsolar=series('circumsolar', k, 1000.),
            horizon=series('horizon', k, 1e6), rho=series('rho', k, k + .5),
            inv_rho=series('inv_rho', k, k + .25),
            total_perez=series('total_perez', k, -k)))
    m.isotropic_luminance = series('iso', 0, -7.)
    mats = m.get_full_ts_modeling_vectors(arr)
    nn = arr.n_ts_surfaces
    want = [('direct', 'circumsolar', 'horizon'), ('rho',), ('inv_rho',),
            ('total_perez',)]
    sky = ['iso', 1., 1., 'iso']
    for mat, f, sk in zip(mats, want, sky):
        c.same('C05.vectors have one row per surface plus the sky',
               np.shape(mat), (nn + 1, s.T))
        for k in range(nn):
            for t in s.times:
                c.eq('C05.modelling vector row', c.at(mat[k], t),
                     sum(val[q, k, t] for q in f))
        for t in s.times:
            c.eq('C05.modelling vector sky row', c.at(mat[nn], t),
                 val['iso', 0, t] if sk == 'iso' else sk)
    if c.sym:
        return
    F = VFCalculator().build_ts_vf_matrix(arr)
    c.same('C05.matrix size', F.shape, (nn + 1, nn + 1, s.T))


def check_indices(c, s, arr, names):
    n, cut = s.n, s.cut or {}
    surf = arr.all_ts_surfaces
    c.same('C05.reported count', arr.n_ts_surfaces, len(surf))
    c.same('C05.indices are 0..n-1 in listing order',
           [x.index for x in surf], list(range(len(surf))))
    c.same('C05.ts_surface_indices', list(arr.ts_surface_indices),
           list(range(len(surf))))
    c.same('C05.all distinct', len(set(map(id, surf))), len(surf))
    g = arr.ts_ground
    order = []
    for el in g.shadow_elements:
        order += [('shaded ground', True, x) for x in el.all_ts_surfaces]
        c.same('C05.element count', el.n_ts_surfaces,
               len(el.all_ts_surfaces))
    ns = len(order)
    for el in g.illum_elements:
        order += [('lit ground', False, x) for x in el.all_ts_surfaces]
        c.same('C05.element count', el.n_ts_surfaces,
               len(el.all_ts_surfaces))
    c.same('C05.count of shaded ground', g.n_ts_shaded_surfaces, ns)
    c.same('C05.count of lit ground', g.n_ts_illum_surfaces,
           len(order) - ns)
    c.same('C05.count of ground', g.n_ts_surfaces, len(order))
    c.same('C05.expected ground count', len(order), (2 * n + 1) * (n + 1))
    c.same('C05.rows', len(arr.ts_pvrows), n)
    for k, row in enumerate(arr.ts_pvrows):
        c.same('C05.row index', row.index, k)
        n0 = len(order)
        for nm, side in (('front', row.front), ('back', row.back)):
            n1 = len(order)
            c.same('C05.segments', len(side.list_segments),
                   cut.get(k, {}).get(nm, 1))
            for seg in side.list_segments:
                c.same('C05.count of segment', seg.n_ts_surfaces,
                       seg.illum.n_ts_surfaces + seg.shaded.n_ts_surfaces)
                for sh, col in ((False, seg.illum), (True, seg.shaded)):
                    c.same('C05.collection flag', bool(col.shaded), sh)
                    c.same('C05.count of collection', col.n_ts_surfaces,
                           len(col.list_ts_surfaces))
                    order += [(nm, sh, x) for x in col.list_ts_surfaces]
            c.same('C05.count of side', side.n_ts_surfaces,
                   len(order) - n1)
        c.same('C05.count of row', row.n_ts_surfaces, len(order) - n0)
    c.same('C05.listing has every surface', len(order), len(surf))
    for i, (what, sh, x) in enumerate(order):
        c.ok('C05.order of %s' % what, surf[i] is x)
        c.same('C05.shading flag of %s' % what, bool(x.shaded), sh)
        c.same('C05.parameter names of %s' % what,
               [p for p in (names or []) if p not in x.params], [])
        c.same('C05.param_names of %s' % what, list(x.param_names or []),
               list(names or []))
    for col, sh in ((g.shaded, True), (g.illum, False)):
        c.same('C05.ground collection', [x.index for x in
                                         col.list_ts_surfaces],
               [i for i, o in enumerate(order)
                if 'ground' in o[0] and o[1] == sh])
