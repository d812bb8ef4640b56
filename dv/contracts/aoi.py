"""C14: view factors weighted by angle-of-incidence losses."""
import math

from .common import (site, direction, make_array, fit, rot, cuts, faoi_fn)
from .vf import (tag_surfaces, row_ends, side_of, blocks, pt)

D = 1e-5      # degrees: float noise of an angle next to a section limit


def angle(u, p, q):
    """angle in degrees between u and p -> q"""
    v = (q[0] - p[0], q[1] - p[1])
    cr = u[0] * v[1] - u[1] * v[0]
    dt = u[0] * v[0] + u[1] * v[1]
    return abs(math.degrees(math.atan2(cr, dt)))


def sections(f, N, is_ok):
    w = 180. / N
    tot = 0.
    for m in range(N):
        lo, hi = m * w, (m + 1) * w
        if is_ok(lo, hi):
            tot += float(f((lo + hi) / 2.)) * .5 * abs(
                math.cos(math.radians(lo)) - math.cos(math.radians(hi)))
    return tot


def wedge(f, N, low, high):
    """(smallest, largest) value allowed by float noise in the angles"""
    sure = sections(f, N, lambda lo, hi: low + D <= hi and high - D > lo)
    may = sections(f, N, lambda lo, hi: low - D <= hi and high + D > lo)
    if high - low < 1e-5:
        sure = 0.
    if high - low < 1e-9 - D:
        may = 0.
    return sure, may


def agree(c, name, got, lohi, tol=1e-9):
    lo, hi = lohi
    c.ok(name, lo - tol <= got <= hi + tol,
         'got %r, contract says %r..%r' % (got, lo, hi))


def losses(c, kind):
    if kind == 'one':
        import numpy as np
        one = lambda a: np.ones_like(np.asarray(a, dtype=float))
        return one, one
    f = faoi_fn(c.num('fa_front', .1, .4), c.num('fb_front', .1, .5), 1)
    b = faoi_fn(c.num('fa_back', .1, .4), c.num('fb_back', .1, .5), 2)
    return f, b


def factors(c, n=3):
    """every entry of the AOI matrix"""
    import numpy as np
    from pvfactors.viewfactors import VFCalculator
    s = site(c, n, cut=cuts(c, n), tilt_max=85)
    kind = c.choice('loss', ['smooth', 'smooth', 'one'])
    f, b = losses(c, kind)
    N = c.choice('sections', [7, 20, 60, 61, 300])
    arr = fit(s, make_array(s))
    calc = VFCalculator(f, b, n_aoi_integral_sections=N)
    calc.fit(s.T)
    F = calc.build_ts_vf_matrix(arr)
    arr.ts_vf_matrix = F
    plain = np.array(F)
    n_s = arr.n_ts_surfaces
    rho = np.full((s.T, n_s + 1, n_s + 1), .1)
    rho = np.moveaxis(rho, 0, -1)
    A = calc.build_ts_vf_aoi_matrix(arr, rho)
    c.ok('C14.plain view factors are left untouched',
         np.array_equal(plain, F) and np.array_equal(plain, calc.vf_matrix))
    c.same('C14.shape', A.shape, plain.shape)
    info = tag_surfaces(arr)
    g0, g1 = (-100., 0.), (100., 0.)
    for t in s.times:
        d = direction(c, s, t)
        r = rot(c, s, t, d)
        e = (c.M.cosd(r), c.M.sind(r))
        ends = [row_ends(c, s, k, t, d) for k in range(n)]
        hi = [x[1] for x in ends]
        L = [c.at(info[i][3].length, t) for i in range(n_s)]
        for i in range(n_s):
            ki, k, nm, x = info[i]
            if ki == 'gnd' or 0 < L[i] < 1e-5:
                continue
            if L[i] == 0:
                for j in range(n_s + 1):
                    c.eq('C14.degenerate surface', A[i, j, t], 0.)
                continue
            loss = f if nm == 'front' else b
            u = (-e[0], -e[1]) if nm == 'front' else e
            p1, p2 = pt(c, x.b1, t), pt(c, x.b2, t)
            p = ((p1[0] + p2[0]) / 2, (p1[1] + p2[1]) / 2)
            sd = side_of(nm, d)
            if d == 'flat':
                sd = 'right' if nm == 'front' else 'left'
            obs = k + (1 if sd == 'right' else -1)
            row = ends[obs] if 0 <= obs < n else None

            def see(q1, q2, q_ground):
                a = []
                for q in (q1, q2):
                    if q_ground and row is not None and d != 'flat' and \
                            blocks(p, q, row):
                        q = row[0]
                    a.append(angle(u, p, q))
                return min(a), max(a)
            for j in range(n_s):
                kj, rj, nj, y = info[j]
                if i == j or 0 < L[j] < 1e-5:
                    continue
                if kj == 'gnd':
                    q1, q2 = pt(c, y.b1, t), pt(c, y.b2, t)
                    if d == 'flat':
                        facing = nm == 'back'
                    else:
                        cut = k * s.width / s.gcr - \
                            s.height * e[0] / e[1]
                        mid = .5 * (q1[0] + q2[0])
                        if abs(mid - cut) < 1e-6:
                            continue
                        facing = (mid < cut) == (sd == 'left')
                else:
                    facing = rj == obs and nj != nm
                    q1, q2 = pt(c, y.b1, t), pt(c, y.b2, t)
                if not facing or L[j] == 0:
                    c.eq('C14.zero when degenerate or not facing',
                         A[i, j, t], 0.)
                    continue
                if kj == 'row' and d == 'flat':
                    agree(c, 'C14.coplanar rows', A[i, j, t],
                          (0., wedge(loss, N, *see(q1, q2, False))[1]))
                    continue
                agree(c, 'C14.loss over the seen wedge', A[i, j, t],
                      wedge(loss, N, *see(q1, q2, kj == 'gnd')))
                if kind == 'one':
                    c.le('C14.unit loss stays below one', A[i, j, t], 1.)
            # the sky: between the tops of this row and of the facing one,
            # or down to the end of the ground for an outer row
            own = hi[k]
            far = hi[obs] if 0 <= obs < n else (g1 if sd == 'right' else g0)
            if d == 'flat':
                if nm == 'front':
                    lo_, hi_ = (0., angle(u, p, far))
                    a1 = wedge(loss, N, lo_, hi_)
                    a2 = wedge(loss, N, 0., 180.)
                    agree(c, 'C14.sky wedge', A[i, n_s, t], (a1[0], a2[1]))
                continue
            agree(c, 'C14.sky wedge', A[i, n_s, t],
                  wedge(loss, N, *sorted((angle(u, p, own),
                                          angle(u, p, far)))))


def reflectivity(c):
    """average reflectivity derived from a loss function"""
    from pvfactors.viewfactors import VFCalculator
    c.steps()
    kind = c.choice('loss', ['smooth', 'smooth', 'one'])
    f, b = losses(c, kind)
    N = c.choice('sections', [1, 7, 20, 60, 61, 300])
    m = VFCalculator(f, b, n_aoi_integral_sections=N).vf_aoi_methods
    for is_back, fn in ((False, f), (True, b)):
        c.eq('C14.reflectivity is one minus the integral',
             m.rho_from_faoi_fn(is_back),
             1. - sections(fn, N, lambda lo, hi: True))
        if kind == 'one':
            c.eq('C14.unit loss reflects nothing',
                 m.rho_from_faoi_fn(is_back), 0.)


def unit(c, N=6):
    """C14: average reflectivity; a unit loss function loses nothing"""
    if not c.sym:
        return reflectivity(c)
    from pvfactors.viewfactors import VFCalculator
    from . import stubs
    M = c.M
    c.steps()
    one = c.choice('loss', ['any', 'one']) == 'one'
    x = c.num('x', None, None)
    lim = [(180 * (0 * x + m) / N, 180 * (0 * x + m + 1) / N)
           for m in range(N)]
    for lo, hi in lim:
        c.fact(M.cosd(lo) >= M.cosd(hi))    # cosine falls from 0 to 180
    fns = {q: (lambda a: 0 * a + 1) if one else stubs.loss('loss_' + q)
           for q in ('front', 'back')}
    m = VFCalculator(fns['front'], fns['back'],
                     n_aoi_integral_sections=N).vf_aoi_methods
    v = [M.abs(M.cosd(lo) - M.cosd(hi)) / 2 for lo, hi in lim]
    for back, q in ((False, 'front'), (True, 'back')):
        rho = m.rho_from_faoi_fn(back)
        c.eq('C14.reflectivity is one minus the integral', rho,
             1 - sum(fns[q]((lo + hi) / 2) * w
                     for (lo, hi), w in zip(lim, v)))
        if one:
            c.eq('C14.unit loss reflects nothing', rho, 0)
    # whatever sections a wedge takes (`matrix`)
    tot = 0
    for k, w in enumerate(v):
        c.ok('C14.weights are not negative', w >= 0, keep=True)
        a = c.num('a%d' % k, None, None)
        tot = tot + M.ite(a > 0, w, 0)
    if N <= 6:
        c.ok('C14.unit loss stays below one', M.and_(tot >= 0, tot <= 1))


# --------------------------------------------------- arbitrary surfaces
def matrix(c, n=2, N=0):
    """C14: every entry from a row surface, for arbitrary surfaces.

    N = 0: one section of arbitrary limits (numpy's linspace replaced by any
    two numbers), for the sum over any number of sections adds what each one
    gives; N > 0: the N sections of 0..180 degrees."""
    if not c.sym:
        return factors(c, n)
    import numpy as np
    from pvfactors.viewfactors import VFCalculator
    from .. import sym
    from . import stubs
    from .vfs import TOL, arbitrary, states
    M = c.M
    s = site(c, n)
    arr = fit(s, make_array(s))
    s.rotation = lambda t: c.at(s.tilt, t) if s.dir == 'left' else \
        -c.at(s.tilt, t) if s.dir == 'right' else 0
    st = states(c)
    c.eng.lazy = True
    sides = {q: {k: arr.ts_ground.ts_surfaces_side_of_cut_point(q, k)
                 for k in range(n)} for q in ('left', 'right')}
    info, ends = arbitrary(c, s, arr, st)
    for i, (kind, k, nm, x) in info.items():
        if kind == 'row':
            for t in s.times:
                y = (c.at(x.b1.y, t) + c.at(x.b2.y, t)) / 2
                if c.ok('C14.rows are above the ground', y > 0, keep=True):
                    c.fact(y > 0)
    for i, (u, w) in ends.items():
        q = st['ground'] if info[i][0] == 'gnd' else st[info[i][2]]
        for t in s.times:
            if q != 'regular':
                c.fact(c.at(w, t) < TOL)
    c.eng.decide_ms = 0
    if N:
        limits = [(180 * (0 * s.width + m) / N, 180 * (0 * s.width + m + 1)
                   / N) for m in range(N)]
    else:
        A, B = c.num('A', None, None), c.num('B', None, None)
        limits = [(0 * A, 0 * A + 180)]

        def hook(out):
            out[0], out[1] = A, B
            limits[0] = (A, B)
    fns = {q: stubs.loss('loss_' + q) for q in ('front', 'back')}
    calc = VFCalculator(fns['front'], fns['back'],
                        n_aoi_integral_sections=N or 1)
    if not N:
        sym.LINSPACE.append(hook)
    try:
        calc.fit(s.T)
        m = arr.n_ts_surfaces + 1
        P = np.empty((m, m, s.T), dtype=object)
        for ix in np.ndindex(m, m, s.T):
            P[ix] = stubs.T.var('vf%d_%d[%d]' % ix)
        P = P.view(sym.SymArray)
        keep = P.copy()
        calc.vf_matrix = arr.ts_vf_matrix = P
        F = calc.build_ts_vf_aoi_matrix(arr, None)
    finally:
        if not N:
            sym.LINSPACE.remove(hook)
    c.same('C14.shape', F.shape, (m, m, s.T))
    c.same('C14.plain view factors are left untouched',
           (calc.vf_matrix is P, arr.ts_vf_matrix is P, F is P),
           (True, True, False))
    for t in s.times:
        c.same('C14.plain view factors are left untouched',
               all(P[i, j, t] is keep[i, j, t] for i in range(m)
                   for j in range(m)), True)
        entries(c, s, arr, info, ends, st, sides, F, P, limits, fns, t)


def entries(c, s, arr, info, ends, st, sides, F, P, limits, fns, t):
    from .vfs import TOL
    from .lem import hidden
    M, d, n, r = c.M, s.dir, s.n, s.rotation(t)
    e = (M.cosd(r), M.sind(r))
    low = 1 if d == 'left' else -1

    def point(k, v):
        return (k * s.width / s.gcr + v * e[0], s.height + v * e[1])
    top = {k: point(k, low * s.width / 2) for k in range(n)}
    bottom = {k: point(k, -low * s.width / 2) for k in range(n)}
    N = m = arr.n_ts_surfaces

    def ptsof(i):
        kind, k, side, x = info[i]
        u, w = (c.at(q, t) for q in ends[i])
        if kind == 'gnd':
            return (u, 0), (u + w, 0)
        return point(k, u), point(k, u + w)

    def angle(u, p, q):
        v = (q[0] - p[0], q[1] - p[1])
        x = (u[0] * v[0] + u[1] * v[1]) / M.sqrt(v[0] ** 2 + v[1] ** 2)
        return M.acosd(M.min(M.max(x, -1), 1))

    def wedge(loss, a1, a2):
        lo, hi = M.ite(a1 < a2, a1, a2), M.ite(a1 < a2, a2, a1)
        tot = 0
        for A, B in limits:
            v = loss((A + B) / 2) * M.abs(M.cosd(A) - M.cosd(B)) / 2
            tot = tot + M.ite(M.and_(lo <= B, hi > A), v, 0)
        return M.ite(M.abs(hi - lo) < TOL, 0, tot)
    state = {i: st['ground'] if info[i][0] == 'gnd' else st[info[i][2]]
             for i in info}
    for i in info:
        kind, k, nm, x = info[i]
        if kind == 'gnd':
            continue
        if state[i] != 'regular':
            for j in list(info) + [N]:
                z = c.at(P[i, j, t], t)
                c.eq('C14.degenerate surface', c.at(F[i, j, t], t), 0,
                     modulo=[c.at(P[i, j, t], t)])
            continue
        loss = fns[nm]
        # the front faces right unless tilted to the left
        right = (nm == 'front') == (d != 'left')
        u = e if nm == 'back' else (-e[0], -e[1])
        nb = k + (1 if right else -1)
        sg = -1 if right else 1
        p1, p2 = ptsof(i)
        p = ((p1[0] + p2[0]) / 2, (p1[1] + p2[1]) / 2)
        for j in info:
            kj, rj, nj, y = info[j]
            got = c.at(F[i, j, t], t)
            q1, q2 = ptsof(j)
            facing = False
            if kj == 'row':
                facing = rj == nb and nj != nm
                a1, a2 = angle(u, p, q1), angle(u, p, q2)
            else:
                facing = any(y is z for z in sides[
                    'right' if right else 'left'][k])
                # (flat rows: everything is left of the cut, C04)
                if facing and 0 <= nb < n:
                    o = bottom[nb]
                    h = [hidden(q, p, o, sg) for q in (q1, q2)]
                    a1, a2 = (angle(u, p, (M.ite(f, o[0], q[0]),
                                           M.ite(f, o[1], q[1])))
                              for f, q in zip(h, (q1, q2)))
                elif facing:
                    a1, a2 = angle(u, p, q1), angle(u, p, q2)
            if not facing or state[j] != 'regular':
                c.eq('C14.zero when degenerate or not facing', got, 0,
                     modulo=[c.at(P[i, j, t], t)])
                continue
            c.eq('C14.loss over the seen wedge', got, wedge(loss, a1, a2))
        # the sky: between the tops of this row and of the facing one, or
        # down to the end of the ground for an outer row
        far = top[nb] if 0 <= nb < n else ((100 if right else -100), 0)
        thin = M.sqrt((far[0] - top[k][0]) ** 2 +
                      (far[1] - top[k][1]) ** 2) < TOL
        c.eq('C14.sky wedge', c.at(F[i, N, t], t),
             M.ite(M.or_(c.at(ends[i][1], t) < TOL, thin), 0,
                   wedge(loss, angle(u, p, top[k]), angle(u, p, far))))
