"""C06, C07: the view factor matrix over arbitrary surfaces.

The structure (which surfaces exist, their indices, which ground surfaces lie
on which side of a cut point) is that of a fitted array; the coordinates are
replaced by arbitrary ones that the contracts of the geometry (C01, C02, C04)
allow: segments of the rows and intervals of the ground."""
from .common import make_array, fit, modular, site
from .geom import scheme

TOL = 1e-8
STATES = ('regular', 'degenerate', 'skipped')
# every pair of (front, back, ground) states
L9 = [(a, b, (a + b) % 3) for a in range(3) for b in range(3)]


def place(c, nm, xy, x2y2):
    from pvfactors.geometry.timeseries import TsLineCoords, TsPointCoords
    return TsLineCoords(TsPointCoords(*xy), TsPointCoords(*x2y2))


def each(c, f):
    """a series whose value at the examined timestep is f(t)"""
    from .. import sym
    import numpy as np
    out = np.empty((c.T,), dtype=object)
    for t in range(c.T):
        out[t] = f(t)
    return out.view(sym.SymArray)


def extent(c, nm, state):
    """a length: regular, degenerate (at most the tolerance) or not even
    present in the batch"""
    w = c.ser(nm, 0., None, strict=state == 'regular')
    for t in [c.t0]:
        x = c.at(w, t)
        c.fact(x > TOL if state == 'regular' else x <= TOL)
    return w


def skip_policy(states):
    """is_empty of a surface, by its class"""
    from ..job import empties_policy

    def policy(b):
        p = empties_policy(b)
        if p is None:
            return None
        for v in b.vars():
            for k, st in states.items():
                if v.startswith('len_' + k):
                    return p != (st == 'skipped')
        return p
    return policy


def states(c):
    a = c.choice('lengths', list(range(len(L9))))
    st = dict(zip(('front', 'back', 'ground'),
                  (STATES[k] for k in L9[a])))
    c.eng.policy = skip_policy(st)
    return st


def arbitrary(c, s, arr, st, ground=True):
    """every surface anywhere on its row or on the ground"""
    M = c.M
    info = {}
    ends = {}
    for k, row in enumerate(arr.ts_pvrows):
        xc = k * s.width / s.gcr
        for side, face in (('front', row.front), ('back', row.back)):
            for q, x in enumerate(face.all_ts_surfaces):
                i = x.index
                u = c.ser('u%d' % i, None, None)
                w = extent(c, 'len_%s%d' % (side, i), st[side])

                def point(t, v):
                    # (only the examined timestep is modelled)
                    r = s.rotation(t)
                    v = c.at(v, t)
                    return (xc + v * M.cosd(r), s.height + v * M.sind(r))
                p = [each(c, lambda t: point(t, u)[a]) for a in (0, 1)]
                z = [each(c, lambda t: point(t, u + w)[a]) for a in (0, 1)]
                x.coords = place(c, i, p, z)
                for t in s.times:
                    c.fact(c.at(u, t) * 2 >= -s.width)
                    c.fact((c.at(u, t) + c.at(w, t)) * 2 <= s.width)
                    for y in (p[1], z[1]):
                        y = c.at(y, t)
                        if c.ok('C06.rows are above the ground', y > 0,
                                keep=True):
                            c.fact(y > 0)
                info[i] = ('row', k, side, x)
                ends[i] = (u, w)
    for x in arr.ts_ground.all_ts_surfaces if ground else ():
        i = x.index
        u = c.ser('u%d' % i, None, None)
        w = extent(c, 'len_ground%d' % i, st['ground'])
        y0 = each(c, lambda t: 0)
        x.coords = place(c, i, (u, y0), (u + w, y0))
        info[i] = ('gnd', None, None, x)
        ends[i] = (u, w)
    return info, ends


def path(M, p, g, o, sign):
    """length of the string from p to the ground point g that cannot cross
    the row above o: around o when the line p-g passes above o"""
    d = lambda a, b: M.sqrt((b[1] - a[1]) ** 2 + (b[0] - a[0]) ** 2)
    if o is None:
        return d(p, g)
    cross = (o[0] - g[0]) * (p[1] - g[1]) - (o[1] - g[1]) * (p[0] - g[0])
    return M.ite(sign * cross > 0, d(g, o) + d(o, p), d(p, g))


def strings(c, n=2, cut=True):
    """C06, C07: every entry of the matrix, for arbitrary surfaces"""
    from pvfactors.viewfactors import VFCalculator
    M = c.M
    if not c.sym:
        from .vf import matrix
        return matrix(c, n)
    s = site(c, n, cut=scheme(c, n) if cut else None)
    arr = fit(s, make_array(s))
    s.rotation = lambda t: c.at(s.tilt, t) if s.dir == 'left' else \
        -c.at(s.tilt, t) if s.dir == 'right' else 0
    st = states(c)
    c.eng.lazy = True
    left = {k: arr.ts_ground.ts_surfaces_side_of_cut_point('left', k)
            for k in range(n)}
    right = {k: arr.ts_ground.ts_surfaces_side_of_cut_point('right', k)
             for k in range(n)}
    info, ends = arbitrary(c, s, arr, st)
    c.eng.decide_ms = 0
    F = VFCalculator().build_ts_vf_matrix(arr)
    N = arr.n_ts_surfaces
    c.same('C06.shape', tuple(F.shape), (N + 1, N + 1, s.T))
    for t in s.times:
        entries(c, s, info, ends, st, left, right, F, N, t)


def eq0(x):
    from .. import terms as T
    x = T.lift(x)
    if T.provably_zero(x):
        return T.TRUE
    return T.cmp0(x, 'eq')


def entries(c, s, info, ends, st, left, right, F, N, t):
    M = c.M
    d = s.dir
    n = s.n
    r = s.rotation(t)

    def point(k, v):
        return (k * s.width / s.gcr + v * M.cosd(r),
                s.height + v * M.sind(r))

    def ptsof(i):
        kind, k, side, x = info[i]
        u, w = (c.at(q, t) for q in ends[i])
        if kind == 'gnd':
            return (u, 0), (u + w, 0)
        return point(k, u), point(k, u + w)
    low = 1 if d == 'left' else -1       # which end of a row is low
    lowest = {k: point(k, -low * s.width / 2) for k in range(n)}
    length = {i: c.at(ends[i][1], t) for i in info}
    f = {}
    dist = lambda a, b: M.sqrt((b[1] - a[1]) ** 2 + (b[0] - a[0]) ** 2)
    for i in info:
        for j in info:
            ki, ri, ni, a = info[i]
            kj, rj, nj, b = info[j]
            got = c.at(F[i, j], t)
            f[i, j] = got
            si, sj = (st['ground'] if x[0] == 'gnd' else st[x[2]]
                      for x in (info[i], info[j]))
            if 'skipped' in (si, sj) or 'degenerate' == si:
                c.eq('C06.nothing from or to a degenerate surface', got, 0)
                continue
            want = None
            p1, p2 = ptsof(i)
            q1, q2 = ptsof(j)
            if ki == kj == 'row':
                if abs(ri - rj) == 1 and ni != nj:
                    # front faces right when tilted right or flat
                    faces_right = (ni == 'front') == (d != 'left')
                    if faces_right == (rj > ri):
                        want = M.abs(dist(p1, q2) + dist(p2, q1) -
                                     dist(p1, q1) - dist(p2, q2)) / (
                                         2 * length[i])
            elif ki != kj:
                if ki == 'gnd':
                    c.eq('C06.reciprocity', got * length[i],
                         length[j] * c.at(F[j, i], t))
                    continue
                # the back looks right when tilted left
                for side, lst in (('left', left), ('right', right)):
                    if not any(b is x for x in lst[ri]):
                        continue
                    looks = (side == 'left') == (
                        (ni == 'front') == (d == 'left'))
                    if not looks:
                        continue
                    nb = ri + (-1 if side == 'left' else 1)
                    hi, lo = (p2, p1) if d == 'left' else (p1, p2)
                    a_, b_ = (q1, q2) if side == 'left' else (q2, q1)
                    if 0 <= nb < n:
                        sg = 1 if side == 'left' else -1
                        o = lowest[nb]
                        # signed crossed strings; that they are not negative
                        # is a lemma (vfs.obstruction)
                        want = (path(M, hi, b_, o, sg) +
                                path(M, lo, a_, o, sg) -
                                path(M, hi, a_, o, sg) -
                                path(M, lo, b_, o, sg)) / (2 * length[i])
                    else:
                        want = M.abs(dist(hi, b_) + dist(lo, a_) -
                                     dist(hi, a_) - dist(lo, b_)) / (
                                         2 * length[i])
            if want is None:
                c.eq('C06.zero where nothing faces', got, 0)
                continue
            if sj == 'degenerate':
                # of the order of the tolerance, or left out
                c.ok('C07.crossed strings to a degenerate surface',
                     M.or_(eq0(got), eq0(got - want)))
                continue
            c.eq('C07.crossed strings', got, want)
            if ki == kj and i < j:
                c.eq('C06.reciprocity', got * length[i],
                     length[j] * c.at(F[j, i], t))
    for j in range(N + 1):
        c.eq('C06.sky row is zero', c.at(F[N, j], t), 0)
    for i in info:
        si = st['ground'] if info[i][0] == 'gnd' else st[info[i][2]]
        sky = c.at(F[i, N], t)
        if si != 'regular':
            c.eq('C06.degenerate surface sees no sky', sky, 0)
        else:
            c.eq('C06.rows sum to one', sky + sum(
                f[i, j] for j in info), 1)


# ---------------------------------------------------------------- lemmas
def scene(c, s):
    """a surface of a row (its lower end lo, its upper end hi), the low end
    o of the neighbour on the left (s = 1) or right (s = -1) and its upper
    end; every tilted configuration of the array has this shape"""
    M = c.M
    th = c.angle('direction', 0., 180., strict=True)
    d = (M.cosd(th), M.sind(th))         # from the low to the high end
    D = c.num('pitch', 0., None, strict=True)
    W = c.num('width', 0., None, strict=True)
    y0 = c.num('low', 0., None, strict=True)
    u = c.num('u', 0., None)
    w = c.num('w', 0., None, strict=True)
    c.fact(u + w <= W)
    o = (0, y0)
    top = (W * d[0], y0 + W * d[1])
    base = (s * D, y0)
    at = lambda v: (base[0] + v * d[0], base[1] + v * d[1])
    return o, top, at(u), at(u + w), base, d


def visible(c, name, s, base, d):
    """a point of the ground on the side of the row's line the face sees"""
    x = c.num(name, None, None)
    g = (x, 0)
    c.fact(s * ((x - base[0]) * d[1] + base[1] * d[0]) <= 0)
    return g


def obstruction(c):
    """lemma: the condition on the angles says exactly that the neighbouring
    row cuts the line of sight between a surface and a point of the ground
    it faces"""
    if not c.sym:
        return
    from .lem import cr, hidden
    M = c.M
    s = c.choice('side', [1, -1])
    c.steps()
    o, top, p, hi, base, d = scene(c, s)
    g = visible(c, 'g', s, base, d)
    # p + a (g - p) = o + b (top - o)
    W = c.num('width', 0., None, strict=True)
    D = c.num('pitch', 0., None, strict=True)
    own = (g[0] - base[0]) * d[1] + base[1] * d[0]   # side of the own line
    nb = own + s * D * d[1]                          # of the neighbour's
    c.eq('lemma: side of the neighbour', nb,
         (g[0] - o[0]) * d[1] + o[1] * d[0])
    den = own                                        # cross(g - p, d)
    c.eq('lemma: denominator', (g[0] - p[0]) * d[1] - (g[1] - p[1]) * d[0],
         den)
    # a = -s D dy / own lies in (0, 1) iff the neighbour's line separates
    # the points: s nb < 0
    na, da = -s * D * d[1], den
    c.iff('lemma: the neighbour lies between', M.and_(
        s * da < 0, s * (na - da) > 0), s * nb < 0)
    # b W = cross(o - p, g - p) / cross(g - p, d) -- distance along the row
    num = (o[0] - p[0]) * (g[1] - p[1]) - (o[1] - p[1]) * (g[0] - p[0])
    cut = M.and_(s * nb < 0, s * num < 0, s * (num - W * den) > 0)
    # (num / den in (0, W), den of sign -s)
    for i in (0, 1):
        c.eq('lemma: the point of intersection',
             p[i] * den + na * (g[i] - p[i]),
             o[i] * den + num * d[i])
    h = hidden(g, p, o, s)
    u = c.num('u', 0., None)
    c.eq('lemma: hidden', num, -(
        (o[0] - g[0]) * (p[1] - g[1]) - (o[1] - g[1]) * (p[0] - g[0])))
    # the crossing is above o iff num has the sign of den; it is below the
    # top because it is below p; if it is above o the line separates
    c.eq('lemma: height', num * d[1], den * (p[1] - o[1]) -
         na * p[1])
    c.ok('lemma: a hidden point lies beyond the neighbour',
         M.or_(M.not_(h), s * nb < 0), keep=True)
    c.fact(M.or_(M.not_(h), s * nb < 0))
    c.ok('lemma: below the top', M.or_(
        s * nb >= 0, s * (num - W * den) > 0), keep=True)
    c.fact(M.or_(s * nb >= 0, s * (num - W * den) > 0))
    c.iff('lemma: hidden means cut by the neighbour', h, cut)


def strings_range(c):
    """lemma: the view factor of C07 lies in [0, 1] in both directions"""
    if not c.sym:
        return
    from .lem import (cr, hidden, path, dist, triangle, crossing, contained,
                      pocket)
    M = c.M
    s = c.choice('side', [1, -1])
    free = c.choice('neighbour', [True, False])
    c.steps()
    o, top, l, h, base, d = scene(c, s)
    b = visible(c, 'b', s, base, d)
    w = c.num('w', 0., None, strict=True)
    g = c.num('g', 0., None, strict=True)
    a = (b[0] - s * g, 0)
    P = lambda p, x: path(c, p, x, None if not free else o, s)
    D_ = lambda p, q: dist(c, p, q)
    c.eq('lemma: length of the surface', D_(l, h), w, keep='opaque')
    c.eq('lemma: length of the ground', D_(a, b), g, keep='opaque')
    if not free:
        crossing(c, h, b, l, a, s)
        for x, y, z in ((h, l, b), (l, h, a), (h, a, b), (l, b, a)):
            triangle(c, x, y, z)
    else:
        H = {k: hidden(x, p, o, s) for k, p, x in (
            ('ha', h, a), ('hb', h, b), ('la', l, a), ('lb', l, b))}
        for k, m in (('hb', 'ha'), ('la', 'ha'), ('lb', 'hb'),
                     ('lb', 'la')):
            f = M.or_(M.not_(H[k]), H[m])
            if c.ok('lemma: %s hidden, so %s hidden' % (k, m), f,
                    keep=True):
                c.fact(f)
        pat = {}
        for k in ('ha', 'hb', 'la', 'lb'):
            pat[k] = c.split(k, [('hidden', H[k]),
                                 ('seen', M.not_(H[k]))]) == 'hidden'
        n = sum(pat.values())
        if n == 0:
            crossing(c, h, b, l, a, s)
            for x, y, z in ((h, l, b), (l, h, a), (h, a, b), (l, b, a)):
                triangle(c, x, y, z)
        elif pat == dict(ha=True, hb=False, la=False, lb=False):
            pocket(c, h, b, l, a, o, s)
            triangle(c, h, l, b)
            triangle(c, l, h, o)
            triangle(c, l, o, a)
            triangle(c, h, a, b)
            triangle(c, h, o, a)
            triangle(c, l, b, a)
        elif pat == dict(ha=True, hb=True, la=False, lb=False):
            crossing(c, o, b, l, a, s)
            contained(c, h, b, l, o, s)
            triangle(c, l, h, o)
            triangle(c, l, o, a)
            triangle(c, o, a, b)
            triangle(c, l, b, a)
        elif pat == dict(ha=True, hb=False, la=True, lb=False):
            crossing(c, h, b, l, o, s)
            triangle(c, h, l, b)
            triangle(c, l, h, o)
            triangle(c, h, o, a)
            triangle(c, h, a, b)
            contained(c, l, a, b, o, s)
        elif pat == dict(ha=True, hb=True, la=True, lb=False):
            triangle(c, l, o, b)
            contained(c, h, b, l, o, s)
            triangle(c, l, h, o)
            triangle(c, o, a, b)
            contained(c, l, a, b, o, s)
        else:
            triangle(c, h, l, o)
            triangle(c, l, h, o)
            triangle(c, o, a, b)
            triangle(c, o, b, a)
    total = P(h, b) + P(l, a) - P(h, a) - P(l, b)
    c.ok('C06.entries in [0, 1]: not negative', total >= 0)
    c.ok('C06.entries in [0, 1]: from the surface', total <= 2 * w)
    c.ok('C06.entries in [0, 1]: from the ground', total <= 2 * g)


def closure_row(c):
    """lemma: what a surface of a row exchanges with the ground it faces and
    with the neighbouring row does not exceed one.

    The view factors of C07 to consecutive pieces of the ground (of the
    neighbour) telescope, because each is a difference of
    P(hi, x) - P(lo, x) between the ends of the piece."""
    if not c.sym:
        return
    from .lem import (cr, hidden, path, dist, triangle, crossing, contained)
    M = c.M
    s = c.choice('side', [1, -1])
    free = c.choice('neighbour', [True, False])
    c.steps()
    o, top, l, h, base, d = scene(c, s)
    b = visible(c, 'b', s, base, d)
    w = c.num('w', 0., None, strict=True)
    g = c.num('g', 0., None, strict=True)
    a = (b[0] - s * g, 0)
    P = lambda p, x: path(c, p, x, o if free else None, s)
    D_ = lambda p, q: dist(c, p, q)
    c.eq('lemma: length of the surface', D_(l, h), w, keep='opaque')
    if not free:
        triangle(c, h, l, b)
        triangle(c, l, h, a)
        c.ok('C06.sky is not negative: edge rows', P(h, b) - P(l, b) -
             P(h, a) + P(l, a) <= 2 * w)
        return
    # a segment of the neighbour: both view factors are non-negative
    v1 = c.num('v1', 0., None)
    v2 = v1 + c.num('v2', 0., None, strict=True)
    q1, q2 = [(o[0] + v * d[0], o[1] + v * d[1]) for v in (v1, v2)]
    crossing(c, h, q1, l, q2, s)
    c.ok('C06.entries in [0, 1]: rows', D_(h, q1) + D_(l, q2) -
         D_(h, q2) - D_(l, q1) >= 0)
    triangle(c, h, l, q1)
    triangle(c, l, h, q2)
    c.ok('C06.entries in [0, 1]: rows', D_(h, q1) + D_(l, q2) -
         D_(h, q2) - D_(l, q1) <= 2 * w)
    # the sum
    H = {k: hidden(x, p, o, s) for k, p, x in (
        ('ha', h, a), ('hb', h, b), ('la', l, a), ('lb', l, b))}
    for k, m in (('la', 'ha'), ('lb', 'hb')):
        f = M.or_(M.not_(H[k]), H[m])
        if c.ok('lemma: %s hidden, so %s hidden' % (k, m), f, keep=True):
            c.fact(f)
    pat = {}
    for k in ('ha', 'hb', 'la', 'lb'):
        pat[k] = c.split(k, [('hidden', H[k]),
                             ('seen', M.not_(H[k]))]) == 'hidden'
    # near end: P(h, b) <= w + P(l, b)
    if pat['lb']:
        triangle(c, h, l, o)
    elif pat['hb']:
        contained(c, h, b, l, o, s)
    else:
        triangle(c, h, l, b)
    c.ok('lemma: near end', P(h, b) <= w + P(l, b), keep=True)
    # far end: P(l, a) + |h o| <= P(h, a) + |l o|
    if pat['ha']:
        triangle(c, l, o, a)
    else:
        crossing(c, h, a, l, o, s)
    c.ok('lemma: far end', P(l, a) + D_(h, o) <= P(h, a) + D_(l, o))
    # top of the neighbour: |l top| <= w + |h top|
    triangle(c, l, h, top)
    c.ok('C06.sky is not negative: rows',
         P(h, b) - P(l, b) - P(h, a) + P(l, a) +
         D_(h, o) - D_(l, o) + D_(l, top) - D_(h, top) <= 2 * w)


def closure_ground(c):
    """lemma: what a piece of the ground between two cut points exchanges
    with all the rows does not exceed one, for any number of rows.

    With K(p) = P(p, b) - P(p, a) the rows on the right of the piece
    contribute K(top) - K(low) each; the step shows that the top of a row
    contributes no more than the low end of the row in front of it, so the
    sum telescopes to K(top of the first) - K(low of the last); the rows on
    the left are the mirror image."""
    if not c.sym:
        return
    from .lem import (hidden, path, dist, triangle, crossing)
    M = c.M
    s = c.choice('side', [1, -1])
    what = c.choice('step', ['behind', 'first', 'ends', 'tops', 'flat'])
    c.steps()
    th = c.angle('direction', 0., 180., strict=True)
    d = (M.cosd(th), M.sind(th))
    D = c.num('pitch', 0., None, strict=True)
    W = c.num('width', 0., None, strict=True)
    y0 = c.num('low', 0., None, strict=True)
    g = c.num('g', 0., None, strict=True)
    o = (0, y0)                           # low end of the row in front
    l = (s * D, y0)
    h = (s * D + W * d[0], y0 + W * d[1])
    b = visible(c, 'b', s, l, d)          # end of the piece next to l, h
    a = (b[0] - s * g, 0)
    D_ = lambda p, q: dist(c, p, q)
    K = lambda p: D_(p, b) - D_(p, a)
    c.eq('lemma: length of the ground', D_(a, b), g, keep='opaque')
    P = lambda p, x: path(c, p, x, o, s)
    if what == 'behind':
        # both ends face the row in front: the piece lies beyond its line
        c.fact(s * ((b[0] - o[0]) * d[1] + o[1] * d[0]) <= 0)
        for x in (a, b):
            c.ok('lemma: low ends are seen', M.not_(hidden(x, l, o, s)))
        H = {k: hidden(x, h, o, s) for k, x in (('a', a), ('b', b))}
        f = M.or_(M.not_(H['b']), H['a'])
        if c.ok('lemma: near hidden, so far hidden', f, keep=True):
            c.fact(f)
        pat = {k: c.split(k, [('hidden', H[k]),
                              ('seen', M.not_(H[k]))]) for k in 'ab'}
        if pat['b'] == 'hidden':
            pass
        elif pat['a'] == 'hidden':
            triangle(c, h, o, b)
        else:
            crossing(c, h, a, o, b, -s)
        c.ok('C06.sky is not negative: ground, rows behind a row',
             P(h, b) - P(h, a) <= K(o))
    elif what == 'first':
        # the piece lies between the lines: the neighbour hides nothing
        c.fact(s * ((a[0] - o[0]) * d[1] + o[1] * d[0]) >= 0)
        for x in (a, b):
            for p in (l, h):
                c.ok('C06.sky is not negative: ground, first row seen',
                     M.not_(hidden(x, p, o, s)))
    elif what == 'ends':
        for p in (l, h):
            triangle(c, p, a, b)
            triangle(c, p, b, a)
            for f in (K(p) <= g, -K(p) <= g):
                c.ok('C06.sky is not negative: ground, ends', f)
    elif what == 'tops':
        # the tops of the rows on either side of the piece
        t = (W * d[0], y0 + W * d[1])
        crossing(c, h, a, t, b, -s)
        c.ok('C06.sky is not negative: ground, tops', K(h) <= K(t))
    else:
        # flat rows: ends of consecutive rows at the same height
        x = c.num('x', None, None)
        p, q = (x, y0), (x + s * c.num('gap', 0., None, strict=True), y0)
        crossing(c, q, a, p, b, -s)
        c.ok('C06.sky is not negative: ground, flat rows', K(q) <= K(p))
        z = K(p) - K(q)
        c.ok('C06.entries in [0, 1]: flat rows', z >= 0)


# ------------------------------------------------------------------ C10
def fast(c, n=2, cut=None):
    """C10: the fast mode's view factors of a back surface are the crossed
    strings to the shadow parts of its side, to the neighbouring row and to
    the shaded part of it, and to the ground between them"""
    from pvfactors.viewfactors import VFCalculator
    M = c.M
    if not c.sym:
        from .vf import fast_vs_full
        return fast_vs_full(c, n)
    s = site(c, n, cut={k: {'front': cut, 'back': 1} for k in range(n)}
             if cut else None)
    arr = fit(s, make_array(s))
    s.rotation = lambda t: c.at(s.tilt, t) if s.dir == 'left' else \
        -c.at(s.tilt, t) if s.dir == 'right' else 0
    st = dict(front='regular', back=c.choice('back', STATES[:2]),
              ground='regular')
    c.eng.policy = skip_policy(st)
    c.eng.lazy = True
    info, ends = arbitrary(c, s, arr, st, ground=False)
    c.eng.decide_ms = 0
    g = arr.ts_ground
    d = s.dir
    for k, row in enumerate(arr.ts_pvrows):
        side = 'right' if d == 'left' else 'left'
        parts = {'left': g.shadow_coords_left_of_cut_point,
                 'right': g.shadow_coords_right_of_cut_point}[side](k)
        for x in row.back.all_ts_surfaces:
            vf = VFCalculator().get_vf_ts_pvrow_element(
                k, x, arr.ts_pvrows, g, arr.rotation_vec, arr.width)
            for t in s.times:
                fast_entries(c, s, arr, vf, x, k, side, parts, info, ends,
                             st, t)


def fast_entries(c, s, arr, vf, x, k, side, parts, info, ends, st, t):
    from .lem import dist, path
    M = c.M
    n, d, r = s.n, s.dir, s.rotation(t)
    D_ = lambda p, q: dist(c, p, q)

    def point(j, v):
        return (j * s.width / s.gcr + v * M.cosd(r),
                s.height + v * M.sind(r))
    u, w = (c.at(q, t) for q in ends[x.index])
    p1, p2 = point(k, u), point(k, u + w)
    low = 1 if d == 'left' else -1
    hi, lo = (p2, p1) if d == 'left' else (p1, p2)
    nb = k + (1 if side == 'right' else -1)
    sg = -1 if side == 'right' else 1
    reg = st['back'] == 'regular'
    got = {q: c.at(v, t) for q, v in vf.items()
           if q != 'to_each_gnd_shadow'}

    def crossed(q1, q2):
        return M.abs(D_(p1, q2) + D_(p2, q1) - D_(p1, q1) -
                     D_(p2, q2)) / (2 * w) if reg else 0
    o = point(nb, -low * s.width / 2) if 0 <= nb < n else None
    own = point(k, -low * s.width / 2)
    shaded = 0
    for part in parts:
        q1, q2 = ((c.at(q.x, t), c.at(q.y, t)) for q in (part.b1, part.b2))
        if not reg:
            continue
        if o is None:
            shaded = shaded + crossed(q1, q2)
        else:
            a, b = (q1, q2) if side == 'left' else (q2, q1)
            shaded = shaded + (path(c, hi, b, o, sg) +
                               path(c, lo, a, o, sg) -
                               path(c, hi, a, o, sg) -
                               path(c, lo, b, o, sg)) / (2 * w)
    c.eq('C10.shaded ground: crossed strings to the shadow parts',
         got['to_gnd_shaded'], shaded)
    c.eq('C10.lit ground is the rest', got['to_gnd_illum'],
         got['to_gnd_total'] - got['to_gnd_shaded'])
    c.eq('C10.sky is the rest', got['to_sky'],
         1 - got['to_gnd_total'] - got['to_pvrow_total'])
    c.eq('C10.lit part of the neighbour is the rest',
         got['to_pvrow_illum'],
         got['to_pvrow_total'] - got['to_pvrow_shaded'])
    if o is None:
        c.eq('C10.neighbour rows: none', got['to_pvrow_total'], 0)
        c.eq('C10.shaded part of neighbours: none',
             got['to_pvrow_shaded'], 0)
        cut = c.at(arr.ts_ground.cut_point_coords[k].x, t)
        X = 100
        if d == 'flat':
            ends_ = (-X, 0), (X, 0)
        elif side == 'left':
            ends_ = (-X, 0), (M.min(X, cut), 0)
        else:
            ends_ = (M.max(-X, cut), 0), (X, 0)
        c.eq('C10.whole ground of edge rows', got['to_gnd_total'],
             crossed(*ends_))
        return
    q = [point(nb, e * s.width / 2) for e in (-1, 1)]
    c.eq('C10.neighbour rows: crossed strings', got['to_pvrow_total'],
         crossed(*q))
    S = 0
    for i, (kind, j, nm, sf) in info.items():
        if kind == 'row' and j == nb and nm == 'front' and sf.shaded:
            S = S + c.at(ends[i][1], t)
    e = (o[0] + low * S * M.cosd(r), o[1] + low * S * M.sind(r))
    c.eq('C10.shaded part of neighbours: crossed strings to the low end',
         got['to_pvrow_shaded'], crossed(e, o))
    c.eq('C10.whole ground: crossed strings between the low ends',
         got['to_gnd_total'], crossed(o, own))


def fast_totals(c):
    """lemma: the fast mode's view factor to the whole ground is the matrix
    sum over the ground between the far horizon and the row's cut point.

    The matrix sum over an extent from a (far end) to b (near end) is
    P(hi, b) - P(lo, b) - P(hi, a) + P(lo, a) over twice the length, because
    the entries telescope; `fast` proves the value the code computes."""
    if not c.sym:
        return
    from .lem import (hidden, path, dist, triangle, crossing, contained,
                      cauchy, quotient, scaled)
    M = c.M
    s = c.choice('side', [1, -1])
    c.steps()
    o, top, l, h, base, d = scene(c, s)
    what = c.choice('end', ['near', 'cut point', 'far', 'horizon', 'value',
                            'flat', 'edge'])
    w = c.num('w', 0., None, strict=True)
    g = c.num('g', 0., None, strict=True)
    D_ = lambda p, q: dist(c, p, q)
    if what == 'flat':
        # all the rows in one line: the ground takes everything
        y = c.num('y', 0., None, strict=True)
        x = c.num('x', None, None)
        p1, p2, e0, e1 = (x, y), (x + w, y), (x - g, y), (
            x + w + c.num('rest', 0., None), y)
        c.eq('C10.whole ground: flat rows see nothing else',
             D_(p1, e1) + D_(p2, e0) - D_(p1, e0) - D_(p2, e1), 2 * w)
        a, b = (c.num('a', None, None), 0), (c.num('b', None, None), 0)
        triangle(c, p2, p1, b)
        triangle(c, p1, p2, a)
        c.ok('C10.whole ground at least the matrix sum: flat',
             D_(p2, b) - D_(p1, b) - D_(p2, a) + D_(p1, a) <= 2 * w)
        return
    P = lambda p, x: path(c, p, x, o, s)
    c.eq('lemma: length of the surface', D_(l, h), w, keep='opaque')
    own = base
    if what == 'value':
        # the surface and the low end of its own row are in line
        c.eq('lemma: in line', D_(h, own), w + D_(l, own), keep=True)
        triangle(c, l, h, o)
        c.eq('C10.whole ground: near and far end',
             M.abs(D_(h, own) + D_(l, o) - D_(h, o) - D_(l, own)),
             w + D_(l, o) - D_(h, o))
        return
    if what == 'edge':
        # no neighbour: extents next to each other add up
        b = visible(c, 'b', s, base, d)
        m = (b[0] - s * g, 0)
        a = (m[0] - s * c.num('g2', 0., None, strict=True), 0)
        parts = []
        for p, q in ((a, m), (m, b), (a, b)):
            crossing(c, h, q, l, p, s)
            parts.append(M.abs(D_(h, q) + D_(l, p) - D_(h, p) - D_(l, q)))
        c.eq('C10.whole ground of edge rows: the matrix sum',
             parts[0] + parts[1], parts[2])
        return
    if what == 'cut point':
        b = (c.num('b', None, None), 0)
        c.fact((b[0] - base[0]) * d[1] + base[1] * d[0] == 0)
        for p in (h, l):
            c.ok('lemma: the cut point is seen', M.not_(hidden(b, p, o, s)))
        u = c.num('u', 0., None)
        # b = base - y0 / dy * d
        c.eq('lemma: along the row', D_(l, b) * d[1], l[1], keep='opaque')
        c.eq('lemma: along the row', D_(h, b) * d[1], h[1], keep='opaque')
        c.eq('C10.whole ground: up to the cut point',
             (D_(h, b) - D_(l, b)) * d[1], w * d[1])
        return
    b = visible(c, 'b', s, base, d)
    a = (b[0] - s * g, 0)
    x = b if what == 'near' else a
    H = {k: hidden(x, p, o, s) for k, p in (('h', h), ('l', l))}
    f = M.or_(M.not_(H['l']), H['h'])
    if c.ok('lemma: low end hidden, so high end hidden', f, keep=True):
        c.fact(f)
    pat = {k: c.split(k, [('hidden', H[k]), ('seen', M.not_(H[k]))])
           == 'hidden' for k in 'hl'}
    if what == 'near':
        if pat['l']:
            triangle(c, h, l, o)
        elif pat['h']:
            contained(c, h, b, l, o, s)
        else:
            triangle(c, h, l, b)
        c.ok('C10.whole ground at least the matrix sum: near end',
             P(h, b) - P(l, b) <= w)
        return
    if what == 'far':
        if pat['h']:
            triangle(c, l, o, a)
        else:
            crossing(c, h, a, l, o, s)
        c.ok('C10.whole ground at least the matrix sum: far end',
             P(l, a) - P(h, a) <= D_(l, o) - D_(h, o))
        return
    # horizon: the rest, at a horizontal distance X from the neighbour's low
    # end, is at most y0^2 / 2 X (nothing once it is hidden)
    y0 = o[1]
    X = s * (o[0] - a[0])
    c.fact(X > 0)
    rest = D_(l, o) - D_(h, o) - P(l, a) + P(h, a)
    if pat['l']:
        c.eq('C10.excess: nothing once the ground is hidden', rest, 0)
        return
    triangle(c, h, o, a)
    e = (l[0] - o[0], l[1] - o[1])
    cauchy(c, (l[0] - a[0], l[1] - a[1]), e)
    c.ok('lemma: l is seen', X * e[1] <= y0 * s * e[0], keep=True)
    c.ok('lemma: projection', X * s * e[0] + y0 * e[1] >= X * D_(l, o),
         keep=True)
    quotient(c, D_(l, a), D_(l, o), X * s * e[0] + y0 * e[1], X)
    c.ok('lemma: root', 2 * X * (D_(o, a) - X) <= y0 * y0, keep=True)
    scaled(c, 2 * X, rest, D_(o, a) - X, y0 * y0)
    c.ok('C10.excess: ground beyond the extent only',
         2 * X * rest <= y0 * y0)
