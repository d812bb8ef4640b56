"""C21: subtraction, shadow casting and cutting on collinear segments."""


def clean(iv):
    return [(a, b) for a, b in iv if b - a > 1e-6]


def minus(a, b, lo, hi):
    """[a, b] without [lo, hi]"""
    if hi <= a or b <= lo:
        return clean([(a, b)])
    return clean([(a, min(b, lo)), (max(a, hi), b)])


class Line:
    """a line in the plane, addressed by a coordinate along it"""

    def __init__(self, c):
        import math
        a = math.radians(c.num('angle', 0., 180., special=(0., 90., 30.)))
        self.o = (c.num('ox', -20., 20.), c.num('oy', -5., 5.))
        self.u = (math.cos(a), math.sin(a))

    def at(self, x):
        return (self.o[0] + x * self.u[0], self.o[1] + x * self.u[1])

    def of(self, p):
        return (p[0] - self.o[0]) * self.u[0] + \
            (p[1] - self.o[1]) * self.u[1]

    def ivs(self, c, name, geom):
        """intervals of a (multi-)line geometry"""
        out = []
        if geom.is_empty:
            return out
        gs = geom.geoms if hasattr(geom, 'geoms') else [geom]
        for g in gs:
            co = [self.of(p) for p in g.coords]
            c.same(name + ' is a segment', len(co), 2)
            for p in g.coords:
                q = self.at(self.of(p))
                c.eq(name + ' stays on the line', p[0], q[0])
                c.eq(name + ' stays on the line', p[1], q[1])
            out.append((min(co), max(co)))
        return sorted(out)


def same_ivs(c, name, got, want):
    got = clean(got)
    c.same(name + ': number of pieces', len(got), len(want))
    for g, w in zip(got, want):
        c.eq(name, g[0], w[0], 1e-6)
        c.eq(name, g[1], w[1], 1e-6)


def positions(c, name, n, lo=0., hi=10.):
    """points with forced coincidences"""
    pts = []
    for i in range(n):
        x = c.num('%s%d' % (name, i), lo, hi)
        k = c.choice('%s same %d' % (name, i), [-1, -1] + list(range(i)))
        pts.append(pts[k] if 0 <= k < i else x)
    c.inputs['%s points' % name] = pts
    return pts


def difference(c):
    """u - v for all relative positions"""
    from shapely.geometry import LineString
    from pvfactors.geometry.utils import difference as diff
    from pvfactors.geometry.base import PVSurface
    c.steps(1)
    ln = Line(c)
    a, b, p, q = positions(c, 'x', 4)
    pts = sorted((a, b, p, q))
    # precondition: segments are not degenerate, and end points that do not
    # coincide are farther apart than the tolerance
    c.fact(abs(a - b) > 1e-6 and abs(p - q) > 1e-6)
    c.fact(all(y == x or y - x > 1e-6 for x, y in zip(pts, pts[1:])))
    u = LineString([ln.at(a), ln.at(b)])
    v = LineString([ln.at(p), ln.at(q)])
    want = minus(min(a, b), max(a, b), min(p, q), max(p, q))
    same_ivs(c, 'C21.difference', ln.ivs(c, 'C21.difference', diff(u, v)),
             want)
    s = PVSurface([ln.at(a), ln.at(b)])
    same_ivs(c, 'C21.surface difference',
             ln.ivs(c, 'C21.surface difference', s.difference(v)), want)


def union(ivs):
    out = []
    for a, b in sorted(ivs):
        if out and a <= out[-1][1] + 1e-7:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def surfaces(side):
    out = []
    for seg in side.list_segments:
        for sh, col in ((False, seg.illum_collection),
                        (True, seg.shaded_collection)):
            for x in col.list_surfaces:
                out.append((seg, sh, x))
    return out


def casts(c, n=3, steps=3):
    """sequences of casts and cuts on a side"""
    from shapely.geometry import LineString, Point
    from pvfactors.geometry.pvrow import PVRow
    c.steps(1)
    ln = Line(c)
    L = c.num('length', 1., 8.)
    names = ['q', 'z']
    row = PVRow.from_linestring_coords([ln.at(0.), ln.at(L)],
                                       cut={'front': n, 'back': 1},
                                       param_names=names, index=0)
    which = c.choice('side', ['front', 'back'])
    side = getattr(row, which)
    normal = [float(x) for x in side.n_vector]
    k = len(side.list_segments)
    lit = [[(i * L / k, (i + 1) * L / k)] for i in range(k)]
    dark = [[] for i in range(k)]
    cutp = []
    used = [0., L] + [i * L / k for i in range(k + 1)]
    len(side.all_surfaces)

    def point(nm):
        # precondition: distinct points are farther apart than the tolerance
        x = c.num(nm, -.2 * L, 1.2 * L)
        j = c.choice(nm + ' same', [-1, -1, -1] + list(range(len(used))))
        if 0 <= j < len(used):
            x = used[j]
        c.fact(all(x == y or abs(x - y) > 1e-5 for y in used))
        used.append(x)
        return x
    for i in range(steps):
        op = c.choice('op%d' % i, ['cast', 'cast', 'cut'])
        if op == 'cast':
            a, b = point('a%d' % i), point('b%d' % i)
            c.fact(abs(a - b) > 1e-5)
            lo, hi = min(a, b), max(a, b)
            side.cast_shadow(LineString([ln.at(a), ln.at(b)]))
            for j in range(k):
                moved = [(max(x, lo), min(y, hi)) for x, y in lit[j]
                         if min(y, hi) - max(x, lo) > 1e-6]
                lit[j] = [z for x, y in lit[j] for z in minus(x, y, lo, hi)]
                dark[j] = sorted(dark[j] + moved)
        else:
            x = point('p%d' % i)
            before = [(seg, sh, list(map(ln.of, s.coords)))
                      for seg, sh, s in surfaces(side)]
            side.cut_at_point(Point(*ln.at(x)))
            want = []
            done = set()
            for seg, sh, co in before:
                a, b = min(co), max(co)
                if a + 1e-6 < x < b - 1e-6 and (id(seg)) not in done:
                    want += [(id(seg), sh, a, x), (id(seg), sh, x, b)]
                    done.add(id(seg))
                else:
                    want.append((id(seg), sh, a, b))
            got = []
            for seg, sh, s in surfaces(side):
                co = list(map(ln.of, s.coords))
                got.append((id(seg), sh, min(co), max(co)))
            key = lambda w: (w[0], w[1], round(w[2], 4), w[3])
            want = sorted((w for w in want if w[3] - w[2] > 1e-6), key=key)
            got = sorted((w for w in got if w[3] - w[2] > 1e-6), key=key)
            c.same('C21.cut: number of pieces', len(got), len(want))
            for g, w in zip(got, want):
                c.same('C21.cut: segment and shading', g[:2], w[:2])
                c.eq('C21.cut: piece', g[2], w[2], 1e-6)
                c.eq('C21.cut: piece', g[3], w[3], 1e-6)
            for j in range(k):
                lit[j] = [z for a, b in lit[j] for z in (
                    [(a, x), (x, b)] if a + 1e-6 < x < b - 1e-6
                    else [(a, b)])]
        c.same('C21.list of surfaces is up to date',
               sorted(map(id, side.all_surfaces)),
               sorted(id(x) for _, _, x in surfaces(side)))
        tot = 0.
        for j, seg in enumerate(side.list_segments):
            got = dict(lit=[], dark=[])
            for sg, sh, s in surfaces(side):
                if sg is not seg:
                    continue
                c.same('C21.shading flag', bool(s.shaded), sh)
                c.same('C21.parameter names', list(s.param_names), names)
                for z in (0, 1):
                    c.eq('C21.normal', s.n_vector[z], normal[z], 1e-6)
                got['dark' if sh else 'lit'] += ln.ivs(c, 'C21.surface', s)
            for w, ref in (('lit', lit[j]), ('dark', dark[j])):
                same_ivs(c, 'C21.%s part of the segment' % w,
                         union(got[w]), clean(union(ref)))
                # no piece overlaps another
                c.eq('C21.%s length' % w, sum(b - a for a, b in got[w]),
                     sum(b - a for a, b in union(ref)), 1e-6)
            c.eq('C21.segment length is conserved', seg.length, L / k, 1e-6)
            c.eq('C21.shaded length of the segment', seg.shaded_length,
                 sum(b - a for a, b in union(dark[j])), 1e-6)
            tot += seg.shaded_length
        c.eq('C21.length is conserved', side.length, L, 1e-6)
        c.eq('C21.shaded length of the side', side.shaded_length, tot, 1e-6)


def separate(c):
    """segments built with default collections share nothing"""
    from shapely.geometry import LineString
    from pvfactors.geometry.base import PVSegment, ShadeCollection
    c.steps(1)
    L = c.num('length', 1., 8.)
    f = c.num('part', .1, 1.)

    def new(x):
        return PVSegment(ShadeCollection.from_linestring_coords(
            [(x, 0.), (x + L, 0.)], shaded=False))
    a, b = new(0.), new(20.)
    a.cast_shadow(LineString([(-1., 0.), (f * L, 0.)]))
    c.eq('C21.shadow on its segment', a.shaded_length, f * L, 1e-6)
    c.eq('C21.length is conserved', a.length, L, 1e-6)
    for o in (b, new(40.)):
        c.eq('C21.no shadow on another segment', o.shaded_length, 0., 1e-6)
        c.eq('C21.length of another segment', o.length, L, 1e-6)
