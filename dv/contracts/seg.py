"""C21 for all inputs: point-in-time subtraction, casting and cutting on a
line of any direction, on a contract of shapely (dv/shape.py).

Precondition: positions that are not the same are at least GAP apart (the
code compares positions with the tolerance 1e-8).  The states of a side are
those of `State`; `start` proves that a new side is one, `cast` and `cut`
that each operation leads from any state to the right one, hence for every
sequence of operations."""
import itertools

from .pits import shapely

GAP = 1e-6
TOL = 1e-8


def modular(h):
    h.modular = True
    return h


class Line:
    def __init__(self, c, flip=False):
        M = c.M
        a = c.angle('direction', -360., 360.)
        big = (None, None) if c.sym else (-20., 20.)
        self.o = (c.num('ox', *big), c.num('oy', *big))
        self.u = (M.cosd(a), M.sind(a))
        if c.sym:
            from .. import shape
            shape.on((self.o, self.u), flip)

    def at(self, s):
        return (self.o[0] + s * self.u[0], self.o[1] + s * self.u[1])

    def of(self, p):
        return (p[0] - self.o[0]) * self.u[0] + \
            (p[1] - self.o[1]) * self.u[1]

    def interval(self, c, name, g):
        co = list(g.coords)
        c.same(name + ': a segment', len(co), 2)
        for p in co:
            off = (p[0] - self.o[0]) * self.u[1] - \
                (p[1] - self.o[1]) * self.u[0]
            c.eq(name + ': on the line', off, 0.)
        a, b = self.of(co[0]), self.of(co[1])
        return (a, b) if bool(a <= b) else (b, a)


def ascending(c, nm, n):
    """n positions, each at least GAP after the one before"""
    x = c.num(nm + '0', None, None) if c.sym else c.num(nm + '0', -9., 9.)
    out = [x]
    for i in range(1, n):
        x = x + (c.num('%s%d' % (nm, i), GAP, None) if c.sym else
                 c.num('%s%d' % (nm, i), .001, 3.))
        out.append(x)
    return out


def weak_orders(n, differ):
    out = []
    for r in itertools.product(range(n), repeat=n):
        if set(r) == set(range(max(r) + 1)) and \
                all(r[i] != r[j] for i, j in differ):
            out.append(r)
    return out


def insort(c, ivs):
    out = []
    for x in ivs:
        k = 0
        while k < len(out) and (
                bool(out[k][0] < x[0]) or bool(out[k][0] == x[0])
                and bool(out[k][1] <= x[1])):
            k += 1
        out.insert(k, x)
    return out


def same(c, name, got, want, tol=0.):
    """same intervals; the ends may be off by the tolerance"""
    got = insort(c, got)
    if c.sym or tol:
        c.same(name + ': number of pieces', len(got), len(want))
    for g, w in zip(got, want):
        for x, y in zip(g, w):
            if not tol:
                c.eq(name, x, y)
            else:
                d = tol if c.sym else tol * 2
                c.ok(name, c.M.and_(x - y <= d, y - x <= d))


@modular
@shapely
def difference(c):
    """C21: u - v, for segments of a line in any relative position"""
    from shapely.geometry import LineString
    from pvfactors.geometry.utils import difference as diff
    from pvfactors.geometry.base import PVSurface
    c.steps(1)
    order = c.choice('order', weak_orders(4, [(0, 1), (2, 3)]))
    ln = Line(c)
    xs = ascending(c, 'x', max(order) + 1)
    a, b, p, q = order
    lo, hi = min(a, b), max(a, b)
    vl, vh = min(p, q), max(p, q)
    want = []
    if vh <= lo or hi <= vl:
        want = [(lo, hi)]
    else:
        want = [(lo, vl)] * (lo < vl) + [(vh, hi)] * (vh < hi)
    want = [(xs[i], xs[j]) for i, j in want]
    E = [ln.at(xs[i]) for i in order]
    v = LineString([E[2], E[3]])
    for nm, u in (('difference', LineString([E[0], E[1]])),
                  ('surface difference', PVSurface([E[0], E[1]]))):
        r = diff(u, v) if nm == 'difference' else u.difference(v)
        gs = [] if r.is_empty else list(r.geoms) if hasattr(
            r, 'geoms') else [r]
        same(c, 'C21.' + nm, [ln.interval(c, 'C21.' + nm, g) for g in gs],
             want)


NAMES = ['q', 'z']


class State:
    """a side of k segments, one after the other, each a sequence of lit and
    shaded pieces; lit pieces end where the pieces meet, shaded ones reach
    beyond by at most the tolerance; there may be shaded slivers, within the
    tolerance of an end of a piece (a shadow that only touches leaves one)"""

    def __init__(self, c, ln, sizes, kinds, back, turned, sliver=None):
        from pvfactors.geometry.base import (PVSurface, ShadeCollection,
                                             PVSegment, BaseSide)
        m = sum(sizes)
        self.xs = ascending(c, 'x', m + 1)
        rng = (None, None) if c.sym else (-2., 2.)
        f = c.num('normal', *rng)
        self.normal = (-f * ln.u[1], f * ln.u[0])
        segs, self.pieces = [], []
        j = 0
        for k, n in enumerate(sizes):
            cols = {False: [], True: []}
            for i in range(n):
                sh = kinds[j]
                a, b = self.xs[j], self.xs[j + 1]
                if sh:
                    a = a - self.over(c, 'e%d' % j)
                    b = b + self.over(c, 'f%d' % j)
                E = [ln.at(a), ln.at(b)]
                if turned:
                    E.reverse()
                s = PVSurface(E, normal_vector=list(self.normal), shaded=sh,
                              index=j, param_names=list(NAMES))
                self.pieces.append((k, sh, j, s, (a, b)))
                cols[sh].append(s)
                j += 1
                if sliver is not None and sliver in (j - 1, j) and not any(
                        p[2] is None for p in self.pieces):
                    z = self.xs[sliver]
                    a, b = z - self.over(c, 'u'), z + self.over(c, 'v')
                    c.fact(b - a > 0)
                    s = PVSurface([ln.at(a), ln.at(b)], shaded=True,
                                  normal_vector=list(self.normal),
                                  param_names=list(NAMES))
                    self.pieces.append((k, True, None, s, (a, b)))
                    cols[True].append(s)
            for sh in cols:
                if back:
                    cols[sh].reverse()
            segs.append(PVSegment(
                ShadeCollection(cols[False], shaded=False,
                                param_names=list(NAMES)),
                ShadeCollection(cols[True], shaded=True,
                                param_names=list(NAMES)), index=k))
        self.side = BaseSide(segs)
        self.sizes = sizes

    @staticmethod
    def over(c, nm):
        return c.num(nm, 0., TOL)


def place(c, nm, st, k, other=None):
    """a position in slot k: 0 before all, 1 at the first end of a piece, 2
    between it and the next, and so on (odd: an end of a piece; even: between two, at
    least GAP away from both, and from `other` if in the same slot)"""
    xs = st.xs
    if k % 2:
        return xs[k // 2]
    lo = xs[k // 2 - 1] if k else None
    if other is not None:
        lo = other
    hi = xs[k // 2] if k // 2 < len(xs) else None
    if c.sym:
        if lo is None:
            return hi - c.num(nm, GAP, None)
        x = lo + c.num(nm, GAP, None)
        if hi is not None:
            c.fact(x <= hi - GAP)
        return x
    f = c.num(nm, .1, .8)
    return hi - f if lo is None else lo + f if hi is None else \
        lo + f * (hi - lo)


def current(c, ln, st):
    """[(segment number, shaded, surface, interval)]"""
    out = []
    for k, seg in enumerate(st.side.list_segments):
        for sh, col in ((False, seg.illum_collection),
                        (True, seg.shaded_collection)):
            c.same('C21.shading flag', bool(col.shaded), sh)
            for s in col.list_surfaces:
                out.append((k, sh, s, ln.interval(c, 'C21.surface', s)))
    return out


def integrity(c, ln, st, now):
    """flags, normals, names, lengths, lists of surfaces"""
    side = st.side
    c.same('C21.number of segments', len(side.list_segments), len(st.sizes))
    c.same('C21.list of surfaces is up to date',
           sorted(map(id, side.all_surfaces)),
           sorted(id(s) for _, _, s, _ in now))
    c.same('C21.list of surfaces is up to date', side.n_surfaces, len(now))
    for k, sh, s, _ in now:
        c.same('C21.shading flag', bool(s.shaded), sh)
        c.same('C21.parameter names', list(s.param_names), NAMES)
        c.same('C21.parameter names', sorted(s.params), sorted(NAMES))
        for z in (0, 1):
            c.eq('C21.normal', s.n_vector[z], st.normal[z])
    tot, j = 0., 0
    for k, seg in enumerate(side.list_segments):
        mine = [(sh, b - a) for q, sh, _, (a, b) in now if q == k]
        c.eq('C21.length of a segment is that of its surfaces', seg.length,
             sum((d for _, d in mine), 0.))
        c.eq('C21.shaded length of a segment', seg.shaded_length,
             sum((d for sh, d in mine if sh), 0.))
        whole = st.xs[j + st.sizes[k]] - st.xs[j]
        d = seg.length - whole
        # every shaded piece reaches at most 2 TOL beyond
        most = 2 * TOL * sum(sh for sh, _ in mine) + (0 if c.sym else 1e-9)
        c.ok('C21.segment length is conserved', c.M.and_(
            d >= (0 if c.sym else -1e-9), d <= most))
        j += st.sizes[k]
        tot = tot + seg.shaded_length
    c.eq('C21.shaded length of the side', side.shaded_length, tot)
    d = side.length - (st.xs[-1] - st.xs[0])
    c.ok('C21.length of the side', c.M.and_(
        d >= (0 if c.sym else -1e-9), d <= 2 * TOL * (len(now) + 2)))


def layout(c, sizes, some=None, slivers=False):
    """lit/shaded pattern and the directions"""
    m = sum(sizes)
    kinds = c.choice('pieces', list(itertools.product((False, True),
                                                      repeat=m)))
    sliver = c.choice('sliver', [None] + list(range(m + 1))
                      if slivers else [None])
    way = c.choice('directions', some or list(itertools.product(
        (False, True), repeat=4)))
    return kinds, way, sliver


FEW = [(False, False, False, False), (True, True, True, True),
       (False, True, False, True), (True, False, False, True)]


@modular
@shapely
def cast(c, sizes=(2,), few=False, slivers=False):
    """C21: casting a shadow on a side, from any state"""
    from shapely.geometry import LineString
    c.steps(1)
    sizes = tuple(sizes)
    kinds, (back, turned, flip, rev), sliver = layout(
        c, sizes, FEW if few else None, slivers)
    ln = Line(c, flip)
    st = State(c, ln, sizes, kinds, back, turned, sliver)
    n = 2 * len(st.xs) + 1
    i, j = c.choice('shadow', [(i, j) for i in range(n) for j in range(n)
                               if i < j or i == j and not i % 2])
    if i == j == 0:
        hi = place(c, 'hi', st, 0)
        lo = hi - c.num('lo', *((GAP, None) if c.sym else (.1, .8)))
    else:
        lo = place(c, 'lo', st, i)
        hi = place(c, 'hi', st, j, lo if i == j else None)
    E = [ln.at(lo), ln.at(hi)]
    st.side.cast_shadow(LineString(E[::-1] if rev else E))
    now = current(c, ln, st)
    integrity(c, ln, st, now)
    at = 0
    for k, size in enumerate(sizes):
        lit, run, runs = [], None, []
        dark = [(s, iv) for z, sh, _, s, iv in st.pieces if z == k and sh]
        for q in range(at, at + size):
            sh = kinds[q]
            a, b = 2 * q + 1, 2 * q + 3      # slots of its ends
            if sh:
                run = None
                continue
            # part of the piece in the shadow, in slots
            u, v = max(a, i), min(b, j)
            if u > v or u == v and u % 2:
                lit.append((st.xs[q], st.xs[q + 1]))
                run = None
                continue
            U = st.xs[q] if a >= i else lo
            V = st.xs[q + 1] if b <= j else hi
            if a < i:
                lit.append((st.xs[q], lo))
                run = None
            if b > j:
                lit.append((hi, st.xs[q + 1]))
            if run is None:
                run = [U, V]
                runs.append(run)
            else:
                run[1] = V
        got = [(sh, s, iv) for z, sh, s, iv in now if z == k]
        same(c, 'C21.lit part of the segment',
             [iv for sh, s, iv in got if not sh], lit)
        old = set(id(s) for s, _ in dark)
        kept = [(s, iv) for sh, s, iv in got if sh and id(s) in old]
        c.same('C21.shaded surfaces stay', sorted(id(s) for s, _ in kept),
               sorted(old))
        where = {id(s): iv for s, iv in dark}
        for s, iv in kept:
            for z in (0, 1):
                c.eq('C21.shaded surfaces stay', iv[z], where[id(s)][z])
        new = [iv for sh, s, iv in got if sh and id(s) not in old]
        tiny = [iv for iv in new if bool(iv[1] - iv[0] <= 2 * TOL)]
        for u, v in tiny:       # where the shadow only touches
            c.ok('C21.shadow on the segment', c.M.or_(*[c.M.and_(
                z - TOL * 2 <= u, v <= z + TOL * 2) for z in st.xs]))
        same(c, 'C21.shadow on the segment',
             [iv for iv in new if iv not in tiny], runs, TOL)
        at += size


@modular
@shapely
def cut(c, sizes=(2,), few=False, slivers=True):
    """C21: cutting a side at a point, from any state"""
    from shapely.geometry import Point
    c.steps(1)
    sizes = tuple(sizes)
    kinds, (back, turned, flip, _), sliver = layout(
        c, sizes, FEW if few else [x + (False,) for x in itertools.product(
            (False, True), repeat=3)], slivers)
    ln = Line(c, flip)
    st = State(c, ln, sizes, kinds, back, turned, sliver)
    i = c.choice('point', list(range(2 * len(st.xs) + 1)))
    x = place(c, 'at', st, i)
    st.side.cut_at_point(Point(*ln.at(x)))
    now = current(c, ln, st)
    integrity(c, ln, st, now)
    for k in range(len(sizes)):
        for sh in (False, True):
            want = []
            for z, f, q, s, iv in st.pieces:
                if (z, f, q) == (k, sh, None):
                    want.append(iv)
                elif (z, f) == (k, sh):
                    a, b = 2 * q + 1, 2 * q + 3
                    want += [(iv[0], x), (x, iv[1])] if a < i < b else [iv]
            want = insort(c, want)
            same(c, 'C21.cut: pieces', [iv for z, f, _, iv in now
                                        if (z, f) == (k, sh)], want)
    ids = set(id(s) for _, _, s, _ in now)
    gone = [q for _, _, q, s, _ in st.pieces if id(s) not in ids]
    c.same('C21.cut: the surfaces not cut stay', gone, [
        q for _, _, q, s, _ in st.pieces
        if q is not None and 2 * q + 1 < i < 2 * q + 3])


@modular
@shapely
def start(c, n=2, rows=True):
    """C21: a new side is a state: n equal segments, all lit or shaded"""
    from pvfactors.geometry.pvrow import PVRow
    c.steps(1)
    sh = c.choice('shaded', [False, True])
    ln = Line(c)
    L = c.num('length', GAP, None) if c.sym else c.num('length', .1, 5.)
    f = c.choice('normal', [None, 1., -1.])
    nv = None if f is None else [-f * ln.u[1], f * ln.u[0]]
    row = PVRow.from_linestring_coords(
        [ln.at(0.), ln.at(L)], shaded=sh, normal_vector=nv, index=3,
        cut={'front': n, 'back': n + 1}, param_names=list(NAMES))
    for side, k, sg in ((row.front, n, 1.), (row.back, n + 1, -1.)):
        st = State.__new__(State)
        st.side, st.sizes = side, (1,) * k
        st.xs = [L * i / k for i in range(k + 1)]
        now = current(c, ln, st)
        c.same('C21.new side: one surface per segment',
               [(a, b) for a, b, _, _ in now],
               [(i, sh) for i in range(k)])
        same(c, 'C21.new side: pieces', [iv for _, _, _, iv in now],
             [(st.xs[i], st.xs[i + 1]) for i in range(k)])
        g = sg if f is None else sg * f
        # (a normal that is not given is as long as the surface)
        for _, _, s, _ in now:
            c.eq('C21.new side: normal direction',
                 s.n_vector[0] * ln.u[0] + s.n_vector[1] * ln.u[1], 0.)
            d = -s.n_vector[0] * ln.u[1] + s.n_vector[1] * ln.u[0]
            c.ok('C21.new side: normal direction', g * d > 0)
            c.same('C21.parameter names', list(s.param_names), NAMES)
            c.same('C21.shading flag', bool(s.shaded), sh)
        c.eq('C21.length of the side', side.length, L)
