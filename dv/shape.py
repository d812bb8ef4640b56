"""A contract for shapely, as a stand-in package.

pvfactors' point-in-time geometry is written on shapely (C++).  For the
contracts that need it, the pvfactors modules are imported once more, from the
same source files, with this stand-in in place of shapely: points with
symbolic coordinates, straight lines between two points, and collections.
Distances, buffers and intersections are only defined between parts of one
line (`on`), which is what the code uses them for; everything else that real
shapely offers raises Unsupported, which is no verdict.

Assumed of shapely: end points, lengths and distances are exact; boundary
lists the first and the last point; the buffer of a set of segments of a line
cut by a segment of that line is the set of points within the radius, as
maximal disjoint segments (their direction is a parameter); a collection is a
snapshot of the geometries it was built from."""
import sys
import types

import numpy as np

LINE = None
FLIP = False
REAL = {}


def on(line, flip=False):
    """the line on which distances and intersections are taken"""
    global LINE, FLIP
    LINE, FLIP = line, flip


def unsupported(what):
    from . import terms as T
    raise T.Unsupported('shapely: ' + what)


def unbox(v):
    if isinstance(v, np.ndarray):
        if v.ndim:
            unsupported('array coordinate')
        v = v.item()
    return v


def xy(p):
    if isinstance(p, Point):
        return p._p
    if len(p) != 2:
        unsupported('coordinates')
    return (unbox(p[0]), unbox(p[1]))


def along(p):
    """position on the line; the point must be on it identically"""
    if LINE is None:
        unsupported('relation between geometries off a line')
    (ox, oy), (ux, uy) = LINE
    dx, dy = p[0] - ox, p[1] - oy
    off = dx * uy - dy * ux
    if not zero(off):
        unsupported('point off the line')
    return dx * ux + dy * uy


def zero(x):
    """identically zero"""
    from . import terms as T
    return T.provably_zero(T.lift(x))


def point_at(s):
    (ox, oy), (ux, uy) = LINE
    return (ox + s * ux, oy + s * uy)


class Geom:
    _kind = None

    def __getattr__(self, name):
        real = REAL.get(self._kind)
        if not name.startswith('__') and real is not None and \
                hasattr(real, name):
            unsupported('%s.%s' % (self._kind, name))
        raise AttributeError(name)

    def __reduce_ex__(self, *a):
        unsupported('pickle or copy')

    def __bool__(self):
        return not self.is_empty

    def intervals(self):
        """[(low, high)] on the line"""
        out = []
        for a, b in self._segments():
            s, t = along(a), along(b)
            out.append((s, t) if bool(s <= t) else (t, s))
        return out

    def distance(self, other):
        if not isinstance(other, Point):
            unsupported('distance to %s' % type(other).__name__)
        s = along(other._p)
        best = None
        if isinstance(self, Point):
            iv = [(along(self._p),) * 2]
        else:
            iv = self.intervals()
        for lo, hi in iv:
            d = lo - s if bool(s < lo) else s - hi if bool(s > hi) else 0
            if best is None or bool(d < best):
                best = d
        if best is None:
            unsupported('distance of an empty geometry')
        return best

    def buffer(self, r, *a, **k):
        return Buffer(self.intervals(), r)

    @property
    def length(self):
        out = 0
        for a, b in self._segments():
            out = out + separation(a, b)
        return out

    @property
    def is_empty(self):
        return not self._segments()


def separation(a, b):
    if LINE is not None:
        s, t = along(a), along(b)
        return t - s if bool(s <= t) else s - t
    from . import sym
    return sym.NP.sqrt((b[1] - a[1]) ** 2 + (b[0] - a[0]) ** 2)


class Point(Geom):
    _kind = 'Point'

    def __init__(self, *a):
        if len(a) == 1:
            a = a[0]
            a = a._p if isinstance(a, Point) else a
        self._p = xy(a)

    x = property(lambda self: self._p[0])
    y = property(lambda self: self._p[1])
    coords = property(lambda self: [self._p])
    is_empty = False

    def _segments(self):
        unsupported('point in a collection')


class LineString(Geom):
    _kind = 'LineString'

    def __init__(self, coords=None):
        if isinstance(coords, LineString):
            coords = coords.coords
        pts = [] if coords is None else [xy(p) for p in coords]
        if len(pts) not in (0, 2):
            unsupported('line through %d points' % len(pts))
        self._pts = pts

    @property
    def coords(self):
        return list(self._pts)

    def _segments(self):
        return [tuple(self._pts)] if self._pts else []

    @property
    def boundary(self):
        if not self._pts:
            return MultiPoint([])
        a, b = self._pts
        if LINE is not None:
            if bool(along(a) == along(b)):
                return MultiPoint([])
        return MultiPoint([Point(a), Point(b)])

    @property
    def centroid(self):
        a, b = self._pts
        return Point((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)

    def interpolate(self, f, normalized=False):
        a, b = self._pts
        if not normalized:
            unsupported('interpolate by distance')
        return Point(a[0] + f * (b[0] - a[0]), a[1] + f * (b[1] - a[1]))


class Multi(Geom):
    def __init__(self, geoms=None):
        gs = [] if geoms is None else list(geoms)
        self._geoms = gs
        self._geom = snapshot(gs)
        self._ndim = 2

    @property
    def geoms(self):
        unsupported('parts of a collection') if not self._geoms else None
        return list(self._geoms)

    def __iter__(self):
        return iter(self.geoms)

    def __len__(self):
        return len(self._geoms)

    def _segments(self):
        return list(self._geom)


def snapshot(gs):
    out = []
    for g in gs:
        if not isinstance(g, Geom):
            unsupported('collection of %s' % type(g).__name__)
        out += g._segments()
    return out


class MultiLineString(Multi):
    _kind = 'MultiLineString'

    def __init__(self, lines=None):
        super().__init__([x if isinstance(x, LineString) else LineString(x)
                          for x in lines or []])


class MultiPoint(Multi):
    _kind = 'MultiPoint'

    def __init__(self, pts):
        self._geoms = list(pts)

    def __getitem__(self, i):
        return self._geoms[i]

    geoms = property(lambda self: list(self._geoms))
    is_empty = property(lambda self: not self._geoms)


class GeometryCollection(Multi):
    _kind = 'GeometryCollection'


class Buffer(Geom):
    _kind = 'Polygon'

    def __init__(self, iv, r):
        done = []
        for lo, hi in iv:
            lo, hi = lo - r, hi + r
            k = 0
            while k < len(done) and bool(done[k][0] <= lo):
                k += 1
            done.insert(k, (lo, hi))
        out = []
        for lo, hi in done:
            if out and bool(lo <= out[-1][1]):
                a, b = out[-1]
                out[-1] = (a, hi if bool(b <= hi) else b)
            else:
                out.append((lo, hi))
        self._iv = out

    is_empty = property(lambda self: not self._iv)

    def _segments(self):
        unsupported('polygon in a collection')

    def common(self, line):
        out = []
        for lo, hi in line.intervals():
            for a, b in self._iv:
                x = a if bool(lo <= a) else lo
                y = b if bool(b <= hi) else hi
                if bool(x <= y):
                    out.append((x, y))
        return out

    def intersects(self, line):
        return bool(self.common(line))

    def intersection(self, line):
        parts = []
        for a, b in self.common(line):
            if bool(a == b):
                unsupported('intersection in one point')
            a, b = point_at(a), point_at(b)
            parts.append(LineString([b, a] if FLIP else [a, b]))
        if len(parts) == 1:
            return parts[0]
        return MultiLineString(parts) if parts else LineString()


def collection_from_py(gs):
    return snapshot(gs), 2


def modules():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)

        def missing(n):
            if n.startswith('__'):
                raise AttributeError(n)
            unsupported('%s.%s' % (name, n))
        m.__getattr__ = missing
        return m
    g = dict(Point=Point, LineString=LineString,
             MultiLineString=MultiLineString, MultiPoint=MultiPoint,
             GeometryCollection=GeometryCollection)
    top = mod('shapely')
    top.__path__ = []
    geo = mod('shapely.geometry', **g)
    geo.__path__ = []
    col = mod('shapely.geometry.collection',
              GeometryCollection=GeometryCollection,
              geos_geometrycollection_from_py=collection_from_py)
    ops = mod('shapely.ops', linemerge=lambda *a: unsupported('linemerge'))
    geos = mod('shapely.geos', lgeos=None)
    top.geometry, top.ops, top.geos, geo.collection = geo, ops, geos, col
    return {'shapely': top, 'shapely.geometry': geo,
            'shapely.geometry.collection': col, 'shapely.ops': ops,
            'shapely.geos': geos}


class Reload:
    """pvfactors imported from its sources on the stand-in"""

    def __init__(self, active=True):
        self.active = active

    def __enter__(self):
        if not self.active:
            return self
        import shapely.geometry as sg
        if not REAL:
            for k in ('Point', 'LineString', 'MultiLineString', 'MultiPoint',
                      'GeometryCollection', 'Polygon'):
                REAL[k] = getattr(sg, k)
        mine = lambda k: k.split('.')[0] in ('pvfactors', 'shapely')
        self.saved = {k: m for k, m in sys.modules.items() if mine(k)}
        for k in self.saved:
            del sys.modules[k]
        sys.modules.update(modules())
        return self

    def __exit__(self, *a):
        if not self.active:
            return
        on(None)
        for k in [k for k in sys.modules
                  if k.split('.')[0] in ('pvfactors', 'shapely')]:
            del sys.modules[k]
        sys.modules.update(self.saved)
