"""A small shapely 1.6: points, lines, polygons, collections with the operations crowddynamics uses.
Set operations collect parts; they do not compute overlays (except lines minus lines, and convex polygons without boxes
that cover one side of them). buffer() returns the bounding
boxes of the parts (of the edges, for lines) grown by the radius."""
import numpy as np


class CoordinateSequence(object):
    def __init__(self, pts):
        self._c = [tuple(float(v) for v in p) for p in pts]

    def __len__(self):
        return len(self._c)

    def __getitem__(self, i):
        return self._c[i]

    def __iter__(self):
        return iter(self._c)

    def __array__(self, dtype=None):
        return np.array(self._c, dtype=dtype or float).reshape(-1, 2)

    @property
    def xy(self):
        from array import array
        return array('d', [p[0] for p in self._c]), array('d', [p[1] for p in self._c])


class BaseGeometry(object):
    geom_type = type = 'GeometryCollection'

    def __init__(self):
        pass

    def _parts(self):
        return []

    def _points(self):
        return [p for g in self._parts() for p in g._points()]

    @property
    def is_empty(self):
        return not self._points()

    @property
    def is_valid(self):
        return True

    @property
    def bounds(self):
        pts = self._points()
        if not pts:
            return ()
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        return min(xs), min(ys), max(xs), max(ys)

    def __bool__(self):
        return not self.is_empty
    __nonzero__ = __bool__

    def _key(self):
        return (self.geom_type, tuple(g._key() for g in self._parts()))

    def __eq__(self, other):
        return type(other) is type(self) and self._key() == other._key()

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def union(self, other):
        parts = list(self._parts()) + list(other._parts())
        return collect(parts)
    __or__ = union

    def difference(self, other):
        if not isinstance(other, BaseGeometry):
            raise TypeError('not a geometry')
        mine, theirs = self._parts(), other._parts()
        if mine and theirs and all(hasattr(g, '_c') and g.geom_type != 'Point' for g in list(mine) + list(theirs)):
            return _cut_lines(mine, theirs)
        res = self
        for g in theirs if _convex(self) else []:
            if g.geom_type == 'Polygon' and _convex(res):
                res = _cut_side(res, g)
        return res
    __sub__ = difference

    def intersection(self, other):
        a, b = self.bounds, other.bounds
        if not a or not b:
            return BaseGeometry()
        if not self.is_valid or not other.is_valid:
            raise ValueError('TopologicalError: the operation could not be performed, likely due to invalidity of the geometry')
        if _convex(self) and _convex(other):
            return _clip(self, other)
        parts = []
        for g in self._parts():
            a = g.bounds
            lo = (max(a[0], b[0]), max(a[1], b[1]))
            hi = (min(a[2], b[2]), min(a[3], b[3]))
            if lo[0] < hi[0] and lo[1] < hi[1]:
                parts.append(_box(lo, hi) if g.geom_type == 'Polygon' else g)
        return collect(parts)
    __and__ = intersection

    def buffer(self, distance, resolution=16, *a, **k):
        parts = []
        for g in self._parts():
            c = g._points()
            if g.geom_type in ('LineString', 'LinearRing') and len(c) > 2:
                for (a, b), (e, f) in zip(c, c[1:]):
                    parts.append(_box((min(a, e) - distance, min(b, f) - distance), (max(a, e) + distance, max(b, f) + distance)))
                continue
            x0, y0, x1, y1 = g.bounds
            parts.append(_box((x0 - distance, y0 - distance), (x1 + distance, y1 + distance)))
        return collect(parts)

    @property
    def convex_hull(self):
        from scipy.spatial.qhull import hull_indices
        from . import Polygon, LineString, Point
        pts = self._points()
        h = [pts[i] for i in hull_indices(pts)]
        if len(h) >= 3:
            return Polygon(h)
        if len(h) == 2:
            return LineString(h)
        return Point(h[0]) if h else BaseGeometry()

    @property
    def envelope(self):
        x0, y0, x1, y1 = self.bounds
        return _box((x0, y0), (x1, y1))

    @property
    def area(self):
        return sum(g.area for g in self._parts())

    @property
    def length(self):
        return sum(g.length for g in self._parts())

    def distance(self, other):
        a, b = self._parts(), other._parts()
        return min([_distance(g, h) for g in a for h in b] or [float('inf')])

    def intersects(self, other):
        return self.distance(other) == 0.0

    def disjoint(self, other):
        return not self.intersects(other)

    def equals(self, other):
        return self == other

    def almost_equals(self, other, decimal=6):
        a, b = self._points(), other._points()
        return type(self) is type(other) and len(a) == len(b) and all(
            abs(u - v) < 0.5 * 10 ** -decimal for p, q in zip(a, b) for u, v in zip(p, q))

    def within(self, other):
        return other.contains(self)

    @property
    def centroid(self):
        from . import Point
        parts = [(w, c) for g in self._parts() for w, c in _weights(g)]
        total = float(sum(w for w, _ in parts))
        if not parts:
            return BaseGeometry()
        if not total:
            parts, total = [(1.0, p) for p in self._points()], float(len(self._points()))
        return Point(sum(w * c[0] for w, c in parts) / total, sum(w * c[1] for w, c in parts) / total)

    @property
    def boundary(self):
        return collect([r for g in self._parts() if g.geom_type == 'Polygon' for r in [g.exterior] + g.interiors])

    @property
    def __geo_interface__(self):
        from . import mapping
        return mapping(self)


def _weights(g):
    if g.geom_type == 'Point':
        return [(0.0, p) for p in g._points()]
    if g.geom_type != 'Polygon':
        return [(((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** .5, ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)) for a, b in zip(g._c, g._c[1:])]
    res = []
    for n, ring in enumerate([g.exterior] + g.interiors):
        c = ring._c
        t = [(a[0] * b[1] - a[1] * b[0], a, b) for a, b in zip(c, c[1:])]
        sign = (1 if sum(x[0] for x in t) > 0 else -1) * (-1 if n else 1)
        res += [(sign * w / 2, ((a[0] + b[0]) / 3, (a[1] + b[1]) / 3)) for w, a, b in t]
    return res


def _edges(g):
    if g.geom_type == 'Point':
        return [(p, p) for p in g._points()]
    if g.geom_type == 'Polygon':
        return [e for r in [g.exterior] + g.interiors for e in _edges(r)]
    return list(zip(g._c, g._c[1:]))


def _inside(p, g):
    res = False
    for (x0, y0), (x1, y1) in _edges(g):
        if (y0 > p[1]) != (y1 > p[1]) and p[0] < (x1 - x0) * (p[1] - y0) / (y1 - y0) + x0:
            res = not res
    return res


def _point_to_edge(p, e):
    (x0, y0), (x1, y1) = e
    d = (x1 - x0) ** 2 + (y1 - y0) ** 2
    t = max(0.0, min(1.0, ((p[0] - x0) * (x1 - x0) + (p[1] - y0) * (y1 - y0)) / d)) if d else 0.0
    return ((p[0] - x0 - t * (x1 - x0)) ** 2 + (p[1] - y0 - t * (y1 - y0)) ** 2) ** .5


def _distance(g, h):
    for a, b in ((g, h), (h, g)):
        if b.geom_type == 'Polygon' and any(_inside(p, b) for p in a._points()[:1]):
            return 0.0

    def side(p, q, r):
        return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    best = float('inf')
    for a, b in _edges(g):
        for p, q in _edges(h):
            if side(a, b, p) * side(a, b, q) < 0 and side(p, q, a) * side(p, q, b) < 0:
                return 0.0
            best = min(best, _point_to_edge(a, (p, q)), _point_to_edge(b, (p, q)), _point_to_edge(p, (a, b)), _point_to_edge(q, (a, b)))
    return best


def _turns(c):
    t = [(b[0] - a[0]) * (d[1] - b[1]) - (b[1] - a[1]) * (d[0] - b[0]) for a, b, d in zip(c, c[1:] + c[:1], c[2:] + c[:2])]
    return t


def _convex(g):
    if g.geom_type != 'Polygon' or g._holes:
        return False
    t = _turns(g._shell._c[:-1])
    x0, y0, x1, y1 = g.bounds
    eps = 1e-12 * max(x1 - x0, y1 - y0) ** 2
    return all(x >= -eps for x in t) or all(x <= eps for x in t)


def _cut_side(a, b):
    """A convex polygon without a box that covers one of its sides or all of it; other overlays are not computed."""
    (x0, y0, x1, y1), (u0, v0, u1, v1) = a.bounds, b.bounds
    if len(b._shell._c) != 5 or sorted(set(b._shell._c)) != sorted({(u0, v0), (u0, v1), (u1, v0), (u1, v1)}):
        return a
    if u0 >= x1 or u1 <= x0 or v0 >= y1 or v1 <= y0:
        return a
    wide, high = u0 <= x0 and u1 >= x1, v0 <= y0 and v1 >= y1
    if wide and high:
        return BaseGeometry()
    if high and (u0 <= x0 or u1 >= x1):
        return _clip(a, _box((u1, y0), (x1, y1)) if u0 <= x0 else _box((x0, y0), (u0, y1)))
    if wide and (v0 <= y0 or v1 >= y1):
        return _clip(a, _box((x0, v1), (x1, y1)) if v0 <= y0 else _box((x0, y0), (x1, v0)))
    return a


def _clip(a, b):
    """Overlap of two convex polygons."""
    from . import Polygon
    c, d = a._shell._c[:-1], b._shell._c[:-1]
    if sum(_turns(d)) < 0:
        d = d[::-1]
    for p, q in zip(d, d[1:] + d[:1]):
        side = [(q[0] - p[0]) * (v[1] - p[1]) - (q[1] - p[1]) * (v[0] - p[0]) for v in c]
        res = []
        for i, v in enumerate(c):
            w, sv, sw = c[(i + 1) % len(c)], side[i], side[(i + 1) % len(c)]
            if sv >= 0:
                res.append(v)
            if (sv >= 0) != (sw >= 0) and sv != 0 and sw != 0:
                s = sv / (sv - sw)
                res.append((v[0] + s * (w[0] - v[0]), v[1] + s * (w[1] - v[1])))
        c = res
    out = []
    x0, y0, x1, y1 = b.bounds
    eps = 1e-13 * max(abs(x0), abs(y0), abs(x1), abs(y1))

    def near(v, w):
        return abs(v[0] - w[0]) <= eps and abs(v[1] - w[1]) <= eps
    for v in c:
        if not out or not near(v, out[-1]):
            out.append(v)
    if len(out) > 1 and near(out[0], out[-1]):
        out.pop()
    if len(out) < 3 or not any(_turns(out)):
        return collect([])
    return Polygon(out)


def _cut_lines(mine, theirs):
    """Chains of mine without what lies on an edge of theirs."""
    from . import LineString
    edges = [e for g in theirs for e in zip(g._c, g._c[1:])]
    chains = []
    for g in mine:
        for p, q in zip(g._c, g._c[1:]):
            d = (q[0] - p[0], q[1] - p[1])
            n = d[0] * d[0] + d[1] * d[1]
            left, hit = [(0.0, 1.0)], False
            for a, b in edges:
                if n and all(abs(d[0] * (v[1] - p[1]) - d[1] * (v[0] - p[0])) <= 1e-12 * n for v in (a, b)):
                    s, t = sorted(((v[0] - p[0]) * d[0] + (v[1] - p[1]) * d[1]) / n for v in (a, b))
                    left = [i for lo, hi in left for i in ((lo, min(hi, s)), (max(lo, t), hi)) if i[0] < i[1]]

            def at(s):
                return p if s == 0.0 else q if s == 1.0 else (p[0] + s * d[0], p[1] + s * d[1])
            for lo, hi in left:
                if chains and chains[-1][-1] == at(lo):
                    chains[-1].append(at(hi))
                else:
                    chains.append([at(lo), at(hi)])
    return collect([LineString(c) for c in chains])


def _box(lo, hi):
    from . import Polygon
    return Polygon([(lo[0], lo[1]), (hi[0], lo[1]), (hi[0], hi[1]), (lo[0], hi[1])])


def collect(parts):
    from . import MultiPoint, MultiLineString, MultiPolygon, GeometryCollection
    parts = list(parts)
    if len(parts) == 1:
        return parts[0]
    if not parts:
        return GeometryCollection([])
    kinds = {g.geom_type for g in parts}
    if kinds <= {'LineString', 'LinearRing'}:
        return MultiLineString(parts)
    if kinds == {'Polygon'}:
        return MultiPolygon(parts)
    if kinds == {'Point'}:
        return MultiPoint(parts)
    return GeometryCollection(parts)


class BaseMultipartGeometry(BaseGeometry):
    def __init__(self, geoms=()):
        self._geoms = [self._make(g) for g in geoms]

    @staticmethod
    def _make(g):
        return g

    def _parts(self):
        return self._geoms

    @property
    def geoms(self):
        return self._geoms

    def __iter__(self):
        return iter(self._geoms)

    def __len__(self):
        return len(self._geoms)

    def __getitem__(self, i):
        return self._geoms[i]
