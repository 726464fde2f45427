import numpy as np

from .base import BaseGeometry, BaseMultipartGeometry, CoordinateSequence, collect  # noqa


def _pt(p):
    if isinstance(p, Point):
        return p.coords[0]
    return tuple(float(v) for v in p)


class Point(BaseGeometry):
    geom_type = type = 'Point'

    def __init__(self, *args):
        if not args:
            self._c = []
        else:
            self._c = [_pt(args[0] if len(args) == 1 else args)]

    def _parts(self):
        return [self]

    def _points(self):
        return self._c

    def _key(self):
        return ('Point', tuple(self._c))

    @property
    def coords(self):
        return CoordinateSequence(self._c)

    @property
    def x(self):
        return self._c[0][0]

    @property
    def y(self):
        return self._c[0][1]

    @property
    def xy(self):
        return self.coords.xy

    area = length = 0.0

    def __array__(self, dtype=None):
        return np.array(self._c[0], dtype=dtype or float)


class LineString(BaseGeometry):
    geom_type = type = 'LineString'

    def __init__(self, coordinates=()):
        if hasattr(coordinates, 'coords'):
            coordinates = coordinates.coords
        self._c = [_pt(p) for p in coordinates]
        if len(self._c) == 1:
            raise ValueError('LineStrings must have at least 2 coordinate tuples')

    def _parts(self):
        return [self]

    def _points(self):
        return self._c

    def _key(self):
        return (self.geom_type, tuple(self._c))

    @property
    def coords(self):
        return CoordinateSequence(self._c)

    @property
    def xy(self):
        return self.coords.xy

    def __array__(self, dtype=None):
        return np.array(self._c, dtype=dtype or float).reshape(-1, 2)

    area = 0.0

    @property
    def is_closed(self):
        return bool(self._c) and self._c[0] == self._c[-1]
    is_ring = is_closed

    @property
    def is_ccw(self):
        return sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(self._c, self._c[1:])) > 0

    def interpolate(self, distance, normalized=False):
        left = distance * self.length if normalized else distance
        for a, b in zip(self._c, self._c[1:]):
            d = ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** .5
            if left <= d and d:
                return Point(a[0] + (b[0] - a[0]) * left / d, a[1] + (b[1] - a[1]) * left / d)
            left -= d
        return Point(self._c[-1])

    @property
    def length(self):
        return sum(((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** .5 for a, b in zip(self._c, self._c[1:]))


class LinearRing(LineString):
    geom_type = type = 'LinearRing'

    def __init__(self, coordinates=()):
        if hasattr(coordinates, 'coords'):
            coordinates = coordinates.coords
        self._c = [_pt(p) for p in coordinates]
        if self._c and self._c[0] != self._c[-1]:
            self._c.append(self._c[0])
        if 0 < len(self._c) < 4:
            raise ValueError('A LinearRing must have at least 3 coordinate tuples')


class Polygon(BaseGeometry):
    geom_type = type = 'Polygon'

    def __init__(self, shell=None, holes=None):
        self._shell = LinearRing(shell if shell is not None else ())
        self._holes = [LinearRing(h) for h in holes or ()]

    def _parts(self):
        return [self]

    def _points(self):
        return self._shell._c

    def _key(self):
        return ('Polygon', self._shell._key(), tuple(h._key() for h in self._holes))

    @property
    def exterior(self):
        return self._shell

    @property
    def interiors(self):
        return list(self._holes)

    @property
    def is_valid(self):
        """No two non-adjacent edges cross properly."""
        c = self._shell._c
        if len(c) < 4:
            return True
        e = list(zip(c, c[1:]))

        def side(p, q, r):
            v = (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
            return (v > 0) - (v < 0)
        for i in range(len(e)):
            for j in range(i + 1, len(e)):
                (a, b), (p, q) = e[i], e[j]
                if side(a, b, p) * side(a, b, q) < 0 and side(p, q, a) * side(p, q, b) < 0:
                    return False
        return True

    @property
    def area(self):
        def ring(c):
            return abs(sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(c, c[1:]))) / 2
        return ring(self._shell._c) - sum(ring(h._c) for h in self._holes)

    @property
    def length(self):
        return self._shell.length + sum(h.length for h in self._holes)

    def contains(self, other):
        from .base import _inside
        return bool(other._points()) and all(_inside(p, self) for p in other._points())

    def covers(self, other):
        from .base import _inside
        return bool(other._points()) and all(_inside(p, self) or Point(p).distance(self) == 0.0 for p in other._points())

    def __array__(self, dtype=None):
        raise TypeError('a Polygon has no array form')


class MultiPoint(BaseMultipartGeometry):
    geom_type = type = 'MultiPoint'

    @staticmethod
    def _make(g):
        return g if isinstance(g, Point) else Point(g)


class MultiLineString(BaseMultipartGeometry):
    geom_type = type = 'MultiLineString'

    @staticmethod
    def _make(g):
        return g if isinstance(g, LineString) else LineString(g)


class MultiPolygon(BaseMultipartGeometry):
    geom_type = type = 'MultiPolygon'

    @staticmethod
    def _make(g):
        return g if isinstance(g, Polygon) else Polygon(g[0], g[1] if len(g) > 1 else None)


class GeometryCollection(BaseMultipartGeometry):
    geom_type = type = 'GeometryCollection'


def _tup(c):
    return tuple(tuple(p) for p in c)


def mapping(ob):
    if isinstance(ob, Point):
        return {'type': 'Point', 'coordinates': ob._c[0] if ob._c else ()}
    if isinstance(ob, LineString):
        return {'type': ob.geom_type, 'coordinates': _tup(ob._c)}
    if isinstance(ob, Polygon):
        return {'type': 'Polygon', 'coordinates': (_tup(ob._shell._c),) + tuple(_tup(h._c) for h in ob._holes)}
    if isinstance(ob, GeometryCollection):
        return {'type': 'GeometryCollection', 'geometries': [mapping(g) for g in ob._geoms]}
    if isinstance(ob, BaseMultipartGeometry):
        return {'type': ob.geom_type, 'coordinates': tuple(mapping(g)['coordinates'] for g in ob._geoms)}
    return ob.__geo_interface__


def shape(context):
    if hasattr(context, '__geo_interface__'):
        ob = context.__geo_interface__
    else:
        ob = context
    kind = ob.get('type').lower()
    if kind == 'point':
        return Point(*ob['coordinates'])
    if kind == 'linestring':
        return LineString(ob['coordinates'])
    if kind == 'linearring':
        return LinearRing(ob['coordinates'])
    if kind == 'polygon':
        c = ob['coordinates']
        return Polygon(c[0], c[1:]) if c else Polygon()
    if kind == 'multipoint':
        return MultiPoint([Point(*c) for c in ob['coordinates']])
    if kind == 'multilinestring':
        return MultiLineString(ob['coordinates'])
    if kind == 'multipolygon':
        return MultiPolygon([Polygon(c[0], c[1:]) for c in ob['coordinates']])
    if kind == 'geometrycollection':
        return GeometryCollection([shape(g) for g in ob['geometries']])
    raise ValueError('Unknown geometry type: %s' % kind)


asShape = shape


def box(minx, miny, maxx, maxy, ccw=True):
    return Polygon([(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny)])
