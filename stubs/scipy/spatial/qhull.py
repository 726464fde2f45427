"""Delaunay: fan triangulation of the convex hull (a valid triangulation of convex position inputs)."""
import numpy as np


class QhullError(RuntimeError):
    pass


def _cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull_indices(pts):
    order = sorted(range(len(pts)), key=lambda i: (pts[i][0], pts[i][1]))
    uniq = []
    for i in order:
        if not uniq or tuple(pts[uniq[-1]]) != tuple(pts[i]):
            uniq.append(i)
    if len(uniq) < 3:
        return uniq

    def half(seq):
        h = []
        for i in seq:
            while len(h) >= 2 and _cross(pts[h[-2]], pts[h[-1]], pts[i]) <= 0:
                h.pop()
            h.append(i)
        return h[:-1]
    return half(uniq) + half(uniq[::-1])


class Delaunay(object):
    def __init__(self, points, *a, **k):
        self.points = np.asarray(points, dtype=float)
        if self.points.ndim != 2 or len(self.points) < 3:
            raise QhullError('not enough points')
        h = hull_indices(self.points)
        if len(h) < 3:
            raise QhullError('flat')
        self.simplices = np.array([(h[0], h[i], h[i + 1]) for i in range(1, len(h) - 1)], dtype=np.int32)


class Voronoi(object):
    """Cells by clipping a large box with all bisectors; what touches the box is at infinity (-1)."""
    def __init__(self, points, *a, **k):
        self.points = pts = np.ascontiguousarray(points, dtype=float)
        if pts.ndim != 2 or pts.shape[1] != 2 or len(pts) < 3 or len(hull_indices(pts)) < 3:
            raise QhullError('not enough points')
        span = float((pts.max(axis=0) - pts.min(axis=0)).max())
        mid = pts.mean(axis=0)
        far = 1e5 * span
        verts, index = [], {}

        def vertex(p):
            if max(abs(p[0] - mid[0]), abs(p[1] - mid[1])) > .5 * far:
                return -1
            key = (round(p[0] / span * 1e7), round(p[1] / span * 1e7))
            for dx in (0, -1, 1):
                for dy in (0, -1, 1):
                    if (key[0] + dx, key[1] + dy) in index:
                        return index[key[0] + dx, key[1] + dy]
            index[key] = len(verts)
            verts.append((float(p[0]), float(p[1])))
            return index[key]
        n = len(pts)
        cells, ridges = [], {}
        for i in range(n):
            c = [((mid[0] + sx * far, mid[1] + sy * far), None) for sx, sy in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
            for j in sorted(range(n), key=lambda j: (pts[j][0] - pts[i][0]) ** 2 + (pts[j][1] - pts[i][1]) ** 2):
                if j == i:
                    continue
                nx, ny = pts[j] - pts[i]
                if nx == 0 and ny == 0:
                    continue
                mx, my = (pts[j] + pts[i]) / 2
                d = [(v[0] - mx) * nx + (v[1] - my) * ny for v, _ in c]
                res = []
                for t in range(len(c)):
                    (v, lab), (w, _) = c[t], c[(t + 1) % len(c)]
                    dv, dw = d[t], d[(t + 1) % len(c)]
                    if dv <= 0:
                        res.append((v, lab))
                    if (dv <= 0) != (dw <= 0):
                        s = dv / (dv - dw)
                        cut = (v[0] + s * (w[0] - v[0]), v[1] + s * (w[1] - v[1]))
                        res.append((cut, j if dv <= 0 else lab))
                c = res
            ids = [vertex(v) for v, _ in c]
            region = []
            for t, v in enumerate(ids):
                w, lab = ids[(t + 1) % len(ids)], c[t][1]
                if lab is not None and (v != w or v == -1):
                    ridges.setdefault((min(i, lab), max(i, lab)), (v, w))
                if not region or (region[-1] != v and region[0] != v or v != -1 and v not in region):
                    region.append(v)
            cells.append([v for t, v in enumerate(region) if v != -1 or -1 not in region[:t]])
        self.vertices = np.array(verts).reshape(-1, 2)
        self.ridge_points = np.array(sorted(ridges), dtype=np.int32).reshape(-1, 2)
        self.ridge_vertices = [sorted(ridges[r]) for r in sorted(ridges)]
        self.regions = [[]] + cells[::-1]
        self.point_region = np.array([n - i for i in range(n)], dtype=np.int64)
