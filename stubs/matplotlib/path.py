import numpy as np


class Path(object):
    """Closed polygon path; contains_points takes an (n, 2) float array, as matplotlib's does."""
    def __init__(self, vertices, codes=None, _interpolation_steps=1, closed=False, readonly=False):
        self.vertices = np.asarray(vertices, dtype=float)
        if self.vertices.ndim != 2 or self.vertices.shape[1] != 2:
            raise ValueError("'vertices' must be a 2D list or array with shape Nx2")

    def contains_point(self, point, transform=None, radius=0.0):
        return bool(self.contains_points(np.asarray([point], dtype=float))[0])

    def contains_points(self, points, transform=None, radius=0.0):
        a = np.asarray(points)
        if a.dtype.names:
            raise TypeError("Cannot cast array data from structured dtype to dtype('float64')")
        a = a.astype(float)
        if a.ndim != 2 or a.shape[1] != 2:
            raise ValueError('Argument must be an Nx2 array')
        v = self.vertices
        n = len(v)
        res = np.zeros(len(a), dtype=bool)
        for k, (x, y) in enumerate(a):
            c = False
            for i in range(n):
                j = (i - 1) % n
                if (v[i][1] > y) != (v[j][1] > y):
                    if x < (v[j][0] - v[i][0]) * (y - v[i][1]) / (v[j][1] - v[i][1]) + v[i][0]:
                        c = not c
            res[k] = c
        return res
