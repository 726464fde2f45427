"""Stand-in for the cell_lists package: every unordered pair of points in the same or in adjacent cells, once."""
import numpy as np


def add_to_cells(points, cell_size):
    points = np.asarray(points, dtype=float)
    n, dim = points.shape
    idx = np.floor(points / cell_size).astype(np.int64)
    idx -= idx.min(axis=0)
    shape = idx.max(axis=0) + 1
    flat = np.zeros(n, dtype=np.int64)
    for d in range(dim):
        flat = flat * shape[d] + idx[:, d]
    cells = int(np.prod(shape))
    count = np.zeros(cells, dtype=np.int64)
    for f in flat:
        count[f] += 1
    offset = np.concatenate(([0], np.cumsum(count)[:-1])).astype(np.int64)
    indices = np.argsort(flat, kind='mergesort').astype(np.int64)
    return indices, count, offset, shape


def neighboring_cells(grid_shape, periodic=None):
    nx, ny = int(grid_shape[0]), int(grid_shape[1])
    res = []
    for i in range(nx):
        for j in range(ny):
            for di, dj in ((0, 1), (1, -1), (1, 0), (1, 1)):     # half of the neighbourhood
                a, b = i + di, j + dj
                if 0 <= a < nx and 0 <= b < ny:
                    res.append((i * ny + j, a * ny + b))
    return res


def iter_nearest_neighbors(cell_indices, neigh_cells, points_indices, cells_count, cells_offset):
    cells = set(int(c) for c in cell_indices)

    def members(c):
        o = int(cells_offset[c])
        return [int(i) for i in points_indices[o:o + int(cells_count[c])]]
    for c in sorted(cells):
        m = members(c)
        for a in range(len(m)):
            for b in range(a + 1, len(m)):
                yield m[a], m[b]
    for c, d in neigh_cells:
        if c in cells:
            for i in members(c):
                for j in members(d):
                    yield i, j
