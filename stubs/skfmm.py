"""Stand-in for scikit-fmm: signed distance on a grid to the zero contour, by Dijkstra over 8-neighbours around
masked cells. Positive inside the target region, negative outside, as skfmm.distance returns."""
import heapq
import numpy as np


def distance(phi, dx=1.0, *a, **k):
    masked = isinstance(phi, np.ma.MaskedArray)
    data = np.asarray(np.ma.getdata(phi), dtype=float)
    mask = np.ma.getmaskarray(phi) if masked else np.zeros(data.shape, bool)
    n, m = data.shape
    out = np.full(data.shape, np.inf)
    heap = []
    for i in range(n):
        for j in range(m):
            if mask[i, j]:
                continue
            for di, dj in ((0, 1), (1, 0), (0, -1), (-1, 0)):
                a, b = i + di, j + dj
                if 0 <= a < n and 0 <= b < m and not mask[a, b] and data[i, j] * data[a, b] < 0:
                    out[i, j] = 0.5 * dx
                    heap.append((0.5 * dx, i, j))
                    break
    heapq.heapify(heap)
    r2 = dx * 2 ** .5
    while heap:
        d, i, j = heapq.heappop(heap)
        if d > out[i, j]:
            continue
        for di in (-1, 0, 1):
            for dj in (-1, 0, 1):
                a, b = i + di, j + dj
                if (di or dj) and 0 <= a < n and 0 <= b < m and not mask[a, b] and (data[a, b] > 0) == (data[i, j] > 0):
                    nd = d + (r2 if di and dj else dx)
                    if nd < out[a, b]:
                        out[a, b] = nd
                        heapq.heappush(heap, (nd, a, b))
    unreachable = np.isinf(out)
    out = np.where(data > 0, out, -out)
    if masked or unreachable.any():
        return np.ma.MaskedArray(np.where(unreachable, 0.0, out), mask | unreachable)
    return out
