import numpy as np


def line(r0, c0, r1, c1):
    r0, c0, r1, c1 = int(r0), int(c0), int(r1), int(c1)
    n = max(abs(r1 - r0), abs(c1 - c0))
    rr = [int(round(r0 + (r1 - r0) * k / n)) for k in range(n + 1)] if n else [r0]
    cc = [int(round(c0 + (c1 - c0) * k / n)) for k in range(n + 1)] if n else [c0]
    return np.array(rr, dtype=np.intp), np.array(cc, dtype=np.intp)


def _inside(x, y, r, c):
    res = False
    n = len(r)
    for i in range(n):
        j = (i - 1) % n
        if (c[i] > y) != (c[j] > y):
            if x < (r[j] - r[i]) * (y - c[i]) / float(c[j] - c[i]) + r[i]:
                res = not res
    return res


def polygon(r, c, shape=None):
    r, c = [float(v) for v in r], [float(v) for v in c]
    rr, cc = [], []
    for x in range(int(min(r)), int(max(r)) + 1):
        for y in range(int(min(c)), int(max(c)) + 1):
            if _inside(x, y, r, c):
                rr.append(x)
                cc.append(y)
    return np.array(rr, dtype=np.intp), np.array(cc, dtype=np.intp)


def polygon_perimeter(r, c, shape=None, clip=False):
    r, c = [int(v) for v in r], [int(v) for v in c]
    if (r[0], c[0]) != (r[-1], c[-1]):
        r.append(r[0])
        c.append(c[0])
    parts = [line(r[i], c[i], r[i + 1], c[i + 1]) for i in range(len(r) - 1)]
    return np.concatenate([p[0] for p in parts]), np.concatenate([p[1] for p in parts])
