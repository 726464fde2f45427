import numpy as np


def find_boundaries(label_img, connectivity=1, mode='thick', background=0):
    a = np.asarray(label_img).astype(int)
    n, m = a.shape
    res = np.zeros(a.shape, bool)
    for i in range(n):
        for j in range(m):
            for di, dj in ((0, 1), (1, 0), (0, -1), (-1, 0)):
                x, y = i + di, j + dj
                if 0 <= x < n and 0 <= y < m and a[x, y] != a[i, j]:
                    if mode == 'outer':
                        res[i, j] |= a[i, j] == background
                    else:
                        res[i, j] = True
    return res
