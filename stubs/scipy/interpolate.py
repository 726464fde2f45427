import numpy as np


class NearestNDInterpolator(object):
    def __init__(self, x, y, rescale=False, tree_options=None):
        self.points, self.values = np.asarray(x, dtype=float), np.asarray(y)

    def __call__(self, *args):
        xi = args[0] if len(args) == 1 else args
        if isinstance(xi, tuple):
            xi = np.stack([np.asarray(c, dtype=float) for c in xi], axis=-1)
        xi = np.asarray(xi, dtype=float)
        res = np.zeros(len(xi))
        for k, p in enumerate(xi):
            d = ((self.points - p) ** 2).sum(axis=1)
            res[k] = self.values[int(np.argmin(d))]
        return res
