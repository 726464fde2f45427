"""truncnorm.rvs by rejection sampling."""
import numpy as np


class truncnorm(object):
    def __init__(self, a, b, loc=0.0, scale=1.0):
        self._args = a, b, loc, scale
        self.rvs = lambda size=1, random_state=None: truncnorm.rvs(a, b, loc, scale, size, random_state)

    @staticmethod
    def rvs(a, b, loc=0.0, scale=1.0, size=1, random_state=None):
        rng = np.random if random_state is None else (
            np.random.RandomState(random_state) if isinstance(random_state, int) else random_state)
        n = int(np.prod(size)) if size is not None else 1
        res = []
        while len(res) < n:
            x = rng.standard_normal()
            if a <= x <= b:
                res.append(x)
        return np.asarray(loc) + np.asarray(scale) * np.array(res).reshape(size if size is not None else ())
