"""Stand-in for numba: compiled functions run as the Python functions they are written as."""
import functools
import numpy as np

__version__ = '0.34.0'


class _Type(object):
    """A type or signature: anything that can be written with types gives another one."""
    def __init__(self, name='t'):
        self._name = name

    def __call__(self, *args, **kwargs):
        return _Type('%s(...)' % self._name)

    def __getitem__(self, item):
        return _Type(self._name + '[:]')

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return _Type(name)

    def __repr__(self):
        return self._name


def _is_function(f):
    return callable(f) and not isinstance(f, _Type)


def _decorator(*args, **kwargs):
    if len(args) == 1 and _is_function(args[0]) and not kwargs:
        return _wrap(args[0])
    return _wrap


def _wrap(f):
    f.py_func = f
    return f


jit = njit = _decorator
autojit = cfunc = _decorator


def vectorize(*args, **kwargs):
    def wrap(f):
        u = np.vectorize(f)

        @functools.wraps(f)
        def g(*a, **k):
            if all(np.ndim(x) == 0 for x in a):
                return f(*a, **k)
            return u(*a, **k)
        return g
    if len(args) == 1 and _is_function(args[0]) and not kwargs:
        return wrap(args[0])
    return wrap


class _ArrayType(object):
    """numba.types.Array as seen by a generated_jit function."""
    def __init__(self, ndim):
        self.ndim = ndim


class _FloatType(object):
    ndim = 0


def generated_jit(*args, **kwargs):
    from . import types

    def numba_type(x):
        if isinstance(x, np.ndarray) and x.ndim > 0:
            r = types.Array.__new__(types.Array)
            r.ndim = x.ndim
            return r
        if isinstance(x, (float, np.floating)) or (isinstance(x, np.ndarray) and x.ndim == 0):
            return types.Float.__new__(types.Float)
        if isinstance(x, (int, np.integer)):
            return types.Integer.__new__(types.Integer)
        return types.Opaque.__new__(types.Opaque)

    def wrap(f):
        @functools.wraps(f)
        def g(*a):
            return f(*[numba_type(x) for x in a])(*a)
        return g
    if len(args) == 1 and _is_function(args[0]) and not kwargs:
        return wrap(args[0])
    return wrap


def guvectorize(*args, **kwargs):
    raise NotImplementedError


def prange(*args):
    return range(*args)


def typeof(x):
    return _Type('typeof')


def optional(x):
    return _Type('optional')


def objmode(*a, **k):
    raise NotImplementedError


def __getattr__(name):      # float64, f8, i8, void, boolean, ...
    if name.startswith('__'):
        raise AttributeError(name)
    return _Type(name)


from . import types  # noqa
