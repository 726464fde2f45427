from . import _Type


class _Meta(type):
    def __getitem__(cls, item):
        return _Type(cls.__name__)


class _Base(metaclass=_Meta):
    def __init__(self, *a, **k):
        pass

    def __getitem__(self, item):
        return _Type('t')

    def __call__(self, *a, **k):
        return _Type('t')


class Number(_Base):
    ndim = 0


class Float(Number):
    pass


class Integer(Number):
    pass


class Array(_Base):
    pass


class Opaque(_Base):
    pass


class Tuple(_Base):
    pass


class UniTuple(_Base):
    pass


class Optional(_Base):
    pass


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return _Type(name)
