"""Import-time stand-in (loggingtools/traittypes import pandas)."""


class DataFrame(object):
    pass


class Series(object):
    pass


def set_option(*a, **k):
    pass
