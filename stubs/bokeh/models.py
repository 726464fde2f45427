class Range1d(object):
    def __init__(self, start=0, end=1, bounds=None):
        self.start, self.end, self.bounds = start, end, bounds


class DataRange1d(object):
    start = end = None
