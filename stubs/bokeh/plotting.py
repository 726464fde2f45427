import inspect

from .io import output_file, save, show  # noqa
from .models import DataRange1d

GLYPHS = {'image': ('image', 'x', 'y', 'dw', 'dh'), 'segment': ('x0', 'y0', 'x1', 'y1'), 'multi_line': ('xs', 'ys'), 'patches': ('xs', 'ys')}
for _n in ('circle', 'line', 'patch', 'triangle', 'square', 'diamond', 'cross', 'x', 'asterisk', 'inverted_triangle'):
    GLYPHS[_n] = ('x', 'y')


class Bag(object):
    pass


def _glyph(name):
    names = GLYPHS[name]
    sig = inspect.Signature([inspect.Parameter(n, inspect.Parameter.POSITIONAL_OR_KEYWORD) for n in names] +
                            [inspect.Parameter('style', inspect.Parameter.VAR_KEYWORD)])

    def draw(self, *args, **kwargs):
        d = dict(sig.bind(*args, **kwargs).arguments)
        style = d.pop('style', {})
        self.glyphs.append((name, d, style))
        return Bag()
    return draw


class Figure(object):
    def __init__(self, *arg, **kw):
        if arg:
            raise TypeError('Figure takes keyword arguments only')
        self.plot_width = kw.pop('plot_width', 600)
        self.plot_height = kw.pop('plot_height', 600)
        self.x_range, self.y_range = kw.pop('x_range', DataRange1d()), kw.pop('y_range', DataRange1d())
        self.options = kw
        self.glyphs = []
        self.grid, self.legend, self.xgrid, self.ygrid, self.xaxis, self.yaxis = Bag(), Bag(), Bag(), Bag(), Bag(), Bag()

    width = property(lambda self: self.plot_width)
    height = property(lambda self: self.plot_height)


for _n in GLYPHS:
    setattr(Figure, _n, _glyph(_n))


def figure(**kw):
    return Figure(**kw)
