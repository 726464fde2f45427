import bokeh


def output_file(filename, title='Bokeh Plot', mode=None, root_dir=None):
    bokeh.LOG.append(['file', str(filename), title])


def show(obj, *a, **k):
    bokeh.LOG.append(['show', id(obj), len(getattr(obj, 'glyphs', ()))])


def save(obj, filename=None, *a, **k):
    bokeh.LOG.append(['save', id(obj), len(getattr(obj, 'glyphs', ()))])
