import os
import re
import shutil
import tempfile
import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())


def setup():
    import bokeh
    from bokeh.plotting import Figure
    from shapely import geometry as g
    from crowddynamics import visualizations
    from crowddynamics.core.steering.quickest_path import meshgrid
    from crowddynamics.simulation.field import Field
    return visualizations, bokeh, Figure, g, meshgrid, Field


def build(d, g, u):
    P = lambda ps: [(p[0] / u, p[1] / u) for p in ps]
    if d['t'] == 'none':
        return None
    if d['t'] == 'Point':
        return g.Point(*P(d['pts'])[0])
    if d['t'] == 'LineString':
        return g.LineString(P(d['pts']))
    if d['t'] == 'Polygon':
        return g.Polygon(P(d['pts']), [P(h) for h in d['holes']])
    parts = [build(x, g, u) for x in d['parts']]
    kinds = {x['t'] for x in d['parts']}
    if len(kinds) == 1 and 'Multi' not in kinds and parts:
        return {'Point': g.MultiPoint, 'LineString': g.MultiLineString, 'Polygon': g.MultiPolygon}[kinds.pop()](parts)
    return g.GeometryCollection(parts)


def full(a):
    a = np.ma.filled(np.ma.asarray(a, dtype=float), np.nan)
    return np.atleast_1d(a).ravel()


def strokes(glyphs, u):
    """What is drawn of geometries: markers, lines and patches."""
    res = []

    def add(kind, x, y, style):
        pts = [[k.q(a, u), k.q(b, u)] for a, b in zip(full(x), full(y))]
        if kind == 'patch' and len(pts) > 1 and pts[0] == pts[-1]:
            pts.pop()
        res.append(dict(k=kind, pts=pts, legend=str(style.get('legend', '')), tag=int(style.get('tag', 0))))
    for name, d, style in glyphs:
        if name in ('line', 'patch'):
            add(name, d['x'], d['y'], style)
        elif name in ('multi_line', 'patches'):
            for x, y in zip(d['xs'], d['ys']):
                add('line' if name == 'multi_line' else 'patch', x, y, style)
        elif name not in ('image', 'segment', 'triangle'):
            for x, y in zip(full(d['x']), full(d['y'])):
                add('marker', [x], [y], style)
    return res


def arrows(glyphs, lo, step):
    """Shafts and heads in thousandths of a step from the lower left corner; those that are drawn at all."""
    at = lambda x, y: [k.q((x - lo[0]) / step, 1000), k.q((y - lo[1]) / step, 1000)]
    shafts, heads = [], []
    for name, d, style in glyphs:
        if name == 'segment':
            for a, b, c, e in zip(*[full(d[x]) for x in ('x0', 'y0', 'x1', 'y1')]):
                if np.isfinite([a, b, c, e]).all():
                    shafts.append([at(a, b), at(c, e)])
        elif name == 'triangle':
            ang = style.get('angle', 0.0)
            x, y = full(d['x']), full(d['y'])
            ang = full(ang) if np.ndim(ang) else np.full(len(x), float(ang))
            for a, b, c in zip(x, y, ang):
                if np.isfinite([a, b, c]).all():
                    heads.append([at(a, b), [k.q(np.cos(c + np.pi / 2), 1000), k.q(np.sin(c + np.pi / 2), 1000)]])
    return shafts, heads


def images(glyphs, lo, step, want):
    res = []
    for name, d, style in glyphs:
        if name == 'image':
            im = d['image'][0]
            im, w = np.ma.filled(np.ma.asarray(im, dtype=float), np.nan), np.ma.asarray(want, dtype=float)
            ok = im.shape == w.shape and bool(np.allclose(im[~np.ma.getmaskarray(w)], w.compressed()))
            one = lambda v: k.q(float(np.atleast_1d(v)[0]) / step, 1000)
            res.append(dict(at=[one(d['x'] - lo[0]), one(d['y'] - lo[1])], size=[one(d['dw']), one(d['dh'])], same=ok))
    return res


def ranges(fig):
    if getattr(fig.x_range, 'start', None) is None:
        return []
    return [k.q(fig.x_range.start, 1000), k.q(fig.x_range.end, 1000), k.q(fig.y_range.start, 1000), k.q(fig.y_range.end, 1000)]


def run(env, s, ev):
    V, bokeh, Figure, g, meshgrid, Field = env
    u = float(s['cfg'].get('unit', 1))
    top = tempfile.mkdtemp()
    was = os.getcwd()
    os.chdir(top)
    try:
        fig = Figure(plot_width=s['cfg'].get('pw', 600), plot_height=s['cfg'].get('ph', 600))
        for o in s['ops']:
            step_op(V, bokeh, Figure, g, meshgrid, Field, fig, u, o, ev)
    finally:
        os.chdir(was)
        shutil.rmtree(top)


def names_of(log, figs):
    return [[x[0], x[1] if x[0] == 'file' else figs.get(x[1], 'other'), x[2] if x[0] == 'file' else str(x[2])] for x in log]


def step_op(V, bokeh, Figure, g, meshgrid, Field, fig, u, o, ev):
    e, op = dict(o), o['op']
    del bokeh.LOG[:]
    before, rng0 = list(fig.glyphs), ranges(fig)
    if op == 'geom':
        a = build(o['g'], g, u)
        e['out'], _ = k.attempt(lambda: V.add_geom(fig, a, tag=o['tag']))
        e['same'] = bool(a == build(o['g'], g, u))
    elif op == 'refuse':
        v = {'none': None, 'text': 'POINT (0 0)', 'list': [(0, 0), (1, 1)], 'number': 3}[o['v']]
        e['out'], _ = k.attempt(lambda: V.add_geom(fig, v))
    elif op == 'aspect':
        e['out'], _ = k.attempt(lambda: V.set_aspect(fig, [x / u for x in o['x']], [y / u for y in o['y']], o['an'] / o['ad'], o['m'] / 10.))
        e['pw'], e['ph'], e['unit'] = fig.plot_width // 100, fig.plot_height // 100, int(u)
    elif op in ('field', 'plot'):
        f = Field()
        parts = o['f']
        f.domain = build(parts['domain'], g, u)
        f.obstacles = build(parts['walls'], g, u)
        f.spawns = [build(x, g, u) for x in parts['spawns']]
        f.targets = [build(x, g, u) for x in parts['targets']]
        if op == 'field':
            e['out'], _ = k.attempt(lambda: V.add_field(fig, f))
            e['same'] = True
        else:
            st, rad = o['step'] / u, o['radius'] / u
            try:
                m, dm, dirs = f.navigation_to_target('closest', st, rad, 0.3)
            except Exception:
                return      # no way anywhere in this scene: nothing to draw
            made, init = [], Figure.__init__

            def spy(self, *a, **kw):
                made.append(self)
                return init(self, *a, **kw)
            Figure.__init__ = spy
            try:
                e['out'], _ = k.attempt(lambda: V.plot_field(f, step=st, radius=rad, plot_width=o['pw'], plot_height=o['ph']))
            finally:
                Figure.__init__ = init
            e['same'] = True
            fig2 = made[-1] if made else fig
            observe(e, fig2.glyphs if made else [], m, dm, dirs, 2)
            e['new'], e['ranges'] = strokes(fig2.glyphs if made else [], u), ranges(fig2)
            e['name'] = f.name
            e['log'] = names_of(bokeh.LOG, {id(fig2): 'this'} if made else {})
            e['count'] = str(len(fig2.glyphs))
            e['pw'], e['ph'], e['unit'] = o['pw'] // 100, o['ph'] // 100, int(u)
    elif op == 'maps':
        lo, hi, st = o['lo'], o['hi'], o['step']
        m = meshgrid(st / u, lo[0] / u, lo[1] / u, hi[0] / u, hi[1] / u)
        r = np.random.RandomState(o['seed'])
        choice = np.array([[0, 1], [0, -1], [1, 0], [-1, 0], [.6, .8], [-.6, .8], [.8, -.6], [-.8, -.6], [np.nan, np.nan]])
        pick = r.randint(0, len(choice), m.shape)
        d = choice[pick]
        U, W = d[..., 0].copy(), d[..., 1].copy()
        if o['masked']:
            gone = np.isnan(U)
            U[gone], W[gone] = .6, .8
            U, W = np.ma.MaskedArray(U, gone), np.ma.MaskedArray(W, gone)
        dm = np.ma.MaskedArray(r.rand(*m.shape), False)
        e['out'], _ = k.attempt(lambda: V.add_distance_map(fig, m, dm.filled(1.0)))
        if e['out'] == 'ok':
            e['out'], _ = k.attempt(lambda: V.add_direction_map(fig, m, (U, W), **({'freq': o['freq']} if o['freq'] != 2 else {})))
        observe(e, fig.glyphs[len(before):], m, dm, (U, W), o['freq'])
    elif op == 'figure':
        inside = []

        def picture():
            with V.figure(o['file'], show=o['show'], save=o['save'], plot_width=700) as p:
                inside.append((p, list(bokeh.LOG), p.plot_width))
                for _ in range(o['draw']):
                    p.line([0, 1], [0, 1])
                if o['raise']:
                    raise KeyError('x')
        e['out'], _ = k.attempt(picture)
        p = inside[0][0] if inside else None
        e['width'] = inside[0][2] if inside else 0
        e['inside'], e['log'] = names_of(inside[0][1], {}) if inside else [], names_of(bokeh.LOG, {id(p): 'this'})
    elif op == 'tree':
        from anytree import Node
        nodes = []
        for i, p in enumerate(o['parents']):
            nodes.append(Node('n%d' % i, parent=nodes[p] if i else None))
        if o['old']:
            with open('t' + o['ext'], 'w') as fp:
                fp.write('digraph tree {\n    "old";\n}\n')
        e['out'], _ = k.attempt(lambda: V.render_tree(nodes[o['at']], o['dir'] + 't' + o['ext']))
        e['exists'] = os.path.exists('t' + o['ext'])
        raw = open('t' + o['ext'], 'rb').read() if e['exists'] else b''
        e['png'] = raw[:4] == b'\x89PNG'
        text = raw.decode('latin-1')
        e['edges'] = sorted([a, b] for a, b in re.findall(r'"([^"]*)" -> "([^"]*)"', text)) if o['ext'] == '.dot' else []
        e['nodes'] = sorted(re.findall(r'^\s*"([^"]*)"(?: \[.*\])?;', text, re.M)) if o['ext'] == '.dot' else []
    if op != 'plot':
        e['new'], e['ranges'] = strokes(fig.glyphs[len(before):], u), ranges(fig)
        e['moved'] = ranges(fig) != rng0
    e['kept'] = len(fig.glyphs) >= len(before) and all(a is b for a, b in zip(fig.glyphs, before))
    ev.append(e)


def observe(e, glyphs, m, dm, dirs, freq):
    lo = [float(m.values[0].min()), float(m.values[1].min())]
    e['shafts'], e['heads'] = arrows(glyphs, lo, m.step)
    e['images'] = images(glyphs, lo, m.step, dm)
    U, W = [np.ma.filled(np.ma.asarray(x, dtype=float), np.nan) for x in dirs]
    ny, nx = m.shape
    e['freq'], e['nx'], e['ny'] = freq, nx, ny
    e['dirs'] = [[[k.q(U[j, i], 1000), k.q(W[j, i], 1000)] if np.isfinite([U[j, i], W[j, i]]).all() else [] for i in range(nx)] for j in range(ny)]
    e['size'] = [k.q((m.bounds[2] - m.bounds[0]) / m.step, 1000), k.q((m.bounds[3] - m.bounds[1]) / m.step, 1000)]


k.main(setup, run)
