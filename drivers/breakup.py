import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())


def setup():
    from crowddynamics.core import geometry
    from crowddynamics.core.steering.quickest_path import meshgrid
    from crowddynamics.simulation.field import Field
    from shapely import geometry as g
    return geometry, meshgrid, Field, g


def build(d, g, u):
    P = lambda ps: [(p[0] / u, p[1] / u) for p in ps]
    if d['t'] == 'Point':
        return g.Point(*P(d['pts'])[0])
    if d['t'] == 'LineString':
        return g.LineString(P(d['pts']))
    if d['t'] == 'Polygon':
        return g.Polygon(P(d['pts']), [P(h) for h in d['holes']])
    parts = [build(x, g, u) for x in d['parts']]
    kinds = {x['t'] for x in d['parts']}
    if len(kinds) == 1 and d.get('typed', True) and 'Multi' not in kinds and parts:
        return {'Point': g.MultiPoint, 'LineString': g.MultiLineString, 'Polygon': g.MultiPolygon}[kinds.pop()](parts)
    return g.GeometryCollection(parts)


def run(env, s, ev):
    geom, meshgrid, Field, g = env
    u = float(s['cfg'].get('unit', 1))
    Q = lambda p: [k.q(v, u) for v in p]
    grid = None
    for o in s['ops']:
        e, op = dict(o), o['op']
        if op == 'segments':
            a = None if o.get('none') else build(o['g'], g, u)
            e['none'] = a is None
            e['segs'] = []
            if a is None:
                e['g'] = dict(t='Point', pts=[[0, 0]], holes=[], parts=[])
            e['out'], r = ('ok', []) if a is None else k.attempt(lambda: list(geom.geom_to_linesegment(a)))
            if e['out'] == 'ok':
                e['segs'] = [[Q(p) for p in x] for x in r]
                e['out'], r = k.attempt(lambda: geom.geom_to_linear_obstacles(a))
            e['obst'] = [[Q(x['p0']), Q(x['p1'])] for x in r] if e['out'] == 'ok' else []
            e['same'] = a is None or bool(a == build(o['g'], g, u))
        elif op == 'flagged':
            e['out'], r = k.attempt(lambda: geom.geom_to_array(build(o['g'], g, u)))
            e['unit'], e['arr'] = int(u), [Q(p) for p in r] if r is not None else []
        elif op == 'grid':
            nx, ny = o['nx'], o['ny']
            off = o['off']
            mesh = meshgrid(1 / u, off[0] / u, off[1] / u, (off[0] + nx - 1) / u, (off[1] + ny - 1) / u)
            ny, nx = mesh.shape
            grid = np.full(mesh.shape, o['fill'], dtype={'int': np.int64, 'float': np.float64, 'bool': np.bool_}[o['type']])
            continue
        elif op == 'draw':
            if grid is None:
                n = s['cfg']['n']
                off, ny, nx = [0, 0], n, n
                mesh = meshgrid(1 / u, 0, 0, (n - 1) / u, (n - 1) / u)
                grid = np.zeros(mesh.shape, dtype=float)
                ny, nx = mesh.shape
            shift = lambda d: dict(d, pts=[[p[0] + off[0], p[1] + off[1]] for p in d['pts']], holes=[[[p[0] + off[0], p[1] + off[1]] for p in h] for h in d['holes']], parts=[shift(x) for x in d['parts']])
            e['old'] = [[int(v) for v in row] for row in grid]
            a = build(shift(o['g']), g, u)
            e['out'], _ = k.attempt(lambda: geom.draw_geom(a, grid, mesh.indicer, bool(o['value']) if grid.dtype == bool else o['value']))
            e['new'] = [[int(v) for v in row] for row in grid]
            e['nx'], e['ny'] = nx, ny
        elif op == 'hull':
            f = Field(domain=g.Polygon([(-99, -99), (99, -99), (99, 99), (-99, 99)]))
            gs = [build(x, g, u) for x in o['gs']]
            if o['obstacles']:
                f.obstacles = gs[0]
            rest = gs[1 if o['obstacles'] else 0:]
            f.targets, f.spawns = rest[:o['targets']], rest[o['targets']:]
            e['out'], r = k.attempt(f.convex_hull)
            h = [Q(p) for p in r.exterior.coords[:-1]] if r is not None and r.geom_type == 'Polygon' else [Q(p) for p in r.coords] if r is not None and r.geom_type in ('LineString', 'Point') else []
            if len(h) > 2 and sum(h[i - 1][0] * h[i][1] - h[i][0] * h[i - 1][1] for i in range(len(h))) < 0:
                h = h[::-1]
            e['hull'] = h
        elif op == 'refuse':
            v = {'none': None, 'text': 'abc', 'list': [1, 2], 'number': 3}[o['v']]
            z = np.zeros((3, 3))
            fn = {'segments': lambda: list(geom.geom_to_linesegment(v)), 'flagged': lambda: geom.geom_to_array(v), 'draw': lambda: geom.draw_geom(v, z, lambda p: np.zeros((2, 2), int), 1)}[o['fn']]
            e['out'], _ = k.attempt(fn)
            e['same'] = not z.any()
        ev.append(e)


k.main(setup, run)
