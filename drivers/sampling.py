import itertools
import numpy as np
import drvkit as k


def setup():
    from crowddynamics.core import sampling, rand, geom2D
    from crowddynamics.core.motion import fluctuation
    from crowddynamics.simulation.field import Field
    from shapely import geometry
    return sampling, rand, geom2D, Field, geometry, fluctuation


def run(env, s, ev):
    sm, rnd, g2, Field, geo, fl = env
    np.random.seed(s['cfg']['seed'])
    u = float(s['cfg'].get('unit', 1))
    F = lambda v: np.array(v, dtype=float).reshape(-1, 2) / u
    for o in s['ops']:
        e = dict(o)
        op = o['op']
        sc = e['scale'] = 16
        pts = lambda xs: [[k.q(c, sc * u) for c in x] for x in xs]
        take = lambda g: list(itertools.islice(g, o['n']))
        if op == 'area':
            e['out'], r = k.attempt(lambda: g2.polygon_area(F(o['v'])))
            e['res'] = k.q(r, 2 * u * u)
        elif op == 'areas':
            e['out'], r = k.attempt(lambda: sm.triangle_area_cumsum(np.array(o['ts'], dtype=float) / u))
            e['res'] = [k.q(c, 2 * u * u) for c in r] if r is not None else []
        elif op == 'lengths':
            e['out'], r = k.attempt(lambda: sm.linestring_length_cumsum(F(o['v'])))
            e['res'] = [k.q(c, 100 * u) for c in r] if r is not None else []
        elif op == 'linestring':
            e['out'], r = k.attempt(lambda: take(sm.linestring_sample(F(o['v']))))
            e['xs'] = pts(r or [])
        elif op in ('triangle', 'corners'):
            a, b, c = F(o['t'])
            e['out'], r = k.attempt(lambda: [sm.random_sample_triangle(a, b, c) for _ in range(o['n'])])
            e['xs'] = pts(r or [])
        elif op == 'polygon':
            e['out'], r = k.attempt(lambda: take(sm.polygon_sample(F(o['v']))))
            e['xs'] = pts(r or [])
        elif op == 'spawn':
            f = Field(domain=geo.Polygon([(-900, -900), (900, -900), (900, 900), (-900, 900)]))
            if o['far']:
                f.obstacles = geo.LineString([(800, 800), (850, 800)])
            kw = {}
            if o.get('walls'):
                parts = [geo.LineString([tuple(p) for p in F(w)]) for w in o['walls']]
                f.obstacles = parts[0] if len(parts) == 1 else geo.MultiLineString(parts)
                kw = {'radius': o['radius'] / u} if o['radius'] else {}
            f.spawns = [geo.Polygon([tuple(p) for p in F(v)]) for v in o['spawns']]
            before = [list(map(tuple, x.exterior.coords)) for x in f.spawns]
            e['out'], r = k.attempt(lambda: take(f.sample_spawn(o['i'], **kw)))
            e['xs'], e['v'] = pts(r or []), o.get('free') or o['spawns'][o['i']]
            e['rest'] = before == [list(map(tuple, x.exterior.coords)) for x in f.spawns]
        elif op == 'vector':
            kw = {} if o['quarters'] == 4 else dict(orient=(o['from'] * np.pi / 2, (o['from'] + o['quarters']) * np.pi / 2))
            e['out'], r = k.attempt(lambda: rnd.random_vector(o['n'], mag=o['mag'] / 64., **kw))
            e['xs'] = [[k.q(c, 64) for c in x] for x in r] if r is not None else []
        elif op == 'clock':
            dt = 1. / o['div']
            e['out'], r = k.attempt(lambda: [list(rnd.poisson_clock(dt * o['den'] / o['rate'], dt)) for _ in range(o['n'])])
            e['ts'] = [[k.q(t / dt, 10000) for t in ts] for ts in r or []]
            if any(t >= dt or t < 0 for ts in r or [] for t in ts):
                e['ts'] = [[-1]]
        elif op == 'timings':
            dt = 1. / o['div']
            e['out'], r = k.attempt(lambda: [[int(i) for i in rnd.poisson_timings(np.array(o['players'], dtype=np.int64), dt / o['rate'], dt)] for _ in range(o['n'])])
            e['rs'] = r or []
        elif op == 'truncnorm':
            a, b, sd = o['a'] / 4., o['b'] / 4., float(o['sd'])
            kw = {'scale': dict(scale=sd), 'abs': dict(abs_scale=sd * max(abs(a), abs(b))), 'array': dict(scale=np.full(o['n'], sd))}[o['given']]
            e['out'], r = k.attempt(lambda: rnd.truncnorm(a, b, loc=float(o['loc']), size=o['n'], **kw))
            e['xs'] = [k.q(x, 1000) for x in r] if r is not None else []
        elif op in ('force', 'torque'):
            f = fl.force_fluctuation if op == 'force' else fl.torque_fluctuation
            e['out'], r = k.attempt(lambda: f(np.array(o['ms'], dtype=float), np.array(o['sds'], dtype=float)))
            e['xs'] = ([[k.q(c, 1024) for c in x] for x in r] if op == 'force' else [k.q(x, 1024) for x in r]) if r is not None else []
        elif op == 'few':
            ms, sds = np.array(o['ms'], dtype=float), np.array(o['sds'], dtype=float)

            def go():
                return [fl.force_fluctuation(ms, sds) for _ in range(o['n'])], [fl.torque_fluctuation(ms, sds) for _ in range(o['n'])]
            e['out'], r = k.attempt(go)
            e['size'] = len(ms)
            e['xs'] = [[[k.q(c, 1024) for c in x[i]] for i in (0, -1)] for x in r[0]] if r else []
            e['ts'] = [[k.q(x[i], 1024) for i in (0, -1)] for x in r[1]] if r else []
        ev.append(e)


k.main(setup, run)
