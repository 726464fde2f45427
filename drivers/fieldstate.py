import numpy as np
import drvkit as k


def setup():
    from crowddynamics.simulation.field import Field
    from crowddynamics.core.steering import navigation, quickest_path, obstacle_handling
    from shapely import geometry
    return Field, geometry, navigation, quickest_path, obstacle_handling


def box(geo, x0, y0, x1, y1):
    return geo.Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)])


def run(env, s, ev):
    Field, geo, nav, qp, oh = env
    bow = geo.Polygon([(0, 0), (2, 2), (2, 0), (0, 2)])
    empty = geo.Polygon()
    doms = {0: None, 1: box(geo, 0, 0, 4, 4), 2: box(geo, -1, 0, 4, 3), 3: box(geo, 0, 0, 4, 4)}
    obss = {0: None, 1: box(geo, 1.5, 1.5, 2, 2), 2: geo.LineString([(1, 0), (1, 2)]), 3: geo.MultiLineString([[(2, 0), (2, 1)], [(0, 2), (1, 2)]])}
    tgts = {1: geo.LineString([(4, 1), (4, 3)]), 2: geo.LineString([(0, 0.5), (0, 2)]), 3: box(geo, 3, 2.5, 3.5, 3)}
    bad = {-1: 5, -2: bow, -3: empty, -4: 'x', -5: [doms[1]]}
    odd = s['cfg'].get('odd', 'nearest')
    odd = tuple(odd) if isinstance(odd, list) else odd
    fs = [Field() for _ in range(s['cfg']['fields'])]

    def value(n, v):
        if n == 'targets':
            return 7 if v == [-1] else [bad[t] if t < 0 else tgts[t] for t in v]
        return bad[v] if v < 0 else (doms if n == 'domain' else obss)[v]

    def token(tab, g):
        for t, x in tab.items():
            if g is x:
                return t
        return -99

    def now():
        return [{'domain': token(doms, f.domain), 'obstacles': token(obss, f.obstacles), 'targets': [token(tgts, t) for t in f.targets]} for f in fs]

    def arrays(r):
        if isinstance(r, np.ndarray):
            return [np.ma.getdata(r)]
        if isinstance(r, tuple):
            return [a for x in r for a in arrays(x)]
        if isinstance(r, list):
            return [a for x in r for a in arrays(x)]
        return [r] if isinstance(r, (int, float)) else []

    PARS = [(.5, .5, .25), (.375, .5, .25), (.5, .25, .25), (.5, .5, .5), (.25, .5, .25)]

    def ask(f, what, i, p):
        step, radius, strength = PARS[p]
        idx = 'closest' if i == -1 else odd if i == -2 else np.int64(i) if i % 2 else i
        if what == 'mesh':
            return f.meshgrid(step)
        if what == 'obstacles':
            return f.direction_map_obstacles(step)
        if what == 'target':
            return f.shortest_path_target(step, idx, radius)
        return f.navigation_to_target(idx, step, radius, strength)

    def direct(f, what, i, p):
        step, radius, strength = PARS[p]
        m = qp.meshgrid(step, *f.domain.bounds)
        if what == 'mesh':
            return m
        if what == 'obstacles':
            return oh.direction_map_obstacles(m, f.obstacles)
        t = f.targets[0 if i < 0 else i]
        for other in f.targets[1:] if i < 0 else []:
            t = t | other
        if what == 'target':
            return qp.shortest_path(m, f.domain, t, f.obstacles, radius)
        return nav.static_potential(f.domain, t, f.obstacles, step, radius, strength)
    for o in s['ops']:
        e = dict(o)
        f = fs[o['f'] - 1]
        if o['op'] == 'set':
            v = value(o['name'], o['v'])
            e['out'], _ = k.attempt(lambda: setattr(f, o['name'], v))
        else:
            with np.errstate(all='ignore'):
                e['out'], r = k.attempt(lambda: ask(f, o['what'], o['i'], o.get('p', 0)))
                if e['out'] == 'ok':
                    out, w = k.attempt(lambda: direct(f, o['what'], o['i'], o.get('p', 0)))
                    a, b = arrays(r), arrays(w)
                    e['fresh'] = bool(out == 'ok' and len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)))
                else:
                    e['fresh'] = False
        e.pop('p', None)
        e['now'] = now()
        ev.append(e)


k.main(setup, run)
