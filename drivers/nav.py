import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())
D = 1024


def setup():
    from crowddynamics.core.steering import quickest_path, obstacle_handling, navigation
    from crowddynamics.simulation import agents, logic
    from crowddynamics.simulation.field import Field
    from shapely import geometry
    return quickest_path, obstacle_handling, navigation, agents, logic, Field, geometry


class Sim:
    pass


def grid(a, s):
    return [[k.q(c, s) for c in row] for row in np.ma.getdata(a)]


def geom(geo, parts, u):
    """Boxes and segments."""
    gs = []
    for p in parts:
        (x0, y0), (x1, y1) = [[c / u for c in q] for q in p['c']]
        gs.append(geo.Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)]) if p['k'] == 'box' else geo.LineString([(x0, y0), (x1, y1)]))
    if not gs:
        return None
    if len(gs) == 1:
        return gs[0]
    kinds = {g.geom_type for g in gs}
    return geo.MultiPolygon(gs) if kinds == {'Polygon'} else geo.MultiLineString(gs) if kinds == {'LineString'} else geo.GeometryCollection(gs)


def same(a, b):
    return all(np.array_equal(np.ma.getdata(x), np.ma.getdata(y), equal_nan=True) for x, y in zip(a, b))


def run(env, s, ev):
    qp, oh, nav, ag, logic, Field, geo = env
    cfg = s['cfg']
    u = float(cfg.get('unit', 8))
    sim = Sim()
    if 'domain' in cfg:
        f = Field(domain=geom(geo, [{'k': 'box', 'c': cfg['domain']}], u))
        obstacles = geom(geo, cfg['obstacles'], u)
        if obstacles is not None:
            f.obstacles = obstacles
        f.targets = [geom(geo, [t], u) for t in cfg['targets']]
        sim.field = f
        sim.agents = Sim()
        node = logic.Navigation(sim)
        node.step = cfg['step'] / u
        if 'radius' in cfg:
            node.radius, node.strength = cfg['radius'] / u, cfg['strength'] / 8.
    F = lambda a: np.array(a, dtype=float)
    for o in s['ops']:
        e = dict(o)
        op = o['op']
        if op == 'mesh':
            e['out'], m = k.attempt(lambda: qp.meshgrid(o['step'] / u, o['lo'][0] / u, o['lo'][1] / u, o['hi'][0] / u, o['hi'][1] / u))
            if m is not None:
                X, Y = m.values
                e['shape'] = list(m.shape)
                e['xs'], e['ys'] = [k.q(c, u) for c in X[0]], [k.q(c, u) for c in Y[:, 0]]
                e['plain'] = bool(X.shape == Y.shape == tuple(m.shape) and (X == X[0]).all() and (Y == Y[:, :1]).all() and m.step == o['step'] / u)
                e['cells'] = [[int(c) for c in r] for r in m.indicer(F(o['ps']).reshape(-1, 2) / (4096 * u))]
        elif op == 'field':
            d = F(o['d'])
            was = d.copy()
            with np.errstate(all='ignore'):
                e['out'], r = k.attempt(lambda: qp.direction_map(d))
            if r is not None:
                e['u'], e['v'] = grid(r[0], D), grid(r[1], D)
            e['rest'] = bool(np.array_equal(d, was))
        elif op == 'handle':
            args = (F(o['d']), (F(o['ou']), F(o['ov'])), (F(o['tu']), F(o['tv'])))
            with np.errstate(all='ignore'):
                e['out'], r = k.attempt(lambda: oh.obstacle_handling(*args, float(o['radius']), 2. ** -o['radius']))
            if r is not None:
                e['u'], e['v'] = grid(r[0], D), grid(r[1], D)
            e['rest'] = bool(np.array_equal(args[0], F(o['d'])) and same(args[1], (F(o['ou']), F(o['ov']))) and same(args[2], (F(o['tu']), F(o['tv']))))
        elif op == 'cont':
            es = F(o['es']).reshape(-1, 2)
            idx = np.array([[c[1], c[0]] for c in o['cells']], dtype=np.int64).reshape(-1, 2)
            with np.errstate(all='ignore'):
                e['out'], r = k.attempt(lambda: oh.obstacle_handling_continuous(F(o['d']), (F(o['ou']), F(o['ov'])), es, idx, float(o['radius']), 2. ** -o['radius']))
            e['res'] = grid(r, D) if r is not None else []
            e['rest'] = bool(np.array_equal(es, F(o['es']).reshape(-1, 2)))
        elif op == 'pick':
            es, idx = F(o['es']).reshape(-1, 2), np.array(o['cells'], dtype=np.int64).reshape(-1, 2)
            was = idx.copy()
            e['out'], r = k.attempt(lambda: nav.getdefault(idx, (F(o['u']), F(o['v'])), es))
            e['res'] = grid(r, 1) if r is not None else []
            e['rest'] = bool(np.array_equal(es, F(o['es']).reshape(-1, 2)) and np.array_equal(idx, was))
        elif op == 'same':
            def f():
                for i in range(len(cfg['targets'])):
                    a = sim.field.navigation_to_target(i, node.step, node.radius, node.strength)
                    b = nav.static_potential(sim.field.domain, sim.field.targets[i], sim.field.obstacles, node.step, node.radius, node.strength)
                    if not (same(a[2], b[2]) and same([a[1]], [b[1]]) and same(a[0].values, b[0].values)):
                        return False
                if len(cfg['targets']) == 1:
                    a = sim.field.navigation_to_target('closest', node.step, node.radius, node.strength)
                    return same(a[2], b[2])
                return True
            with np.errstate(all='ignore'):
                e['out'], r = k.attempt(f)
            e['res'] = bool(r)
        elif op in ('dist', 'path'):
            (x0, y0), (x1, y1) = [[c / u for c in q] for q in cfg['domain']]
            ts = cfg['targets'] if o['target'] == len(cfg['targets']) else [cfg['targets'][o['target']]]
            obs = cfg['obstacles'] if o.get('walls', True) else []
            e.update(lo=cfg['domain'][0], hi=cfg['domain'][1], step=cfg['step'], scale=64, targets=ts, obstacles=obs)
            m = qp.meshgrid(cfg['step'] / u, x0, y0, x1, y1)
            dom, t, ob = geom(geo, [{'k': 'box', 'c': cfg['domain']}], u), geom(geo, ts, u), geom(geo, obs, u)
            flags = lambda a: np.ma.getmaskarray(a).astype(int).tolist()
            with np.errstate(all='ignore'):
                if op == 'dist':
                    e['out'], s_ = k.attempt(lambda: qp.distance_map(m, t, ob))
                else:
                    e['out'], r = k.attempt(lambda: qp.shortest_path(m, dom, t, ob, cfg['radius'] / u))
                    s_ = r[1] if r is not None else None
                    if r is not None:
                        e['u'], e['v'] = grid(r[0][0], D), grid(r[0][1], D)
                        e['undef'] = (np.ma.getmaskarray(r[0][0]) | np.ma.getmaskarray(r[0][1])).astype(int).tolist()
            if s_ is not None:
                e['s'], e['masked'] = grid(s_, 64 * u), flags(s_)
        elif op == 'node':
            arr = sim.agents.array = np.zeros(len(o['agents']), dtype=ag.AgentModelToType[o['kind']])
            for i, (a, w) in enumerate(zip(arr, o['agents'])):
                a['active'], a['is_follower'], a['is_leader'] = i % 3 > 0, i % 2, i % 5 == 2
                a['position'], a['target'], a['target_direction'] = F(w['x']) / u, w['target'], F(w['e']) / D
                a['velocity'] = (1.5, -.5)
            was = arr.copy()

            def read(a):
                return [dict(x=[k.q(c, u) for c in r['position']], target=int(r['target']), e=[k.q(c, D) for c in r['target_direction']]) for r in a]
            e.pop('agents')
            e['a'] = read(arr)
            with np.errstate(all='ignore'):
                e['out'], _ = k.attempt(node.update)
                fields, e['lo'], e['step'] = [], cfg['domain'][0], cfg['step']
                if e['out'] == 'ok' and len(arr):
                    e['out'], _ = k.attempt(lambda: [fields.append({'u': grid(du, D), 'v': grid(dv, D)}) for m, dm, (du, dv) in
                                                     (sim.field.navigation_to_target(i, node.step, node.radius, node.strength) for i in range(len(cfg['targets'])))])
            e['fields'] = fields
            e['b'] = read(sim.agents.array)
            e['rest'] = bool(sim.agents.array is arr and all(np.array_equal(arr[n], was[n], equal_nan=True) for n in was.dtype.names if n != 'target_direction'))
        elif op == 'walk':
            arr = sim.agents.array = np.zeros(len(o['starts']), dtype=ag.AgentModelToType['circular'])
            for a, x in zip(arr, o['starts']):
                a['position'], a['target'], a['target_direction'] = F(x) / u, o['target'], (0, 0)
            paths = [[] for _ in arr]
            stride = cfg['step'] / u / 2
            bound = sum(cfg['domain'][1]) - sum(cfg['domain'][0])

            def f():
                for _ in range(int(3 * bound / u / stride) + 2):
                    for p, a in zip(paths, arr):
                        p.append([k.q(c, 64) for c in a['position']])
                    with np.errstate(all='ignore'):
                        node.update()
                    arr['position'] += stride * arr['target_direction']
            e['out'], _ = k.attempt(f)
            z = int(64 / u)
            Z = lambda c: [[v * z for v in q] for q in c]
            e['paths'], e['goal'], e['step'], e['stride'], e['bound'] = paths, Z(cfg['targets'][o['target']]['c']), cfg['step'] * z, cfg['step'] * z // 2, bound * z
            e['boxes'] = [Z(p['c']) for p in cfg['obstacles'] if p['k'] == 'box']
            e['walls'] = [Z(p['c']) for p in cfg['obstacles'] if p['k'] != 'box']
        ev.append(e)


k.main(setup, run)
