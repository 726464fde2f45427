import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())


def setup():
    from crowddynamics.core import geom2D, sensory_region, evacuation
    from crowddynamics.core.structures import obstacle_type_linear
    from crowddynamics.simulation import agents, logic
    from crowddynamics.simulation.field import Field
    from shapely import geometry
    return geom2D, sensory_region, evacuation, obstacle_type_linear, agents, logic, Field, geometry


def walls(env, ws, u):
    arr = np.zeros(len(ws), dtype=env[3])
    for i, w in enumerate(ws):
        arr[i]['p0'], arr[i]['p1'] = np.array(w[0]) / u, np.array(w[1]) / u
    return arr


class Sim:
    pass


def run(env, s, ev):
    geom2D, sensory, evac, obst, ag, logic, Field, geo = env
    u = float(s['cfg'].get('unit', 4))
    P = lambda p: np.array(p, dtype=float) / u
    sim = Sim()
    kind = s['cfg'].get('kind', 'circular')
    if 'agents' in s['cfg']:
        sim.agents = Sim()
        arr = sim.agents.array = np.zeros(len(s['cfg']['agents']), dtype=ag.AgentModelToType[kind])
        for i, a in enumerate(s['cfg']['agents']):
            arr[i]['position'], arr[i]['target'], arr[i]['is_follower'] = P(a['x']), a['target'], a['follower']
            arr[i]['velocity'], arr[i]['familiar_exit'], arr[i]['index_leader'], arr[i]['is_leader'] = (1.5, -.5), i % 3, i % 5 - 1, i % 4 == 3
    for o in s['ops']:
        e = dict(o)
        op = o['op']
        if op == 'cross':
            e['out'], r = k.attempt(lambda: geom2D.line_intersect(P(o['p']), P(o['q']), P(o['a']), P(o['b'])))
            e['res'] = bool(r)
        elif op == 'between':
            ws = walls(env, o['walls'], u)
            was = ws.copy()
            e['out'], r = k.attempt(lambda: sensory.is_obstacle_between_points(P(o['p']), P(o['q']), ws))
            e['res'] = bool(r)
        elif op == 'detect':
            e['out'], r = k.attempt(lambda: evac.exit_detection(np.array([P(d) for d in o['doors']]).reshape(-1, 2), np.array([P(p) for p in o['ps']]).reshape(-1, 2),
                                                                walls(env, o['walls'], u), o['range'] / u))
            e['exits'], e['has'] = (k.ints(r[0]) or [], [bool(b) for b in r[1]]) if r else ([], [])
        elif op == 'ranks':
            e['out'], r = k.attempt(lambda: evac.agent_closer_to_exit(P(o['c']), np.array([P(p) for p in o['ps']]).reshape(-1, 2)))
            e['r'] = k.ints(r) or [] if r is not None else []
        elif op == 'capacity':
            args = [o['door'] / 64., o['agent'] / 64., None if o['layer'] < 0 else o['layer'] / 64., o['coeff'] / 4.]
            if o['layer'] < 0 and o['coeff'] == 4:
                args = args[:2]
            e['out'], r = k.attempt(lambda: evac.narrow_exit_capacity(*args))
            e['cap'] = k.q(r, 4)
        elif op == 'walk':
            sim.agents.array[0]['position'] = P(o['x'])
            continue
        elif op == 'move':
            for a, x in zip(sim.agents.array, o['xs']):
                a['position'] = P(x)
            continue
        elif op == 'node':
            f = Field(domain=geo.Polygon([(-900, -900), (900, -900), (900, 900), (-900, 900)]))
            f.targets = [geo.LineString([P(t[0]), (P(t[0]) + P(t[1])) / 2, P(t[1])] if s['cfg'].get('bent') and i % 2 else [P(t[0]), P(t[1])]) for i, t in enumerate(s['cfg']['targets'])]
            ws = s['cfg']['walls']
            if ws:
                lines = [geo.LineString([P(w[0]), P(w[1])]) for w in ws]
                f.obstacles = lines[0] if len(lines) == 1 else geo.MultiLineString(lines)
            sim.field = f
            arr = sim.agents.array

            def read(a):
                return [dict(x=[k.q(c, u) for c in r['position']], target=int(r['target']), follower=bool(r['is_follower'])) for r in a]
            was = arr.copy()
            node = logic.ExitDetection(sim)
            e['range'] = s['cfg']['range']
            if e['range'] != 20 * u:
                node.detection_range = e['range'] / u
            e['a'] = read(arr)
            e['out'], _ = k.attempt(node.update)
            now = sim.agents.array
            e['b'], e['targets'], e['walls'] = read(now), s['cfg']['targets'], ws
            e['rest'] = bool(now is arr and all(np.array_equal(now[n], was[n]) for n in was.dtype.names if n not in ('target', 'is_follower')))
        ev.append(e)


k.main(setup, run)
