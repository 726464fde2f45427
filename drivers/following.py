import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())

U = 4.0
D = 16384


def setup():
    from crowddynamics.core.steering import collective_motion as cm
    from crowddynamics.simulation import agents, logic
    from crowddynamics.simulation.field import Field
    from shapely import geometry
    return cm, agents, logic, Field, geometry


class Sim:
    pass


CHANGES = ('target', 'index_leader', 'target_direction')


def run(env, s, ev):
    cm, ag, logic, Field, geo = env
    P = lambda p: np.array(p, dtype=float) / U
    cfg = s['cfg']
    sim = Sim()
    sim.agents = Sim()
    gs = cfg.get('agents', [])
    arr = sim.agents.array = np.zeros(len(gs), dtype=ag.AgentModelToType[cfg.get('kind', 'circular')])
    for i, (r, a) in enumerate(zip(arr, gs)):
        r['position'], r['velocity'], r['target'], r['index_leader'] = P(a['x']), P(a['v']), a['target'], a['leader']
        r['familiar_exit'], r['is_leader'], r['is_follower'], r['target_direction'], r['radius'], r['active'] = a['familiar'], a['isl'], a['isf'], (.6, .8), .25, i % 3 != 1
    f = Field(domain=geo.Polygon([(-900, -900), (900, -900), (900, 900), (-900, 900)]))
    ws = cfg.get('walls', [])
    if ws:
        lines = [geo.LineString([P(w[0]), P(w[1])]) for w in ws]
        f.obstacles = lines[0] if len(lines) == 1 else geo.MultiLineString(lines)
    sim.field = f
    for o in s['ops']:
        op = o['op']
        e = dict(o)
        if op == 'rel':
            e['out'], r = k.attempt(lambda: cm.herding_relationship(P(o['a']['x']), P(o['b']['x']), P(o['a']['v']), P(o['b']['v']), .45 * np.pi))
            e['res'] = [bool(b) for b in r] if r is not None else []
        elif op == 'move':
            arr[o['k'] - 1]['position'], arr[o['k'] - 1]['velocity'] = P(o['x']), P(o['v'])
            continue
        elif op == 'shift':
            for r, x, v in zip(arr, o['xs'], o['vs']):
                r['position'], r['velocity'] = P(x), P(v)
            continue
        else:
            def read():
                return [dict(x=[k.q(c, U) for c in r['position']], v=[k.q(c, U) for c in r['velocity']], target=int(r['target']), leader=int(r['index_leader']),
                             familiar=int(r['familiar_exit']), isl=bool(r['is_leader']), isf=bool(r['is_follower'])) for r in arr]
            was = arr.copy()
            if op == 'follow':
                node = logic.LeaderFollower(sim)
                if cfg['sight'] != 80:
                    node.sight = cfg['sight'] / U
            else:
                node = logic.LeaderFollowerWithHerding(sim)
                if cfg['sight'] != 40:
                    node.sight_follower = cfg['sight'] / U
                if cfg['count'] != 5:
                    node.size_nearest_other = cfg['count']
                e['count'], e['far'] = cfg['count'], 80
            e['sight'], e['walls'], e['a'] = cfg['sight'], ws, read()
            e['out'], _ = k.attempt(node.update)
            e['b'] = read()
            e['dirs'] = [[k.q(c, D) for c in r['target_direction']] for r in arr]
            e['same'] = [bool(np.array_equal(a['target_direction'], b['target_direction'])) for a, b in zip(arr, was)]
            e['rest'] = bool(all(np.array_equal(arr[n], was[n]) for n in was.dtype.names if n not in CHANGES))
        ev.append(e)


k.main(setup, run)
