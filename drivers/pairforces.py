import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())

U, Q = 16.0, 256.0


def setup():
    from crowddynamics.simulation import agents
    from crowddynamics.core import interactions
    from crowddynamics.core.structures import obstacle_type_linear
    from crowddynamics.simulation import logic
    from shapely import geometry
    return agents, interactions, obstacle_type_linear, logic, geometry


def fill(row, a, i):
    row['position'] = np.array(a['x']) / U
    row['velocity'] = np.array(a['v']) / U
    row['mass'], row['k_soc'], row['tau_0'] = a['m'], a['k'] / 4.0, a['tau0']
    row['mu'], row['kappa'], row['damping'] = a['mu'], a['kappa'], a['c']
    row['force'] = np.array(a.get('f0', [0, 0])) / U
    row['inertia_rot'], row['tau_adj'], row['target_velocity'], row['target'] = 4.0, 0.5, 1.25, i
    row['force_prev'], row['target_direction'], row['active'] = (0.5, -0.25), (1.0, 0.0), a['x'][0] % 2 == 1
    row['is_follower'], row['is_leader'], row['index_leader'], row['familiar_exit'] = i % 2 == 1, i % 4 == 2, i - 1, 1
    p = a['parts']
    row['r_t'] = p[0]['r'] / U
    if len(p) == 1:
        row['radius'] = p[0]['r'] / U
    else:
        row['r_s'], row['r_ts'] = p[1]['r'] / U, a['ts'] / U
        row['radius'] = (a['ts'] + p[1]['r']) / U
        row['orientation'] = a['quarter'] * np.pi / 2
        row['position_ls'] = row['position'] + np.array(p[1]['o']) / U
        row['position_rs'] = row['position'] + np.array(p[2]['o']) / U
        row['torque'] = a.get('t0', 0) / U
        row['angular_velocity'], row['target_orientation'], row['torque_prev'] = (2.5, -4.0, 0.0)[i % 3], 0.75, 1.5


def build(env, kind, agents):
    arr = np.zeros(len(agents), dtype=env[0].AgentModelToType[kind])
    for i, a in enumerate(agents):
        fill(arr[i], a, i)
    return arr


def delta(after, before, i):
    f = [k.q(after[i]['force'][c] - before[i]['force'][c], Q) for c in (0, 1)]
    t = k.q(after[i]['torque'] - before[i]['torque'], Q) if 'torque' in after.dtype.names else 0
    return f, t


def rest(after, before):
    return bool(all(np.array_equal(after[n], before[n]) for n in after.dtype.names if n not in ('force', 'torque')))


def walls(env, ws):
    arr = np.zeros(len(ws), dtype=env[2])
    for i, w in enumerate(ws):
        arr[i]['p0'] = np.array(w[0]) / U
        arr[i]['p1'] = np.array(w[1]) / U
    return arr


def figure(geo, ws, rings):
    """Obstacles of a field: any mixture of lines, chains, rings and polygons, or nothing."""
    P = lambda pts: [tuple(c / U for c in p) for p in pts]
    gs = [geo.LineString(P(w)) for w in ws]
    for r in rings:
        pts = P(r['pts'])
        gs.append(geo.Polygon(pts, [P(h) for h in r['holes']]) if r['form'] == 'poly' else geo.LinearRing(pts) if r['form'] == 'ring'
                  else geo.LineString(pts) if r['form'] == 'chain' else geo.Point(pts[0]))
    if not gs:
        return None
    if len(gs) == 1:
        return gs[0]
    forms = {r['form'] for r in rings}
    return (geo.MultiLineString(gs) if forms <= {'chain'} else geo.MultiPolygon(gs) if not ws and forms == {'poly'} else geo.GeometryCollection(gs))


def sides(r):
    """Walls of a ring as the script states it."""
    close = lambda p: [[a, b] for a, b in zip(p, p[1:] + p[:1])]
    p = r['pts']
    return [] if r['form'] == 'point' else [[a, b] for a, b in zip(p, p[1:])] if r['form'] == 'chain' else close(p) + [w for h in r['holes'] for w in close(h)]


class Sim:
    pass


def run(env, s, ev):
    ag, it, obst, logic, geo = env
    kind = s['cfg']['kind']
    pair = {'circular': it.interaction_agent_agent_circular, 'three_circle': it.interaction_agent_agent_three_circle}[kind]
    wall = {'circular': it.interaction_agent_circular_obstacle, 'three_circle': it.interaction_agent_three_circle_obstacle}[kind]
    for o in s['ops']:
        e = dict(o)
        if o['op'] == 'pair':
            far = dict(o['a'], x=[o['a']['x'][0] + 16000, 0])
            agents = [o['a'], far, o['b']]
            i, j = 0, 2
            if o.get('swap'):
                agents, i, j = [o['b'], far, o['a']], 2, 0
            arr = build(env, kind, agents)
            was = arr.copy()
            e['out'], _ = k.attempt(lambda: pair(i, j, arr))
            e['rest'] = rest(arr, was) and arr[1].tobytes() == was[1].tobytes()
            (e['f'], e['ta']), (e['g'], e['tb']) = delta(arr, was, i), delta(arr, was, j)
        elif o['op'] == 'wall':
            arr = build(env, kind, [o['b'], o['a']])
            was = arr.copy()
            ws = walls(env, [[[9000, 0], [9000, 16]], o['w']])
            ws0 = ws.copy()
            e['out'], _ = k.attempt(lambda: wall(1, 1, arr, ws))
            e['rest'] = rest(arr, was) and arr[0].tobytes() == was[0].tobytes() and ws.tobytes() == ws0.tobytes()
            e['f'], e['ta'] = delta(arr, was, 1)
            del e['b']
        elif o['op'] == 'other':
            base = build(env, kind, o['agents'])
            names = [n for n in base.dtype.names if n != o['without']]
            dt = np.dtype([(n, base.dtype[n]) for n in names] + ([('extra', 'f8')] if o['extra'] else []))
            arr = np.zeros(len(base), dtype=dt)
            for n in names:
                arr[n] = base[n]
            was = arr.copy()
            ws = walls(env, [o['w']])
            e = dict(op='other', out=k.attempt(lambda: it.agent_obstacle(arr, ws) if o['via'] == 'wall' else it.agent_agent_block_list(arr, 3.6))[0],
                     rest=bool(arr.tobytes() == was.tobytes()))
        else:
            arr = build(env, kind, o['agents'])
            was = arr.copy()
            sim = Sim()
            sim.agents, sim.field = Sim(), Sim()
            e['pairs'] = []
            if o.get('w') is None:
                cell = o['cell'] / U
                if o['via'] == 'node':
                    sim.agents.array = arr
                    node = logic.AgentAgentInteractions(sim)
                    if o['cell'] != 0:
                        node.cell_size = cell
                    e['out'], _ = k.attempt(node.update)
                else:
                    e['out'], _ = k.attempt(lambda: it.agent_agent_block_list(arr, cell or 3.6))
                for i in range(len(arr)):
                    for j in range(i + 1, len(arr)):
                        two = was[[i, j]].copy()
                        w2 = two.copy()
                        k.attempt(lambda: pair(0, 1, two))
                        (f, t), (g, u) = delta(two, w2, 0), delta(two, w2, 1)
                        two = was[[j, i]].copy()
                        k.attempt(lambda: pair(0, 1, two))
                        (g2, u2), (f2, t2) = delta(two, w2[::-1], 0), delta(two, w2[::-1], 1)
                        e['pairs'].append(dict(i=i + 1, j=j + 1, f=f + [t], g=g + [u], f2=f2 + [t2], g2=g2 + [u2]))
                e['walls'] = -1
            else:
                rings = o.get('rings') or []
                ws = walls(env, o['w'] + [w for r in rings for w in sides(r)])
                if o.get('via') == 'node':
                    sim.agents.array, sim.field.obstacles = was.copy(), figure(env[4], o.get('before') or [], [])
                    node = logic.AgentObstacleInteractions(sim)
                    if o.get('before') is not None:
                        k.attempt(node.update)
                    sim.agents.array, sim.field.obstacles = arr, figure(env[4], o['w'], rings)
                    e['out'], _ = k.attempt(node.update)
                else:
                    e['out'], _ = k.attempt(lambda: it.agent_obstacle(arr, ws))
                for i in range(len(arr)):
                    for j in range(len(ws)):
                        one = was[[i]].copy()
                        w2 = one.copy()
                        k.attempt(lambda: wall(0, j, one, ws))
                        f, t = delta(one, w2, 0)
                        e['pairs'].append(dict(i=i + 1, j=0, f=f + [t], g=[0, 0, 0], f2=f + [t], g2=[0, 0, 0]))
                e['walls'] = len(ws)
            e['rest'] = rest(arr, was)
            e['total'] = []
            for i in range(len(arr)):
                f, t = delta(arr, was, i)
                e['total'].append(f + [t])
            e.pop('agents'), e.pop('w', None), e.pop('rings', None), e.pop('before', None), e.pop('via', None), e.pop('cell', None)
        e.pop('swap', None)
        ev.append(e)


k.main(setup, run)
