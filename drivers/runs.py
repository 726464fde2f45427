"""Several simulations, made, stepped, asked, changed and copied in any order."""
import hashlib
import os
import shutil
import tempfile

import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())

U = 4096.
Q = 1e6


def setup():
    from crowddynamics.simulation import agents, logic
    from crowddynamics.simulation.field import Field
    from crowddynamics.simulation.multiagent import MultiAgentSimulation
    from crowddynamics import io
    from shapely import geometry
    return agents, logic, Field, MultiAgentSimulation, io, geometry


class World:
    """One simulation with what it takes to make another one like it."""


def geom(parts, shift, geo):
    """Walls or a target: list of polylines, closed ones are polygons; coordinates in metres."""
    res = []
    for p in parts:
        c = [(x + shift[0], y + shift[1]) for x, y in p]
        res.append(geo.Polygon(c[:-1]) if len(c) > 3 and c[0] == c[-1] else geo.LineString(c))
    if not res:
        return None
    if len(res) == 1:
        return res[0]
    lines = [r for r in res if r.geom_type == 'LineString']
    return geo.MultiLineString(lines) if len(lines) == len(res) else geo.GeometryCollection(res)


def arrange(env, w, cfg, walls=True, goal=True):
    agents, logic, Field, Simulation, io, geo = env
    sc = cfg['scenes'][w.scene - 1]
    if walls:
        w.sim.field.obstacles = geom(sc['walls'][w.now['walls'] - 1], w.shift, geo)
    if goal:
        w.sim.field.targets = [geom([t], w.shift, geo) for t in sc['goal'][w.now['goal'] - 1]]


def tune(w, cfg):
    t = cfg['scenes'][w.scene - 1]['tune'][w.now['tune'] - 1]
    n = w.nodes
    n['Integrator'].dt_min, n['Integrator'].dt_max = t['dt'][0] / 1024., t['dt'][1] / 1024.
    if 'Navigation' in n:
        n['Navigation'].step, n['Navigation'].radius, n['Navigation'].strength = t['step'] / 16., t['radius'] / 16., t['strength'] / 16.
    if 'ExitDetection' in n:
        n['ExitDetection'].detection_range = float(t['seen'])
    if 'LeaderFollower' in n:
        n['LeaderFollower'].sight = float(t['range'])
    if 'LeaderFollowerWithHerding' in n:
        n['LeaderFollowerWithHerding'].sight_follower = float(t['range'])
        n['LeaderFollowerWithHerding'].size_nearest_other = t['near']


def simulation(env, w, cfg, array):
    """A new simulation around w's settings with these agents."""
    agents, logic, Field, Simulation, io, geo = env
    sc = cfg['scenes'][w.scene - 1]
    w.sim = Simulation(name='run')
    x0, y0, x1, y1 = sc['room']
    dx, dy = w.shift
    field = Field(domain=geo.Polygon([(x0 + dx, y0 + dy), (x1 + dx, y0 + dy), (x1 + dx, y1 + dy), (x0 + dx, y1 + dy)]),
                  spawns=[geo.Polygon([(x0 + dx, y0 + dy), (x0 + dx + 2, y0 + dy), (x0 + dx + 2, y0 + dy + 2), (x0 + dx, y0 + dy + 2)])])
    w.sim.field = field
    arrange(env, w, cfg)
    w.sim.agents = agents.Agents(agent_type={'circular': agents.Circular, 'three_circle': agents.ThreeCircle}[sc['type']])
    w.sim.agents.array = array
    N = lambda name: w.nodes.setdefault(name, getattr(logic, name)(w.sim))
    w.nodes = {}
    steer = [N(n) for n in sc['steer']]
    kids = [N('Fluctuation')] if sc['fluct'] else []
    kids += [N('Adjusting') << (*steer, N('Orientation')), N('AgentAgentInteractions'), N('AgentObstacleInteractions')]
    tree = N('Reset') << (N('Integrator') << tuple(kids))
    if sc['inside']:
        tree = N('InsideDomain') << N('Reset')
    w.sim.logic = w.nodes[sc['top']] if sc['top'] in w.nodes else tree
    tune(w, cfg)


def crowd(env, sc):
    agents = env[0]
    typ = {'circular': agents.Circular, 'three_circle': agents.ThreeCircle}[sc['type']]
    np.random.seed(sc['seed'])
    array = np.zeros(len(sc['agents']), dtype=typ.dtype())
    for i, a in enumerate(sc['agents']):
        kw = dict(body_type=a['body'], position=[v / U for v in a['x']], velocity=[v / U for v in a['v']], target_direction=[np.cos(a['e'] / U), np.sin(a['e'] / U)],
                  target=a['target'], is_leader=a['leader'], is_follower=a['follower'], familiar_exit=a['familiar'])
        if sc['type'] == 'three_circle':
            kw.update(orientation=a['phi'] / U, target_orientation=a['phi'] / U)
        array[i] = np.asarray(typ(**kw))[0]
        array[i]['std_rand_force'] = .1 if sc['fluct'] else 0
    return array


def digest(w):
    if w is None:
        return ''
    h = hashlib.sha256(w.sim.agents.array.tobytes())
    h.update(repr(sorted((n, float(v)) for n, v in w.sim.data.items())).encode())
    return h.hexdigest()[:16]


def rows(w):
    res = []
    a = w.sim.agents.array
    for r in a:
        o = [k.q(f(r['orientation']), Q) for f in (np.cos, np.sin)] if 'orientation' in a.dtype.names else []
        p = [k.q(f(r['target_orientation']), Q) for f in (np.cos, np.sin)] if o else []
        acc = [k.q(v / r['mass'], 1e3) for v in r['force']] + ([k.q(r['torque'] / r['inertia_rot'], 1e3)] if o else [])
        res.append(dict(p=p, a=acc, x=[k.q(v, Q) for v in r['position']], v=[k.q(v, Q) for v in r['velocity']], e=[k.q(v, Q) for v in r['target_direction']],
                        o=o, w=k.q(r['angular_velocity'], Q) if o else 0, target=int(r['target']), leader=int(r['index_leader']),
                        flags=[bool(r['is_leader']), bool(r['is_follower']), bool(r['active'])]))
    return res


def run(env, s, ev):
    agents, logic, Field, Simulation, io, geo = env
    cfg = s['cfg']
    worlds = [None] * cfg['sims']

    def step(w, n, mode):
        sim = w.sim
        first = sim.data['iterations']
        seed = lambda: np.random.seed(1000 + sim.data['iterations'] - first + w.steps)
        if mode == 'run':
            def stop(z):
                seed()
                return z.data['iterations'] >= first + n
            sim.exit_condition = stop
            sim.run()
        else:
            for _ in range(n):
                seed()
                sim.update()
        w.steps += n

    def ask(w, what):
        f = w.sim.field
        t = cfg['scenes'][w.scene - 1]['tune'][w.now['tune'] - 1]
        args = t['step'] / 16., t['radius'] / 16., t['strength'] / 16.
        if what == 'maps':
            for i in range(len(f.targets)):
                f.navigation_to_target(i, *args)
        elif what == 'closest':
            f.navigation_to_target('closest', *args)
        elif what == 'obstacles' and f.obstacles is not None:
            f.direction_map_obstacles(args[0])
        elif what == 'mesh':
            f.meshgrid(args[0]), f.convex_hull()
        elif what == 'spawn':
            next(f.sample_spawn(0))
        elif what == 'nodes':
            str(w.sim.logic), w.sim.logic['Integrator'], w.sim.name_with_timestamp
        elif what == 'array':
            w.sim.agents.array, w.sim.agents.size_max if hasattr(w.sim.agents, 'size_max') else None

    def copy(w, o):
        v = World()
        v.scene, v.now, v.steps = w.scene, dict(w.now), w.steps
        v.shift = [a + b for a, b in zip(w.shift, o['shift'])]
        a = w.sim.agents.array.copy()
        if o['how'] == 'file':
            d = tempfile.mkdtemp(prefix='runs_', dir=os.environ['MBV_SCRATCH'])
            try:
                out = io.save_npy(d, 'agents')
                out.send(None)
                out.send(w.sim.agents.array)
                out.send(True)
                a = np.concatenate(list(io.load_npy(d, 'agents'))).reshape(-1)
                path = os.path.join(d, 'geometry.json')
                f = w.sim.field
                io.save_geometry_json(path, dict(domain=f.domain, obstacles=f.obstacles, targets=f.targets, spawns=f.spawns))
                g = io.load_geometry_json(path)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        if o['perm']:
            p = np.array(o['perm']) - 1
            b = a[p].copy()
            inv = np.argsort(p)
            for r in b:
                if r['index_leader'] >= 0:
                    r['index_leader'] = inv[r['index_leader']]
            for n in ('position', 'position_ls', 'position_rs'):
                if n in b.dtype.names and any(o['shift']):
                    b[n] += np.array(o['shift'], dtype=float)
            a = b
        simulation(env, v, cfg, a)
        if o['how'] == 'file':
            f = v.sim.field
            f.domain, f.targets, f.spawns = g['domain'], g['targets'], g['spawns']
            if g['obstacles'] is not None:
                f.obstacles = g['obstacles']
        v.sim.data.update(w.sim.data)
        return v

    for o in s['ops']:
        e, op = dict(o), o['op']

        def go():
            with np.errstate(all='ignore'):
                if op == 'make':
                    w = World()
                    w.scene, w.now, w.steps, w.shift = o['scene'], dict(walls=1, goal=1, tune=1), 0, [0, 0]
                    simulation(env, w, cfg, crowd(env, cfg['scenes'][o['scene'] - 1]))
                    worlds[o['i'] - 1] = w
                elif op == 'copy':
                    worlds[o['j'] - 1] = copy(worlds[o['i'] - 1], o)
                else:
                    w = worlds[o['i'] - 1]
                    if op == 'set':
                        w.now[o['part']] = o['v']
                        if o['part'] == 'tune':
                            tune(w, cfg)
                        else:
                            arrange(env, w, cfg, o['part'] == 'walls', o['part'] == 'goal')
                    elif op == 'step':
                        step(w, o['n'], o.get('mode'))
                    elif op == 'ask':
                        ask(w, o['what'])
        e['out'], _ = k.attempt(go)
        w = worlds[o['j' if op == 'copy' else 'i'] - 1]
        if w is None:
            e.update(rows=[], clock=[0, 0, 0], digs=[digest(v) for v in worlds])
        else:
            d = w.sim.data
            e.update(rows=rows(w) if op in ('make', 'copy', 'step') else [], digs=[digest(v) for v in worlds],
                     clock=[k.q(d['time_tot'], 1e6), k.q(d['dt'], 1e6), int(d['iterations'])])
        ev.append(e)
        if e['out'] != 'ok':
            break


k.main(setup, run)
