import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())


def setup():
    from crowddynamics.simulation import agents, logic
    from crowddynamics.simulation.field import Field
    from crowddynamics.simulation.multiagent import MultiAgentSimulation
    from shapely import geometry
    return agents, logic, Field, MultiAgentSimulation, geometry


def hole(c):
    return [[c[0] - .25, c[1] - .25], [c[0] + .25, c[1] - .25], [c[0], c[1] + .25]]


def run(env, s, ev):
    ag, logic, Field, Simulation, geo = env
    c = s['cfg']
    u = float(c.get('unit', 1))
    sim = Simulation()
    typ = getattr(ag, c.get('kind', 'Circular'))
    sim.agents = ag.Agents(agent_type=typ)
    P = lambda ps: [(p[0] / u, p[1] / u) for p in ps]
    sim.field = Field(domain=geo.Polygon(P(c['dom'])))
    sim.field.targets = [geo.Polygon(P(t['pts']), [P(hole(t['hole']))] if t.get('hole') else None) if t['poly'] else geo.LineString(P(t['pts'])) if len(t['pts']) > 1 else geo.Point(P(t['pts'])[0]) for t in c['targets']]
    for t in c['targets']:
        t.pop('hole', None)
    rng = np.random.RandomState(3)

    def add(xs, active):
        arr = np.zeros(len(xs), dtype=typ.dtype())
        for n in arr.dtype.names:
            if arr[n].dtype.kind == 'f':
                arr[n] = rng.uniform(-1, 1, arr[n].shape)
        arr['active'] = active
        for i, x in enumerate(xs):
            arr[i]['position'] = np.array(x) / u
        sim.agents.array = np.concatenate((sim.agents.array, arr))

    def read(a):
        return [dict(x=[k.q(v, u) for v in r['position']], active=bool(r['active'])) for r in a]

    def data(skip):
        return [(n, repr(v)) for n, v in sim.data.items() if not skip(n)]

    def counts():
        res = []
        for n, v in sim.data.items():
            if n.startswith('target_'):
                res.append((int(n[7:]), int(v)))
        return [dict(k=a, n=b) for a, b in sorted(res)]
    add(c['xs'], True)
    nodes = {}
    names = dict(inside='domain', reach='targets')
    own = dict(inside=lambda n: n == 'inactive', reach=lambda n: n.startswith('target_'))
    for o in s['ops']:
        op, e = o['op'], dict(o)
        arr = sim.agents.array
        if op == 'jump':
            arr[o['i'] - 1]['position'] = np.array(o['x']) / u
            continue
        if op == 'move':
            for i, x in enumerate(o['xs'][:len(arr)]):
                arr[i]['position'] = np.array(x) / u
            continue
        if op == 'join':
            add([o['x']] if 'x' in o else o['xs'], True)
            continue
        if op == 'new':
            nodes.pop(o['node'], None)
            op = o['node']
        was = arr.copy()
        if op not in nodes:
            cls = logic.InsideDomain if op == 'inside' else logic.TargetReached
            out, nodes[op] = k.attempt(lambda: cls(sim))
            e0 = dict(op=names[op], out=out, rest=bool(sim.agents.array is arr and np.array_equal(arr, was)))
            if op == 'inside':
                e0['inactive'] = int(sim.data.get('inactive', -1))
            else:
                e0['ts'], e0['counts'] = c['targets'], counts()
            ev.append(e0)
            if out != 'ok':
                return
        if o['op'] == 'new':
            continue
        e['a'], others = read(arr), data(own[op])
        if op == 'inside':
            e['d0'], e['dom'] = int(sim.data['inactive']), c['dom']
        else:
            e['ts'] = c['targets']
        e['out'], _ = k.attempt(nodes[op].update)
        now = sim.agents.array
        e['b'] = read(now)
        if op == 'inside':
            e['d1'] = int(sim.data['inactive'])
        else:
            e['counts'] = counts()
        e['rest'] = bool(now is arr and all(np.array_equal(now[n], was[n]) for n in was.dtype.names if n != 'active' or op != 'inside'))
        e['others'] = data(own[op]) == others
        ev.append(e)
        if e['out'] != 'ok':
            return


k.main(setup, run)
