import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())

U = 64.


def setup():
    from crowddynamics.examples import fields, simulations, collective_motion, validation
    from crowddynamics.simulation import agents, logic
    from shapely.geometry import Point
    return fields, simulations, collective_motion, validation, agents, logic, Point


def pts(c):
    return [[k.q(x, U), k.q(y, U)] for x, y in c]


def ring(g):
    c = pts(g.exterior.coords)
    return c[:-1] if c and c[0] == c[-1] else c


def edges(g):
    """All edges of anything made of lines and polygons."""
    if g is None:
        return []
    if hasattr(g, 'geoms'):
        return [e for h in g.geoms for e in edges(h)]
    if g.geom_type == 'Polygon':
        return [e for r in [g.exterior] + list(g.interiors) for e in edges(r)]
    if hasattr(g, 'coords'):
        c = pts(g.coords)
        return [list(e) for e in zip(c, c[1:])]
    return []


def geometry(f):
    return dict(domain=ring(f.domain), targets=[pts(t.coords) for t in f.targets], spawns=[ring(s) for s in f.spawns], walls=edges(f.obstacles))


FIELDS = dict(outdoor='OutdoorField', hallway='HallwayField', rounding='Rounding', avoid='AvoidObstacle', closed='ClosedRoom',
              oneexit='RoomWithOneExit', fourexits='FourExitsField')
NAMES = dict(outdoor=['width', 'height'], hallway=['width', 'height', 'ratio'], rounding=['width', 'height', 'ratio'],
             avoid=['width', 'height', 'exit_width', 'ratio_obs'], closed=['width', 'height'],
             oneexit=['width', 'height', 'exit_width', 'exit_hall_width'], fourexits=['exit_width'])
KEY = dict(width='w', height='h', ratio='r', ratio_obs='r', exit_width='e', exit_hall_width='hall')


def args(f):
    return {n: f[KEY[n]] / (40. if KEY[n] == 'r' else U) for n in NAMES[f['kind']]}


def run(env, s, ev):
    F, S, C, V, A, L, Point = env
    field = sim = None
    last = None
    types = {'circular': A.Circular, 'three_circle': A.ThreeCircle}

    def rows():
        res = []
        for a in sim.agents.array:
            discs = [list(a['position']) + [a['radius']]] if 'position_ls' not in a.dtype.names else \
                [list(a['position']) + [a['r_t']], list(a['position_ls']) + [a['r_s']], list(a['position_rs']) + [a['r_s']]]
            res.append(dict(x=[k.q(v, 1000) for v in a['position']], discs=[[k.q(v, 1000) for v in d] for d in discs], target=int(a['target']),
                            leader=bool(a['is_leader']), follower=bool(a['is_follower']), active=bool(a['active']), familiar=int(a['familiar_exit']),
                            v=[k.q(v, 1000) for v in a['velocity']], e=[k.q(v, 1000) for v in a['target_direction']], mass=k.q(a['mass'], 1000)))
        return res
    for o in s['ops']:
        e, op = dict(o), o['op']
        if op == 'scene':
            def go():
                nonlocal field, last
                f = o['f']
                if field is not None and last is not None and last['kind'] == f['kind'] and f['kind'] in ('outdoor', 'hallway') and o.get('keep', True):
                    for n, v in args(f).items():
                        if last[KEY[n]] != f[KEY[n]]:
                            setattr(field, n, v)
                else:
                    field = getattr(F, FIELDS[f['kind']])(**args(f))
                last = f
                return dict(g=geometry(field))
        elif op == 'pillar':
            def go():
                f = F.PillarInTheMiddle(width=o['w'] / U, height=o['h'] / U, radius_pillar=o['rad'] / U)
                x0, y0, x1, y1 = f.obstacles.bounds
                w, h = o['w'] / U, o['h'] / U
                off = sorted(set(f.domain.exterior.coords)) == sorted({(x, y) for x in (w / 2, w) for y in (h / 2, h)}) and (x0 + x1, y0 + y1) == (0, 0)
                return dict(g=dict(domain=ring(f.domain)), key='PillarInTheMiddle: domain w/2..w, h/2..h, pillar at 0, 0' if off else '', c=[k.q((x0 + x1) / 2, U), k.q((y0 + y1) / 2, U)], span=k.q(x1 - x0, U))
        elif op == 'crowd':
            def go():
                nonlocal sim
                np.random.seed(o['seed'])
                f, name = o['f'], o['sim']
                kw = {} if f['kind'] not in NAMES else {n: v for n, v in args(f).items() if n != 'ratio' or name == 'Hallway'}   # the others do not offer it
                cls = getattr(C, name[2:]) if name[:2] == 'c.' else getattr(S, name)
                kw.update(agent_type=types[o['type']])
                if name[:2] == 'c.':
                    kw.update(size_leaders=o['leaders'], size_herding=o['size'])
                else:
                    kw.update(size=o['size'])
                if name == 'c.Outdoor':
                    kw.update(horizontal_ratio=o['at'][0] / 8., vertical_ratio=o['at'][1] / 8.)
                sim = cls(**kw)
                if o.get('first'):            # whatever is asked for first
                    getattr(sim, o['first'])
                a = sim.agents.array
                return dict(rows=rows(), g=geometry(sim.field), typed=a.dtype == types[o['type']].dtype(), parts=3 if 'position_ls' in a.dtype.names else 1,
                            place=[k.q(o['at'][0] / 8. * f['w'] / U, 1000), k.q(o['at'][1] / 8. * f['h'] / U, 1000)] if 'at' in o else [0, 0])
        elif op == 'run':
            def go():
                b = rows()
                if o['step'] and 'Navigation' in [type(n).__name__ for n in nodes(sim.logic)]:
                    sim.logic['Navigation'].step = o['step'] / U
                was = sim.agents.array['position'].copy()
                with np.errstate(all='ignore'):
                    for _ in range(o['n']):
                        sim.update()
                a = sim.agents.array
                return dict(before=b, rows=rows(), iterations=sim.data.get('iterations', -1), moves=bool(len(a) == 0 or np.any(a['position'] != was)),
                            finite=all(bool(np.isfinite(a[n]).all()) for n in a.dtype.names if a[n].dtype.kind == 'f'))
        elif op == 'walk':
            def go():
                m = getattr(V, o['sim'])(agent_type=types[o['type']])
                was = m.agents.array['position'].copy()
                m.exit_condition = lambda z: z.data['iterations'] == o['n']
                with np.errstate(all='ignore'):
                    m.run()
                return dict(iterations=m.data['iterations'], way=[k.q(v, 1000) for v in m.agents.array['position'][0] - was[0]],
                            other=[k.q(v, 1000) for v in m.agents.array['position'][-1] - was[-1]])
        e['out'], r = k.attempt(go)
        e.update(r or {})
        ev.append(e)


def nodes(n):
    while n.parent is not None:
        n = n.parent
    stack, res = [n], []
    while stack:
        m = stack.pop()
        res.append(m)
        stack += list(m.children)
    return res


k.main(setup, run)
