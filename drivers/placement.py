import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())

F = 1024


def setup():
    from crowddynamics.simulation import agents
    from crowddynamics.core.structures import obstacle_type_linear
    from crowddynamics.exceptions import CrowdDynamicsException
    return agents, obstacle_type_linear, CrowdDynamicsException


def attrs(kind, m, U=16.0):
    a = dict(mass=float(m['id']), tau_adj=m['id'] / 8.0, velocity=(m['id'] / 4.0, -m['id'] / 2.0), target=m['id'] % 3)
    b = m['body']
    if kind == 'circular':
        a['radius'] = b[0][2] / U
    else:
        a.update(radius=(m['ts'] + b[1][2]) / U, r_t=b[0][2] / U, r_s=b[1][2] / U, r_ts=m['ts'] / U, orientation=m['quarter'] * np.pi / 2)
    if m.get('start'):      # a position the attributes carry is replaced by the one that is found
        a['position'] = (m['start'][0] / U, m['start'][1] / U)
    return a


def run(env, s, ev):
    ag, obst_t, CDE = env
    U = float(s['cfg'].get('unit', 16))
    kind = s['cfg']['kind']
    cls = {'circular': ag.Circular, 'three_circle': ag.ThreeCircle}
    agents = ag.Agents(agent_type=cls[kind], **({'cell_size': s['cfg']['cell'] / U} if s['cfg'].get('cell') else {}))
    U = float(s['cfg'].get('unit', 16))
    ids = {}

    def rows():
        res = []
        for r in agents.array:
            i = int(r['mass'])
            ok = i in ids and abs(r['tau_adj'] - i / 8.0) < 1e-12 and abs(r['velocity'][0] - i / 4.0) < 1e-12 \
                and abs(r['velocity'][1] + i / 2.0) < 1e-12 and r['target'] == i % 3 and bool(r['active'])
            e = {'id': i if ok else -i - 1, 'x': k.q(r['position'][0], U * F), 'y': k.q(r['position'][1], U * F)}
            if kind == 'circular':
                e['sh'] = [[e['x'], e['y']]]
                e['rad'] = [k.q(r['radius'], U * F)]
            else:
                e['sh'] = [[k.q(v, U * F) for v in p] for p in (r['position'], r['position_ls'], r['position_rs'])]
                e['rad'] = [k.q(r['r_t'], U * F), k.q(r['r_s'], U * F), k.q(r['r_s'], U * F)]
            res.append(e)
        return res
    for o in s['ops']:
        e = {x: v for x, v in o.items() if x not in ('form', 'supplyform', 'other')}
        if o['op'] == 'mismatch':
            other = {'circular': 'three_circle', 'three_circle': 'circular'}[kind]
            m = [dict(id=90 + i, ts=2, quarter=0, body=[[0, 0, 3], [2, 0, 2], [-2, 0, 2]]) for i in range(2)]
            if o.get('sub'):       # a type of its own, with the same attributes
                other = kind
            typ = type('Special', (cls[kind],), {}) if o.get('sub') else cls[other]
            g = ag.AgentGroup(size=2, agent_type=typ, attributes=[attrs(other, x) for x in m])
            e['out'] = 'ok'
            try:
                agents.add_non_overlapping_group(g, position_gen=lambda: np.array([0.0, 0.0]))
            except CDE as x:
                e['out'] = 'CrowdDynamicsException'
            except Exception as x:
                e['out'] = k.outcome(x)
            e['rows'] = rows()
        else:
            for m in o['members']:
                ids[m['id']] = m
            al = [attrs(kind, m, U) for m in o['members']]
            g = ag.AgentGroup(size=len(al), agent_type=cls[kind], attributes=al)
            used = [0]

            def supply():
                while True:
                    p = o['supply'][used[0] % len(o['supply'])]
                    used[0] += 1
                    yield np.array([p[0] / U, p[1] / U])
            it = supply()
            gen = it if o.get('supplyform') == 'gen' else (lambda: next(it))
            walls = None
            if o['walls'] or o.get('other'):
                walls = np.array([(tuple(v / U for v in p), tuple(v / U for v in q)) for p, q in o['walls']], dtype=obst_t)
            e['out'], _ = k.attempt(lambda: agents.add_non_overlapping_group(g, gen, walls) if o.get('form') else
                                    agents.add_non_overlapping_group(group=g, position_gen=gen, obstacles=walls))
            e['used'] = used[0]
            e['rows'] = rows()
        e['members'] = [{'id': m['id'], 'body': m['body']} for m in o.get('members', [])]
        ev.append(e)


k.main(setup, run)
