import numpy as np
import drvkit as k


def setup():
    from crowddynamics.simulation.multiagent import MultiAgentSimulation
    from crowddynamics.simulation.logic import LogicNode
    from crowddynamics.exceptions import CrowdDynamicsException

    class Probe(LogicNode):
        def update(self):
            h = self.hook
            r = h['raise'].pop((self.idx, h['evals'].get(self.idx, 0)), None)
            h['evals'][self.idx] = h['evals'].get(self.idx, 0) + 1
            h['log']('raise' if r else 'eval', self.idx)
            if r:
                raise {'ValueError': ValueError, 'CrowdDynamicsException': CrowdDynamicsException, 'KeyError': KeyError}[r](r)
    return MultiAgentSimulation, Probe


LIMIT = 60


class TooMany(Exception):
    pass


def run(env, s, ev):
    Simulation, Probe = env
    cfg = s['cfg']
    name = cfg.get('name')
    simu = Simulation(name=name) if name else Simulation()
    other = Simulation()                     # an unrelated simulation: shares nothing
    count = [0]

    def log(op, n):
        count[0] += 1
        if count[0] > 9000:
            raise TooMany()
        ev.append({'op': op, 'n': n, 'it': simu.data['iterations']})
    hook = {'raise': {}, 'evals': {}, 'log': log}
    par = cfg['par']                          # parent of each node (0: root)
    nodes = []
    for i in range(len(par)):
        p = {'same': lambda: Probe(simu, name='n'), 'class': lambda: Probe(simu)}.get(cfg.get('labels'), lambda: Probe(simu, name='n%d' % i))()
        p.hook, p.idx = hook, i + 1
        nodes.append(p)
    for i, p in enumerate(par):
        if p:
            nodes[p - 1] << nodes[i]
    simu.logic = nodes[cfg['logic'] - 1]
    ev.append({'op': 'meta', 'data': [k.q(simu.data[x], 1) for x in ('iterations', 'time_tot', 'dt')],
               'ok': [simu.metadata['name'] == simu.name == (name or 'MultiAgentSimulation'),
                      simu.metadata['timestamp'] == str(simu.timestamp),
                      simu.data is not other.data and other.metadata is not simu.metadata and
                      simu.name_with_timestamp == simu.name + '_' + str(simu.timestamp).replace(' ', '_')]})

    for o in s['ops']:
        hook['raise'], hook['evals'] = {}, {}
        want = 'ok'
        for n, k_, typ in o.get('raises', ()):
            hook['raise'][(n, k_)] = typ
        if o['op'] == 'rewire':
            import json
            node = nodes[o['node'] - 1]
            node.parent = nodes[o['to'] - 1]
            ev.append({'op': 'rewire', 'order': o['order']})
            continue
        ev.append({'op': 'begin', 'mode': o['mode']})
        checks = [0]

        current = [0]

        def cond(sim, made=0):
            checks[0] += 1
            if checks[0] > max(LIMIT, 2 * o['k']):
                raise TooMany()
            if o['kind'] == 'count':
                r = checks[0] > o['k']
            else:
                r = sim.data['iterations'] >= o['k']
            ev.append({'op': 'check', 'res': r, 'it': simu.data['iterations'] if sim is simu and made == current[0] else -1})
            if checks[0] == o.get('swap') and not r:        # another condition takes over
                current[0] = made + 1
                simu.exit_condition = lambda z, n=made + 1: cond(z, n)
            return {'int': 2 * r, 'np': np.bool_(r), 'text': 'yes' if r else ''}.get(o.get('truth'), r)
        if o['mode'] == 'run':
            simu.exit_condition = cond
            out, _ = k.attempt(simu.run)
        elif o['mode'] == 'forever':
            simu.exit_condition = None
            out, _ = k.attempt(simu.run)
        else:
            out, _ = k.attempt(simu.update)
        ev.append({'op': 'end', 'out': out, 'want': o['want'], 'it': simu.data['iterations']})
    ev.append({'op': 'meta', 'data': [k.q(other.data[x], 1) for x in ('iterations', 'time_tot', 'dt')], 'ok': [True, True, True]})


k.main(setup, run)
