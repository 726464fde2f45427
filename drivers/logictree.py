import drvkit as k


def setup():
    from crowddynamics.simulation.multiagent import MultiAgentSimulation
    from crowddynamics.simulation.logic import LogicNode

    class Probe(LogicNode):
        def update(self):
            self.log.append(self.idx)
    return MultiAgentSimulation, Probe


def run(env, s, ev):
    Simulation, Probe = env
    names = s['cfg']['names']
    simu = Simulation()
    log = []
    nodes = []
    for i, n in enumerate(names):
        p = Probe(simu, name=n) if n != 'Probe' else Probe(simu)     # default name: the class
        p.log, p.idx = log, i + 1
        nodes.append(p)

    def forest(e):
        def idx(n):
            return 0 if n is None else getattr(n, 'idx', -1)
        e['par'] = [idx(n.parent) for n in nodes]
        e['kids'] = [[idx(c) for c in n.children] for n in nodes]

    for o in s['ops']:
        e = {a: b for a, b in o.items() if a != 'form'}
        op = o['op']
        if op == 'add':
            cs = [nodes[c - 1] for c in o['cs']]
            p = nodes[o['p'] - 1]
            form = o.get('form', 'tuple')

            def do():
                if form == 'single' and len(cs) == 1:
                    return p << cs[0]
                if form == 'method':
                    for c in cs:
                        r = p.add_children(c)
                    return r
                return p << {'tuple': tuple(cs), 'gen': iter(cs)}.get(form, cs)
            e['out'], r = k.attempt(do)
            e['ret'] = getattr(r, 'idx', -1)
        elif op in ('before', 'after'):
            a, b = nodes[o['self'] - 1], nodes[o['node'] - 1]
            e['out'], _ = k.attempt(lambda: (a.inject_before if op == 'before' else a.inject_after)(b))
        elif op == 'detach':
            def do(): nodes[o['self'] - 1].parent = None
            e['out'], _ = k.attempt(do)
        elif op == 'lookup':
            e['out'], r = k.attempt(lambda: nodes[o['start'] - 1][o['name']])
            e['res'] = getattr(r, 'idx', -1)
        elif op == 'eval':
            del log[:]
            before = simu.data['iterations']

            def do():
                simu.logic = nodes[o['start'] - 1]
                simu.update()
            e['out'], _ = k.attempt(do)
            e['res'] = list(log)
            e['it'] = simu.data['iterations'] - before
        forest(e)
        ev.append(e)


k.main(setup, run)
