import collections
import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())


class Own(object):
    """A collection that is nothing else."""
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __contains__(self, x):
        return x in self.items


def setup():
    from crowddynamics.simulation import agents
    return agents


def run(ag, s, ev):
    types = {'circular': ag.Circular, 'three_circle': ag.ThreeCircle}
    used = []
    sources = [None]

    def item(i, j):
        return dict(radius=float(j), mass=float(i), position=(j, i))

    def source(i, kd):
        used.append(0)
        if kd['kind'] == 'collection':
            items = [item(i, j + 1) for j in range(kd['len'])]
            return {'tuple': tuple, 'deque': collections.deque, 'values': lambda x: dict(enumerate(x)).values(), 'own': Own}.get(kd.get('form'), list)(items)

        def call():
            used[i - 1] += 1
            return item(i, used[i - 1])
        if kd['kind'] == 'callable':
            return call

        def gen():
            while True:
                yield call()
        return gen()
    for i, kd in enumerate(s['cfg']['kinds']):
        sources.append(source(i + 1, kd))
    group = None
    for o in s['ops']:
        e = dict(o)
        kw = {}
        if o['kw']['size'] != -1:
            kw['size'] = o['kw']['size']
        if o['kw']['type'] != '-':
            kw['agent_type'] = types[o['kw']['type']]
        if o['kw']['src'] != -1:
            kw['attributes'] = sources[o['kw']['src']]
        if o['op'] == 'new':
            e['out'], group = k.attempt(lambda: ag.AgentGroup(**kw))
            if group is None:
                e.update(members=[], used=list(used))
                ev.append(e)
                return
        elif o['op'] == 'set':
            (n, v), = kw.items()
            e['out'], _ = k.attempt(lambda: setattr(group, n, v))
        else:
            def hold():
                with group.hold_trait_notifications():
                    for n in o['order']:
                        if n in kw:
                            setattr(group, n, kw[n])
            e['out'], _ = k.attempt(hold)

        def members():
            return [dict(t=next((n for n, c in types.items() if type(m) is c), '?'), s=k.q(m.mass, 1),
                         j=k.q(m.radius, 1) if tuple(m.position) == (m.radius, m.mass) else -1) for m in group.members]
        out, m = k.attempt(members)
        e['members'] = m if out == 'ok' else [dict(t=out, s=0, j=0)]
        e['used'] = list(used)
        ev.append(e)


k.main(setup, run)
