from array import array
import drvkit as k


def setup():
    from sortedcontainers.sortedlist import SortedList
    from crowddynamics.core.block_list import MutableBlockList
    return MutableBlockList, {'list': list, 'sorted': SortedList, 'array': lambda: array('i')}


BADKEY = {'none': None, 'scalar': 7, 'text': 'ab', 'mixed': (1.0, 'x')}


def run(env, s, ev):
    cls, kinds = env
    unit = s['cfg'].get('unit', 8)
    # what is stored may be anything: the numbers of the script stand for these values
    things = s['cfg'].get('things') and all(g['kind'] == 'list' for g in s['cfg']['grids'])
    values = [None, 0, False, '', 'a', (), (1, 2), [], 1.5, {'k': 1}, b'x', frozenset()] if things else []

    def thing(v):
        return values[v] if v < len(values) else v

    def number(x):
        for i, y in enumerate(values):
            if type(x) is type(y) and x == y:
                return i
        return x
    grids = []
    for g in s['cfg']['grids']:
        out, o = k.attempt(lambda: cls(g['cell'] / unit, kinds[g['kind']]))
        if out != 'ok':
            ev.append({'op': 'new', 'out': out})
            return
        grids.append(o)

    def pt(p, form):
        if form == 'np':
            import numpy as np
            return np.array(p, dtype=float) / unit
        if form == 'list':
            return [c / unit for c in p]
        return tuple(c / unit for c in p)

    for o in s['ops']:
        e = dict(o)
        g = grids[o['g'] - 1]
        form = e.pop('form', 'tuple')
        poke = e.pop('poke', False)
        if o['op'] == 'put':
            def do(): g[pt(o['p'], form)] = thing(o['v'])
            e['out'], _ = k.attempt(do)
        elif o['op'] in ('get', 'near'):
            if o['op'] == 'get':
                e['out'], r = k.attempt(lambda: g[pt(o['p'], form)])
            elif o['r'] == 1 and form == 'list':
                e['out'], r = k.attempt(lambda: g.nearest(pt(o['p'], form)))  # default radius
            else:
                e['out'], r = k.attempt(lambda: g.nearest(pt(o['p'], form), radius=o['r']))
            e['res'] = []
            if e['out'] == 'ok':
                v = k.ints([number(x) for x in r] if values else r)
                if v is None:
                    e['out'] = 'badvalue'
                else:
                    e['res'] = v
                    if poke and o['op'] == 'near':  # the result belongs to the caller
                        k.attempt(lambda: r.add(2000000) if hasattr(r, 'add') else r.append(2000000))
        elif o['op'] == 'bad':
            key = BADKEY[o['how']]
            use = e.pop('use', 'put')

            def do():
                if use == 'put':
                    g[key] = 5
                elif use == 'get':
                    g[key]
                else:
                    g.nearest(key, radius=1)
            e['out'], _ = k.attempt(do)
        ev.append(e)


k.main(setup, run)
