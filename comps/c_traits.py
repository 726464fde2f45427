"""Traits and their conversions."""
NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'A', 'B', '_c', 'aa', 'a_b']
MANY = ['%s%d' % (c, i) for c in 'zyx' for i in range(12)]


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('traits', scripts)
    ctx.judge('TraitsTrace', traces, scripts=scripts, driver='traits', shards=6, workers=1)
    if not ctx.replay:
        ctx.require_ops(['define', 'traits', 'own', 'struct', 'table', 'dtype', 'type', 'option', 'shape', 'length'])


def generate(ctx):
    rng = ctx.rng
    scripts = []
    after = [dict(op='traits'), dict(op='own'), dict(op='struct'), dict(op='table')]
    # all hierarchies of three classes; taken as tours of single definitions
    edges = ctx.mc('MCTraits', dict(N=3, Names='{"a", "b"}'), invs=['TypeOK', 'Once', 'NoneLost', 'Derived'], emit=True, view='View')
    last = [e for e in edges if len(e['s']) == 2]
    rng.shuffle(last)
    keep = last if ctx.thorough else last[:1500]
    ctx.detail['hierarchies'] = {'of two classes': sum(len(e['s']) == 1 for e in edges), 'of three classes': len(last), 'replayed': len(keep)}
    for i, e in enumerate(keep):
        scripts.append({'id': 'mc/%d' % i, 'cfg': {'after': after}, 'ops': [dict(op='define', **c) for c in e['s']] + [e['a']]})

    def own(kinds):
        return [dict(name=n, kind=rng.choice(kinds)) for n in rng.sample(NAMES, rng.choice([0, 1, 2, 3, 4]))]
    # long chains, with a second branch here and there; classes with many attributes
    for n in range(60 if ctx.thorough else 20):
        kinds, ops = ['Int', 'Float', 'Complex', 'Bool', 'Array'], []
        for c in range(1, 4 if n % 2 else rng.choice([7, 9, 12])):
            many = MANY if n % 2 and c < 3 else []
            o = own(kinds)
            o += [dict(name=x, kind=rng.choice(kinds)) for x in rng.sample(many, rng.randint(0, len(many))) if x not in [y['name'] for y in o]]
            ops.append(dict(op='define', bases=[] if c == 1 else [c - 1], own=o))
        c = len(ops)
        for _ in range(2):
            ops += [dict(op='traits', c=c, noNames=rng.sample(NAMES + MANY, rng.choice([0, 0, 3])), noClasses=rng.sample(range(1, c + 1), rng.choice([0, 0, 1]))), dict(op='own', c=rng.randint(1, c)), dict(op='struct', c=c), dict(op='table', c=c)]
        scripts.append({'id': 'long/%d' % n, 'cfg': {}, 'ops': ops})
    for n in range(200 if ctx.thorough else 60):
        ops, m = [], 0
        kinds = ['Int', 'Float', 'Complex', 'Bool', 'Array'] + (['Unicode', 'other'] if rng.random() < .3 else [])
        for _ in range(rng.choice([3, 5, 8])):
            # ordered bases that go together: later classes first
            bases = sorted(rng.sample(range(1, m + 1), min(m, rng.choice([0, 1, 1, 2, 3]))), reverse=rng.random() < .8)
            ops.append(dict(op='define', bases=bases, own=own(kinds)))
            m += 1
            for _ in range(2):
                ops.append(dict(op=rng.choice(['traits', 'traits', 'own', 'struct']), c=rng.randint(1, m), noNames=rng.sample(NAMES, rng.choice([0, 0, 1, 3])), noClasses=rng.sample(range(1, m + 1), min(m, rng.choice([0, 0, 1, 2])))))
            ops.append(dict(op='table', c=rng.randint(1, m)))
        # numbers of classes that could not be defined are not used: the driver skips them
        scripts.append({'id': 'cls/%d' % n, 'cfg': {}, 'ops': ops})
    for n in range(100 if ctx.thorough else 30):
        ops = []
        for _ in range(25):
            r = rng.random()
            kind = rng.choice(['Int', 'Int', 'Float', 'Complex', 'Bool', 'Unicode', 'Enum', 'Tuple', 'Array', 'other', 'none'])
            d = {'Int': [rng.randint(-3, 9)], 'Float': [rng.randint(-50, 50)], 'Complex': [rng.randint(-3, 3), rng.randint(-3, 3)], 'Bool': [rng.randint(0, 1)], 'Unicode': [rng.randint(1, 5)], 'Enum': [1],
                 'Tuple': [rng.randint(0, 9), rng.randint(-9, 9), rng.randint(1, 5)]}.get(kind, [rng.randint(0, 3)])
            o = dict(kind=kind, default=d, n=rng.randint(1, 4))
            if kind == 'Enum':
                o['default'] = [rng.randint(1, o['n'])]
            if r < .25:
                o.update(op='dtype', dt=rng.choice(['float64', 'float32', 'int64', 'int8', 'uint16', 'bool', 'complex128', 'complex64']), dims=rng.choice([[2], [1], [3, 2], [], [0]]))
            elif r < .35:
                o['op'] = 'type'
            elif r < .8:
                o.update(op='option', hasmin=rng.random() < .3, hasmax=rng.random() < .3, min=rng.randint(-2, 2), max=rng.choice([3, 5, 8, 0, -1, 2]), junk=False, junkword='q1', given=[])
                if kind == 'Int':
                    o['min'] = min(o['min'], o['max'])
                    o['default'] = [rng.randint(o['min'], o['max'])] if o['hasmin'] and o['hasmax'] else [min(d[0], o['max'])] if o['hasmax'] else [max(d[0], o['min'])] if o['hasmin'] else d
                if rng.random() < .7 and kind not in ('Array', 'other', 'none'):
                    o['given'] = {'Int': [rng.randint(-4, 10)], 'Float': [rng.randint(-50, 50)], 'Complex': [rng.randint(-3, 3), rng.randint(-3, 3)], 'Bool': [1], 'Unicode': [rng.randint(1, 5)], 'Enum': [rng.randint(1, 5)],
                                  'Tuple': [rng.randint(0, 9), rng.randint(0, 9), rng.randint(1, 5)]}[kind]
                    if kind == 'Enum' and o['given'][0] == 5:
                        o['given'] = [6]
                    if rng.random() < .15 and kind in ('Int', 'Float', 'Complex'):
                        o['junk'] = True
                        o['given'] = [3, 3][:len(o['given'])]
                        o.update(hasmin=False, hasmax=False)
            elif r < .9:
                a = rng.choice([[], [1], [2], [2, 2], [1, 2], [2, 1], [0]])
                o = dict(op='shape', dims=a, shape=a if rng.random() < .5 else rng.choice([[], [1], [2], [2, 2], [1, 2], [2, 1], [0]]))
            else:
                v = rng.choice([[3, 4], [-4, 3], [0, 5], [5, 12], [0, 0], [6, 8], [1, 1], [-8, 15], [0, 1]])
                o = dict(op='length', v=v, ls=[rng.choice([0, 1, 5, 10, 13, 17, 4]) for _ in range(rng.choice([1, 1, 2, 4]))])
                if rng.random() < .5:                   # lengths that differ by little
                    f = rng.choice([100, 1000])
                    o = dict(op='length', v=[f * x for x in v], ls=[f * x + rng.choice([0, 0, 1, -1, 7, f // 50]) if x else rng.choice([0, 3]) for x in o['ls']], sc=rng.choice([-2, -8, -10, -12, 3]))
            ops.append(o)
        scripts.append({'id': 'conv/%d' % n, 'cfg': {}, 'ops': ops})
    # every bound with every value around it
    ops = []
    for lo, hi in ((None, 4), (1, None), (1, 4), (-2, 0), (0, 0), (-3, -1), (None, -1), (0, None), (None, 0), (-2, None)):
        a, b = -4 if lo is None else lo, 6 if hi is None else hi
        ops += [dict(op='option', kind='Int', n=1, default=[max(min(2, b), a)], hasmin=lo is not None, hasmax=hi is not None, min=a if lo is not None else 0,
                     max=b if hi is not None else 0, junk=False, junkword='q1', given=g) for g in [[]] + [[v] for v in range(a - 2, b + 3)]]
    scripts.append({'id': 'bounds', 'cfg': {}, 'ops': ops})
    return scripts
