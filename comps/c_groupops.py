"""Agent groups."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('groupops', scripts)
    ctx.judge('GroupOpsTrace', traces, scripts=scripts, driver='groupops', shards=4, workers=2)
    if not ctx.replay:
        ctx.require_ops(['new', 'set', 'hold'])


ORDERS = [['size', 'agent_type', 'attributes'], ['attributes', 'agent_type', 'size'], ['agent_type', 'attributes', 'size'], ['attributes', 'size', 'agent_type']]


def generate(ctx):
    rng = ctx.rng
    scripts = []
    kinds = [dict(kind='collection', len=2), dict(kind='generator', len=0), dict(kind='callable', len=0)]
    consts = dict(Kinds='<<' + ','.join('[kind |-> "%s", len |-> %d]' % (d['kind'], d['len']) for d in kinds) + '>>',
                  Sizes='{1,3}', MaxSteps=4 if ctx.thorough else 3)
    edges = ctx.mc('MCGroupOps', consts, invs=['SizeRight'], props=['UsedOnce'], emit=True, view='View')
    paths, total, done = ctx.tour(edges, init=dict(g=dict(size=0, type='', src=0, used=[0, 0, 0], members=[]), n=0), maxlen=6)
    ctx.detail['tour'] = {'edges': total, 'covered': done}
    for i, p in enumerate(paths):
        ops = [] if p[0]['op'] == 'new' else [dict(op='new', kw=dict(size=-1, type='-', src=-1))]
        for o in p:
            ops.append(dict(o, order=rng.choice(ORDERS)) if o['op'] == 'hold' else dict(o))
        scripts.append({'id': 'mc/%d' % i, 'cfg': {'kinds': kinds}, 'ops': ops})
    for n in range(400 if ctx.thorough else 100):
        kinds = [dict(kind=rng.choice(['collection', 'generator', 'callable']), len=rng.randint(1, 6)) for _ in range(rng.randint(1, 4))]
        for d in kinds:
            if d['kind'] != 'collection':
                d['len'] = 0
            else:
                d['form'] = rng.choice(['list', 'tuple', 'deque', 'values', 'own'])

        def kw(names, kinds=kinds):
            return dict(size=rng.choice([1, 2, 3, 7, 12, 0]) if 's' in names else -1, type=rng.choice(['circular', 'three_circle']) if 't' in names else '-',
                        src=rng.randint(1, len(kinds)) if 'a' in names else -1)
        ops = []
        for _ in range(rng.randint(2, 10)):
            r = rng.random()
            if r < .25 or not ops:
                ops.append(dict(op='new', kw=kw(rng.choice(['', 's', 't', 'a', 'st', 'sa', 'ta', 'sta', 'sta', 'sta']))))
            elif r < .8:
                ops.append(dict(op='set', kw=kw(rng.choice('sta'))))
            else:
                ops.append(dict(op='hold', kw=kw(rng.choice(['st', 'sa', 'ta', 'sta'])), order=rng.choice(ORDERS)))
        scripts.append({'id': 'rnd/%d' % n, 'cfg': {'kinds': kinds}, 'ops': ops})
    return scripts
