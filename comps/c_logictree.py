"""Logic tree: construction, injection, lookup, evaluation order."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('logictree', scripts)
    ctx.judge('LogicTreeTrace', traces, scripts=scripts, driver='logictree', shards=4, workers=2)
    if not ctx.replay:
        ctx.require_ops(['add', 'before', 'after', 'lookup', 'lookup/raise:KeyError', 'eval'])


def generate(ctx):
    rng = ctx.rng
    invs, props = ['TypeOK', 'EvalInv', 'LookupInv'], ['NoLoss', 'BeforeProp', 'AfterProp']
    scripts = []
    cfgs = [('n3', ['a', 'b', 'a'])] + ([('n4', ['a', 'b', 'c', 'd'])] if ctx.thorough else [])
    for tag, names in cfgs:
        consts = dict(Names='<<%s>>' % ', '.join('"%s"' % n for n in names))
        edges = ctx.mc('MCLogicTree', consts, invs=invs, props=props, emit=True, view='View', name='mc_' + tag)
        n = len(names)
        paths, total, done = ctx.tour(edges, init=dict(par=[0] * n, kids=[[]] * n, name=names), maxlen=300)
        ctx.detail['tour_' + tag] = {'edges': total, 'covered': done}
        for i, p in enumerate(paths):
            for o in p:
                if o['op'] == 'add':
                    o['form'] = rng.choice(['single', 'method', 'tuple', 'list'])
            scripts.append({'id': '%s/%d' % (tag, i), 'ops': p, 'cfg': {'names': names}})
    if not ctx.thorough:      # the 4-node design is still explored, without the tour
        ctx.mc('MCLogicTree', dict(Names='<<"a", "b", "c", "d">>'), invs=invs, props=props, view='View', name='mc_n4')
    for t in range(500 if ctx.thorough else 110):
        n = rng.choice([rng.randint(3, 12), rng.randint(10, 24)])
        names = [rng.choice(['Reset', 'reset', 'Integrator', 'Adjusting', 'Adjusting ', 'Probe', 'x', 'y y', 'n%d' % i, 'n%d' % i]) for i in range(n)]
        par, kids = [0] * (n + 1), [[] for _ in range(n + 1)]

        def anc(x):
            r = []
            while x:
                r.append(x)
                x = par[x]
            return r

        def setp(c, p):
            if par[c] == p:
                return
            if par[c]:
                kids[par[c]].remove(c)
            if p:
                kids[p].append(c)
            par[c] = p
        tall = rng.random() < .3
        wide = not tall and rng.random() < .4
        ops = []
        for j in range(rng.choice([15, 40]) if not tall else 90):
            r = rng.random()
            a, b = rng.randint(1, n), rng.randint(1, n)
            if tall and r < .35:        # a long chain
                a = max(range(1, n + 1), key=lambda x: len(anc(x)))
            if wide and rng.random() < .5:        # the one with most children
                a = max(range(1, n + 1), key=lambda x: len(kids[x]))
            if r < .35:
                cs = rng.sample(range(1, n + 1), rng.randint(1, 1 if tall else min(9 if wide else 4, n)))
                good = []
                for c in cs:
                    if c not in anc(a):
                        setp(c, a)
                        good.append(c)
                if good:
                    ops.append(dict(op='add', p=a, cs=good, form=rng.choice(['single', 'method', 'tuple', 'list', 'gen'])))
                elif rng.random() < .3:
                    ops.append(dict(op='add', p=a, cs=[], form=rng.choice(['tuple', 'list', 'gen'])))
            elif r < .6 and a not in anc(b) and b not in anc(a):
                if rng.random() < .5:
                    old = par[a]
                    setp(a, b)
                    setp(b, old)
                    ops.append(dict(op='before', self=a, node=b))
                else:
                    for c in list(kids[a]):
                        setp(c, b)
                    setp(b, a)
                    ops.append(dict(op='after', self=a, node=b))
            elif r < .65:
                setp(a, 0)
                ops.append(dict(op='detach', self=a))
            elif r < .8:
                ops.append(dict(op='lookup', start=a, name=rng.choice(names + ['nobody'])))
            else:
                ops.append(dict(op='eval', start=a))
        scripts.append({'id': 'rnd/%d' % t, 'ops': ops, 'cfg': {'names': names}})
    return scripts
