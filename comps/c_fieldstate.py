"""Fields: validation, and derived maps that follow the geometries."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('fieldstate', scripts)
    ctx.judge('FieldStateTrace', traces, scripts=scripts, driver='fieldstate', shards=4, workers=2)
    if not ctx.replay:
        ctx.require_ops(['set', 'ask'])


def generate(ctx):
    rng = ctx.rng
    scripts = []
    for tag, consts in [('one', dict(Fields='1..1', Domains='{-2,0,1,2}', Obstacles='{-3,0,1}', Targets='{<<>>,<<1>>,<<2,1>>,<<-1>>}', Queries='{<<"mesh",0>>,<<"navigation",0>>,<<"navigation",-1>>,<<"obstacles",0>>,<<"target",1>>}')),
                        ('two', dict(Fields='1..2', Domains='{1}', Obstacles='{1,2}', Targets='{<<1>>}', Queries='{<<"navigation",0>>,<<"navigation",-2>>}'))]:
        edges = ctx.mc('MCFieldState', consts, invs=['TypeOK'], props=['Apart', 'Taken'], emit=True, view='View', name='mc_' + tag)
        paths, total, done = ctx.tour(edges, maxlen=60)
        ctx.detail['tour_' + tag] = {'edges': total, 'covered': done}
        for i, p in enumerate(paths):
            scripts.append({'id': '%s/%d' % (tag, i), 'cfg': {'fields': 1 if tag == 'one' else 2}, 'ops': p})
    for n in range(150 if ctx.thorough else 40):
        nf = rng.choice([1, 2, 3])
        cfg = {'fields': nf, 'odd': rng.choice(['nearest', None, 1.5, [0], 'CLOSEST'])}
        st = [dict(domain=0, obstacles=0, targets=[]) for _ in range(nf)]
        ops = []
        for _ in range(25):
            f = rng.randrange(nf)
            if rng.random() < .45:
                name = rng.choice(['domain', 'obstacles', 'targets'])
                if name == 'targets':
                    v = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                    v = [-1] if rng.random() < .07 else v
                    if v and rng.random() < .1:
                        v[rng.randrange(len(v))] = rng.choice([-1, -4, -5])
                else:
                    v = rng.choice([0, 1, 1, 2, 2, 3, 3, -1, -2, -3, -4, -5])
                if not (v < 0 if name != 'targets' else any(t < 0 for t in v)):
                    st[f][name] = v
                ops.append(dict(op='set', f=f + 1, name=name, v=v))
            else:
                what = rng.choice(['mesh', 'obstacles', 'target', 'navigation', 'navigation'])
                i = rng.choice([0, 0, 1, 2, -1, -1, -2]) if what in ('target', 'navigation') else 0
                if (what == 'obstacles' and not st[f]['obstacles']) or (what == 'target' and not st[f]['targets']):
                    continue
                ops.append(dict(op='ask', f=f + 1, what=what, i=i, p=rng.choice([0, 0, 0, 1, 2, 3, 4])))
        scripts.append({'id': 'rnd/%d' % n, 'cfg': cfg, 'ops': ops})
    for name in ('domain', 'obstacles', 'targets'):       # ask, change one thing (also to the same or to nothing), ask again
        vs = [[], [1], [2], [3, 1]] if name == 'targets' else [0, 1, 2, 3]
        for v in vs:
            ops = []
            for w in vs:
                for what in ('mesh', 'obstacles', 'target', 'navigation'):
                    base = dict(domain=rng.choice([1, 2]), obstacles=rng.choice([1, 2]), targets=[rng.choice([1, 2])])
                    base[name] = v
                    i, p = rng.choice([0, 0, -1]), rng.choice([0, 0, 1, 2, 3, 4])
                    ops += [dict(op='set', f=1, name=n, v=base[n]) for n in base]
                    for value in (v, w, v):
                        ops.append(dict(op='set', f=1, name=name, v=value))
                        if not (value in (0, []) and (what, name) in (('obstacles', 'obstacles'), ('target', 'targets'))):
                            ops.append(dict(op='ask', f=1, what=what, i=i if what in ('target', 'navigation') else 0, p=p))
            scripts.append({'id': 'again/%s/%s' % (name, v), 'cfg': {'fields': 1}, 'ops': ops})
    return scripts
