"""Spatial hash: every stored value is found by cell and neighbourhood queries, exactly."""


def run(ctx):
    if ctx.replay:
        scripts = ctx.replay
    else:
        scripts = generate(ctx)
    traces = ctx.drive('sphash', scripts)
    ctx.judge('SpatialHashTrace', traces, scripts=scripts, driver='sphash', shards=4, workers=2)
    if not ctx.replay:
        ctx.require_ops(['put', 'get', 'near', 'bad/raise:KeyError'])


def generate(ctx):
    rng = ctx.rng
    invs = ['CompleteInv', 'SoundInv', 'FoundInv', 'ZeroInv']
    props = ['Independent', 'OnlyPutChanges']
    scripts = []
    confs = [('d1', dict(Coords='{-3,-2,-1,0,1,2}' if ctx.thorough else '{-3,-2,-1,0,2}', Dim=1, Cells='Cells1', Vals='{1,2}' if ctx.thorough else '{1}',
                         MaxItems=3, Radii='{0,1,2}', Kinds='{"list","sorted"}' if ctx.thorough else '{"list"}')),
             ('d2', dict(Coords='{-2,0,1}', Dim=2, Cells='Cells1', Vals='{1}', MaxItems=2, Radii='{0,1}',
                         Kinds='{"sorted"}')),
             ('g2', dict(Coords='{-2,1}', Dim=1, Cells='Cells2', Vals='{1,2}', MaxItems=3, Radii='{0,1}',
                         Kinds='{"array"}'))]
    for tag, consts in confs:
        edges = ctx.mc('MCSpatialHash', consts, invs=invs, props=props, emit=True, view='View', name='mc_' + tag)
        byinit = {}
        for e in edges:
            key = (tuple(g['cell'] for g in e['s']), e['s'][0]['kind'])
            byinit.setdefault(key, []).append(e)
        cov = [0, 0]
        for (cells, kind), es in sorted(byinit.items()):
            init = [dict(cell=c, dim=es[0]['s'][0]['dim'], kind=kind, items=[]) for c in cells]
            paths, total, done = ctx.tour(es, init=init, maxlen=400)
            cov[0] += total
            cov[1] += done
            for i, p in enumerate(paths):
                for o in p:
                    if o['op'] == 'bad':
                        o['use'] = rng.choice(['put', 'get', 'near'])
                    if o['op'] == 'near':
                        o['poke'] = rng.random() < .3
                scripts.append({'id': '%s/%s/%s/%d' % (tag, cells, kind, i), 'ops': p,
                                'cfg': {'unit': rng.choice([1, 2, 8, 1]), 'grids': [dict(cell=c, dim=init[0]['dim'], kind=kind) for c in cells]}})
        ctx.detail['tour_' + tag] = {'edges': cov[0], 'covered': cov[1]}
    for n in range(400 if ctx.thorough else 60):
        grids = [dict(cell=rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 20, 41, 49, 98]), dim=rng.choice([1, 2, 2, 3]),
                      kind=rng.choice(['list', 'sorted', 'array'])) for _ in range(rng.choice([1, 1, 2, 3]))]
        if len(grids) > 1 and rng.random() < .5:
            grids[1] = dict(grids[0])
        ops = []
        span = rng.choice([6, 20, 60, 400])
        for j in range(rng.choice([20, 60])):
            gi = rng.randrange(len(grids))
            g = grids[gi]
            p = [rng.choice([rng.randint(-span, span), g['cell'] * rng.randint(-4, 4)]) for _ in range(g['dim'])]
            if ops and rng.random() < .3:
                prev = [o for o in ops if o.get('p') and o['g'] == gi + 1]
                if prev:
                    p = list(rng.choice(prev)['p'])
            r = rng.random()
            form = rng.choice(['tuple', 'list', 'np'])
            if r < .5:
                ops.append(dict(op='put', g=gi + 1, p=p, v=j if g['kind'] == 'sorted' else rng.randint(0, 50), form=form))
            elif r < .7:
                ops.append(dict(op='get', g=gi + 1, p=p, form=form))
            elif r < .95:
                ops.append(dict(op='near', g=gi + 1, p=p, r=rng.choice([0, 1, 1, 2, 3, 5, 8] if g['dim'] < 3 else [0, 1, 2]),
                                form=form, poke=rng.random() < .4))
            else:
                ops.append(dict(op='bad', g=gi + 1, how=rng.choice(['none', 'scalar', 'text', 'mixed']), use=rng.choice(['put', 'get', 'near'])))
        scripts.append({'id': 'rnd/%d' % n, 'cfg': {'unit': rng.choice([1, 2, 4, 8, 64]), 'grids': grids, 'things': rng.random() < .4}, 'ops': ops})
    return scripts
