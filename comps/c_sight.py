"""Line of sight, exit detection, evacuation helpers."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('sight', scripts)
    ctx.judge('SightTrace', traces, scripts=scripts, driver='sight', shards=4, workers=2)
    if not ctx.replay:
        ctx.require_ops(['cross', 'between', 'detect', 'node', 'ranks', 'capacity'])


def tla(v):
    return '<<%s>>' % ', '.join(map(tla, v)) if isinstance(v, (list, tuple)) else str(v)


def generate(ctx):
    rng = ctx.rng
    scripts = []
    for w, (walls, doors, ends) in enumerate([([[[1, -1], [1, 1]]], [[4, 0], [-4, 0]], None), ([[[-3, 1], [3, 1]], [[0, -3], [0, 1]]], [[0, 4], [3, -2], [-3, -2]], None)]):
        grid = [[x, y] for x in (-2, 0, 2) for y in (-2, 0, 2)] if not ctx.thorough else [[x, y] for x in (-3, -2, 0, 1, 2) for y in (-2, 0, 1, 2)]
        edges = ctx.mc('MCSight', dict(Grid='{%s}' % ', '.join(map(tla, grid)), Doors=tla(doors), Walls=tla(walls), Range=6), invs=['TypeOK', 'Committed'],
                       props=['Stays', 'Sees'], emit=True, view='View', name='mc%d' % w)
        paths, total, done = ctx.tour(edges, maxlen=60, act=lambda e: e)
        ctx.detail['tour%d' % w] = {'edges': total, 'covered': done}
        for i, p in enumerate(paths):
            scripts.append({'id': 'mc%d/%d' % (w, i), 'cfg': {'unit': 1, 'range': 6, 'walls': walls, 'targets': [[[d[0] - 1, d[1] + 1], [d[0] + 1, d[1] - 1]] for d in doors],
                                                             'agents': [p[0]['s']], 'kind': rng.choice(['circular', 'three_circle'])}, 'ops': [e['a'] for e in p]})

    def pt(n=6):
        return [rng.randint(-n, n), rng.randint(-n, n)]
    for n in range(300 if ctx.thorough else 80):
        ops = []
        size = rng.choice([2, 5, 12, 100])
        ps = [pt(size) for _ in range(rng.choice([1, 3, 8]))]
        for _ in range(rng.choice([10, 25])):
            r = rng.random()
            ws = [[pt(size), pt(size)] for _ in range(rng.choice([0, 1, 1, 3, 6] if rng.random() < .9 else [20, 40]))]
            if len(ws) > 6 and rng.random() < .7:     # only the last ones near
                ws = [[[u + 1000 for u in c] for c in w] for w in ws[:-2]] + ws[-2:]
            if r < .4:
                a, b, c, d = pt(size), pt(size), pt(size), pt(size)
                if rng.random() < .2:
                    c = rng.choice([a, b, [a[0] + (b[0] - a[0]) // 2, a[1] + (b[1] - a[1]) // 2]])
                if rng.random() < .1:
                    b = a
                ops.append(dict(op='cross', p=a, q=b, a=c, b=d))
            elif r < .55:
                ops.append(dict(op='between', p=pt(size), q=pt(size), walls=ws))
            elif r < .8:
                doors = [pt(size) for _ in range(rng.choice([0, 1, 2, 4, 12, 20]))]
                if doors and rng.random() < .4:
                    doors.append(doors[0])
                ps = [pt(size) for _ in range(rng.choice([0, 1, 3, 6]))]
                if ps and rng.random() < .5:          # about as far on the other side
                    u, v = rng.randint(2, 4000 if rng.random() < .5 else size), rng.randint(-9, 9)
                    doors = doors[:4] + rng.sample([[ps[0][0] + u, ps[0][1] + v], [ps[0][0] - u + rng.choice([-1, 0, 1]), ps[0][1] - v], [ps[0][0] + v, ps[0][1] + u + rng.choice([0, 1])]], 3)
                ops.append(dict(op='detect', ps=ps, doors=doors, walls=ws,
                                range=rng.choice([1, 5, 10, 13, 4 * size, 10000])))
            elif r < .9:
                ops.append(dict(op='ranks', c=pt(size), ps=[pt(size) for _ in range(rng.choice([0, 1, 2, 5, 12]))]))
            else:
                ops.append(dict(op='capacity', door=rng.choice([rng.randint(0, 256), 16, 32, 64]), agent=rng.choice([1, 16, 29, 32, 45, 64]), layer=rng.choice([-1, 16, 29, 32, 48]), coeff=rng.choice([4, 1, 3, 8])))
        scripts.append({'id': 'fn/%d' % n, 'cfg': {'unit': rng.choice([1, 4, 16])}, 'ops': ops})
    for n in range(200 if ctx.thorough else 60):
        unit = rng.choice([1, 2, 4])
        size = rng.choice([8, 20, 40]) * unit
        ags = [dict(x=pt(size), target=rng.choice([-1, -1, 0, 1, 5]), follower=rng.random() < .7) for _ in range(rng.choice([1, 2, 5, 12]))]
        cfg = dict(unit=unit, range=rng.choice([20, 20, 5, 13, 1, 60]) * unit, agents=ags, kind=rng.choice(['circular', 'three_circle']),
                   targets=[[pt(size), pt(size)] for _ in range(rng.choice([1, 2, 3, 5, 14]))], walls=[[pt(size), pt(size)] for _ in range(rng.choice([0, 1, 2, 5]))], bent=rng.random() < .4)
        ops = []
        for _ in range(rng.randint(1, 6)):
            ops += [dict(op='node'), dict(op='move', xs=[pt(size) for _ in ags])]
        scripts.append({'id': 'node/%d' % n, 'cfg': cfg, 'ops': ops})
    return scripts
