"""Pictures of geometries, fields, maps and trees."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('pictures', scripts)
    ctx.judge('PicturesTrace', traces, scripts=scripts, driver='pictures', shards=6, workers=1)
    if not ctx.replay:
        ctx.require_ops(['geom', 'refuse', 'aspect', 'field', 'maps', 'plot', 'figure', 'tree'])


def geo(t, pts=(), holes=(), parts=()):
    return dict(t=t, pts=[list(p) for p in pts], holes=[[list(p) for p in h] for h in holes], parts=list(parts))


NONE = geo('none')


def generate(ctx):
    rng = ctx.rng
    scripts = []
    edges = ctx.mc('MCPictures', dict(Depth=9 if ctx.thorough else 6), invs=['TypeOK', 'Holds'], props=['Adds'], emit=True, view='View')
    paths, total, done = ctx.tour(edges, maxlen=30)
    ctx.detail['tour'] = {'edges': total, 'covered': done}
    for i, ops in enumerate(paths):
        scripts.append({'id': 'mc/%d' % i, 'cfg': {'unit': [1, 2, 4][i % 3], 'pw': [600, 800, 300][i % 3], 'ph': [600, 300, 800, 400][i % 4]}, 'ops': ops})

    def box(x0, y0, x1, y1, holes=()):
        return geo('Polygon', [[x0, y0], [x1, y0], [x1, y1], [x0, y1]], holes)

    def prim(n):
        r = rng.random()
        pt = lambda: [rng.randint(-n, n), rng.randint(-n, n)]
        if r < .2:
            return geo('Point', [pt()])
        if r < .55:
            p = [pt() for _ in range(rng.choice([2, 2, 3, 6]))]
            return geo('LineString', p + ([p[0]] if len(p) > 2 and rng.random() < .3 else []))
        x, y, w, h = rng.randint(-n, n), rng.randint(-n, n), rng.randint(3, n + 3), rng.randint(3, n + 3)
        if r < .8:
            return box(x, y, x + w, y + h, [[[x + 1, y + 1], [x + 2, y + 1], [x + 2, y + 2]]] if rng.random() < .4 else [])
        return geo('Polygon', [[x, y], [x + w, y], [x, y + h]])

    def any_geo(n, depth=0):
        if depth < 2 and rng.random() < .4:
            parts = [any_geo(n, depth + 1) for _ in range(rng.choice([1, 2, 3]))]
            if rng.random() < .5:
                parts = [x for x in parts if x['t'] == parts[0]['t']]
            return geo('Multi', parts=parts)
        return prim(n)

    def room(n, full):
        x, y = rng.choice([0, 0, -n // 2, 3, -2 * n]), rng.choice([0, -3, 5, n])
        w, h = rng.randint(n // 2, n), rng.randint(n // 2, n)
        wall = geo('LineString', [[x + w // 2, y], [x + w // 2, y + h // 2]])
        kinds = [NONE, wall, geo('Multi', parts=[wall, geo('LineString', [[x, y], [x + w, y]])]), box(x + w // 2, y + 1, x + w // 2 + 1, y + 2)]
        targets = [geo('LineString', [[x, y], [x, y + h]]), geo('LineString', [[x + w, y], [x + w, y + h]]), box(x + w - 1, y + h - 1, x + w, y + h)]
        return dict(domain=box(x, y, x + w, y + h) if full or rng.random() < .8 else NONE, walls=rng.choice(kinds),
                    spawns=[rng.choice([box(x, y, x + 1, y + 1), box(x + 1, y + 1, x + 3, y + 2)]) for _ in range(rng.choice([0, 1, 2, 4]))],
                    targets=[rng.choice(targets) for _ in range(rng.choice([1, 1, 2, 3] if full else [0, 1, 2, 12]))])
    for n in range(150 if ctx.thorough else 40):
        ops = []
        for _ in range(15):
            r = rng.random()
            size = rng.choice([4, 20, 60])
            if r < .3:
                ops.append(dict(op='geom', g=any_geo(size), tag=rng.randint(1, 9)))
            elif r < .35:
                ops.append(dict(op='refuse', v=rng.choice(['none', 'text', 'list', 'number'])))
            elif r < .55:
                xs, ys = [sorted(rng.randint(-size, size) for _ in range(2)) for _ in range(2)]
                ops.append(dict(op='aspect', x=xs, y=ys, an=rng.choice([1, 1, 2, 3]), ad=rng.choice([1, 1, 2, 4]), m=rng.choice([0, 1, 1, 2, 5])))
            elif r < .7:
                ops.append(dict(op='field', f=room(size, False)))
            elif r < .85:
                x, y = rng.randint(-9, 9), rng.randint(-9, 9)
                st = rng.choice([1, 2])
                ops.append(dict(op='maps', lo=[x, y], hi=[x + st * rng.randint(2, 9), y + st * rng.randint(2, 7)], step=st, freq=rng.choice([1, 2, 2, 3, 5]), masked=rng.random() < .5, seed=rng.randint(0, 10 ** 6)))
            else:
                base = rng.choice(['pic', 'a.b', 'sub/pic', 'pic', '/tmp/x/p1'])
                ext = rng.choice(['', '.html'])
                ops.append(dict(op='figure', file=base + ext, base=base, name='a' if base + ext == 'a.b' else base.split('/')[-1], show=rng.random() < .5, save=rng.random() < .5, draw=rng.choice([0, 1, 3]), **{'raise': rng.random() < .3}))
        scripts.append({'id': 'rnd/%d' % n, 'cfg': {'unit': rng.choice([1, 2, 4]), 'pw': rng.choice([600, 800, 300]), 'ph': rng.choice([600, 400, 900])}, 'ops': ops})
    for n in range(24 if ctx.thorough else 8):
        unit = [1, 2][n % 2]
        ops = [dict(op='plot', f=room(rng.choice([8, 12]) if unit == 1 else 16, True), step=1, radius=rng.choice([0, 1]), pw=rng.choice([600, 800]), ph=rng.choice([600, 300])) for _ in range(2)]
        scripts.append({'id': 'plot/%d' % n, 'cfg': {'unit': unit}, 'ops': ops})
    for n in range(40 if ctx.thorough else 12):
        ops = []
        for _ in range(4):
            m = rng.choice([1, 2, 4, 9, 13])
            ops.append(dict(op='tree', parents=[0] + [rng.randint(0, i) for i in range(m - 1)], at=rng.randint(0, m - 1), ext=rng.choice(['.dot', '.dot', '.dot', '.txt', '']), old=False, dir=''))
        if n < 3:
            ops.append(dict(ops[0], ext='.png'))
        seen = set()
        for o in ops:
            o['old'] = o['ext'] in seen or rng.random() < .2
            o['dir'] = './' if rng.random() < .3 else ''
            seen.add(o['ext'])
        scripts.append({'id': 'tree/%d' % n, 'cfg': {}, 'ops': ops})
    return scripts
