"""Navigation meshes, direction fields, obstacle avoidance, and walking along them."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('nav', scripts)
    ctx.judge('NavTrace', traces, scripts=scripts, driver='nav', shards=8, workers=1)
    if not ctx.replay:
        ctx.require_ops(['mesh', 'field', 'handle', 'cont', 'pick', 'node', 'same', 'walk', 'dist', 'path'])


def scene(rng, obstacles=True):
    """Domain with boxes or thin walls well apart from each other, lengths in 1/8."""
    step = rng.choice([2, 2, 4])
    w, h = rng.choice([(96, 96), (112, 80), (80, 112)]) if step == 4 else rng.choice([(48, 48), (60, 44), (44, 60)])
    ox, oy = rng.choice([(0, 0), (0, 0), (-16, -8), (24, -40)])
    r = 8 if step == 4 else rng.choice([4, 5])
    cfg = dict(unit=8, step=step, domain=[[ox, oy], [ox + w, oy + h]], radius=r, strength=rng.choice([1, 2, 4]), obstacles=[])
    m = r + 3 * step
    sides = [0, 1, 2, 3]
    if obstacles:
        kind = rng.choice([0, 1, 1, 1, 2])
        if kind == 0:      # one box in the middle
            x0, y0 = ox + w // 2 - rng.choice([2, 4, 6]), oy + h // 2 - rng.choice([2, 4, 6])
            cfg['obstacles'] = [{'k': 'box', 'c': [[x0, y0], [ox + w // 2 + rng.choice([1, 2, 4]), oy + h // 2 + rng.choice([1, 2, 4])]]}]
        elif kind == 1:    # a thin wall from one side, leaving a gap at the other
            x0 = ox + w // 2 + rng.choice([-2, 0, 2])
            thick = rng.choice([0, 0, 3, 6])
            cfg['attached'] = True
            if rng.random() < .5:
                cfg['obstacles'], sides = [{'k': 'box' if thick else 'wall', 'c': [[x0, oy], [x0 + thick, oy + h - m - 4]]}], [0, 1, 3]
            else:
                cfg['obstacles'], sides = [{'k': 'box' if thick else 'wall', 'c': [[x0, oy + m + 4], [x0 + thick, oy + h]]}], [0, 1, 2]
            sides = sides[:2]
        else:              # two boxes
            cfg['obstacles'] = [{'k': 'box', 'c': [[ox + w // 3 - 2, oy + h // 3 - 2], [ox + w // 3 + 2, oy + h // 3 + 1]]},
                                {'k': 'box', 'c': [[ox + w - w // 3 - 1, oy + h - h // 3 - 1], [ox + w - w // 3 + 2, oy + h - h // 3 + 2]]}]
    side = rng.choice(sides)
    lines = [[[ox + w, oy + 8], [ox + w, oy + h - 8]], [[ox, oy + 8], [ox, oy + h - 8]], [[ox + 8, oy], [ox + w - 8, oy]], [[ox + 8, oy + h], [ox + w - 8, oy + h]]]
    ts = [{'k': 'wall', 'c': lines[side]}]
    box = rng.choice([[[ox + w - 8, oy + h - 8], [ox + w - 2, oy + h - 2]], [[ox + 2, oy + 2], [ox + 8, oy + 8]]])
    if rng.random() < .5 and all(free(cfg, [x, y], r + 2 * step) for x in (box[0][0], box[1][0]) for y in (box[0][1], box[1][1])):
        ts.append({'k': 'box', 'c': box})
    while rng.random() < .3 and len(ts) < 4:
        ts.append({'k': 'wall', 'c': lines[rng.choice(sides)]})
    rng.shuffle(ts)
    cfg['targets'] = ts
    return cfg


def free(cfg, p, margin):
    for o in cfg['obstacles']:
        (x0, y0), (x1, y1) = o['c']
        if x0 - margin <= p[0] <= x1 + margin and y0 - margin <= p[1] <= y1 + margin:
            return False
    return True


def generate(ctx):
    rng = ctx.rng
    scripts = []
    for w, (W, H, walls, goals) in enumerate([(4, 4, '{<<1,1>>,<<1,2>>,<<2,1>>}', '{<<3,3>>}'), (5, 3, '{<<2,0>>,<<2,1>>}', '{<<4,0>>,<<4,1>>}'), (5, 5, '{<<1,1>>,<<2,1>>,<<3,1>>,<<3,2>>,<<3,3>>}', '{<<2,2>>}')]):
        ctx.mc('MCNav', dict(W=W, H=H, Walls=walls, Goals=goals), invs=['TypeOK'], props=['Arrives', 'Descends'], name='mc%d' % w)

    def mat(n, m, lo, hi):
        return [[rng.randint(lo, hi) for _ in range(n)] for _ in range(m)]
    for n in range(200 if ctx.thorough else 50):
        ops = []
        for _ in range(12):
            r = rng.random()
            n_, m_ = rng.choice([2, 3, 5, 7]), rng.choice([2, 3, 4, 6])
            if r < .25:
                step = rng.choice([1, 2, 3, 4, 8])
                lo = [rng.randint(-20, 20), rng.randint(-20, 20)]
                hi = [lo[0] + rng.randint(1, 40), lo[1] + rng.randint(1, 40)]
                ops.append(dict(op='mesh', step=step, lo=lo, hi=hi, ps=[[4096 * rng.randint(l - 12, h + 12) + rng.choice([0, 0, -1, 1, 2048]) for l, h in zip(lo, hi)] for _ in range(8)]))
            elif r < .5:
                d = mat(n_, m_, -9, 9)
                if rng.random() < .5:
                    a, b = rng.randint(-3, 3), rng.randint(-3, 3)
                    d = [[a * i + b * j for i in range(n_)] for j in range(m_)]
                ops.append(dict(op='field', d=d))
            elif r < .7:
                ops.append(dict(op='handle', d=mat(n_, m_, -8, 3), ou=mat(n_, m_, -5, 5), ov=mat(n_, m_, -5, 5), tu=mat(n_, m_, -5, 5), tv=mat(n_, m_, -5, 5), radius=rng.choice([1, 3, 5, 7])))
            elif r < .85:
                c = rng.randint(0, 6)
                ops.append(dict(op='cont', d=mat(n_, m_, -8, 3), ou=mat(n_, m_, -5, 5), ov=mat(n_, m_, -5, 5), radius=rng.choice([3, 5, 7]),
                                cells=[[rng.randint(-1, n_), rng.randint(-1, m_)] for _ in range(c)], es=[[rng.randint(-5, 5), rng.randint(-5, 5)] for _ in range(c)]))
            else:
                c = rng.randint(0, 6)
                ops.append(dict(op='pick', u=mat(n_, m_, -99, 99), v=mat(n_, m_, -99, 99), cells=[[rng.randint(-2, m_ + 1), rng.randint(-2, n_ + 1)] for _ in range(c)],
                                es=[[rng.randint(-99, 99), rng.randint(-99, 99)] for _ in range(c)]))
        scripts.append({'id': 'fn/%d' % n, 'cfg': {'unit': rng.choice([1, 4, 16])}, 'ops': ops})
    for n in range(60 if ctx.thorough else 20):
        cfg = scene(rng, obstacles=rng.random() < .8)
        odd = rng.random() < .25      # other parameters of the node; such fields may lead through walls
        if odd:
            cfg.update(radius=rng.choice([1, cfg['step'] - 1, 2 * cfg['step']]), strength=rng.choice([0, 1, 7, 8]))
        (x0, y0), (x1, y1) = cfg['domain']
        ops = []
        for _ in range(2):
            ags = [dict(x=[rng.randint(x0 - 10, x1 + 10), rng.randint(y0 - 10, y1 + 10)], target=rng.choice([-1, 0, 0, 1, 2, 3]), e=[rng.randint(-1024, 1024), rng.randint(-1024, 1024)])
                   for _ in range(rng.choice([0, 1, 6, 12]))]
            ops.append(dict(op='node', kind=rng.choice(['circular', 'three_circle']), agents=ags))
        ops.append(dict(op='same'))
        ops.append(dict(op='dist', target=rng.randrange(len(cfg['targets']) + 1), walls=rng.random() < .8))
        ops.append(dict(op='path', target=rng.randrange(len(cfg['targets']) + 1)))
        m = cfg['radius'] + cfg['step']
        starts = [p for p in ([rng.randint(x0 + 2, x1 - 2), rng.randint(y0 + 2, y1 - 2)] for _ in range(14)) if free(cfg, p, m)]
        if starts and not odd:
            ops.append(dict(op='walk', arrives=cfg.get('attached', not cfg['obstacles']), target=rng.randrange(len(cfg['targets'])), starts=starts[:6]))
        scripts.append({'id': 'scene/%d' % n, 'cfg': cfg, 'ops': ops})
    return scripts
