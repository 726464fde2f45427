"""Example scenes and simulations."""
U = 64


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('scenes', scripts)
    ctx.judge('ScenesTrace', traces, scripts=scripts, driver='scenes', shards=8, workers=1)
    if not ctx.replay:
        ctx.require_ops(['scene', 'pillar', 'crowd', 'run', 'walk'])


SIMS = {'Outdoor': 'outdoor', 'Hallway': 'hallway', 'RoomWithOneExit': 'oneexit', 'FourExitsRandomPlacing': 'fourexits', 'c.Outdoor': 'outdoor',
        'c.Rounding': 'rounding', 'c.AvoidObstacle': 'avoid', 'c.ClosedRoom': 'closed', 'c.FourExitsRandomPlacing': 'fourexits', 'c.FourExitsFixedPlacing': 'fourexits'}


def generate(ctx):
    rng = ctx.rng
    scripts = []
    edges = ctx.mc('MCScenes', dict(SIZES='{256, 384, 640}' if ctx.thorough else '{256, 640}', RATIOS='{5, 10, 20, 30, 35}' if ctx.thorough else '{10, 30}', EXITS='{64, 80, 192}' if ctx.thorough else '{64, 192}'),
                   invs=['Within', 'Closed', 'Open', 'Wide'], emit=True, view='View')
    paths, total, done = ctx.tour(edges, maxlen=60)
    ctx.detail['tour'] = {'edges': total, 'covered': done}
    for i, ops in enumerate(paths):
        scripts.append({'id': 'mc/%d' % i, 'cfg': {}, 'ops': ops})

    def scene(kind, small=False):
        m = (4, 8) if small else (2, 40)
        w, h = [rng.randint(*m) * U + (0 if rng.random() < .5 else 32) for _ in range(2)]
        return dict(kind=kind, w=w, h=h, r=5 * rng.randint(1, 7), e=min(rng.choice([64, 80, 128, 192, 256]), h - 32), hall=rng.choice([32, 64, 128, 200]))
    for n in range(60 if ctx.thorough else 15):
        kind, ops = rng.choice(['outdoor', 'hallway', 'hallway', None]), []
        f = scene(kind)
        for _ in range(20):
            if kind and ops:
                f = dict(f)
                for x in rng.sample(['w', 'h', 'r'], rng.choice([1, 1, 2])):
                    f[x] = scene(kind)[x]
                ops.append(dict(op='scene', f=f))
            else:
                ops.append(dict(op='scene', f=scene(kind or rng.choice(['rounding', 'avoid', 'closed', 'oneexit', 'fourexits'])), keep=False))
                f = ops[-1].get('f')
        scripts.append({'id': 'field/%d' % n, 'cfg': {}, 'ops': ops})
        scripts.append({'id': 'pillar/%d' % n, 'cfg': {}, 'ops': [dict(op='pillar', w=rng.randint(2, 30) * U, h=rng.randint(2, 30) * U, rad=rng.choice([32, 64, 96]))]})
    n = 0
    for sim, kind in sorted(SIMS.items()):
        four = kind == 'fourexits'
        for rep in range((4 if four else 12) if ctx.thorough else (1 if four else 3)):
            f = scene(kind, small=True)
            if sim == 'Hallway':
                f['r'] = rng.choice([10, 15, 20])
            if kind in ('rounding',):
                f['r'], f['w'], f['h'] = 24, rng.choice([5, 10]) * U, max(f['h'], 6 * U)
            if kind == 'avoid':
                f['r'], f['e'] = rng.choice([20, 25]), rng.choice([128, 192])
            if kind == 'oneexit':
                f['e'] = rng.choice([96, 128, 192])
            if four:
                f['e'] = rng.choice([4, 6, 8]) * U
            size = rng.choice([2, 3, 4, 5, 6]) if sim == 'Hallway' else rng.choice([1, 2, 4, 6])
            leaders = 4 if 'Fixed' in sim else rng.choice([0, 1]) if sim == 'c.Outdoor' else rng.choice([0, 1, 2])
            ops = [dict(op='crowd', sim=sim, f=f, size=size, leaders=leaders, type=rng.choice(['circular', 'three_circle']), seed=rng.randint(0, 10 ** 6))]
            if sim == 'c.Outdoor':
                ops[0]['at'] = [rng.randint(-4, 12), rng.randint(-4, 12)]
            if rng.random() < .5:
                ops[0]['first'] = rng.choice(['logic', 'field'])
            ops.append(dict(op='run', sim=sim, f=f, n=rng.choice([1, 5, 12]), step=U if four else rng.choice([0, 8])))
            scripts.append({'id': 'sim/%d' % n, 'cfg': {}, 'ops': ops})
            n += 1
    # many agents: somebody would stand on a wall
    for sim, kind in sorted(SIMS.items()):
        for rep in range(3 if ctx.thorough else 1):
            f = dict(scene(kind), w=20 * U, h=20 * U, r=24 if sim == 'c.Rounding' else 20, e=4 * U)
            four = kind == 'fourexits'
            ops = [dict(op='crowd', sim=sim, f=f, size=150 if four else 40, leaders=4 if 'Fixed' in sim else rng.choice([0, 1]) if sim == 'c.Outdoor' else rng.choice([0, 3, 20]),
                        at=[rng.randint(-4, 12), rng.randint(-4, 12)], type='circular' if four else rng.choice(['circular', 'three_circle']), seed=rng.randint(0, 10 ** 6))]
            scripts.append({'id': 'many/%s/%d' % (sim, rep), 'cfg': {}, 'ops': ops})
    for sim in ('TestMovement', 'TestAgentInteraction'):
        for t in ('circular', 'three_circle'):
            scripts.append({'id': 'walk/%s/%s' % (sim, t), 'cfg': {}, 'ops': [dict(op='walk', sim=sim, type=t, n=1000)]})
    return scripts
