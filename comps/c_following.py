"""Followers: leaders and herds."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('following', scripts)
    ctx.judge('FollowingTrace', traces, scripts=scripts, driver='following', shards=8, workers=1)
    if not ctx.replay:
        ctx.require_ops(['rel', 'follow', 'herd'])


def tla(v):
    return '<<%s>>' % ', '.join(map(tla, v)) if isinstance(v, (list, tuple)) else str(v)


# (position, velocity): behind the wall, in the open heading away / coming, out of sight, standing
SPOTS1 = [[[21, 3], [4, 1]], [[21, 3], [-4, -1]], [[3, 23], [1, 5]], [[3, 23], [0, 0]], [[150, 7], [4, 0]], [[-9, 2], [-3, 1]]]
SPOTS2 = [[[29, 1], [5, 0]], [[1, 31], [2, 3]], [[-33, 5], [6, 1]], [[-33, 5], [-6, 2]], [[5, -160], [1, 1]]]
WALL = [[[10, -6], [10, 6]]]


def generate(ctx):
    rng = ctx.rng
    scripts = []
    for herding in (False, True):
        n = None if ctx.thorough else 4
        s1, s2 = SPOTS1[:n], SPOTS2[:n]
        consts = dict(Spots1='{%s}' % ', '.join(map(tla, s1)), Spots2='{%s}' % ', '.join(map(tla, s2)), Walls=tla(WALL), SightLen=80, Herding=str(herding).upper())
        edges = ctx.mc('MCFollowing', consts, invs=['TypeOK', 'Clear'], props=['LeadersStay', 'Remember', 'NeverForgotten', 'Decision', 'Stable'], emit=True, view='View', name='mc_%s' % herding)
        paths, total, done = ctx.tour(edges, maxlen=80, act=lambda e: e)
        ctx.detail['tour_%s' % herding] = {'edges': total, 'covered': done}
        for i, p in enumerate(paths):
            scripts.append({'id': 'mc%d/%d' % (herding, i), 'cfg': {'agents': p[0]['s'], 'walls': WALL, 'sight': 80, 'count': 1, 'kind': rng.choice(['circular', 'three_circle'])},
                            'ops': [e['a'] for e in p]})

    def pt(n):
        return [rng.randint(-n, n), rng.randint(-n, n)]

    def vel():
        return [0, 0] if rng.random() < .12 else pt(12)
    for n in range(40 if ctx.thorough else 12):
        ops = []
        for _ in range(40):
            a, b = (dict(x=pt(30), v=vel()) for _ in 'ab')
            if a['x'] == b['x']:
                continue
            if rng.random() < .2:      # straight towards or away from each other
                s = rng.choice([-1, 1])
                d = [b['x'][0] - a['x'][0], b['x'][1] - a['x'][1]]
                rng.choice([a, b])['v'] = [s * d[0], s * d[1]]
            ops.append(dict(op='rel', a=a, b=b))
        scripts.append({'id': 'rel/%d' % n, 'cfg': {}, 'ops': ops})
    for n in range(400 if ctx.thorough else 110):
        count = rng.choice([1, 2, 3, 5, 8, 12])
        size = rng.choice([30, 60, 120])
        op = rng.choice(['follow', 'herd'])
        ags = []
        for i in range(count):
            role = rng.choice('LFFFO')
            ags.append(dict(x=pt(size), v=vel(), target=rng.choice([-1, 0, 1, 2]), leader=rng.choice([-1, -1, rng.randint(0, count - 1)]), familiar=rng.choice([-1, 0, 1, 2, 3]),
                            isl=role == 'L', isf=role == 'F'))
        cfg = dict(agents=ags, walls=[[pt(size), pt(size)] for _ in range(rng.choice([0, 0, 1, 3]))], sight=rng.choice([80, 40, 40, 20, 100, 160]), count=rng.choice([5, 5, 1, 2, 3]),
                   kind=rng.choice(['circular', 'three_circle']))
        if op == 'herd' and rng.random() < .06:
            cfg['count'] = 0
        ops = []
        for _ in range(rng.randint(1, 5)):
            ops += [dict(op=op), dict(op='shift', xs=[pt(size) for _ in ags], vs=[vel() for _ in ags])]
        scripts.append({'id': 'scene/%d' % n, 'cfg': cfg, 'ops': ops})
    for n in range(120 if ctx.thorough else 40):       # remembered leaders behind a wall, others in the open
        ags = [dict(x=pt(3), v=vel(), target=rng.choice([-1, 0]), leader=rng.choice([1, 1, 2, 3]), familiar=rng.choice([-1, 2, 3]), isl=False, isf=True)]
        spots = [[20 + rng.randint(0, 20), rng.randint(-8, 8)], [rng.randint(-60, -8), rng.randint(-30, 30)], [rng.randint(-12, 12), rng.choice([-1, 1]) * rng.randint(15, 40)]]
        rng.shuffle(spots)
        for x in spots:
            ags.append(dict(x=x, v=vel() if rng.random() < .3 else [c // 3 for c in x], target=rng.choice([-1, -1, 0, 1, 2]), leader=-1, familiar=-1, isl=True, isf=False))
        scripts.append({'id': 'hidden/%d' % n, 'cfg': dict(agents=ags, walls=[[[10, -40], [10, 40]]], sight=80, count=5, kind=rng.choice(['circular', 'three_circle'])),
                        'ops': [dict(op=rng.choice(['follow', 'herd'])), dict(op=rng.choice(['follow', 'herd']))]})
    return scripts
