"""Whole runs of several simulations side by side."""
import math


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('runs', scripts)
    ctx.judge('RunsTrace', traces, scripts=scripts, driver='runs', shards=8, workers=1)
    if not ctx.replay:
        ctx.require_ops(['make', 'set', 'ask', 'step', 'copy'])


ASKS = ['maps', 'closest', 'obstacles', 'mesh', 'spawn', 'nodes', 'array']


def scene(rng, k):
    kind = (0, 1, 2, 3, 2)[k % 5]      # 0 plain crowd, 1 leaders and followers, 2 herding with exits, 3 noise
    typ = rng.choice(['circular', 'three_circle'])
    x0, y0 = rng.choice([(0, 0), (0, 0), (-3, 2), (5, -4)])
    w, h = rng.randint(6, 8), rng.randint(4, 6)
    x1, y1 = x0 + w, y0 + h

    def pick():
        x, y = x0 + 1.75 + .25 * rng.randint(0, 4 * w - 18), y0 + .25 * rng.randint(5, 4 * h - 10)
        r = rng.random()
        if r < .5:
            return [[[x, y], [x, y + 1.25]]]
        if r < .7:
            return [[[x, y], [x + 1, y], [x + 1, y + .5]]]
        if r < .85:
            return [[[x, y], [x, y + 1]], [[x0 + 1, y1 - .75], [x0 + 2, y1 - .75]]]
        return [[[x, y], [x + .75, y], [x + .75, y + .75], [x, y + .75], [x, y]]]
    walls = [pick(), [] if kind != 1 and rng.random() < .5 else pick(), pick()]
    if kind in (1, 2) and rng.random() < .7:      # one that takes much of the sight
        x = x0 + w / 2. + .25 * rng.randint(-2, 2)
        walls[rng.randrange(3)] = [[[x, y0 + 1.25], [x, y1 - 1.25]]]
    exits = [[[x0, y0 + 1], [x0, y0 + 2]], [[x1, y1 - 2], [x1, y1 - 1]], [[x0 + 2, y0], [x0 + 3, y0]], [[x0 + w - 2, y1], [x0 + w - 1, y1]]]
    n = rng.choice([1, 2, 2, 3])
    goal = [rng.sample(exits, n) for _ in range(2)]
    agents = []
    cells = [(i, j) for i in range(int((w - 1) / .75)) for j in range(int((h - 1) / .75))]
    m, fast = rng.choice([3, 5, 7, 9]), rng.choice([1.5, 1.5, 5])
    for i, j in rng.sample(cells, min(m, len(cells))):
        a, sp, phi = rng.uniform(-math.pi, math.pi), rng.uniform(0, fast), rng.uniform(-math.pi, math.pi)
        isl = kind in (1, 2) and rng.random() < .4
        isf = kind in (1, 2) and not isl and rng.random() < .8
        agents.append(dict(x=[int(4096 * (x0 + .6 + .75 * i + rng.uniform(-.08, .08))), int(4096 * (y0 + .6 + .75 * j + rng.uniform(-.08, .08)))],
                           v=[int(4096 * sp * math.cos(a)), int(4096 * sp * math.sin(a))], e=int(4096 * a), phi=int(4096 * phi),
                           target=-1 if isf and kind == 2 and rng.random() < .5 else rng.randrange(n), leader=isl, follower=isf, familiar=rng.randrange(n),
                           body=rng.choice(['adult', 'adult', 'male', 'female', 'child', 'eldery'])))
    steer = {0: ['Navigation'], 1: ['LeaderFollower', 'Navigation'], 2: ['LeaderFollowerWithHerding', 'ExitDetection', 'Navigation'], 3: ['Navigation']}[kind]

    def tune():
        lo = rng.choice([5, 10, 20])
        return dict(dt=[lo, rng.choice([lo, 2 * lo])], step=rng.choice([8, 8, 8, 6, 4]), radius=rng.choice([4, 6, 8]), strength=rng.choice([4, 8, 12]),
                    range=rng.choice([1, 3, 20, 20]), seen=rng.choice([1, 2, 3, 4]), near=rng.choice([1, 2, 5]))
    return dict(type=typ, room=[x0, y0, x1, y1], walls=walls, goal=goal, agents=agents, steer=steer, fluct=kind == 3, inside=rng.random() < .5,
                top=rng.choice(['Reset', 'Integrator', 'Adjusting', '']), seed=rng.randrange(10 ** 6), tune=[tune(), tune()])


def turn(rng, o, sc):
    o['how'], o['perm'] = 'objects', list(range(1, len(sc['agents']) + 1))
    if not sc['fluct'] and rng.random() < .7:
        rng.shuffle(o['perm'])
    if rng.random() < .6:
        o['shift'] = [rng.randint(-12, 12), rng.randint(-12, 12)]


def generate(ctx):
    rng = ctx.rng
    scripts = []
    ctx.mc('MCRuns', dict(Sims='{1, 2, 3}' if ctx.thorough else '{1, 2}', Scenes='{1}', Values='[walls |-> {1, 2}, goal |-> {1, 2}]' if not ctx.thorough else '[walls |-> {1, 2}]', MaxSteps=2),
           invs=['Hidden', 'Kept'], props=['Apart', 'Grows'], view='View', name='MCRuns_deep')
    edges = ctx.mc('MCRuns', dict(Sims='{1, 2}', Scenes='{1}', Values='[walls |-> {1, 2}]', MaxSteps=2 if ctx.thorough else 1), invs=['Hidden', 'Kept'], props=['Apart'], emit=True, view='View')
    paths, total, done = ctx.tour(edges, maxlen=60)
    ctx.detail['tour'] = {'edges': total, 'covered': done}
    for i, ops in enumerate(paths):
        sc = scene(rng, i)
        part = ['walls', 'goal', 'tune'][i % 3]
        res = []
        for o in ops:
            o = dict(o)
            if o['op'] == 'set':
                o['part'] = part
            if o['op'] == 'ask':
                o['what'] = rng.choice(ASKS[:2] if rng.random() < .7 else ASKS)
            if o['op'] == 'copy':
                o.update(perm=[], shift=[0, 0], how=rng.choice(['objects', 'file']))
                if rng.random() < .4:
                    turn(rng, o, sc)
            res.append(o)
        scripts.append({'id': 'mc/%d' % i, 'cfg': dict(sims=2, scenes=[sc]), 'ops': res})
    for n in range(240 if ctx.thorough else 48):
        sims = rng.choice([2, 3, 4])
        scenes = [scene(rng, n), scene(rng, n + rng.randint(0, 1))]
        made, ops = {}, []
        for _ in range(rng.choice([14, 20, 28])):
            r = rng.random()
            free = [i for i in range(1, sims + 1) if i not in made]
            if not made or free and r < .15:
                i = rng.choice(free)
                made[i] = s = rng.choice([1, 1, 2])
                ops.append(dict(op='make', i=i, scene=s))
                continue
            i = rng.choice(list(made))
            sc = scenes[made[i] - 1]
            if r < .45:
                ops.append(dict(op='step', i=i, n=rng.choice([1, 1, 2, 3]), mode=rng.choice(['update', 'run'])))
            elif r < .63:
                p = rng.choice(['walls', 'walls', 'goal', 'tune'])
                ops.append(dict(op='set', i=i, part=p, v=rng.randint(1, len(sc[p]))))
            elif r < .77:
                ops.append(dict(op='ask', i=i, what=rng.choice(ASKS)))
            else:
                j = rng.choice([x for x in range(1, sims + 1) if x != i])
                o = dict(op='copy', i=i, j=j, perm=[], shift=[0, 0], how=rng.choice(['objects', 'file']))
                if rng.random() < .6:
                    turn(rng, o, sc)
                made[j] = made[i]
                ops.append(o)
        ends = [{p: rng.randint(1, len(sc[p])) for p in ('walls', 'goal', 'tune')} for sc in scenes]
        for i in rng.sample(sorted(made), len(made)):              # all of them go on under the same settings
            ops += [dict(op='set', i=i, part=p, v=ends[made[i] - 1][p]) for p in ('walls', 'goal', 'tune')]
            again = rng.random() < .6
            if again:                  # beside one in new objects
                ops.append(dict(op='copy', i=i, j=sims + 1, perm=[], shift=[0, 0], how=rng.choice(['objects', 'file'])))
                if rng.random() < .5:
                    turn(rng, ops[-1], scenes[made[i] - 1])
            ops.append(dict(op='step', i=i, n=2, mode='update'))
            if again:
                ops.append(dict(op='step', i=sims + 1, n=2, mode='update'))
        scripts.append({'id': 'side/%d' % n, 'cfg': dict(sims=sims + 1, scenes=scenes), 'ops': ops})
    return scripts
