"""Density of crowds."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('density', scripts)
    ctx.judge('DensityTrace', traces, scripts=scripts, driver='density', shards=6, workers=1)
    if not ctx.replay:
        ctx.require_ops(['classical', 'bounds', 'v1', 'v2', 'sum'])


def flat(ps):
    return len(ps) < 3 or all((b[0] - ps[0][0]) * (c[1] - ps[0][1]) == (b[1] - ps[0][1]) * (c[0] - ps[0][0]) for b in ps for c in ps)


def generate(ctx):
    rng = ctx.rng
    scripts = []
    lines, cs = '{-4, 0, 2, 8}', '{3, 4, 16}'
    if ctx.thorough:
        lines = '{-6, -2, 0, 4, 10}'
    edges = ctx.mc('MCDensity', dict(Lines=lines, Cs=cs), invs=['TypeOK', 'Whole', 'Tile'], emit=True, view='View')
    for i, e in enumerate(edges):
        scripts.append({'id': 'mc/%d' % i, 'cfg': {'unit': rng.choice([1, 2, 4, 32]), 'xs': e['s']['xs'], 'ys': e['s']['ys']}, 'ops': [dict(e['a'], perm=rng.randint(0, 9))]})
    for n in range(150 if ctx.thorough else 50):
        ops = []
        for _ in range(8):
            r = rng.random()
            size = rng.choice([4, 12, 40])
            off = rng.choice([0, 0, -size // 2, -3 * size, 2 * size])
            offy = rng.choice([off, 0, -size // 2, 3 * size])
            def lines(o):
                m = rng.choice([2, 3, 4, 5])
                return sorted(2 * v + 2 * o for v in rng.sample(range(size + 1), min(m, size + 1)))

            def pts(m):
                return [[rng.randint(0, size) + off, rng.randint(0, size) + offy] for _ in range(m)]
            cs = [c for c in (1, 2, 3, 5, 8, 16, 50) if size / c < 16]
            if r < .3:
                ops.append(dict(op='classical', ps=pts(rng.choice([1, 2, 5, 20, 200])), c=rng.choice(cs)))
            elif r < .4:
                d = rng.choice([1, 2, 2, 3, 4])
                ops.append(dict(op='bounds', ps=[[rng.randint(-size, size) for _ in range(d)] for _ in range(rng.choice([1, 2, 7, 150]))]))
            elif r < .8:
                cs = [c for c in (1, 2, 3, 5, 8, 16, 50) if 2 * size / c < 11]
                ops.append(dict(op=rng.choice(['v1', 'v2']), xs=lines(off), ys=lines(offy), c=rng.choice(cs), perm=rng.randint(0, 99)))
            else:
                ps = [list(t) for t in {tuple(p) for p in pts(rng.choice([3, 3, 4, 6, 12]))}]
                if rng.random() < .4:       # close to one line
                    a, b = rng.randint(-3, 3), rng.randint(1, 3)
                    ps = [[b * t + off + rng.choice([0, 0, 0, 1]), a * t + offy] for t in rng.sample(range(size + 1), min(size + 1, rng.choice([3, 3, 4, 6])))]
                    ps = [list(t) for t in {tuple(p) for p in ps}]
                rng.shuffle(ps)
                if not flat(ps):
                    ops.append(dict(op='sum', ps=sorted(ps), c=rng.choice(cs), exp=rng.choice([-14, -9, -3, 5, 10])))
        scripts.append({'id': 'rnd/%d' % n, 'cfg': {'unit': [1, 2, 8, 256][n % 4]}, 'ops': ops})
    return scripts
