"""Random points and times."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('sampling', scripts)
    ctx.judge('SamplingTrace', traces, scripts=scripts, driver='sampling', shards=8, workers=1)
    if not ctx.replay:
        ctx.require_ops(['area', 'areas', 'lengths', 'linestring', 'triangle', 'polygon', 'spawn', 'vector', 'clock', 'timings', 'truncnorm', 'force', 'torque', 'few', 'corners'])


def area2(p):
    return sum(p[i][0] * p[(i + 1) % len(p)][1] - p[i][1] * p[(i + 1) % len(p)][0] for i in range(len(p)))


def generate(ctx):
    rng = ctx.rng
    ctx.mc('MCSampling', dict(Grid='{<<0,0>>,<<2,0>>,<<4,2>>,<<4,4>>,<<0,4>>,<<2,6>>,<<-2,2>>,<<2,2>>}' if not ctx.thorough else '{0,2,4} \\X {0,2,4,6}', MaxPoints=8 if not ctx.thorough else 6),
           invs=['HullOk', 'FansOk', 'WeightsOk'])
    n = 3000 if ctx.thorough else 1200

    def pt(m):
        return [rng.randint(-m, m), rng.randint(-m, m)]

    def fat(c, m):
        """Points whose hull is not flat."""
        while True:
            p = [pt(m) for _ in range(c)]
            x = [[a, b, d] for i, a in enumerate(p) for j, b in enumerate(p[i + 1:]) for d in p[i + j + 2:]]
            if max([abs(area2(t)) for t in x] + [0]) >= m * m // 2:
                return p
    scripts = []
    for i in range(60 if ctx.thorough else 24):
        ops = []
        m = rng.choice([6, 20, 40])
        for _ in range(6):
            ops.append(dict(op='area', v=[pt(m) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5, 9]))]))
            ops.append(dict(op='areas', ts=[[pt(m), pt(m), pt(m)] for _ in range(rng.choice([1, 2, 4, 9]))]))
            ops.append(dict(op='lengths', v=[pt(m) for _ in range(rng.choice([2, 3, 4, 9]))]))
        xs = sorted(rng.sample(range(-m, m + 1), rng.choice([2, 3, 4, 6])))
        v = [[2 * x, 2 * rng.randint(-m, m)] for x in xs]
        if rng.random() < .3:
            j = rng.randrange(len(v))
            v.insert(j, list(v[j]))
        ops.append(dict(op='linestring', v=v, n=n))
        ops.append(dict(op='triangle', t=fat(3, m), n=n))
        ops.append(dict(op='polygon', v=fat(rng.choice([3, 4, 5, 7]), m), n=n))
        sp = []
        for _ in range(rng.choice([1, 2, 3])):
            x, y, a, b = rng.randint(-m, m), rng.randint(-m, m), rng.randint(3, m), rng.randint(3, m)
            sp.append(rng.choice([[[x, y], [x + a, y], [x + a, y + b], [x, y + b]], [[x, y], [x + a, y], [x, y + b]], [[x, y], [x + 2 * a, y], [x + a, y + b]]]))
        ops.append(dict(op='spawn', spawns=sp, i=rng.randrange(len(sp)), far=rng.random() < .5, n=n))
        # walls along the sides of the spawn: what is left of it
        x, y, a, b, d = rng.randint(-m, m), rng.randint(-m, m), rng.randint(6, m), rng.randint(6, m), rng.randint(1, 2)
        free, walls = [x, y, x + a, y + b], []
        for side in rng.sample(range(4), rng.choice([1, 1, 2])):
            off, sign = rng.choice([0, 0, 1, -1]), 1 if side < 2 else -1
            at = [x, y, x + a, y + b][side] + sign * off
            far = 50
            walls.append([[at, y - far], [at, y + b + far]] if side % 2 == 0 else [[x - far, at], [x + a + far, at]])
            if sign * (at + sign * d - free[side]) > 0:
                free[side] = at + sign * d
        x0, y0, x1, y1 = free
        ops.append(dict(op='spawn', spawns=[sp[0], [[x, y], [x + a, y], [x + a, y + b], [x, y + b]]], i=1, far=False, n=n, walls=walls, radius=d,
                        free=[[x0, y0], [x1, y0], [x1, y1], [x0, y1]]))
        q = rng.choice([4, 4, 1, 2, 3])
        ops.append(dict(op='vector', n=rng.choice([1, n]), mag=rng.choice([640, 1280, 10000]), quarters=q, **{'from': rng.randrange(4) if q < 4 else 0}))
        ops.append(dict(op='clock', n=n // 4, rate=rng.choice([1, 2, 4]), den=1, div=rng.choice([1, 10, 1000])))
        if i % 4 == 1:                  # fewer than one event in the window
            ops.append(dict(op='clock', n=4 * n, rate=1, den=rng.choice([2, 4]), div=rng.choice([1, 10, 1000])))
            ops.append(dict(op='corners', t=fat(3, m), n=8000))
            ops.append(dict(op='timings', n=40, rate=32, div=rng.choice([1, 100]), players=rng.sample(range(50), rng.choice([2, 3]))))
            a = rng.choice([1, 2, 2, 3, 8])
            ops.append(dict(op='few', n=n, ms=[rng.choice([1, 2])] * a, sds=[rng.choice([1, 2, 3])] * a))
        ops.append(dict(op='timings', n=n // 4, rate=rng.choice([1, 2, 4]), div=rng.choice([1, 100]), players=rng.sample(range(50), rng.choice([1, 2, 3, 5]))))
        for given in ('scale', 'abs', 'abs', 'array'):
            a, b = sorted(rng.sample(range(-12, 13), 2))
            ops.append(dict(op='truncnorm', a=a, b=b, n=n // 8, loc=rng.randint(-9, 9), sd=rng.choice([1, 2, 3, 5]), given=given))
        if i % 4 == 0:
            for op in ('force', 'torque'):
                ops.append(dict(op=op, ms=[rng.choice([1, 2]) for _ in range(3 * n)], sds=[rng.choice([1, 2, 3]) for _ in range(3 * n)]))
        scripts.append({'id': 'rnd/%d' % i, 'cfg': {'unit': rng.choice([1, 2, 4, 64]), 'seed': rng.randrange(10 ** 6)}, 'ops': ops})
    return scripts
