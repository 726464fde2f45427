"""Skin distances, normals and moment arms."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('distances', scripts)
    ctx.judge('DistancesTrace', traces, scripts=scripts, driver='distances', shards=6, workers=1)
    if not ctx.replay:
        ctx.require_ops(['discs', 'bodies', 'wall', 'bodywall'])


def generate(ctx):
    rng = ctx.rng
    scripts, ops = [], []
    for w in ([3, 0], [2, 1], [-2, 3], [0, -4]) + (([3, 4], [-1, -1], [5, -2], [-4, 1]) if ctx.thorough else ()):
        edges = ctx.mc('MCDistances', dict(R=5 if ctx.thorough else 4, W='<<%d, %d>>' % tuple(w)), invs=['Closest', 'Outward', 'OnWall', 'Reversed'], emit=True, view='View')
        seen = set()
        for e in edges:
            key = (str(e['t']), e['a']['op'])
            if key not in seen:
                seen.add(key)
                ops.append(e['a'])
    for i in range(0, len(ops), 100):
        scripts.append({'id': 'mc/%d' % i, 'cfg': {}, 'ops': ops[i:i + 100]})

    def vec(m):
        return [rng.randint(-m, m), rng.randint(-m, m)]

    def add(a, b):
        return [a[0] + b[0], a[1] + b[1]]

    def disc(m):
        return dict(o=vec(m), r=rng.randint(1, rng.choice([2, 6, 15])))

    def body(m):
        c, r = vec(m), rng.random()
        if r < .6:                    # a body: shoulders on both sides, smaller than the torso
            R, s = rng.randint(3, 12), vec(8)
            rs = rng.randint(1, R)
            return [dict(o=c, r=R), dict(o=add(c, s), r=rs), dict(o=add(c, [-s[0], -s[1]]), r=rs)]
        return [disc(m) for _ in range(3)]

    def wall(m):
        p = vec(m)
        r = rng.random()
        d = rng.choice([[1, 0], [0, 1], [-7, 0], [0, -9], [3, 4], [-12, 5], [20, 0], [1, 1], [-6, 6]]) if r < .5 else vec(30)
        if d == [0, 0]:
            d = [5, 2]
        return [p, add(p, d)]

    def near(w, m):
        """Points where the rule changes: ends, straight across the ends, on the wall and on its line."""
        r, p, q = rng.random(), w[0], w[1]
        d = [q[0] - p[0], q[1] - p[1]]
        if r < .12:
            return list(rng.choice([p, q]))
        if r < .3:
            n = rng.choice([-2, -1, 1, 2])
            return add(rng.choice([p, q]), [-n * d[1], n * d[0]])
        if r < .4:
            n = rng.choice([-1, 2])
            return add(p, [n * d[0], n * d[1]])
        if r < .5 and d[0] % 2 == 0 and d[1] % 2 == 0:
            return add(p, [d[0] // 2, d[1] // 2])
        if r < .8:
            return add(rng.choice([p, q]), vec(6))
        return vec(m)
    for n in range(400 if ctx.thorough else 90):
        m, ops = rng.choice([4, 12, 40]), []
        for _ in range(40):
            r = rng.random()
            if r < .2:
                a, b = disc(m), disc(m)
                if rng.random() < .15:
                    b['o'] = list(a['o'])
                ops.append(dict(op='discs', a=a, b=b))
            elif r < .5:
                a, b = body(m), body(m)
                if rng.random() < .1:
                    k, j = rng.randrange(3), rng.randrange(3)
                    b[k]['o'] = list(a[j]['o'])
                ops.append(dict(op='bodies', a=a, b=b))
            elif r < .75:
                w = wall(m)
                ops.append(dict(op='wall', a=dict(o=near(w, m), r=rng.randint(1, 15)), w=w))
            else:
                w, b = wall(m), body(m)
                if rng.random() < .5:
                    d, c = near(w, m), list(b[0]['o'])
                    for x in b:
                        x['o'] = add(x['o'], [d[0] - c[0], d[1] - c[1]])
                ops.append(dict(op='bodywall', a=b, w=w))
            if rng.random() < .4:
                ops[-1]['sc'] = rng.choice([-60, -20, -7, 5, 20, 60])
            if rng.random() < .3:
                ops[-1]['at'] = rng.choice([[1000, 0], [-300, 700], [0, -5000], [65536, 65536]])
        scripts.append({'id': 'rnd/%d' % n, 'cfg': {}, 'ops': ops})
    return scripts
