"""Vectors of the plane."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('vectors', scripts)
    ctx.judge('VectorsTrace', traces, scripts=scripts, driver='vectors', shards=6, workers=1)
    if not ctx.replay:
        ctx.require_ops(['vector', 'rows', 'pair', 'truncate', 'wrap', 'unit', 'average', 'meet', 'social'])


def generate(ctx):
    rng = ctx.rng
    scripts = []
    edges = ctx.mc('MCVectors', dict(R=5 if ctx.thorough else 3, N=100), invs=['Turns', 'Products', 'Wraps', 'Meeting'], emit=True, view='View')
    ops = [e['a'] for e in edges]
    for i in range(0, len(ops), 100):
        scripts.append({'id': 'mc/%d' % i, 'cfg': {}, 'ops': ops[i:i + 100]})

    def vec(m=60):
        r = rng.random()
        if r < .1:
            return [0, 0]
        if r < .3:
            return rng.choice([[0, 1], [1, 0], [0, -1], [-1, 0], [3, 4], [-5, 12], [-8, -15], [1, 1], [-7, 7]])
        return [rng.randint(-m, m), rng.randint(-m, m)]
    for n in range(300 if ctx.thorough else 80):
        ops = []
        for _ in range(40):
            r = rng.random()
            if r < .15:
                ops.append(dict(op='vector', v=vec()))
            elif r < .25:
                m = rng.choice([1, 2, 3, 8])
                ops.append(dict(op='rows', a=[vec() for _ in range(m)], b=[vec() for _ in range(m)]))
            elif r < .32:
                ops.append(dict(op='pair', a=vec(), b=vec()))
            elif r < .47:
                v = vec(30)
                ops.append(dict(op='truncate', v=v, l=rng.choice([1, 4, 20, 52, 68, 100, 200, int(4 * (v[0] ** 2 + v[1] ** 2) ** .5), int(4 * (v[0] ** 2 + v[1] ** 2) ** .5) + 1])))
                if ops[-1]['l'] == 0:
                    ops[-1]['l'] = 1
            elif r < .57:
                ops.append(dict(op='wrap', n=rng.choice([rng.randint(-40, 40), rng.randint(-2000, 2000), 8 * rng.randint(-8, 8)])))
            elif r < .64:
                ops.append(dict(op='unit', ns=[rng.randint(-40, 40) for _ in range(rng.choice([1, 2, 5]))], many=rng.random() < .5))
            elif r < .72:
                m = rng.choice([1, 2, 4])
                ops.append(dict(op='average', a=[vec() for _ in range(m)], b=[vec() for _ in range(m)], w=rng.randint(0, 16), many=rng.random() < .5))
            elif r < .92:
                c, rr = vec(20), rng.randint(1, 12)
                v = vec(12) if rng.random() < .5 else [-(x // 3) + rng.randint(-2, 2) for x in c]
                ops.append(dict(op='meet', c=c, v=v, r=rr))
            else:
                p, q = rng.randint(1, 24), rng.randint(1, 24)
                ops.append(dict(op='social', k=rng.choice([1, 2, 3]), p=p, q=rng.choice([p, q, q])))
        for o in ops:
            if o['op'] == 'meet' and rng.random() < .5:
                o['vs'] = rng.choice([-20, -8, -2, 3, 9, 12, 20])
            if o['op'] in ('vector', 'truncate', 'meet') and rng.random() < .5:
                o['sc'] = rng.choice([-40, -12, -5, 3, 10, 40])
        scripts.append({'id': 'rnd/%d' % n, 'cfg': {}, 'ops': ops})
    return scripts
