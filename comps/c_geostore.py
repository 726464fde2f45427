"""Geometry files."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('geostore', scripts)
    ctx.judge('GeoStoreTrace', traces, scripts=scripts, driver='geostore', shards=4, workers=2)
    if not ctx.replay:
        ctx.require_ops(['save', 'load', 'remove', 'junk'])


def generate(ctx):
    rng = ctx.rng
    scripts = []
    for tag, consts in [('one', dict(Files='1..1', Names='{1,2}', Values='1..4')), ('two', dict(Files='1..2', Names='{1}', Values='1..2'))]:
        edges = ctx.mc('MCGeoStore', consts, invs=['OneValuePerName'], props=['LastSaveWins', 'OthersUntouched'], emit=True,
                       view='View', name='mc_' + tag)
        nf = 1 if tag == 'one' else 2
        paths, total, done = ctx.tour(edges, init=[dict(there=False, m=[])] * nf, maxlen=80)
        ctx.detail['tour_' + tag] = {'edges': total, 'covered': done}
        for i, p in enumerate(paths):
            names, vals = rng.sample(NAMES, 2), [value(rng) for _ in range(4)]
            ops = []
            for o in p:
                o = dict(o)
                if 'm' in o:
                    o['m'] = [[names[a - 1], vals[b - 1]] for a, b in o['m']]
                ops += [o] + ([dict(op='load', f=o['f'])] if o['op'] == 'save' and rng.random() < .5 else [])
            scripts.append({'id': '%s/%d' % (tag, i), 'cfg': {'files': nf}, 'ops': ops})
    for n in range(400 if ctx.thorough else 80):
        nf = rng.choice([1, 2, 3])
        there, ops = [False] * nf, []
        for _ in range(30):
            f = rng.randrange(nf)
            r = rng.random()
            if r < .5:
                ops.append(dict(op='save', f=f + 1, m=[[x, value(rng)] for x in rng.sample(NAMES, rng.randint(0, 5))]))
                there[f] = True
            elif r < .9:
                ops.append(dict(op='load', f=f + 1))
            elif r < .95:
                ops.append(dict(op='junk', f=f + 1))
                there[f] = False
            elif there[f]:
                ops.append(dict(op='remove', f=f + 1))
                there[f] = False
        scripts.append({'id': 'rnd/%d' % n, 'cfg': {'files': nf}, 'ops': ops})
    return scripts


NAMES = ['domain', 'obstacles', 'targets', 'spawns', 'type', 'coordinates', 'a b', 'x"y']


def num(rng):
    return rng.choice([str(rng.randint(-50, 50)), repr(rng.randint(-400, 400) / 8 + .125).replace('.0', '')])


def ring(rng, n, close=False):
    p = ['%s %s' % (num(rng), num(rng)) for _ in range(n)]
    return ','.join(p + p[:1] if close else p)


def geom(rng, multi=True):
    r = rng.randrange(9 if multi else 4)
    if r == 0:
        return 'P(%s)' % ring(rng, 1)
    if r in (1, 2):
        return 'L(%s)' % ring(rng, rng.randint(2, 5))
    if r == 3:
        return 'Y(%s)' % '|'.join(ring(rng, rng.randint(3, 5), True) for _ in range(rng.choice([1, 1, 2, 3])))
    n = rng.randint(2, 3)
    if r == 4:
        return 'MP(%s)' % ';'.join('P(%s)' % ring(rng, 1) for _ in range(n))
    if r in (5, 6):
        return 'ML(%s)' % ';'.join('L(%s)' % ring(rng, rng.randint(2, 4)) for _ in range(n))
    if r == 7:
        return 'MY(%s)' % ';'.join('Y(%s)' % ring(rng, 4, True) for _ in range(n))
    return 'GC(%s)' % ';'.join(geom(rng, False) for _ in range(n))


def value(rng):
    r = rng.random()
    if r < .1:
        return 'none'
    if r < .5:
        return geom(rng)
    n = rng.randint(0, 3)
    if r < .8:
        return '[%s]' % ';'.join(geom(rng) for _ in range(n))
    if r < .85:
        return '<%s>' % ';'.join(geom(rng) for _ in range(n))
    return '{%s}' % ';'.join('%s=%s' % (m, geom(rng)) for m in sorted(rng.sample(['left', 'type', 'right', 'coordinates', 'b1'], n)))
