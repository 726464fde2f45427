"""Inside the domain, targets reached."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('arrival', scripts)
    ctx.judge('ArrivalTrace', traces, scripts=scripts, driver='arrival', shards=4, workers=2)
    if not ctx.replay:
        ctx.require_ops(['domain', 'targets', 'inside', 'reach'])


def tla(v):
    return '<<%s>>' % ', '.join(map(tla, v)) if isinstance(v, (list, tuple)) else str(v)


def on_edge(p, poly):
    for a, b in zip(poly, poly[1:] + poly[:1]):
        if (b[0] - a[0]) * (p[1] - a[1]) == (b[1] - a[1]) * (p[0] - a[0]) and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]):
            return True
    return False


def far_inside(p, poly):
    inside = False
    for a, b in zip(poly, poly[1:] + poly[:1]):
        L = ((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2) ** .5
        if abs((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) < L:
            return False
        if (a[1] > p[1]) != (b[1] > p[1]) and p[0] < (b[0] - a[0]) * (p[1] - a[1]) / (b[1] - a[1]) + a[0]:
            inside = not inside
    return inside


def star(rng, c, r, n):
    """Simple polygon around c: rays in order of angle, integer ends."""
    import math
    start = rng.random() * 6.28
    pts = []
    for i in range(n):
        t, d = start + 6.2832 * (i + .6 * rng.random()) / n, r * (.35 + .65 * rng.random())
        pts.append([c[0] + int(round(d * math.cos(t))), c[1] + int(round(d * math.sin(t)))])
    out = []
    for p in pts:
        if p not in out:
            out.append(p)
    return out if rng.random() < .5 else out[::-1]


def convex_enough(poly):
    """No touching or crossing edges."""
    n = len(poly)
    if n < 3:
        return False

    def cr(o, a, b):
        return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        if any(on_edge(p, [a, b]) for p in poly if p not in (a, b)):
            return False
        for j in range(i + 1, n):
            c, d = poly[j], poly[(j + 1) % n]
            if len({tuple(a), tuple(b), tuple(c), tuple(d)}) < 4:
                continue
            if cr(a, b, c) * cr(a, b, d) <= 0 and cr(c, d, a) * cr(c, d, b) <= 0:
                return False
    return abs(sum(poly[i][0] * poly[(i + 1) % n][1] - poly[i][1] * poly[(i + 1) % n][0] for i in range(n))) > 2


def generate(ctx):
    rng = ctx.rng
    scripts = []
    dom = [[0, 0], [8, 0], [8, 4], [4, 4], [4, 8], [0, 8]]
    targets = [[[2, 2], [6, 2], [6, 6], [2, 6]], [[7, -1], [9, -1], [9, 5]]]
    places = [[1, 1], [3, 3], [5, 5], [8, 0]] if not ctx.thorough else [[1, 1], [3, 3], [5, 5], [9, 9], [5, 3]]
    places[3:4] = [[8, 1]] if not ctx.thorough else [[10, 10]]
    if not ctx.thorough:
        places = [[1, 1], [3, 3], [5, 5], [10, 1]]
        targets[1] = [[9, 0], [12, 0], [11, 5]]
    edges = ctx.mc('MCArrival', dict(Places='{%s}' % ', '.join(map(tla, places)), Dom=tla(dom), Targets=tla(targets), MaxN=2), invs=['TypeOK', 'Robust'],
                   props=['Monotone', 'Exact', 'Quiet'], emit=True, view='View')
    paths, total, done = ctx.tour(edges, maxlen=80, act=lambda e: e)
    ctx.detail['tour'] = {'edges': total, 'covered': done}
    line = dict(poly=False, pts=[[0, 0], [1, 5]])
    for i, p in enumerate(paths):
        s = p[0]['s']
        ts = [dict(poly=True, pts=t) for t in targets]
        where = rng.randint(0, 2)
        ts.insert(where, line)
        pre = []
        if any(s['reached']):
            continue
        scripts.append({'id': 'mc/%d' % i, 'cfg': {'dom': dom, 'targets': ts, 'xs': [a['x'] for a in s['a']], 'kind': rng.choice(['Circular', 'ThreeCircle'])}, 'ops': pre + [e['a'] for e in p]})
    ctx.detail['tour']['scripts'] = len(scripts)
    for n in range(400 if ctx.thorough else 100):
        size = rng.choice([6, 20, 60])

        def poly(c, r):
            while True:
                p = star(rng, c, r, rng.choice([3, 4, 5, 8]))
                if convex_enough(p):
                    return p
        dom = poly([0, 0], size)
        ts = []
        for _ in range(rng.choice([0, 1, 2, 4, 4, 14])):
            if rng.random() < .7:
                ts.append(dict(poly=True, pts=poly([rng.randint(-size, size), rng.randint(-size, size)], max(4, size // 2))))
            else:
                ts.append(dict(poly=False, pts=[[rng.randint(-size, size), rng.randint(-size, size)], [size + 1, 0]][:rng.choice([1, 2])]))

        holes = []      # small holes around one place nobody goes to
        for t in ts:
            if t['poly'] and rng.random() < .35:
                c = [sum(q[a] for q in t['pts']) // len(t['pts']) for a in (0, 1)]
                if far_inside(c, t['pts']):
                    t['hole'] = c
                    holes.append(c)

        def pt():
            while True:
                p = [rng.randint(-size - 2, size + 2), rng.randint(-size - 2, size + 2)]
                if rng.random() < .3:       # same height as a corner: the ray meets the corner
                    p[1] = rng.choice(rng.choice([dom] + [t['pts'] for t in ts]))[1]
                if p not in holes and not on_edge(p, dom) and not any(t['poly'] and on_edge(p, t['pts']) for t in ts):
                    return p
        xs = [pt() for _ in range(rng.choice([0, 1, 3, 10, 10, 40]))]
        ops = []
        m = len(xs)
        for _ in range(rng.choice([6, 15])):
            r = rng.random()
            if r < .35:
                ops.append(dict(op='inside'))
            elif r < .65:
                ops.append(dict(op='reach'))
            elif r < .92:
                ops.append(dict(op='move', xs=[pt() for _ in range(m)]))
            elif r < .96:
                new = [pt() for _ in range(rng.randint(1, 3))]
                m += len(new)
                ops.append(dict(op='join', xs=new))
            else:
                ops.append(dict(op='new', node=rng.choice(['inside', 'reach'])))
        scripts.append({'id': 'rnd/%d' % n, 'cfg': {'unit': rng.choice([1, 4, 16]), 'dom': dom, 'targets': ts, 'xs': xs, 'kind': rng.choice(['Circular', 'ThreeCircle'])}, 'ops': ops})
    return scripts
