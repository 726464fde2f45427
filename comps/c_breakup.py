"""Geometries as arrays, segments and rasters."""
import importlib.util
import os

spec = importlib.util.spec_from_file_location('c_arrival', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c_arrival.py'))
arrival = importlib.util.module_from_spec(spec)
spec.loader.exec_module(arrival)


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('breakup', scripts)
    ctx.judge('BreakupTrace', traces, scripts=scripts, driver='breakup', shards=6, workers=1)
    if not ctx.replay:
        ctx.require_ops(['segments', 'flagged', 'draw', 'hull', 'refuse'])


def geo(t, pts=(), holes=(), parts=()):
    return dict(t=t, pts=[list(p) for p in pts], holes=[[list(p) for p in h] for h in holes], parts=list(parts))


def generate(ctx):
    rng = ctx.rng
    scripts = []
    edges = ctx.mc('MCBreakup', dict(N=5 if not ctx.thorough else 6, Depth=2), invs=['TypeOK', 'Union', 'Counts'], props=['Local'], emit=True, view='View')
    paths, total, done = ctx.tour(edges, maxlen=3, act=lambda e: e)
    ctx.detail['tour'] = {'edges': total, 'covered': done}
    for i, p in enumerate(paths):
        if p[0]['s']['n']:
            continue
        scripts.append({'id': 'mc/%d' % i, 'cfg': {'unit': rng.choice([1, 2, 4]), 'n': 6 if not ctx.thorough else 7}, 'ops': [e['a'] for e in p]})

    def box(lo, hi, least=1):
        a, b = sorted(rng.sample(range(lo, hi + 1), 2))
        c, d = sorted(rng.sample(range(lo, hi + 1), 2))
        if b - a < least or d - c < least:
            return box(lo, hi, least)
        pts = [[a, c], [b, c], [b, d], [a, d]]
        s = rng.randint(0, 3)
        pts = pts[s:] + pts[:s]
        return pts if rng.random() < .5 else pts[::-1]

    def poly(n):
        while True:
            c = [n // 2, n // 2]
            p = [q for q in arrival.star(rng, c, n // 2, rng.choice([3, 4, 6])) if 0 <= q[0] <= n and 0 <= q[1] <= n]
            if arrival.convex_enough(p):
                return p

    def holes(pts):
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
        if len(pts) != 4 or x1 - x0 < 4 or y1 - y0 < 4:
            return []
        a, b = sorted(rng.sample(range(x0 + 1, x1), 2))
        c, d = sorted(rng.sample(range(y0 + 1, y1), 2))
        if rng.random() < .4 and b - a > 2:      # two holes
            m = rng.randint(a + 1, b - 1)
            return [[[a, c], [m, c], [m, d], [a, d]]] + ([[[m + 1, c], [b, c], [b, d], [m + 1, d]]] if m + 1 < b else [])
        return [[[a, c], [b, c], [b, d], [a, d]][::rng.choice([1, -1])]]

    def prim(n):
        r = rng.random()
        if r < .1:
            return geo('Point', [[rng.randint(0, n), rng.randint(0, n)]])
        if r < .4:
            m = rng.choice([2, 2, 3, 5]) if rng.random() < .95 else 80
            return geo('LineString', [[rng.randint(0, n), rng.randint(0, n)] for _ in range(m)])
        if r < .8:
            p = box(0, n)
            xs, ys = [q[0] for q in p], [q[1] for q in p]
            return geo('Polygon', p, holes(p) if len(set(xs)) == 2 and len(set(ys)) == 2 and rng.random() < .7 else [])
        return geo('Polygon', poly(n))

    def any_geo(n, depth=0):
        if depth < 2 and rng.random() < .35:
            kind = rng.random()
            parts = [any_geo(n, depth + 1) for _ in range(rng.choice([1, 2, 3]))]
            if kind < .5:
                t = parts[0]['t']
                parts = [x for x in parts if x['t'] == t]
            return geo('Multi', parts=parts)
        return prim(n)
    for n in range(200 if ctx.thorough else 60):
        size = rng.choice([5, 8, 14])
        ops = [dict(op='grid', nx=size + 1, ny=size + 1 + rng.choice([0, 3]), off=[rng.choice([0, -4, 7]), rng.choice([0, -9, 2])], fill=0, type=rng.choice(['int', 'float', 'bool']))]
        if ops[0]['type'] != 'bool':
            ops[0]['fill'] = rng.choice([-1, 0, 5])
        for i in range(rng.choice([2, 5])):
            ops.append(dict(op='draw', g=any_geo(size), value=1 if ops[0]['type'] == 'bool' else rng.choice([1, 2, 3])))
        scripts.append({'id': 'draw/%d' % n, 'cfg': {'unit': rng.choice([1, 2, 4])}, 'ops': ops})
    for n in range(120 if ctx.thorough else 40):
        ops = []
        for _ in range(20):
            r = rng.random()
            size = rng.choice([5, 20, 100])
            if r < .45:
                ops.append(dict(op='segments', g=any_geo(size)) if rng.random() < .95 else dict(op='segments', none=True))
            elif r < .75:
                ops.append(dict(op='flagged', g=any_geo(size)))
            elif r < .9:
                ob, t = rng.random() < .6, rng.choice([0, 1, 2])
                sp = rng.choice([0, 1, 2]) if ob or t else 1
                ops.append(dict(op='hull', obstacles=ob, targets=t, gs=[any_geo(size) for _ in range(ob + t + sp)]))
            else:
                ops.append(dict(op='refuse', fn=rng.choice(['segments', 'flagged', 'draw']), v=rng.choice(['none', 'text', 'list', 'number'])))
        scripts.append({'id': 'fn/%d' % n, 'cfg': {'unit': rng.choice([1, 4, 16])}, 'ops': ops})
    return scripts
