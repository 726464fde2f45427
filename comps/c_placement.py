"""Placement of agent groups. Lengths are in 1/16 m."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('placement', scripts)
    ctx.judge('PlacementTrace', traces, scripts=scripts, driver='placement', shards=4, workers=2)
    if not ctx.replay:
        ctx.require_ops(['add', 'mismatch/CrowdDynamicsException'])


def body3(rt, rs, ts, quarter):
    ex, ey = [(0, -1), (1, 0), (0, 1), (-1, 0)][quarter % 4]   # (sin phi, -cos phi)
    return [[0, 0, rt], [-ts * ex, -ts * ey, rs], [ts * ex, ts * ey, rs]]


def gap_tie(a, b, always=False):
    """Touching exactly, not along an axis: floating point may see it either way."""
    dx, dy = a[0] - b[0], a[1] - b[1]
    return (always or dx and dy) and dx * dx + dy * dy == (a[2] + b[2]) ** 2


def wall_tie(c, w):
    (px, py), (qx, qy) = w
    dx, dy, x, y = qx - px, qy - py, c[0] - px, c[1] - py
    d2, a, r2 = dx * dx + dy * dy, x * dx + y * dy, c[2] ** 2
    if a < 0:
        return x * x + y * y == r2
    if a > d2:
        return (c[0] - qx) ** 2 + (c[1] - qy) ** 2 == r2
    return (x * dy - y * dx) ** 2 == r2 * d2


def generate(ctx):
    rng = ctx.rng
    scripts = []
    consts = dict(Coords='{-2,0,1,3}', MaxGroup=2, MaxSupply=2, Radii='{1,2}', MaxRows=4 if ctx.thorough else 3)
    edges = ctx.mc('MCPlacement', consts, invs=['Disjoint'], props=['RowsKept', 'ClearOfWalls', 'InGroupOrder', 'GivesUpLate'],
                   emit=True, view='View')
    paths, total, done = ctx.tour(edges, init=[], maxlen=6)
    ctx.detail['tour'] = {'edges': total, 'covered': done}
    for i, p in enumerate(paths):
        ops = []
        for o in p:
            o = dict(o, form=rng.random() < .5)
            if o['op'] == 'add':
                o['supplyform'] = rng.choice(['gen', 'call'])
                o['other'] = rng.random() < .5
            ops.append(o)
        scripts.append({'id': 'mc/%d' % i, 'cfg': {'kind': 'circular'}, 'ops': ops})
    for n in range(600 if ctx.thorough else 120):
        scripts.append({'id': 'rnd/%d' % n, **rand(rng)})
    for n in range(300 if ctx.thorough else 100):
        scripts.append({'id': 'reach/%d' % n, **reach(rng)})
    return scripts


def reach(rng):
    """Default cells, bodies as wide as those, each position just in or out of reach of the one before."""
    ops, nid, p = [], 0, [rng.randint(-60, 60), rng.randint(-60, 60)]
    for g in range(2):
        members, supply = [], []
        for _ in range(rng.randint(3, 8)):
            nid += 1
            members.append(dict(id=nid, body=[[0, 0, rng.choice([15, 15, 14])]]))
            d = [rng.choice([-1, 1]) * rng.randint(26, 31), rng.randint(-6, 6)]
            rng.shuffle(d)
            q = [p[0] + d[0], p[1] + d[1]]
            if max(abs(q[0]), abs(q[1])) > 70 or (q[0] - p[0]) ** 2 + (q[1] - p[1]) ** 2 in (900, 841, 784):
                continue
            supply.append(q)
            p = q
        # no exact touching anywhere
        if supply:
            ops.append(dict(op='add', members=members, supply=supply, walls=[], form=True, supplyform='gen', other=False))
    ps = [q for o in ops for q in o['supply']]
    if any((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 in (900, 841, 784) for a in ps for b in ps):
        return reach(rng)
    return {'cfg': {'kind': 'circular', 'cell': None, 'unit': 50}, 'ops': ops or [dict(op='mismatch')]}


def rand(rng):
    kind = rng.choice(['circular', 'three_circle'])
    big = rng.random() < .4
    fine = not big and rng.random() < .4       # default cells of 0.6 m and bodies up to that width, in 1/50 m
    tiny = not fine and rng.random() < .3      # many small bodies in each cell
    cell = rng.choice([20, 32]) if big else None
    span = rng.choice([10, 20, 50]) if not fine else rng.choice([30, 60])
    if tiny:
        span = 12
    nid, ops, discs, allwalls = 0, [], [], []

    def maxr():
        return rng.randint(1, 2 if tiny else (cell // 2) if cell else rng.choice([15, 15, 8]) if fine else 4)
    for g in range(rng.randint(1, 4)):
        if rng.random() < .15:
            ops.append(dict(op='mismatch', sub=rng.random() < .3))
            continue
        members = []
        for _ in range(rng.choice([0, 1, 2, 4, 7] if not tiny else [9, 14])):
            nid += 1
            m = dict(id=nid)
            r = maxr()
            if kind == 'circular':
                m['body'] = [[0, 0, r]]
            else:
                rs = rng.randint(1, max(1, r // 2))
                m['quarter'] = rng.choice([-2, -1, 0, 1, 2])
                m['ts'] = max(r - rs, 1)
                m['body'] = body3(rng.randint(1, r), rs, m['ts'], m['quarter'])
            if rng.random() < .3:
                m['start'] = [rng.randint(-9, 9), rng.randint(-9, 9)]
            members.append(m)
        walls = []
        for _ in range(rng.choice([0, 0, 1, 2, 5, 12] if not tiny else [0, 1])):
            p = [rng.randint(-span, span), rng.randint(-span, span)]
            q = [rng.randint(-span, span), rng.randint(-span, span)]
            if p != q:
                walls.append([p, q])
        supply = []
        for _ in range(rng.choice([1, 3, 12, 40] if not tiny else [60])):
            p = [rng.randint(-span, span), rng.randint(-span, span)]
            if fine and supply and rng.random() < .6:         # just in reach of the one before
                d = [rng.choice([-1, 1]) * rng.randint(25, 31), rng.randint(-6, 6)]
                rng.shuffle(d)
                p = [max(-70, min(70, supply[-1][0] + d[0])), max(-70, min(70, supply[-1][1] + d[1]))]
            mine = [(p[0] + b[0], p[1] + b[1], b[2]) for m in members for b in m['body']]
            if any(gap_tie(a, d, fine) for a in mine for d in discs) or any(wall_tie(a, w) for a in mine for w in walls):
                continue
            if (fine or kind == 'three_circle') and any((a[0] - d[0]) ** 2 + (a[1] - d[1]) ** 2 == (a[2] + d[2]) ** 2 for a in mine for d in discs):
                continue
            supply.append(p)
            discs += mine
            if rng.random() < .2:
                supply.append(list(p))
        if not supply:
            continue
        ops.append(dict(op='add', members=members, supply=supply, walls=walls, form=rng.random() < .5,
                        supplyform=rng.choice(['gen', 'call']), other=rng.random() < .5))
    return {'cfg': {'kind': kind, 'cell': cell, 'unit': 50 if fine else 16}, 'ops': ops or [dict(op='mismatch')]}
