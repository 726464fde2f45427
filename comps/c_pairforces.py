"""Interaction forces: pair laws (P11) and superposition (P12)."""
import math

TRIPLES = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (4, 3, 5), (-3, 4, 5), (4, -3, 5), (-4, -3, 5), (-3, -4, 5), (5, 12, 13), (-12, 5, 13)]


def run(ctx):
    crowd = ctx.pid == 'P12'
    scripts = ctx.replay or (crowds(ctx) if crowd else pairs(ctx))
    traces = ctx.drive('pairforces', scripts)
    ctx.judge('PairForcesTrace', traces, scripts=scripts, driver='pairforces', shards=6, workers=1)
    if not ctx.replay:
        ctx.require_ops(['crowd', 'other/raise:InvalidType'] if crowd else ['pair', 'wall'])
        f = [e for t in traces for e in t['ev'] if e['op'] in ('pair', 'wall')]
        if not crowd and not ctx.mismatches and (sum(any(e['f']) for e in f) < len(f) // 4 or not any(e['ta'] for e in f)):
            import mbv
            raise mbv.Machinery('vacuous: hardly any forces')


def mc(ctx):
    b1 = '<<[o |-> <<0, 0>>, r |-> 3]>>'
    b3 = '<<[o |-> <<0, 0>>, r |-> 3], [o |-> <<-4, 0>>, r |-> 2], [o |-> <<4, 0>>, r |-> 2]>>'
    b3q = '<<[o |-> <<0, 0>>, r |-> 3], [o |-> <<0, -4>>, r |-> 2], [o |-> <<0, 4>>, r |-> 2]>>'
    scripts = []
    for tag, bodies, quarter in [('circular', [b1], None), ('three_circle', [b3q, b3], 1)]:
        consts = dict(Xs='{-12,-3,0,4,9}' if ctx.thorough else '{-8,0,3}', Vs='{-8,0,16}' if ctx.thorough else '{0,-16}' if quarter else '{0,-16,8}',
                      Bodies='{%s}' % ','.join(bodies))
        edges = ctx.mc('MCPairForces', consts, invs=['Exchange', 'QuarterTurn', 'Repels', 'Pushes'], emit=True, name='mc_' + tag)
        ops = [e['a'] for e in edges]
        for o in ops:
            for a in (o['a'], o['b']):
                if len(a['parts']) > 1:
                    a['ts'] = 4
                    a['quarter'] = 1 if a['parts'][1]['o'][0] else 0
                    ro = rot_parts(a['parts'], 4, a['quarter'])
                    a['parts'] = ro
        for i in range(0, len(ops), 60):
            scripts.append({'id': 'mc/%s/%d' % (tag, i), 'cfg': {'kind': tag}, 'ops': ops[i:i + 60]})
    return scripts


def rot_parts(parts, ts, quarter):
    # right shoulder = centre + ts * (sin, -cos)
    s, c = [(0, 1), (1, 0), (0, -1), (-1, 0)][quarter % 4]
    off = [ts * s, -ts * c]
    return [parts[0], dict(parts[1], o=[-off[0], -off[1]]), dict(parts[2], o=off)]


def agent(rng, kind, x, v, like=None):
    a = dict(x=list(x), v=list(v), m=rng.randint(1, 12), k=rng.randint(0, 12), mu=rng.randint(0, 40), kappa=rng.randint(0, 20), c=rng.randint(0, 20),
             tau0=rng.choice([1, 2, 3, 4]), f0=[rng.randint(-64, 64), rng.randint(-64, 64)], t0=rng.randint(-64, 64))
    if like and rng.random() < .4:
        a.update({n: like[n] for n in ('m', 'k', 'mu', 'kappa', 'c', 'tau0')})
    if rng.random() < .08:
        a['m'] = rng.choice([500, 2000])
    if kind == 'circular':
        a['parts'] = [dict(o=[0, 0], r=rng.randint(2, 14))]
    else:
        a['ts'], a['quarter'] = rng.randint(2, 9), rng.choice([0, 1, 2, -1])
        p = [dict(o=[0, 0], r=rng.randint(2, 9)), dict(r=rng.randint(1, 7)), {}]
        p[2]['r'] = p[1]['r']
        a['parts'] = rot_parts(p, a['ts'], a['quarter'])
    return a


def pairs(ctx):
    rng = ctx.rng
    scripts = mc(ctx)
    for n in range(300 if ctx.thorough else 60):
        kind = rng.choice(['circular', 'three_circle', 'three_circle'])
        ops = []
        for _ in range(25):
            r = rng.random()
            a = agent(rng, kind, (rng.randint(-40, 40), rng.randint(-40, 40)), (0, 0))
            if r < .3:
                ops.append(wall(rng, kind, a))
                continue
            b = agent(rng, kind, (0, 0), (0, 0), like=a)
            p, q = rng.choice(a['parts']), rng.choice(b['parts'])
            t = rng.choice(TRIPLES)
            R = p['r'] + q['r']
            base = [a['x'][c] + p['o'][c] - q['o'][c] for c in (0, 1)]     # position of b for which the two discs coincide
            v0 = [rng.randint(-20, 20), rng.randint(-20, 20)]
            if r < .55:      # a touching or separated pair along an exact normal
                m = rng.randint(1, max(1, (R + rng.choice([-1, -1, -1, 20])) // t[2]))
                b['x'] = [base[0] - m * t[0], base[1] - m * t[1]]
                vr = [0, 0] if rng.random() < .4 else [rng.randint(-20, 20), rng.randint(-20, 20)]
                if m * t[2] < R and rng.random() < .7:      # separating or grazing: no collision ahead
                    if vr[0] * t[0] + vr[1] * t[1] < 0:
                        vr = [-vr[0], -vr[1]]
            elif r < .64:    # a slow approach, seen long before; exact time
                v0 = [rng.randint(-2, 2), rng.randint(-2, 2)]
                for g in (a, b):
                    g['tau0'], g['m'], g['k'] = rng.choice([4, 8, 16, 32, 64]), rng.choice([12, 60, 80, 120]), rng.choice([4, 6, 12])
                axis, sg, speed = rng.randint(0, 1), rng.choice([-1, 1]), rng.choice([1, 1, 1, 2, 3])
                lat, fwd = rng.choice([(u, w) for u in range(-R, R + 1) for w in [math.isqrt(R * R - u * u)] if u * u + w * w == R * R and w])
                x = [0, 0]
                x[axis], x[1 - axis] = -sg * (fwd + rng.randint(4, 44)), lat
                vr = [0, 0]
                vr[axis] = sg * speed
                b['x'] = [base[c] - x[c] for c in (0, 1)]
            elif r < .72 and kind == 'three_circle':    # some discs have passed each other, others are about to collide
                for g in (a, b):
                    g['ts'], r = rng.randint(12, 20), rng.choice([2, 3, 4, 5])
                    g['parts'] = rot_parts([dict(o=[0, 0], r=rng.choice([2, 4, 6])), dict(r=r), dict(r=r)], g['ts'], g['quarter'])
                for _ in range(1500):
                    b['x'] = [a['x'][0] + rng.randint(-30, 30), a['x'][1] + rng.randint(-30, 30)]
                    vr = [rng.randint(-36, 36), rng.randint(-36, 36)]
                    ts = taus(a, b, vr)
                    if ts and ts[0] < 0 and max(ts) > .2:
                        break
            elif r < .85:    # a collision at a known time at an exact normal: x_rel = R n - tau v
                big = [x for x in TRIPLES if R % x[2] == 0]
                t = rng.choice(big)
                nrm = [R // t[2] * t[0], R // t[2] * t[1]]
                num, den = rng.choice([(1, 4), (1, 2), (1, 1), (3, 2), (2, 1), (5, 2), (4, 1), (1, 1), (3, 4)])
                for _ in range(50):
                    vr = [den * rng.randint(-20 // den, 20 // den), den * rng.randint(-20 // den, 20 // den)]
                    if vr[0] * t[0] + vr[1] * t[1] < 0:
                        break
                b['x'] = [base[c] - (nrm[c] - num * vr[c] // den) for c in (0, 1)]
            else:
                b['x'] = [a['x'][0] + rng.randint(-90, 90), a['x'][1] + rng.randint(-90, 90)]
                vr = [rng.randint(-30, 30), rng.randint(-30, 30)]
            a['v'] = [v0[0] + vr[0], v0[1] + vr[1]]
            b['v'] = v0
            if a['x'] == b['x']:
                continue
            ops.append(dict(op='pair', a=a, b=b, swap=rng.random() < .5))
        scripts.append({'id': 'rnd/%d' % n, 'cfg': {'kind': kind}, 'ops': ops})
    return scripts


def taus(a, b, v):
    """Times of collision per pair of discs in the order of the discs; nothing if any overlap."""
    res = []
    for p in a['parts']:
        for q in b['parts']:
            x = [a['x'][c] + p['o'][c] - b['x'][c] - q['o'][c] for c in (0, 1)]
            A, B, C = v[0] ** 2 + v[1] ** 2, -x[0] * v[0] - x[1] * v[1], x[0] ** 2 + x[1] ** 2 - (p['r'] + q['r']) ** 2
            if C <= 0 or A == 0:
                return []
            if B * B > A * C:
                res.append((B - math.sqrt(B * B - A * C)) / A)
    return res


def wall(rng, kind, a):
    a['v'] = [rng.randint(-20, 20), rng.randint(-20, 20)]
    t = rng.choice(TRIPLES)
    p = rng.choice(a['parts'])
    c = [a['x'][0] + p['o'][0], a['x'][1] + p['o'][1]]
    size = rng.randint(1, 5 if t[2] > 1 else 25)
    d = [t[0] * size, t[1] * size]
    r = rng.random()
    if r < .7:       # foot of the perpendicular on the wall
        h = rng.randint(1, max(1, (p['r'] + 2) // t[2]))
        s = rng.choice([-1, 1])
        foot = [c[0] - s * h * t[1], c[1] + s * h * t[0]]
        k = rng.randint(0, size)
        w0 = [foot[0] - k * t[0], foot[1] - k * t[1]]
    else:            # beyond the end
        u = rng.choice(TRIPLES)
        h = rng.randint(1, max(1, (p['r'] + 2) // u[2]))
        w0 = [c[0] + h * u[0], c[1] + h * u[1]]
        if (c[0] - w0[0]) * d[0] + (c[1] - w0[1]) * d[1] > 0:
            d = [-d[0], -d[1]]
    w = [w0, [w0[0] + d[0], w0[1] + d[1]]]
    if rng.random() < .5:
        w.reverse()
    return dict(op='wall', a=a, b=agent(rng, kind, (w0[0], w0[1]), (0, 0)), w=w)


def crowds(ctx):
    rng = ctx.rng
    scripts = []
    consts = dict(Pos='{-3,0,1,4}' if not ctx.thorough else '{-5,-3,0,1,4}', N=4, Cell=4)
    edges = ctx.mc('MCCellPairs', consts, invs=['EveryClosePairOnce', 'NeverTwice'], emit=True)
    mcs = [e['a']['pos'] for e in edges]
    rng.shuffle(mcs)
    ctx.detail['design_configurations'] = len(mcs)
    for i in range(0, min(len(mcs), 3000 if ctx.thorough else 500), 10):
        kind = ['circular', 'three_circle'][(i // 10) % 2]
        ops = []
        for pos in mcs[i:i + 10]:
            ags = [agent(rng, kind, (16 * p, rng.choice([-1, 0, 1, 2])), (rng.randint(-20, 20), rng.randint(-6, 6))) for p in pos]
            fit(ags)
            ops.append(dict(op='crowd', agents=ags, cell=64, via=rng.choice(['node', 'fn'])))
        scripts.append({'id': 'mc/%d' % i, 'cfg': {'kind': kind}, 'ops': ops})
    for n in range(200 if ctx.thorough else 60):
        kind = rng.choice(['circular', 'three_circle'])
        ops = []
        for _ in range(4):
            m = rng.choice([1, 2, 5, 9, 14])
            size = rng.choice([20, 60, 150, 400])
            o = [rng.choice([0, 0, -500, 3000]) for _ in 'xy']
            ags = [agent(rng, kind, (o[0] + rng.randint(-size, size), o[1] + rng.randint(-size, size)), (rng.randint(-20, 20), rng.randint(-20, 20))) for _ in range(m)]
            r = rng.random()
            if r < .25:      # pairs that are just in sight, on any place of the default grid
                ags, base = [], rng.choice([0, 700, -333])
                for axis in (0, 1):
                    first = rng.choice([51, 52, rng.randint(40, 60)])
                    for d in (0, 55):
                        x = [base, base]
                        x[axis] += first + d
                        ags.append(agent(rng, kind, x, (0, 0)))
                        ags[-1]['v'][axis] = 20 if d == 0 else -20
                ags.append(agent(rng, kind, (base, base), (0, 0)))
                for a in ags:
                    if kind == 'circular':
                        a['parts'] = [dict(o=[0, 0], r=4)]
                    a['m'], a['k'] = 12, 12
                fit(ags, 4)
                if kind == 'circular':
                    ops.append(dict(op='crowd', agents=ags, cell=0, via='node'))
            elif r < .45:
                small = rng.random() < .5     # bodies no larger than the default of the node
                fit(ags, 4 if small else 99)
                rmax = max(max(math.hypot(*p['o']) + p['r'] for p in a['parts']) for a in ags)
                cell = 0 if small and kind == 'circular' else math.ceil(48 + 2 * rmax) + rng.choice([0, 1, 30])
                ops.append(dict(op='crowd', agents=ags, cell=cell, via='node' if cell == 0 or rng.random() < .5 else 'fn'))
            elif r < .7:
                fit(ags)
                ops.append(dict(op='crowd', agents=ags, cell=rng.choice([100, 112, 200]), via=rng.choice(['node', 'fn'])))
            else:
                ws = [wall(rng, kind, rng.choice(ags))['w'] for _ in range(rng.choice([0, 1, 4, 4, 12, 20]))]
                ops.append(dict(op='crowd', agents=ags, w=ws))
                # through the node, from whatever geometry the obstacles of the field are at that time
                ops[-1]['via'] = rng.choice(['fn', 'node', 'node'])
                if ops[-1]['via'] == 'node':
                    a = rng.choice(ags)
                    rings = [dict(form=rng.choice(['poly', 'poly', 'ring', 'ring', 'chain', 'point']), holes=[], pts=[[a['x'][0] + dx, a['x'][1] + dy] for dx, dy in rng.choice(
                        [((2, -9), (40, -9), (40, 50), (2, 50)), ((-30, 3), (30, 3), (0, 45)), ((-60, -60), (60, -60), (60, 2), (-60, 2))])]) for _ in range(rng.choice([0, 1, 1, 2]))]
                    if len(rings) == 1 and rng.random() < .7:
                        ops[-1]['w'] = []
                    for g in rings:
                        if g['form'] == 'poly' and rng.random() < .4:     # the agent in a hole of a large obstacle
                            g.update(pts=[[a['x'][0] + dx, a['x'][1] + dy] for dx, dy in ((-300, -300), (300, -300), (300, 300), (-300, 300))], holes=[g['pts']])
                    ops[-1].update(rings=rings, before=[wall(rng, kind, dict(rng.choice(ags)))['w'] for _ in range(2)] if rng.random() < .5 else None)
        ops.append(dict(op='other', agents=ags, w=wall(rng, kind, rng.choice(ags))['w'], via=rng.choice(['wall', 'crowd']),
                        **rng.choice([dict(without='target', extra=False), dict(without='', extra=True), dict(without='tau_0', extra=True)])))
        scripts.append({'id': 'rnd/%d' % n, 'cfg': {'kind': kind}, 'ops': [o for o in ops if len({tuple(a['x']) for a in o['agents']}) == len(o['agents'])]})
    return scripts


def fit(ags, limit=99):
    """Distinct positions, radii within the limit."""
    for a in ags:
        for p in a['parts']:
            p['r'] = min(p['r'], limit)
