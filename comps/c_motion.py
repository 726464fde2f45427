"""Motion: integration of the equations of motion (P13), driving forces and the force cycle (P14)."""
import math

U = 16384
TRIPLES = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (-4, 3, 5), (5, -12, 13), (-8, -15, 17)]
MOVES = ['dt', 'verlet', 'euler', 'begin', 'integrator']
DRIVE = ['reset', 'adjusting', 'orientation', 'fluctuation', 'cycle']


def run(ctx):
    ops = DRIVE if ctx.pid == 'P14' else MOVES
    scripts = ctx.replay or generate(ctx, ops)
    traces = ctx.drive('motion', scripts)
    ctx.judge('MotionTrace', traces, scripts=scripts, driver='motion', shards=6, workers=1)
    if not ctx.replay:
        ctx.require_ops(ops)


def agent(rng, three, i, n, fast=False):
    g = dict(three=three, x=[(100 * i + rng.randint(-4, 4)) * U + rng.randint(-U, U), rng.randint(-50 * U, 50 * U)], v=[rng.randint(-8, 8) * U // 4 for _ in 'xy'],
             f=[rng.randint(-200, 200) * U // 4 for _ in 'xy'], fp=[rng.randint(-200, 200) * U // 4 for _ in 'xy'], v0=rng.randint(0, 20), e0=[rng.randint(-20, 20) for _ in 'xy'],
             m2=rng.randint(0, 4), i2=rng.randint(0, 2), ta=rng.randint(0, 2), tr=rng.randint(0, 2), w0=rng.randint(0, 16), ts=rng.randint(64, 400),
             phi=rng.randint(-U + 8, U - 8), w=rng.randint(-4 * U, 4 * U) * rng.choice([1, 1, 3]), t=rng.randint(-8 * U, 8 * U), tp=rng.randint(-8 * U, 8 * U), phi0=rng.randint(-U + 8, U - 8),
             sf=rng.choice([0, 1, 4]), st=rng.choice([0, 1, 4]), ls=[0, 0], rs=[0, 0], active=rng.random() < .8)
    if rng.random() < .3:
        t = rng.choice(TRIPLES)
        g['e0'] = [16 * t[0], 16 * t[1]] if t[2] == 1 else [t[0], t[1]]
    if rng.random() < .1:
        g['e0'] = [0, 0]
    if rng.random() < .2:
        g['f'] = g['fp'] = [0, 0]
    return g


def generate(ctx, ops):
    rng = ctx.rng
    scripts = []
    walk = [o for o in ops if o not in ('dt', 'fluctuation')] + (['integrator'] if 'cycle' in ops else [])
    consts = dict(Vs='{0,2,-4}', Speeds='{0,5}', Steps='{512,2048}', MaxSteps=4 if ctx.thorough else 3, Ops='{%s}' % ','.join('"%s"' % o for o in walk))
    edges = ctx.mc('MCMotion', consts, invs=['TypeOK', 'Settled', 'Straight'], props=['Drive'], emit=True, view='View')
    paths, total, done = ctx.tour(edges, maxlen=8, act=lambda e: e)
    ctx.detail['tour'] = {'edges': total, 'covered': done}
    for i, p in enumerate(paths):
        g = dict(p[0]['s']['g'], sf=0, st=0, ls=[0, 0], rs=[0, 0], ts=256)
        scripts.append({'id': 'mc/%d' % i, 'cfg': {'kind': 'three_circle' if g['three'] else 'circular', 'agents': [g], 'lo': 512, 'hi': 512}, 'ops': [dict(e['a']) for e in p]})
    for n in range(1500 if ctx.thorough else 300):
        three = rng.random() < .6
        count = rng.choice([0, 1, 1, 2, 4, 8])
        gs = [agent(rng, three, i, count) for i in range(count)]
        hi = rng.choice([1 << rng.randint(5, 11), rng.randint(32, 2000)])
        lo = rng.choice([hi, max(1, hi >> rng.randint(1, 4)), 1])
        r = rng.random()
        if r < .15:
            for g in gs:
                g['v'] = [0, 0]
        elif r < .6 and gs:      # speeds for which the step lies between the bounds
            t = rng.choice(TRIPLES)
            top = rng.choice(gs)
            s = max(g['v0'] for g in gs) / 4
            ratio = rng.choice([2, 4, 8, 1.1, .9, 1.5, 3, 20])     # dt_max / dt_mid
            speed = 1.1 * s * ratio
            for g in gs:
                g['v'] = [c // 8 for c in g['v']]
            top['v'] = [int(c * speed * U / t[2]) for c in t[:2]]
            if max(map(abs, top['v'])) > 30 * U:
                top['v'] = [0, 3 * U]
        if ops is DRIVE and rng.random() < .3:
            for g in gs:
                g['sf'] = gs[0]['sf']
        length = rng.randint(1, 6)
        seq = [rng.choice(ops) for _ in range(length)]
        if ops is DRIVE:
            seq = [o for o in seq]
            if 'cycle' in seq and not gs:
                seq = ['reset', 'adjusting']
            if 'cycle' in seq:
                for g in gs:       # cycles are exact without noise and with agents out of each other's sight
                    g['sf'] = g['st'] = 0
            seq = seq if any(g['sf'] or g['st'] for g in gs) or 'cycle' in seq else seq + ['fluctuation']
        scripts.append({'id': 'rnd/%d' % n, 'cfg': {'kind': 'three_circle' if three else 'circular', 'agents': gs, 'lo': lo, 'hi': hi, 'seed': rng.randint(0, 10**6),
                                                     'fresh': rng.random() < .3, 'root': rng.random() < .7}, 'ops': [dict(op=o) for o in seq]})
    if ops is DRIVE:
        for n in range(16):
            sf, st = rng.choice([2, 4, 8]), rng.choice([1, 2, 4])
            gs = [dict(agent(rng, n % 2 == 0, i % 4, 4), sf=sf, st=st, m2=4, i2=2) for i in range(160)]
            scripts.append({'id': 'many/%d' % n, 'cfg': {'kind': ['three_circle', 'circular'][n % 2], 'agents': gs, 'lo': 8, 'hi': 8, 'seed': rng.randint(0, 10**6)},
                            'ops': [dict(op='fluctuation')] * 2})
    return scripts
