"""Recording of a simulation."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('recorder', scripts)
    ctx.judge('RecorderTrace', traces, scripts=scripts, driver='recorder', shards=4, workers=2)
    if not ctx.replay:
        ctx.require_ops(['open', 'step', 'drop'])


def generate(ctx):
    rng = ctx.rng
    scripts = []

    def cfg():
        return dict(name=rng.choice([None, 'Room', 'a b']), kind=rng.choice(['Circular', 'ThreeCircle']), n=rng.choice([1, 2, 5, 5, 0, 40]), extra=rng.choice([[], [], ['none'], ['text', 'none'], ['truth', 'nan']]), walls=rng.choice([0, 1, 3]), targets=rng.choice([0, 1, 2]),
                    spawns=rng.choice([0, 1, 2]), seed=rng.randint(0, 9999), over=rng.random() < .5, entry=rng.random() < .3, bases=rng.choice([['.'], ['abs'], ['sub/dir', '.'], ['x', 'abs', '.']]),
                    subs=rng.choice([['run'], [''], ['a/b', 'c'], ['', 'z']]), meta=rng.choice([[], [['seed', 3]], [['note', 'a, "b"'], ['k', 1.5]]]))
    edges = ctx.mc('MCRecorder', dict(Steps=4 if not ctx.thorough else 5, R=2), invs=['TypeOK', 'Complete'], props=['Grow'], emit=True, view='View')
    paths, total, done = ctx.tour(edges, maxlen=30, act=lambda e: e)
    ctx.detail['tour'] = {'edges': total, 'covered': done}

    def value(a):
        if a['op'] == 'step':
            sv = a['saves']
            sv = [sv[i] for i in sorted(sv, key=int)] if isinstance(sv, dict) else list(sv)
            return dict(op='step', saves=sv, val=rng.randint(-5, 99))
        return a
    for i, p in enumerate(paths):
        scripts.append({'id': 'mc/%d' % i, 'cfg': cfg(), 'ops': [value(e['a']) for e in p] + ([dict(op='drop')] if rng.random() < .5 else [])})
    for n in range(150 if ctx.thorough else 50):
        ops = []
        r = 0
        every = [rng.choice([1, 2, 3, 5]) for _ in range(4)]
        steps = rng.choice([8, 20, 40])
        mode = rng.choice(['every', 'random', 'never'])
        for t in range(steps):
            x = rng.random()
            if r < 3 and (x < .08 or t == 0):
                ops.append(dict(op='open', pre=rng.random() < .4, notes=rng.random() < .5))
                r += 1
            elif x < .12:
                ops.append(dict(op='chdir', to=rng.choice(['away', '..', '.']) if t % 2 else 'far/off'))
            elif x < .18:
                ops.append(dict(op='swap'))
            ops.append(dict(op='step', val=rng.randint(-5, 99), saves=[mode == 'every' and (t + 1) % every[i] == 0 or mode == 'random' and rng.random() < .3 for i in range(r)]))
        ops = [o for o in ops if not (o['op'] == 'chdir' and o['to'] == '..')]
        if rng.random() < .7:
            ops.append(dict(op='drop'))
        scripts.append({'id': 'rnd/%d' % n, 'cfg': cfg(), 'ops': ops})
    return scripts
