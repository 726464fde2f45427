"""Simulation loop."""
import itertools


def run(ctx):
    if not ctx.replay:
        for size, it in ((3, 3), (1, 4)):
            ctx.mc('MCSimLoop', dict(Size=size, MaxIt=it), invs=['PosInv'], props=['CountStep', 'GoOn', 'Ends'],
                   name='mc_%d' % size, constraint='Bound')
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('simloop', scripts)
    ctx.judge('SimLoopTrace', traces, scripts=scripts, driver='simloop', shards=4, workers=2)
    if not ctx.replay:
        ctx.require_ops(['begin', 'check', 'eval', 'raise', 'end', 'rewire', 'meta'])


def post(par):
    kids = {}
    for i, p in enumerate(par):
        kids.setdefault(p, []).append(i + 1)

    def go(n):
        return [x for c in kids.get(n, []) for x in go(c)] + [n]
    return go(kids[0][0])




def generate(ctx):
    rng = ctx.rng
    scripts = []
    trees = [[0], [0, 1], [0, 1, 1], [0, 1, 2], [0, 1, 1, 2, 2, 3], [0, 1, 1, 1, 4, 4, 6]]
    errs = ['ValueError', 'CrowdDynamicsException', 'KeyError']
    n = 0
    # every sequence of two commands over a small alphabet, on each tree
    for t in trees:
        alphabet = [dict(mode='update'), dict(mode='update', raises=1)]
        alphabet += [dict(mode='run', k=kk, kind=kd) for kk in (0, 1, 3) for kd in ('count', 'iter')]
        alphabet += [dict(mode='run', k=4, kind='count', raises=r) for r in (0, 2)]
        alphabet += [dict(mode='forever', raises=r) for r in (0, 2)]
        for pair in itertools.product(alphabet, repeat=2):
            ops = []
            for c in pair:
                c = dict(c, op='cmd', want='ok')
                r = c.pop('raises', None)
                if r is not None:
                    e = rng.choice(errs)
                    at = rng.randint(1, len(t))
                    c['raises'] = [[at, 0 if c['mode'] == 'update' else r, e]]
                    c['want'] = 'raise:' + e
                ops.append(c)
            scripts.append({'id': 'pair/%d' % n, 'ops': ops, 'cfg': {'par': t, 'order': post(t), 'logic': rng.randint(1, len(t))}})
            n += 1
    for j in range(200 if ctx.thorough else 40):
        size = rng.randint(2, 9)
        par = [0] + [rng.randint(1, i) for i in range(1, size)]
        cfg = {'par': list(par), 'order': post(par), 'logic': rng.randint(1, size),
               'name': rng.choice(['', 'Sim', 'a b']), 'labels': rng.choice(['', 'same', 'class'])}
        ops = []
        for _ in range(rng.randint(2, 6)):
            if rng.random() < .3 and size > 2:
                # a leaf moves below the root: it becomes the last child there
                leaves = [i + 1 for i in range(1, size) if (i + 1) not in par and par[i] != 1]
                if leaves:
                    lf = rng.choice(leaves)
                    par[lf - 1] = 1
                    kids = {}
                    # order of children: creation order, moved ones last
                    moved = cfg.setdefault('moved', [])
                    moved.append(lf)
                    seq = [i + 1 for i in range(size) if (i + 1) not in moved] + moved
                    for x in seq:
                        kids.setdefault(par[x - 1], []).append(x)

                    def go(a):
                        return [y for c in kids.get(a, []) for y in go(c)] + [a]
                    ops.append(dict(op='rewire', node=lf, to=1, order=go(1)))
                continue
            mode = rng.choice(['run', 'run', 'update', 'forever'])
            c = dict(op='cmd', mode=mode, want='ok', k=rng.randint(0, 8), kind=rng.choice(['count', 'count', 'iter']), truth=rng.choice(['bool', 'int', 'np', 'text']), swap=rng.choice([0, 0, 1, 2, 4]))
            if mode == 'forever' or rng.random() < .2:
                if mode == 'run':
                    c['kind'] = 'count'
                at = 0 if mode == 'update' else rng.randint(0, 4)
                if not (mode == 'run' and at >= c['k']):
                    e = rng.choice(errs)
                    c['raises'] = [[rng.randint(1, size), at, e]]
                    c['want'] = 'raise:' + e
            ops.append(c)
        scripts.append({'id': 'rnd/%d' % j, 'ops': ops, 'cfg': cfg})
    # many steps
    scripts.append({'id': 'long/0', 'ops': [dict(op='cmd', mode='run', k=700, kind='count', want='ok')], 'cfg': {'par': [0, 1], 'order': [2, 1], 'logic': 1}})
    return scripts
