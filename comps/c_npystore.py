"""Chunked array store."""

NAMES = [['agents', 'agents_old'], ['Agents', 'agents'], ['Run_A', 'RUN'], ['run1', 'run'], ['p', 'np'], ['a_b', 'a'], ['x.y', 'xzy'], ['sim_2', 'sim'],
         ['data_0', 'data'], ['10', '1'], ['nyp', 'agents'], ['basename', 'base'], ['a', 'a_1'], ['.npy', 'npy'], ['{}', 'run'], ['a{index}', 'a0'], ['{name}', 'name']]
DIRS = ['', '', '', '', ' 1 2', '{run}', '{', '%s', '[a-z]', '{index}']


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('npystore', scripts)
    ctx.judge('NpyStoreTrace', traces, scripts=scripts, driver='npystore', shards=4, workers=2)
    if not ctx.replay:
        ctx.require_ops(['open', 'send', 'flag', 'mutate', 'abandon', 'foreign', 'load', 'find', 'cat'])


def foreign(rng, names, b):
    n = names[b]
    return [n + '.npy', n + '2_0.npy', n + '_0.txt', n + '_0.npy.bak', 'z' + n + '_3.npy', n + 's_4.npy', 'sub/other_1.npy',
            n + '_x.npy', n + '_1_x.npy', n + '_.npy', n + '_0_npy', n.upper() + 'Q_0.npy', n + '-0.npy', n + '_1.npz'][rng.randrange(14)]


def generate(ctx):
    rng = ctx.rng
    invs, props = ['PrefixInv', 'NothingLost', 'NoEmptyChunk'], ['AppendOnlyChunks']
    scripts = []
    for tag, consts in [('one', dict(BaseNames='1..1', MaxSent=7 if ctx.thorough else 5, FrameLens='{1,2}')),
                        ('two', dict(BaseNames='1..2', MaxSent=3 if ctx.thorough else 2, FrameLens='{1}'))]:
        edges = ctx.mc('MCNpyStore', consts, invs=invs, props=props, emit=True, view='View', name='mc_' + tag)
        init = [dict(pend=[], awaiting=False, alive=False, chunks=[], sent=[])] * (1 if tag == 'one' else 2)
        paths, total, done = ctx.tour(edges, init=init, maxlen=60)
        ctx.detail['tour_' + tag] = {'edges': total, 'covered': done}
        for i, p in enumerate(paths):
            shape = rng.choice(['table', 'rec', 'ints']) if tag == 'one' else rng.choice(['flat', 'table', 'ints', 'rec'])
            if shape == 'rec':
                p = fixrec(p)
            names = rng.choice(NAMES)
            scripts.append({'id': '%s/%d' % (tag, i), 'ops': widen(rng, p),
                            'cfg': {'n': len(init), 'names': names[:len(init)], 'shape': shape, 'reuse': rng.random() < .5,
                                    'pathlib': rng.random() < .2, 'dir': rng.choice(DIRS)}})
    for n in range(250 if ctx.thorough else 70):
        names = rng.choice(NAMES)
        shape = rng.choice(['flat', 'table', 'ints', 'rec', 'mix'])
        jumble = rng.random() < .5
        ops, sent, alive, recw = [], [0, 0], [True, True], rng.randint(1, 3)
        ops += [dict(op='open', b=1), dict(op='open', b=2)]
        many = rng.random() < .4
        pflush = .95 if many else rng.choice([.1, .3, .6])
        for j in range(rng.choice([30, 60]) if not many else 45):
            b = 0 if many and rng.random() < .8 else rng.randrange(2)
            if not alive[b]:
                continue
            ln = 1 if shape in ('flat', 'mix') else recw if shape == 'rec' else rng.randint(1, 3)
            ops.append(dict(op='send', b=b + 1, frame=[rng.randint(1, 9) if jumble else sent[b] + 1 + i for i in range(ln)]))
            sent[b] += ln
            if rng.random() < .25:
                ops.append(dict(op='mutate', b=b + 1))
            if rng.random() < .02:
                ops.append(dict(op='abandon', b=b + 1, how=rng.choice(['close', 'drop'])))
                alive[b] = False
                continue
            ops.append(dict(op='flag', b=b + 1, dump=rng.random() < pflush, kind=rng.choice(['', '', 'int', 'np'])))
            if rng.random() < .2:
                ops.append(dict(op='mutate', b=b + 1))
            if rng.random() < .15:
                f = foreign(rng, names, rng.randrange(2))
                import re
                if not any(re.fullmatch(re.escape(x) + r'_\d+\.npy', f.split('/')[-1]) for x in names):
                    ops.append(dict(op='foreign', name=f))
            if rng.random() < .1:
                ops.append(dict(op=rng.choice(['load', 'cat', 'find']), b=rng.choice([1, 2])))
        ops += [dict(op=o, b=b) for b in (1, 2) for o in ('load', 'cat', 'find')]
        scripts.append({'id': 'rnd/%d' % n, 'ops': ops,
                        'cfg': {'n': 2, 'names': names, 'shape': shape, 'reuse': rng.random() < .6, 'pathlib': rng.random() < .3, 'dir': rng.choice(DIRS)}})
    # more than a hundred chunks, read back at the end
    for n in range(2):
        ops = [dict(op='open', b=1)]
        for j in range(130):
            ops += [dict(op='send', b=1, frame=[j + 1], still=True), dict(op='flag', b=1, dump=j > 5, still=j % 25 > 0)]
        ops += [dict(op=o, b=1) for o in ('load', 'cat', 'find')]
        scripts.append({'id': 'long/%d' % n, 'ops': ops, 'cfg': {'n': 1, 'names': rng.choice(NAMES)[:1], 'shape': ['flat', 'rec'][n], 'reuse': True}})
    return scripts


def fixrec(p):
    """Structured frames of one store have one width: widen every frame to two rows, keeping the flags."""
    res, cnt = [], {}
    for o in p:
        if o['op'] == 'open':
            cnt[o['b']] = 0
        if o['op'] == 'send':
            c = cnt.get(o['b'], 0)
            o = dict(o, frame=[c + 1, c + 2])
            cnt[o['b']] = c + 2
        res.append(o)
    return res


def widen(rng, p):
    res = []
    for o in p:
        if o['op'] == 'abandon':
            o = dict(o, how=rng.choice(['close', 'drop']))
        res.append(o)
        if o['op'] == 'load':
            res += [dict(op='cat', b=o['b']), dict(op='find', b=o['b'])]
    return res
