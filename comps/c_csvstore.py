"""Table store: header once, one line per record, append only."""

TEXT = ['plain', 'a,b', 'say "hi"', 'two words', '', ' lead', "it's", 'x;y', 'tab\there', '#c', '2019-01-01 00:00:00+00:00', '-', '1e5', 'e\u00e9']


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('csvstore', scripts, env={'PYTHONUTF8': '1'})
    ctx.judge('CsvStoreTrace', traces, scripts=scripts, driver='csvstore', shards=4, workers=2)
    if not ctx.replay:
        ctx.require_ops(['open', 'send', 'flag', 'mutate', 'abandon', 'pre'])


def generate(ctx):
    rng = ctx.rng
    scripts = []
    for tag, c in [('w1', dict(NF=1, NW=1, MaxSend=6)), ('w2', dict(NF=2 if ctx.thorough else 1, NW=2, MaxSend=2)),
                   ('f2', dict(NF=2, NW=2, MaxSend=1))]:
        edges = ctx.mc('MCCsvStore', c, invs=['NothingLost', 'HeaderOnce'], props=['AppendOnly'], emit=True, view='View', name='mc_' + tag)
        now = dict(alive=False, file=1, pend=[], started=False, awaiting=False, sent=[])
        paths, total, done = ctx.tour(edges, init=dict(files=[[]] * c['NF'], w=[now] * c['NW']), maxlen=40)
        ctx.detail['tour_' + tag] = {'edges': total, 'covered': done}
        for i, p in enumerate(paths):
            scripts.append({'id': '%s/%d' % (tag, i), 'ops': p,
                            'cfg': {'nf': c['NF'], 'nw': c['NW'], 'names': ['data', 'metadata'][:c['NF']], 'reuse': rng.random() < .5}})
    for n in range(250 if ctx.thorough else 60):
        ncol = rng.randint(1, 5)
        ops, alive, cnt, keys, prev = [], [False] * 3, 0, {}, {}
        types = {}
        for j in range(rng.choice([25, 60])):
            w = rng.randrange(3)
            if not alive[w]:
                if rng.random() < .3:
                    f = rng.choice([1, 2])
                    if rng.random() < .3:
                        ops.append(dict(op='pre', f=f, lines=[['old', str(j)], ['1', rng.choice(TEXT) + 'k']]))
                    ops.append(dict(op='open', w=w + 1, f=f))
                    alive[w] = True
                    nc = rng.randint(1, 6)
                    prev.pop(w, None)
                    keys[w] = ['key%d_%d' % (j, i) for i in range(nc)]
                    if nc > 1 and rng.random() < .3:
                        keys[w][0] = 'a,b "c"'
                    types[w] = [rng.choice(['int', 'float', 'str', 'npfloat', 'npint']) for _ in range(nc)]
                continue
            if rng.random() < .06:
                ops.append(dict(op='abandon', w=w + 1, how=rng.choice(['close', 'drop'])))
                alive[w] = False
                continue
            if not (prev.get(w) and rng.random() < .15):     # the same record once more
                cnt += 1
            same = prev.get(w) == cnt and prev[w, 'vals']
            vals = same or [{'int': str(cnt), 'npint': str(-cnt), 'float': repr(cnt / 4), 'npfloat': repr(cnt * 2.5),
                     'str': rng.choice(TEXT) + 'q%d' % cnt}[t] for t in types[w]]
            prev[w], prev[w, 'vals'] = cnt, vals
            ops.append(dict(op='send', w=w + 1, keys=keys[w], vals=vals, types=types[w]))
            if rng.random() < .3:
                ops.append(dict(op='mutate', w=w + 1))
            ops.append(dict(op='flag', w=w + 1, dump=rng.random() < .4, kind=rng.choice(['', '', 'int', 'np'])))
        scripts.append({'id': 'rnd/%d' % n, 'ops': ops, 'cfg': {'nf': 2, 'nw': 3, 'names': rng.choice([['data', 'metadata'], ['a', 'a_b'], ['run.1', 'run']]),
                                                               'reuse': rng.random() < .5}})
    # much text between two flushes
    ops = [dict(op='open', w=1, f=1)]
    for j in range(80):
        ops += [dict(op='send', w=1, keys=['note', 'n'], vals=['%d ' % j * 700, str(j)], types=['str', 'int']), dict(op='flag', w=1, dump=j in (50, 60, 79))]
    scripts.append({'id': 'long/0', 'ops': ops, 'cfg': {'nf': 1, 'nw': 1, 'names': ['data'], 'reuse': False}})
    return scripts
