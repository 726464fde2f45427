"""The command line."""
LEVELS = ['CRITICAL', 'FATAL', 'ERROR', 'WARNING', 'WARN', 'INFO', 'DEBUG', 'NOTSET']


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('cli', scripts)
    ctx.judge('CliTrace', traces, scripts=scripts, driver='cli', shards=6, workers=1)
    if not ctx.replay:
        ctx.require_ops(['write', 'remove', 'run', 'run/usage', 'run/failed', 'list', 'import', 'module', 'help', 'chunk', 'concat'])


def trait(rng, name):
    kind = rng.choice(['Int', 'Int', 'Float', 'Bool', 'Unicode', 'Enum', 'Enum'])
    t = dict(name=name, kind=kind, default=rng.randint(2, 6), min=rng.randint(-2, 2), n=0, of=rng.choice(['words', 'types', 'numbers']))
    if kind == 'Enum':
        t['n'] = rng.randint(1, 4)
        t['default'] = rng.randint(1, t['n'])
    elif kind == 'Unicode':
        t.update(of='words', default=rng.randint(1, 4))
    elif kind == 'Bool':
        t['default'] = rng.randint(0, 1)
    return t


def option(rng, t, wrong):
    o = dict(name=t['name'], v=rng.randint(1, 4), junk=False)
    k = t['kind']
    if k == 'Int':
        o['v'] = t['min'] - 1 if wrong else rng.randint(t['min'], 20)
    elif k == 'Float':
        o['v'] = rng.randint(-40, 40)
    elif k == 'Enum':
        o['v'] = t['n'] + 1 if wrong else rng.randint(1, t['n'])
    if wrong and k in ('Float', 'Int') and (k == 'Float' or rng.random() < .5):
        o['junk'] = True
    return o


def generate(ctx):
    rng = ctx.rng
    scripts = []
    edges = ctx.mc('MCCli', dict(Nums='{0, 1, 2}'), invs=['TypeOK', 'OnlySims', 'FailsLast', 'InBounds'], props=['AllOrNothing'], emit=True, view='View')
    runs = [e for e in edges if e['a']['op'] == 'run']
    rng.shuffle(runs)
    ctx.detail['lines'] = len(runs)
    keep = runs[:12000 if ctx.thorough else 1200]
    # many lines for one directory
    by = {}
    for e in keep:
        by.setdefault(repr(e['s']['mods']), []).append(e)
    for i, group in enumerate(by.values()):
        mods = group[0]['s']['mods']
        for j in range(0, len(group), 40):
            ops = [dict(op='write', m=m) for m in mods]
            for e in group[j:j + 40]:
                a = dict(e['a'], loglevel=rng.choice([''] + LEVELS), spell=rng.random() < .3)
                ops.append(dict(a))
            scripts.append({'id': 'mc/%d.%d' % (i, j), 'cfg': {'all': mods, 'via': 'inside'}, 'ops': ops})
    for n in range(300 if ctx.thorough else 60):
        via = {0: 'module', 1: 'main'}.get(n, 'inside')
        mods, seen, ops, rows = {}, [], [], 0

        def module(name):
            cs = []
            for x in range(rng.choice([0, 1, 2, 3])):
                ts = [trait(rng, t) for t in rng.sample(['size', 'Big', 'a_b', 'Xy', 'width'], rng.choice([0, 1, 2, 4]))]
                cs.append(dict(name='S%s%s' % (name.replace('-', 'Z').replace('.', 'Y'), 'abc'[x]), kind=rng.choice(['sim', 'sim', 'sim', 'sub', 'plain', 'base']), traits=ts, fails=rng.random() < .08))
            return dict(name=name, py=rng.random() < .9, classes=cs)
        for _ in range(6 if via != 'inside' else 20):
            r = rng.random()
            sims = [c for m in mods.values() if m['py'] for c in m['classes'] if c['kind'] in ('sim', 'sub')]
            if r < .2 or not sims:
                m = module(rng.choice(['m', 'n', 'o', 'p', '_q', 'r-1', 'Setup', 'test_s']))
                mods[m['name']] = m
                seen.append(m)
                ops.append(dict(op='write', m=m))
            elif r < .24 and len(mods) > 1:
                x = rng.choice(sorted(mods))
                del mods[x]
                ops.append(dict(op='remove', name=x))
            elif r < .7:
                cmds = []
                for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
                    c = rng.choice(sims)
                    opts = [option(rng, rng.choice(c['traits']), rng.random() < .08) for _ in range(rng.choice([0, 1, 2, 3]))] if c['traits'] else []
                    if rng.random() < .03:
                        opts.append(dict(name='nope', v=1, junk=False))
                    other = rng.choice(['Snope', 'size', 'list'] + [c['name'] for m in seen for c in m['classes']])
                    cmds.append(dict(cmd=c['name'], opts=opts) if rng.random() < .95 else dict(cmd=other, opts=[]))
                ops.append(dict(op='run', num=rng.choice([1, 1, 1, 2, 3, 0]), cmds=cmds, loglevel=rng.choice([''] + LEVELS), spell=rng.random() < .5))
            elif r < .76:
                ops.append(dict(op='list'))
            elif r < .82:
                ops.append(dict(op='import', **{'from': rng.choice(['parent', 'root', 'here'])}))
            elif r < .86:
                ops.append(dict(op='module', name=rng.choice([m['name'] for m in mods.values() if m['py']])))
            elif r < .92:
                ops.append(dict(op='help', cmd=rng.choice([''] + [c['name'] for c in sims])))
            elif r < .96 or not rows:
                rows += 1
                ops.append(dict(op='chunk', rows=[[rng.randint(0, 99), rng.randint(0, 99)] for _ in range(rng.choice([1, 2, 5]))]))
            else:
                ops.append(dict(op='concat', where=rng.choice(['rel', 'abs', 'default', 'elsewhere', 'elsewhere'])))
        scripts.append({'id': 'line/%d' % n, 'cfg': {'all': seen, 'via': via}, 'ops': ops})
    # many modules
    for n in range(4 if ctx.thorough else 2):
        mods = [dict(name='%s%d' % (rng.choice(['k', '_k', 'w']), i), py=True, classes=[dict(name='L%d' % i, kind='sim', traits=[trait(rng, 'size')] if rng.random() < .3 else [], fails=False)]) for i in range(rng.choice([23, 41]))]
        ops = [dict(op='write', m=m) for m in mods] + [dict(op='list'), dict(op='import', **{'from': 'parent'}), dict(op='help', cmd='')]
        for _ in range(3):
            ops.append(dict(op='run', num=1, cmds=[dict(cmd=m['classes'][0]['name'], opts=[]) for m in rng.sample(mods, 4)], loglevel='', spell=False))
        ops.append(dict(op='remove', name=rng.choice(mods)['name']))
        ops.append(dict(op='list'))
        scripts.append({'id': 'many/%d' % n, 'cfg': {'all': mods, 'via': 'inside'}, 'ops': ops})
    ops = []
    for n in range(13):
        ops.append(dict(op='chunk', rows=[[n, 7 * n % 5]]))
        ops.append(dict(op='concat', where=rng.choice(['rel', 'abs', 'default', 'elsewhere'])))
    scripts.append({'id': 'concat', 'cfg': {'all': [], 'via': 'inside'}, 'ops': ops})
    return scripts
