"""Configuration files and helpers."""
HOWS = ['normal', 'error', 'value', 'interrupt', 'exit', 'closed', 'stop']
WORDS = ['alpha', 'beta', 'gamma', 'delta']


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('config', scripts)
    ctx.judge('ConfigTrace', traces, scripts=scripts, driver='config', shards=6, workers=1)
    if not ctx.replay:
        ctx.require_ops(['enter', 'enter/raise:FileNotFoundError', 'leave', 'chdir', 'load', 'load/raise:ValidationError', 'plain', 'signature', 'signature/raise:InvalidType', 'callables', 'callables/raise:ValueError', 'deprecated', 'doc'])


def token(rng):
    t = rng.choice(['int', 'int', 'frac', 'word', 'bool'])
    v = {'int': rng.randint(-5, 9), 'frac': rng.randint(-20, 30), 'word': rng.randint(1, 4), 'bool': rng.randint(0, 1)}[t]
    return dict(t=t, v=v, text={'int': '%d' % v, 'frac': repr(v / 4.), 'word': WORDS[(v - 1) % 4], 'bool': ['False', 'True'][v % 2]}[t])


def fitting(rng, r):
    for _ in range(60):
        x = token(rng)
        n = 4 * x['v'] if x['t'] == 'int' else x['v']
        b = (not r['hasmin'] or n >= 4 * r['min']) and (not r['hasmax'] or n <= 4 * r['max'])
        if {'integer': x['t'] == 'int' and b, 'float': x['t'] in ('int', 'frac') and b, 'boolean': x['t'] == 'bool', 'option': x['t'] == 'word' and x['v'] <= r['n'], 'string': True}[r['kind']]:
            return x
    return dict(t='word', v=1, text='alpha') if r['kind'] == 'option' else dict(t='int', v=1, text='1')


def rule(rng, name):
    r = dict(name=name, kind=rng.choice(['integer', 'float', 'float', 'boolean', 'option', 'string']), hasmin=rng.random() < .5, min=rng.randint(-2, 1), hasmax=rng.random() < .5, max=rng.randint(2, 5), n=rng.randint(1, 4),
             hasdef=rng.random() < .25)
    r['def'] = fitting(rng, r)
    return r


def generate(ctx):
    rng = ctx.rng
    scripts = []
    edges = ctx.mc('MCConfig', dict(Dirs='{"a", "b", "a/c"}', Depth=3 if not ctx.thorough else 4, Big='TRUE' if ctx.thorough else 'FALSE'), invs=['TypeOK'], props=['Back', 'Sectionwise'], emit=True, view='View')
    loads = [e['a'] for e in edges if e['a']['op'] == 'load']
    rng.shuffle(loads)
    ctx.detail['configurations'] = len(loads)
    loads = loads[:20000 if ctx.thorough else 2500]
    for i in range(0, len(loads), 50):
        scripts.append({'id': 'load/%d' % i, 'cfg': {}, 'ops': [dict(a, many=rng.random() < .5) for a in loads[i:i + 50]]})
    # the other edges: for each one the way to its state (directories entered and moved to), then the edge
    for i, e in enumerate(x for x in edges if x['a']['op'] != 'load'):
        ops, cur = [], 'top'
        for d in e['s']['stack'] + [e['s']['cwd']]:
            # now in `cur`; the stack wants d to be the directory at the next entry
            if d != cur:
                ops.append(dict(op='chdir', d=d))
                cur = d
            ops.append(dict(op='enter', d=d, rel=False))
        ops.pop()                                               # the last one only moves
        ops.append(dict(e['a'], rel=rng.random() < .5) if e['a']['op'] == 'enter' else dict(e['a']))
        depth = sum(o['op'] == 'enter' for o in ops) - sum(o['op'] == 'leave' for o in ops)
        ops += [dict(op='leave', how=rng.choice(HOWS)) for _ in range(depth)]
        scripts.append({'id': 'cwd/%d' % i, 'cfg': {'dirs': ['a', 'b', 'a/c']}, 'ops': ops})
    for n in range(300 if ctx.thorough else 80):
        ops, depth = [], 0
        for _ in range(20):
            r = rng.random()
            if r < .2:
                d = rng.choice(['a', 'b', 'a/c', 'top', 'missing'])
                depth += d != 'missing'
                ops.append(dict(op='enter', d=d, rel=rng.random() < .5))
            elif r < .35 and depth:
                depth -= 1
                ops.append(dict(op='leave', how=rng.choice(HOWS)))
            elif r < .42:
                ops.append(dict(op='chdir', d=rng.choice(['a', 'b', 'a/c', 'top'])))
            elif r < .65:
                rules = [rule(rng, x) for x in rng.sample(['p', 'q', 'r', 's', 't'], rng.choice([1, 2, 4]))]
                secs = []
                for x in rng.sample(['one', 'two', 'three'], rng.choice([1, 1, 2, 3])):
                    keys = [dict(name=u['name'], tok=fitting(rng, u) if rng.random() < .93 else token(rng)) for u in rules if rng.random() < (.95 if not u['hasdef'] else .5)]
                    if rng.random() < .2:
                        keys.append(dict(name='extra', tok=token(rng)))
                    rng.shuffle(keys)
                    secs.append(dict(name=x, keys=keys))
                o = dict(op='load' if rng.random() < .85 else 'plain', rules=rules, sections=secs, many=rng.random() < .5)
                if o['op'] == 'load' and not o['many'] and rng.random() < .5:   # sections of the specification that are not in the file
                    for x in rng.sample(secs, rng.randint(1, len(secs))):
                        x.update(absent=True, keys=[])
                ops.append(o)
            elif r < .75:
                args, kw = [], rng.random() < .3
                if rng.random() < .4 and not kw:
                    args.append(dict(name='self', hasdef=False, hasann=False, **{'def': 0}))
                need = rng.random() < .3
                m = rng.choice([0, 1, 2, 4])
                cut = rng.randint(0, m) if need else 0
                for j in range(m):
                    hasdef = (j >= cut) if not kw else rng.random() < .8
                    args.append(dict(name='abcdef'[j], hasdef=hasdef, hasann=rng.random() < .5, **{'def': rng.choice([0, 1, -3, -1000]) if hasdef else 0}))
                for x in args:
                    if x['name'] != 'self' and rng.random() < .15:
                        x['name'] += rng.choice(['_self', '_', 'x' * 40])
                if args and args[0]['name'] == 'a' and rng.random() < .3:
                    args[0]['name'] = 'cls'
                if not kw and rng.random() < .15:
                    args.append(dict(name='rest', star='*', hasdef=False, hasann=rng.random() < .5, **{'def': 0}))
                if rng.random() < .1:
                    args.append(dict(name='more', star='**', hasdef=False, hasann=False, **{'def': 0}))
                ops.append(dict(op='signature', args=args, kwonly=kw and any('star' not in x for x in args)))
            elif r < .85:
                mods = [dict(name=x, functions=rng.sample(['f', 'g', 'h', 'run'], rng.randint(0, 3)), how=rng.choice(['ok'] * 6 + ['nothing', 'nothing', 'ValueError', 'KeyError', 'AttributeError', 'OSError'])) for x in rng.sample(['m1', 'm2', 'm3'], 2)]
                secs = [dict(name=x, module=rng.choice(mods)['name'], functions=rng.sample(['f', 'g', 'h', 'run', 'nope'], rng.randint(0, 4))) for x in rng.sample(['one', 'two', 'f', 'g', 'm1'], rng.choice([0, 1, 2, 3]))]
                ops.append(dict(op='callables', d=rng.choice(['a', 'b', 'top']), modules=mods, sections=secs, how=rng.choice(['abs', 'rel']), take=rng.choice([1, 2, 9, 99])))
            elif r < .92:
                ops.append(dict(op='deprecated', a=rng.randint(-9, 9), b=rng.randint(-9, 9), pos=rng.random() < .5))
            else:
                m = rng.choice([1, 2, 3])
                parts = [dict(sub=rng.random() < .5, i=rng.randint(1, m)) for _ in range(rng.randint(1, 6))]
                ops.append(dict(op='doc', parts=parts, subs=['v%d' % rng.randint(1, 9) for _ in range(m)], calls=[rng.choice(['text', 'text', 'function', 'partial', 'object', 'class']) for _ in range(m)]))
        scripts.append({'id': 'rnd/%d' % n, 'cfg': {'dirs': ['a', 'b', 'a/c']}, 'ops': ops})
    return scripts
