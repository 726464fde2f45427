"""Worker process: stop protocol."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('procstop', scripts, timeout=800)
    ctx.judge('ProcStopTrace', traces, scripts=scripts, driver='procstop', shards=4, workers=2)
    if not ctx.replay:
        ctx.require_ops(['stop', 'eval', 'raise', 'end', 'drained'])


def generate(ctx):
    rng = ctx.rng
    scripts = []
    for size, maxit in ((1, 3), (2, 3), (3, 2)):
        consts = dict(Size=size, MaxIt=maxit + (1 if ctx.thorough else 0))
        ctx.mc('MCProcStop', consts, invs=['EndOnceLast', 'WholeSteps'], props=['NoNewStep', 'StepsAfterStop', 'StopEnds'],
               view='View', constraint='Bound', name='live_%d' % size)
        # every point of the loop at which a stop request (one, or two in a row) or a library error can arrive
        n = 0
        for it in range(consts['MaxIt'] + 1):
            for pos in range(size):
                done = [dict(op='eval', n=i % size + 1) for i in range(it * size + pos)]
                for tail in ([dict(op='stop')], [dict(op='stop'), dict(op='stop')], [dict(op='raise', n=pos + 1)]):
                    if tail[0]['op'] == 'stop' and pos:
                        ops = done + tail
                    else:
                        ops = done + tail
                    scripts.append({'id': 's%d/%d' % (size, n), 'ops': ops, 'cfg': {'mode': 'inproc', 'size': size}})
                    n += 1
                    # stop requested in the middle of a step, library error later in the same step
                    if tail[0]['op'] == 'stop' and 0 < pos < size:
                        scripts.append({'id': 's%d/%d' % (size, n), 'ops': ops + [dict(op='raise', n=pos + 1)],
                                        'cfg': {'mode': 'inproc', 'size': size}})
                        n += 1
    reals = [dict(stop_after=0, early=True, failing=0), dict(stop_after=5, early=False, failing=0),
             dict(stop_after=0, early=False, failing=7)]
    if ctx.thorough:
        reals += [dict(stop_after=rng.randint(0, 200), early=False, failing=0) for _ in range(40)]
        reals += [dict(stop_after=0, early=False, failing=rng.randint(1, 50)) for _ in range(20)]
    for i, r in enumerate(reals):
        scripts.append({'id': 'real/%d' % i, 'ops': [], 'cfg': dict(r, mode='real', size=rng.randint(1, 4))})
    for x in scripts:
        x['cfg']['had'] = rng.random() < .4
    return scripts
