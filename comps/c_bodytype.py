"""Agent attributes: derivation rules and records."""


def run(ctx):
    scripts = ctx.replay or generate(ctx)
    traces = ctx.drive('bodytype', scripts)
    ctx.judge('BodyTypeTrace', traces, scripts=scripts, driver='bodytype', shards=4, workers=2)
    if not ctx.replay:
        ctx.require_ops(['new', 'set', 'body', 'body/raise:TraitError', 'bad/raise:TraitError', 'record'])


BUILTIN = ['adult', 'male', 'female', 'child', 'eldery']
CUSTOM = {'custom': dict(ratio_rt=5000, ratio_rs=2500, ratio_ts=7500, radius_mean=4000, radius_scale=500, mass_mean=8000, mass_scale=800),
          'wide': dict(ratio_rt=8000, radius_mean=6000, radius_scale=2500, target_velocity_mean=15000, target_velocity_scale=10000)}


def generate(ctx):
    rng = ctx.rng
    scripts = []
    consts = dict(Radii='{0,2500,5000}' if ctx.thorough else '{0,2500}', Masses='{0,6000}', Ratios='{0,4000}', MaxSteps=4 if ctx.thorough else 3)
    edges = ctx.mc('MCBodyType', consts, props=['Proportional', 'Complete', 'CanonPossible', 'GivenKept'], emit=True, view='View')
    names = edges[0]['s']['a'].keys()
    paths, total, done = ctx.tour(edges, init=dict(a={n: 0 for n in names}, body='', n=0), maxlen=6)
    ctx.detail['tour'] = {'edges': total, 'covered': done}
    for i, p in enumerate(paths):
        ops = [] if p[0]['op'] == 'new' else [dict(op='new', kw={})]
        for o in p:
            ops.append(dict(op='body', body='custom') if o['op'] == 'body' else dict(op=o['op'], kw=o['kw']))
            if o['op'] == 'new':
                ops[-1]['poke'] = True
        ops.append(dict(op='record', into=rng.choice(['fresh', 'same', 'body', 'set'])))
        scripts.append({'id': 'mc/%d' % i, 'cfg': {'kind': rng.choice(['circular', 'three_circle']), 'types': CUSTOM}, 'ops': ops})
    for n in range(600 if ctx.thorough else 150):
        scripts.append(dict(id='rnd/%d' % n, **rand(rng)))
    return scripts


def rand(rng):
    kind = rng.choice(['circular', 'three_circle'])
    types = CUSTOM if rng.random() < .4 else {}
    bodies = list(types) or BUILTIN
    lo = dict(radius=(500, 9000), r_t=(10, 5000), r_s=(10, 5000), r_ts=(10, 5000), mass=(100, 12000), inertia_rot=(1, 100000),
              target_velocity=(1, 50000), ratio_rt=(0, 10000), ratio_rs=(0, 10000), ratio_ts=(0, 10000),
              target_angular_velocity=(0, 50000), tau_adj=(1, 9999), k_soc=(0, 30000), tau_0=(1, 99999), mu=(0, 99999), kappa=(0, 99999),
              damping=(0, 9999), std_rand_force=(0, 9999))
    plain = dict(active=(0, 1), target_reached=(0, 1), target=(-1, 9), is_leader=(0, 1), is_follower=(0, 1), index_leader=(-1, 9), familiar_exit=(-1, 9))
    rot = dict(orientation=(-31000, 31000), angular_velocity=(-9999, 9999), target_orientation=(-31000, 31000), torque=(-99999, 99999), torque_prev=(-9999, 9999),
               tau_rot=(1, 9999), std_rand_torque=(0, 9999))
    vec = dict(position=(-99999, 99999), velocity=(-9999, 9999), force=(-999999, 999999), force_prev=(-99999, 99999))
    allow = dict(lo, **plain)
    if kind == 'three_circle':
        allow.update(rot)

    def pick(names, allow=allow):
        r = {}
        for n in names:
            if n in vec:
                r[n] = [rng.randint(*vec[n]), rng.randint(*vec[n])]
            elif n == 'target_direction':
                r[n] = rng.choice([[10000, 0], [0, -10000], [6000, 8000], [0, 0], [-2800, 9600]])
            else:
                r[n] = rng.randint(*allow[n])
        return r
    everything = list(allow) + list(vec) + ['target_direction']
    ops = []
    for a in range(rng.choice([1, 1, 2, 3])):
        new = dict(op='new', kw=pick(rng.sample(everything, rng.choice([0, 2, 6, len(everything)]))), poke=rng.random() < .6)
        body = rng.random() < .4
        if body:
            new['body'] = rng.choice(bodies)
        ops.append(new)
        drawn = False
        for _ in range(rng.randint(0, 6)):
            r = rng.random()
            if r < .45:
                n = rng.choice(everything + ['radius', 'mass', 'ratio_rt', 'ratio_rs', 'ratio_ts'] * 2)
                kw = pick([n])
                if n in ('radius', 'mass', 'ratio_rt', 'ratio_rs', 'ratio_ts') and rng.random() < .2:
                    kw = {n: 0}
                ops.append(dict(op='set', kw=kw))
            elif r < .55:
                n = rng.choice(['radius', 'mass', 'target_velocity'])
                m = rng.randint(1000, 9000)
                ops += [dict(op='set', kw={n + '_mean': m}), dict(op='set', kw={n + '_scale': rng.randint(1, m - 1)})]
            elif r < .7:
                ops.append(dict(op='body', body=rng.choice(bodies)))
            elif r < .85:
                ops.append(dict(op='bad', kw=rng.choice([{'radius': -1.0}, {'ratio_rt': 1.5}, {'ratio_ts': -0.1}, {'mass': -3.0}, {'radius': 'x'},
                                                         {'target': -2}, {'position': [1.0, 2.0, 3.0]}, {'velocity': [1.0]},
                                                         {'target_direction': [0.5, 0.0]}, {'target_direction': [1.0, 1.0]}, {'active': 3}, {'r_s': -0.5},
                                                         {'familiar_exit': -5}, {'tau_adj': -0.1}, {'target_direction': [0.1, 0.0]}, {'target_direction': [0.0, -0.9]},
                                                         {'target_direction': [0.7, 0.7]}, {'target_direction': [2.0, 0.0]}, {'target_direction': [0.01, 0.01]}] +
                                                        ([{'orientation': 3.2}, {'orientation': -3.5}, {'orientation': 6.0}, {'tau_rot': -1.0}] if kind == 'three_circle' else []))))
            else:
                ops.append(dict(op='record', into=rng.choice(['fresh', 'same', 'body', 'set'])))
        ops.append(dict(op='record', into=rng.choice(['fresh', 'same', 'body', 'set'])))
    return {'cfg': {'kind': kind, 'types': types}, 'ops': ops}
