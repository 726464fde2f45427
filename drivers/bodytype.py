import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())

SETTINGS = ['ratio_rt', 'ratio_rs', 'ratio_ts', 'radius_mean', 'radius_scale', 'mass_mean', 'mass_scale', 'target_velocity_mean',
            'target_velocity_scale']
COARSE = {'mass': 100.0, 'mass_mean': 100.0, 'mass_scale': 100.0, 'mu': 1.0, 'kappa': 1.0, 'damping': 10.0}


def setup():
    from crowddynamics.simulation import agents
    from configobj import ConfigObj
    return agents, ConfigObj


def unit(n):
    return COARSE.get(n.split('.')[0], 10000.0)


def qq(n, v):
    return k.q(v, unit(n))


def flat(name, v):
    v = np.asarray(v)
    if v.ndim == 0:
        return {name: qq(name, v)}
    return {'%s.%d' % (name, i): qq(name, x) for i, x in enumerate(v)}


def run(env, s, ev):
    ag, ConfigObj = env
    cls = {'circular': ag.Circular, 'three_circle': ag.ThreeCircle}[s['cfg']['kind']]
    fields = [f for f in cls.dtype().names if f not in ('position_ls', 'position_rs')]
    custom = None
    if s['cfg'].get('types'):
        custom = ConfigObj()
        for n, d in s['cfg']['types'].items():
            custom[n] = {key: v / unit(key) for key, v in d.items()}

    def value(n, v):
        if isinstance(v, list):
            return tuple(x / unit(n) for x in v)
        if n in ('active', 'target_reached', 'is_leader', 'is_follower'):
            return bool(v)
        if n in ('target', 'index_leader', 'familiar_exit'):
            return int(v)
        return v / unit(n)

    def snap(a):
        r = {}
        for n in fields + SETTINGS:
            r.update(flat(n, getattr(a, n)))
        return r

    def given(kw):
        r = {}
        for n, v in kw.items():
            r.update(flat(n, value(n, v)))
        return r

    def conf(a, body):
        return {key: qq(key, v) for key, v in a.body_types[body].items()} if body else {'radius_mean': 0} and {}
    agent = None
    for o in s['ops']:
        e = {'op': o['op']}
        if o['op'] == 'new':
            if agent is not None and o.get('poke'):
                agent.position[:] = (7.0, 8.0)   # in place: other agents must not see it
                agent.velocity[:] = (3.0, -3.0)
            e['base'] = snap(cls())
            kw = {n: value(n, v) for n, v in o['kw'].items()}
            if custom is not None:
                kw['body_types'] = custom
            if o.get('body'):
                kw['body_type'] = o['body']
            e['out'], agent = k.attempt(lambda: cls(**kw))
            e['kw'], e['body'] = given(o['kw']) or {'none': 0}, o.get('body', '')
            e['conf'] = {'none': 0}
            if agent is None:
                e['a'] = e['base']
                ev.append(e)
                return
            if o.get('body'):
                e['conf'] = conf(agent, o['body'])
        elif o['op'] == 'set':
            n, v = list(o['kw'].items())[0]
            e['kw'] = given(o['kw'])
            e['out'], _ = k.attempt(lambda: setattr(agent, n, value(n, v)))
        elif o['op'] == 'body':
            e['body'] = o['body']
            e['conf'] = conf(agent, o['body'])
            e['out'], _ = k.attempt(lambda: setattr(agent, 'body_type', o['body']))
        elif o['op'] == 'bad':
            n, v = list(o['kw'].items())[0]
            e['out'], _ = k.attempt(lambda: setattr(agent, n, tuple(v) if isinstance(v, list) else v))
        elif o['op'] == 'record':
            e['out'], arr = k.attempt(lambda: np.array(agent))
            e.update(rec={'radius': 0}, back='none', same=False, two='none', zero='none')
            if e['out'] == 'ok' and (getattr(arr, 'shape', None) != (1,) or arr.dtype != cls.dtype()):
                e['out'] = 'badvalue'
            if e['out'] == 'ok':
                e['rec'] = {}
                for n in fields:
                    e['rec'].update(flat(n, arr[n][0]))
                other = cls()
                if o.get('into') == 'same':
                    other = agent
                elif o.get('into') == 'body':
                    other = cls(body_type='adult')
                elif o.get('into') == 'set':
                    other = cls(radius=.5, mass=44.0, r_t=.1, ratio_rs=.5, position=(4, 5))
                saved = arr.copy()
                e['back'], _ = k.attempt(lambda: other.from_array(arr))
                e['same'] = False
                if e['back'] == 'ok':
                    b = np.array(other)
                    e['same'] = bool(b.dtype == saved.dtype and all(np.array_equal(b[n], saved[n], equal_nan=False) for n in saved.dtype.names)
                                     and arr.tobytes() == saved.tobytes())
                e['two'], _ = k.attempt(lambda: cls().from_array(np.concatenate((arr, arr))))
                e['zero'], _ = k.attempt(lambda: cls().from_array(arr[:0]))
        e['a'] = snap(agent)
        ev.append(e)


k.main(setup, run)
