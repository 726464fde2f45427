import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())

U = 16384.0
PI = np.pi


def setup():
    from crowddynamics.simulation import agents, logic
    from crowddynamics.simulation.multiagent import MultiAgentSimulation
    from crowddynamics.simulation.field import Field
    from crowddynamics.core import integrator
    from shapely.geometry import Polygon
    return agents, logic, MultiAgentSimulation, Field, integrator, Polygon


KNOWN = ('position', 'velocity', 'force', 'force_prev', 'orientation', 'angular_velocity', 'torque', 'torque_prev', 'target_orientation', 'position_ls', 'position_rs')


def fill(r, g, i):
    r['position'], r['velocity'], r['force'], r['force_prev'] = (np.array(g[n]) / U for n in ('x', 'v', 'f', 'fp'))
    r['target_velocity'], r['target_direction'] = g['v0'] / 4.0, np.array(g['e0']) / 16.0
    r['mass'], r['tau_adj'], r['std_rand_force'] = 2.0 ** g['m2'], 2.0 ** -g['ta'], g['sf'] / 4.0
    r['radius'], r['r_t'], r['target'], r['active'], r['k_soc'], r['tau_0'] = .25, .125, i, bool(g.get('active', True)), 1.5, 3.0
    if g['three']:
        r['orientation'], r['angular_velocity'], r['torque'], r['torque_prev'], r['target_orientation'] = (
            g[n] * PI / U for n in ('phi', 'w', 't', 'tp', 'phi0'))
        r['inertia_rot'], r['tau_rot'], r['target_angular_velocity'], r['std_rand_torque'] = 2.0 ** g['i2'], 2.0 ** -g['tr'], g['w0'] * PI / 4, g['st'] / 4.0
        r['r_s'], r['r_ts'] = .125, g['ts'] / 1024.0
        r['position_ls'], r['position_rs'] = np.array(g['ls']) / U, np.array(g['rs']) / U


def read(r, g):
    h = dict(g)
    for n, f in (('x', 'position'), ('v', 'velocity'), ('f', 'force'), ('fp', 'force_prev')):
        h[n] = [k.q(c, U) for c in r[f]]
    if g['three']:
        for n, f in (('phi', 'orientation'), ('w', 'angular_velocity'), ('t', 'torque'), ('tp', 'torque_prev'), ('phi0', 'target_orientation')):
            h[n] = k.q(r[f] / PI, U)
        h['ls'], h['rs'] = [[k.q(c, U) for c in r[f]] for f in ('position_ls', 'position_rs')]
    return h


def rest(a, b):
    return bool(all(np.array_equal(a[n], b[n]) for n in a.dtype.names if n not in KNOWN))


def run(env, s, ev):
    ag, logic, Simulation, Field, integ, Polygon = env
    cfg = s['cfg']
    three = cfg['kind'] == 'three_circle'
    typ = ag.ThreeCircle if three else ag.Circular
    np.random.seed(cfg.get('seed', 0))
    simu = Simulation(name='motion')
    simu.field = Field(domain=Polygon([(-500, -500), (500, -500), (500, 500), (-500, 500)]))
    simu.agents = ag.Agents(agent_type=typ)
    dtype = typ.dtype()
    if cfg.get('fresh'):        # an equal dtype that is another object, as read from a file
        dtype = np.dtype([(n, dtype.fields[n][0].base, dtype.fields[n][0].shape) if dtype.fields[n][0].shape else (n, dtype.fields[n][0]) for n in dtype.names])
    gs = cfg['agents']
    arr = np.zeros(len(gs), dtype=dtype)
    for i, g in enumerate(gs):
        fill(arr[i], g, i)
    simu.agents.array = arr
    lo, hi = cfg['lo'], cfg['hi']
    N = {n: getattr(logic, c)(simu) for n, c in (('reset', 'Reset'), ('adjusting', 'Adjusting'), ('orientation', 'Orientation'),
                                                 ('fluctuation', 'Fluctuation'), ('integrator', 'Integrator'))}
    tree = {n: getattr(logic, c)(simu) for n, c in (('reset', 'Reset'), ('adj', 'Adjusting'), ('ori', 'Orientation'), ('flu', 'Fluctuation'),
                                                    ('int', 'Integrator'), ('aa', 'AgentAgentInteractions'), ('ao', 'AgentObstacleInteractions'))}
    tree['reset'] << (tree['int'] << (tree['flu'], tree['adj'] << tree['ori'], tree['aa'], tree['ao']))
    simu.logic = tree['reset'] if cfg.get('root', True) else tree['adj']
    first = True
    for o in s['ops']:
        op = o['op']
        lo, hi = o.get('d', lo), o.get('d', hi)
        for node in (N['integrator'], tree['int']):
            node.dt_min, node.dt_max = lo / 8192.0, hi / 8192.0
        was = simu.agents.array.copy()
        pre = [read(r, g) for r, g in zip(was, gs)]
        t0, it0 = simu.data['time_tot'], simu.data['iterations']
        fn = {'dt': lambda: integ.adaptive_timestep(arr, lo / 8192.0, hi / 8192.0),
              'verlet': lambda: integ.velocity_verlet_integrator(arr, lo / 8192.0, hi / 8192.0),
              'euler': lambda: integ.euler_integrator(arr, lo / 8192.0, hi / 8192.0),
              'begin': lambda: integ.velocity_verlet_integrator_init(arr, lo / 8192.0, hi / 8192.0),
              'cycle': simu.update}.get(op) or N[op].update
        out, dt = k.attempt(fn)
        if op in ('integrator', 'cycle'):
            dt = simu.data['dt']
        arr = simu.agents.array
        e = {'op': op, 'out': out, 'lo': lo, 'hi': hi, 'g': pre, 'h': [read(r, g) for r, g in zip(arr, gs)], 'rest': rest(arr, was) and len(arr) == len(was),
             'dq': k.q(dt, 8192) if dt is not None else 0, 'exact': dt is None or float(dt) * 8192 == round(float(dt) * 8192),
             'clock': [k.q(t0, 8192), k.q(simu.data['time_tot'], 8192)],
             'dts': dt is None or op not in ('integrator', 'cycle') or abs(simu.data['time_tot'] - t0 - dt) < 1e-9 and simu.data['iterations'] - it0 == (op == 'cycle')}
        ev.append(e)
        if o.get('stop') or out != 'ok':
            break


k.main(setup, run)
