import numpy as np
import drvkit as k


def setup():
    from crowddynamics.core import vector2D as v
    from crowddynamics.core.motion import power_law as p
    return v, p


def iv(a, s=1):
    return [k.q(x, s) for x in np.asarray(a, dtype=float).ravel()]


def run(env, s, ev):
    V, P = env

    def f(x):
        return np.array(x, dtype=np.float64)
    for o in s['ops']:
        e, op = dict(o), o['op']
        z = 2. ** o.get('sc', 0)
        if op == 'vector':
            v = f(o['v']) * z

            def go():
                r = dict(r90=iv(V.rotate90(v) / z), r270=iv(V.rotate270(v) / z), len=k.q(V.length(v) / z, 100), unit=iv(V.normalize(v), 10000))
                phi = float(V.angle(v))
                r.update(phi=k.q(phi / np.pi, 1e6), dir=iv([np.cos(phi), np.sin(phi)], 10000), after=iv(v / z))
                return r
        elif op == 'rows':
            def go():
                a, b = f(o['a']), f(o['b'])
                phi = V.angle(a)
                return dict(dot=iv(V.dot(a, b)), cross=iv(V.cross(a, b)), len=iv(V.length(a), 100), dir=[iv([np.cos(x), np.sin(x)], 10000) for x in phi])
        elif op == 'pair':
            def go():
                return dict(dot=k.q(V.dot(f(o['a']), f(o['b'])), 1), cross=k.q(V.cross(f(o['a']), f(o['b'])), 1))
        elif op == 'truncate':
            def go():
                v = f(o['v']) * z
                V.truncate(v, o['l'] / 4. * z)
                return dict(res=iv(v / z, 500))
        elif op == 'wrap':
            def go():
                r = float(V.wrap_to_pi(o['n'] * np.pi / 8))
                return dict(res=k.q(r / (np.pi / 8), 1000), inside=bool(-np.pi <= r <= np.pi))
        elif op == 'unit':
            def go():
                a = [n * np.pi / 8 for n in o['ns']]
                r = V.unit_vector(f(a)) if o['many'] else np.array([V.unit_vector(float(x)) for x in a])
                return dict(res=[iv(x, 10000) for x in r])
        elif op == 'average':
            def go():
                if o['many']:
                    r = V.weighted_average(f(o['a']), f(o['b']), o['w'] / 16.)
                else:
                    r = [V.weighted_average(f(x), f(y), o['w'] / 16.) for x, y in zip(o['a'], o['b'])]
                return dict(res=[iv(x, 16) for x in r])
        elif op == 'meet':
            def go():
                with np.errstate(all='ignore'):
                    y = 2. ** o.get('vs', 0)
                    t, g = P.time_to_collision_circle_circle(f(o['c']) * z, f(o['v']) * z * y, float(o['r']) * z)
                    g = np.asarray(g, dtype=float)
                return dict(t=-1 if t != t else k.q(t * y, 1000), grad0=bool(g.shape == (2,) and np.all(g == 0)), gv=k.q(float(np.dot(g, f(o['v']) * z * y)), 1000), grad=iv(g * z * y, 1000))
        elif op == 'social':
            def go():
                tau, tau0 = o['p'] / 4., o['q'] / 4.
                return dict(pot=k.q(P.potential(float(o['k']), tau, tau0), 10000), mag=k.q(P.magnitude(tau, tau0), 10000), later=k.q(P.potential(float(o['k']), tau + 0.25, tau0), 10000))
        e['out'], r = k.attempt(go)
        e.update(r or {})
        ev.append(e)


k.main(setup, run)
