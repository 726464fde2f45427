import numpy as np
import drvkit as k


def setup():
    from crowddynamics.core import distance
    return distance


def iv(a, s):
    return [k.q(x, s) for x in np.asarray(a, dtype=float).ravel()]


def run(D, s, ev):
    for o in s['ops']:
        e, op = dict(o), o['op']
        z, at = 2. ** o.get('sc', 0), np.array(o.get('at', [0, 0]), dtype=np.float64)

        def pt(p):
            return (np.array(p, dtype=np.float64) + at) * z

        def body(b):
            return tuple(pt(c['o']) for c in b), tuple(float(c['r']) * z for c in b)

        def frozen(args):
            res = []
            for a in args:
                res.append([x.tolist() if isinstance(x, np.ndarray) else x for x in a] if isinstance(a, tuple) else a.tolist() if isinstance(a, np.ndarray) else a)
            return res

        def call(fn, *args):
            before = frozen(args)
            with np.errstate(all='ignore'):
                r = fn(*args)
            return r, frozen(args) == before
        if op == 'discs':
            def go():
                a, b = o['a'], o['b']
                (h, n), kept = call(D.distance_circles, pt(a['o']), float(a['r']) * z, pt(b['o']), float(b['r']) * z)
                (h2, n2), k2 = call(D.distance_circles, pt(b['o']), float(b['r']) * z, pt(a['o']), float(a['r']) * z)
                return dict(h=k.q(h / z, 100), n=iv(n, 10000), h2=k.q(h2 / z, 100), n2=iv(n2, 10000), kept=kept and k2)
        elif op == 'bodies':
            def go():
                (x0, r0), (x1, r1) = body(o['a']), body(o['b'])
                (h, n, m0, m1), kept = call(D.distance_three_circles, x0, r0, x1, r1)
                return dict(h=k.q(h / z, 100), n=iv(n, 10000), m0=iv(m0 / z, 100), m1=iv(m1 / z, 100), kept=kept)
        elif op == 'wall':
            def go():
                a, w = o['a'], o['w']
                (h, n), kept = call(D.distance_circle_line, pt(a['o']), float(a['r']) * z, pt(w[0]), pt(w[1]))
                (h2, n2), k2 = call(D.distance_circle_line, pt(a['o']), float(a['r']) * z, pt(w[1]), pt(w[0]))
                return dict(h=k.q(h / z, 100), n=iv(n, 10000), h2=k.q(h2 / z, 100), n2=iv(n2, 10000), kept=kept and k2)
        elif op == 'bodywall':
            def go():
                (x, r), w = body(o['a']), o['w']
                (h, n, m), kept = call(D.distance_three_circle_line, x, r, pt(w[0]), pt(w[1]))
                return dict(h=k.q(h / z, 100), n=iv(n, 10000), m=iv(m / z, 100), kept=kept)
        e['out'], r = k.attempt(go)
        e.update(r or {})
        ev.append(e)


k.main(setup, run)
