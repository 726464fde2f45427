import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())


def setup():
    from crowddynamics.core import quantities
    return quantities


def same_density(a, b):
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-5, atol=1e-6 * max(1e-300, float(np.abs(a).max()))))


def run(Q, s, ev):
    u = float(s['cfg'].get('unit', 1))
    for o in s['ops']:
        e, op = dict(o), o['op']
        xs, ys = o.get('xs', s['cfg'].get('xs')), o.get('ys', s['cfg'].get('ys'))
        if op in ('v1', 'v2'):
            e['xs'], e['ys'] = xs, ys
            ps = [(x, y) for x in xs for y in ys]
            order = np.random.RandomState(o.get('perm', 0)).permutation(len(ps))
            ps = [ps[i] for i in order]
        else:
            ps = o['ps']
        a = np.array(ps, dtype=float) / u
        was = a.copy()
        c = o.get('c', 1) / u
        if op == 'classical':
            e['out'], r = k.attempt(lambda: Q.density_classical(a, c))
            if r is not None:
                e['shape'], e['d'] = list(r.shape), [[k.q(v, c * c) for v in row] for row in r]
        elif op == 'bounds':
            e['out'], r = k.attempt(lambda: Q.bounding_box(a))
            e['dim'] = a.shape[1]
            e['box'] = [[k.q(v, u) for v in row] for row in r] if r is not None else []
        elif op == 'v1':
            e['out'], r = k.attempt(lambda: Q.density_voronoi_1(a, c))
            if r is not None:
                e['shape'], e['d'] = list(r.shape), [[k.q(v, c * c * 10000) for v in row] for row in r]
        elif op == 'v2':
            e['out'], r = k.attempt(lambda: Q.density_voronoi_2(a, c))
            if r is not None:
                # units: agents per area of the integer coordinates
                e['shape'], e['d'] = list(r.shape), [[k.q(v, 100000 / u ** 2) for v in row] for row in r]
                e['pos'] = [[int(v > 0) for v in row] for row in r]
        elif op == 'sum':
            e['out'], r = k.attempt(lambda: Q.density_voronoi_1(a, c))
            if r is not None:
                e['shape'], e['total'], e['min'] = list(r.shape), k.q(r.sum(), c * c * 10000), k.q(r.min(), 1e6)
                e['out'], r2 = k.attempt(lambda: Q.density_voronoi_2(a, c))
                e['zero2'] = [[int(v == 0) for v in row] for row in r2] if r2 is not None and r2.shape == r.shape else []
                if e['out'] == 'ok' and not e['zero2']:
                    e['out'] = 'shapes differ'
                if e['out'] == 'ok':
                    # the same crowd measured in another unit, moved by whole cells, and in another order
                    f = 2.0 ** o.get('exp', -12)
                    e['units'] = [same_density(h(a * f, c * f) * f * f, h(a, c)) for h in (Q.density_classical, Q.density_voronoi_1, Q.density_voronoi_2)]
                    e['moved'] = [same_density(h(a + np.array([3 * c, -5 * c]), c), h(a, c)) for h in (Q.density_classical, Q.density_voronoi_1)]
                    b = a[np.random.RandomState(len(ps)).permutation(len(a))]
                    e['order'] = [same_density(h(b, c), h(a, c)) for h in (Q.density_classical, Q.density_voronoi_1, Q.density_voronoi_2)]
        e['same'] = bool(np.array_equal(a, was))
        ev.append(e)


k.main(setup, run)
