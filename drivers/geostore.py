"""Geometries are written in a text form: none | P(1 2) | L(0 0,1 2) | Y(shell|hole|..) | MP/ML/MY/GC(a;b) | [a;b] | {n=a;m=b}."""
import json
import os
import tempfile
import drvkit as k


def setup():
    from shapely import geometry as g
    from crowddynamics import io
    return io, g


def split(s, sep):
    res, depth, cur = [], 0, ''
    for c in s:
        if c in '([{':
            depth += 1
        if c in ')]}':
            depth -= 1
        if c == sep and depth == 0:
            res.append(cur)
            cur = ''
        else:
            cur += c
    return res + [cur] if cur or res else []


def ring(s):
    return [tuple(float(v) for v in p.split()) for p in s.split(',')]


def build(s, g):
    if s == 'none':
        return None
    if s[0] == '[':
        return [build(x, g) for x in split(s[1:-1], ';')]
    if s[0] == '<':
        return tuple(build(x, g) for x in split(s[1:-1], ';'))
    if s[0] == '{':
        return {x.split('=', 1)[0]: build(x.split('=', 1)[1], g) for x in split(s[1:-1], ';')}
    kind, arg = s.split('(', 1)
    arg = arg[:-1]
    if kind == 'P':
        return g.Point(*ring(arg)[0])
    if kind == 'L':
        return g.LineString(ring(arg))
    if kind == 'R':
        return g.LinearRing(ring(arg))
    if kind == 'Y':
        r = arg.split('|')
        return g.Polygon(ring(r[0]), [ring(h) for h in r[1:]])
    return {'MP': g.MultiPoint, 'ML': g.MultiLineString, 'MY': g.MultiPolygon, 'GC': g.GeometryCollection}[kind]([build(x, g) for x in split(arg, ';')])


def num(v):
    return '%d' % v if v == int(v) else repr(float(v))


def pts(c):
    return ','.join(' '.join(num(v) for v in p) for p in c)


def canon(o):
    """Canonical text of a loaded value."""
    if o is None:
        return 'none'
    t = getattr(o, 'geom_type', None)
    if t == 'Point':
        return 'P(%s)' % pts(o.coords)
    if t == 'LineString':
        return 'L(%s)' % pts(o.coords)
    if t == 'LinearRing':
        return 'R(%s)' % pts(o.coords)
    if t == 'Polygon':
        return 'Y(%s)' % '|'.join([pts(o.exterior.coords)] + [pts(h.coords) for h in o.interiors])
    if t:
        return '%s(%s)' % ({'MultiPoint': 'MP', 'MultiLineString': 'ML', 'MultiPolygon': 'MY'}.get(t, 'GC'), ';'.join(canon(x) for x in o))
    if isinstance(o, dict):
        return '{%s}' % ';'.join('%s=%s' % (n, canon(o[n])) for n in sorted(o))
    if isinstance(o, (list, tuple)):
        return '[%s]' % ';'.join(canon(x) for x in o)
    return '?' + repr(o)[:60]


def canon_json(o):
    """Canonical text of a value of the parsed file: GeoJSON objects, lists and dictionaries of them."""
    if o is None:
        return 'none'
    if isinstance(o, list):
        return '[%s]' % ';'.join(canon_json(x) for x in o)
    if not isinstance(o, dict):
        return '?' + repr(o)[:60]
    t = o.get('type')
    if not isinstance(t, str):
        return '{%s}' % ';'.join('%s=%s' % (n, canon_json(o[n])) for n in sorted(o))
    c = o.get('coordinates')
    if t == 'Point':
        return 'P(%s)' % pts([c])
    if t == 'LineString':
        return 'L(%s)' % pts(c)
    if t == 'LinearRing':
        return 'R(%s)' % pts(c)
    if t == 'Polygon':
        return 'Y(%s)' % '|'.join(pts(r) for r in c)
    if t == 'MultiPoint':
        return 'MP(%s)' % ';'.join('P(%s)' % pts([p]) for p in c)
    if t == 'MultiLineString':
        return 'ML(%s)' % ';'.join('L(%s)' % pts(p) for p in c)
    if t == 'MultiPolygon':
        return 'MY(%s)' % ';'.join('Y(%s)' % '|'.join(pts(r) for r in p) for p in c)
    if t == 'GeometryCollection':
        return 'GC(%s)' % ';'.join(canon_json(x) for x in o['geometries'])
    return '?' + repr(o)[:60]


def run(env, s, ev):
    io, g = env
    with tempfile.TemporaryDirectory(dir=os.environ['MBV_SCRATCH']) as d:
        names = [os.path.join(d, 'geo%d.json' % i) for i in range(s['cfg']['files'])]

        def disk():
            res = []
            for n in names:
                e = {'there': False, 'm': []}
                try:
                    with open(n) as fp:
                        o = json.load(fp)
                    e = {'there': True, 'm': [[key, canon_json(v)] for key, v in o.items()]}
                except FileNotFoundError:
                    pass
                except Exception as x:
                    e = {'there': True, 'm': [['?', 'unreadable ' + type(x).__name__]]}
                res.append(e)
            return res
        for o in s['ops']:
            e = dict(o)
            f = names[o['f'] - 1]
            if o['op'] == 'save':
                m = {key: build(v, g) for key, v in o['m']}
                e['out'], _ = k.attempt(lambda: io.save_geometry_json(f, m))
                e['m'] = [[key, v.replace('<', '[').replace('>', ']')] for key, v in o['m']]
            elif o['op'] == 'load':
                e['out'], r = k.attempt(lambda: io.load_geometry_json(f))
                e['res'] = []
                if e['out'] == 'ok':
                    e['out'], e['res'] = k.attempt(lambda: [[key, canon(v)] for key, v in r.items()])
                    e['res'] = e['res'] or []
            elif o['op'] == 'remove':
                os.remove(f)
            elif o['op'] == 'junk':
                with open(f, 'w') as fp:
                    fp.write('{"domain": {"type": "Poi' + 'x' * 3000)
            e['disk'] = disk()
            ev.append(e)


k.main(setup, run)
