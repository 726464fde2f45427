import csv
import io
import re
import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())
WORDS = ['alpha', 'beta', 'x y', '', '7']


def setup():
    import click
    import traitlets
    import traittypes
    from crowddynamics import traits
    return traits, traitlets, traittypes, click


def make(t, tt, kind, default, tag, o):
    """Trait of that kind; default is a list of numbers."""
    d = default
    if kind == 'Int':
        r = t.Int(d[0], **dict(([('min', o['min'])] if o.get('hasmin') else []) + ([('max', o['max'])] if o.get('hasmax') else [])))
    elif kind == 'Float':
        r = t.Float(d[0] / 4.)
    elif kind == 'Complex':
        r = t.Complex(complex(d[0], d[1]))
    elif kind == 'Bool':
        r = t.Bool(bool(d[0]))
    elif kind == 'Unicode':
        r = t.Unicode(WORDS[d[0] - 1])
    elif kind == 'Enum':
        r = t.Enum(WORDS[:o['n']], default_value=WORDS[d[0] - 1])
    elif kind == 'Tuple':
        r = t.Tuple(t.Int(), t.Float(), t.Unicode(), default_value=(d[0], d[1] / 4., WORDS[d[2] - 1]))
    elif kind == 'Array':
        r = tt.Array(default_value=np.zeros(o.get('dims', [2]), dtype=o.get('dt', 'float64')), dtype=o.get('dt', 'float64'))
    elif kind == 'other':
        r = [t.List(), t.Any(), t.Instance(klass=dict), t.Dict()][d[0] % 4]
    else:
        return [None, 3, 'text', int][d[0] % 4]
    r.metadata = dict(r.metadata or {}, **{'from': tag, 'help': 'c%d, "quoted"' % tag, 'symbol': 's_%d' % tag})
    return r


def encode(kind, v):
    if kind == 'Int':
        return [int(v)] if type(v) is int else [-77]
    if kind == 'Float':
        return [k.q(v, 4)] if type(v) is float else [-77]
    if kind == 'Complex':
        return [k.q(v.real, 1), k.q(v.imag, 1)] if type(v) is complex else [-77]
    if kind == 'Bool':
        return [int(v)] if type(v) is bool else [-77]
    if kind in ('Unicode', 'Enum'):
        return [WORDS.index(v) + 1] if v in WORDS else [-77]
    if kind == 'Tuple':
        return encode('Int', v[0]) + encode('Float', v[1]) + encode('Unicode', v[2]) if len(v) == 3 else [-77]


def text(kind, g):
    if kind == 'Int':
        return ['%d' % g[0]]
    if kind == 'Float':
        return [repr(g[0] / 4.)]
    if kind == 'Complex':
        return [repr(complex(g[0], g[1])).strip('()')]
    if kind == 'Bool':
        return []
    if kind in ('Unicode', 'Enum'):
        return [(WORDS + ['gamma'])[g[0] - 1]]
    return text('Int', g[:1]) + text('Float', g[1:2]) + text('Unicode', g[2:])


DEF = {'Int': [1], 'Float': [2], 'Complex': [1, 2], 'Bool': [0], 'Unicode': [1], 'Array': [0], 'Enum': [1], 'other': [1]}


def field(d):
    n = d.names[0]
    return n, (d[n].subdtype[0] if d[n].subdtype else d[n]).name, list(d[n].shape)


def run(env, s, ev):
    T, t, tt, click = env
    classes = []

    def listing(gen):
        return [dict([('name', n), ('from', tr.metadata['from'])]) for n, tr in gen]
    for o in s['ops']:
        e, op = dict(o), o['op']
        if op == 'define':
            if any(b > len(classes) for b in o['bases']):
                continue
            c = len(classes) + 1
            body = {'zz%d' % c: 3}
            for x in o['own']:
                body[x['name']] = make(t, tt, x['kind'], DEF[x['kind']], c, {'n': 2})
                body['m_' + x['name']] = lambda self: None
            bases = tuple(classes[b - 1] for b in o['bases']) or (t.HasTraits,)
            e['out'], cls = k.attempt(lambda: t.MetaHasTraits('C%d' % c, bases, body))
            if cls is not None:
                classes.append(cls)
            ev.append(e)
            for op2 in s['cfg'].get('after', []):
                if cls is not None:
                    observe(T, classes, dict(op2, c=len(classes)), ev, listing)
            continue
        if op in ('traits', 'own', 'struct', 'table'):
            if o['c'] <= len(classes):
                observe(T, classes, o, ev, listing)
            continue
        if op in ('dtype', 'type', 'option'):
            tr = make(t, tt, o['kind'], o['default'], 1, o)
        if op == 'dtype':
            e['out'], r = k.attempt(lambda: T.trait_to_dtype('x', tr))
            e['name'], e['type'], e['shape'] = field(np.dtype([r])) if r is not None else ('', '', [])
        elif op == 'type':
            e['out'], r = k.attempt(lambda: T.trait_to_type(tr))
            e['type'] = getattr(r, '__name__', '')
        elif op == 'option':
            got = []

            def go():
                opt = T.trait_to_option('x', tr)
                c = click.Command('c', params=[opt], callback=lambda **kw: got.append(kw))
                argv = []
                if o['given']:
                    argv = ['--x'] + ([o['junkword']] if o['junk'] else text(o['kind'], o['given']))
                c.main(argv, standalone_mode=False)
            e['out'], _ = k.attempt(go)
            e['res'] = encode(o['kind'], got[0]['x']) if got else []
        elif op == 'shape':
            a = np.zeros(o['shape'])
            e['out'], r = k.attempt(lambda: T.shape_validator(*o['dims'])(None, a))
            e['same'] = r is a
        elif op == 'length':
            z = 2. ** o.get('sc', -2)
            a = np.array(o['v'], dtype=float) * z
            e['out'], r = k.attempt(lambda: T.length_validator(*[x * z for x in o['ls']])(None, a))
            e['same'] = r is a
        ev.append(e)


def observe(T, classes, o, ev, listing):
    e, op = dict(o), o['op']
    cls = classes[o['c'] - 1]
    nn, nc = o.get('noNames', []), o.get('noClasses', [])
    e['noNames'], e['noClasses'] = nn, nc
    fn = (lambda n: n in nn) if nn else None
    fc = (lambda c: c in [classes[i - 1] for i in nc if i <= len(classes)]) if nc else None
    if op == 'traits':
        e['out'], r = k.attempt(lambda: listing(T.class_traits(cls, fn, fc)))
        e['ts'] = r or []
    elif op == 'own':
        e['out'], r = k.attempt(lambda: listing(T.class_own_traits(cls, fn)))
        e['ts'] = r or []
    elif op == 'struct':
        e['out'], r = k.attempt(lambda: T.class_to_struct_dtype(cls, fn, fc))
        e['fields'] = [dict(name=n, type=(r[n].subdtype[0] if r[n].subdtype else r[n]).name, shape=list(r[n].shape)) for n in r.names or ()] if r is not None else []
    elif op == 'table':
        e['out'], r = k.attempt(lambda: T.table_of_traits(cls))
        rows = []
        if r is not None:
            body = [ln for ln in r.split('\n') if ln.strip() and not ln.strip().startswith(('.. csv', ':header'))]
            for row in list(csv.reader(io.StringIO('\n'.join(x.strip() for x in body))))[1:]:
                m = re.match(r'c(\d+), "quoted"$', row[3])
                good = row[1] == ':math:`s_%s`' % (m.group(1) if m else '')
                rows.append([row[0].strip('`'), int(m.group(1)) if m and good else -1, row[2][2:-2] if row[2][:2] == row[2][-2:] == '``' else '?' + row[2]])
        e['rows'] = rows
    ev.append(e)


k.main(setup, run)
