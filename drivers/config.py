import functools
import os
import shutil
import sys
import tempfile
import warnings
import drvkit as k
sys.dont_write_bytecode = True


def setup():
    from crowddynamics import config, exceptions, utils
    return config, exceptions, utils


def value(v):
    if type(v) is bool:
        return dict(t='bool', v=int(v), text='')
    if type(v) is int:
        return dict(t='int', v=v, text='')
    if type(v) is float:
        return dict(t='float', v=k.q(v, 4), text='')
    return dict(t='str', v=0, text=v if isinstance(v, str) else '?' + repr(v))


def rule(r, words):
    args = []
    if r['kind'] in ('integer', 'float'):
        args += (['min=%d' % r['min']] if r['hasmin'] else []) + (['max=%d' % r['max']] if r['hasmax'] else [])
    if r['kind'] == 'option':
        args += words[:r['n']]
    if r['hasdef']:
        args.append('default=' + r['def']['text'])
    return '%s = %s(%s)' % (r['name'], r['kind'], ', '.join(args))


def run(env, s, ev):
    home, top = os.getcwd(), os.path.realpath(tempfile.mkdtemp(prefix='verif_cfg_'))
    try:
        work(env, s, ev, top)
    finally:
        os.chdir(home)
        shutil.rmtree(top, ignore_errors=True)


def work(env, s, ev, top):
    config, exceptions, utils = env
    stack = []
    for n in s['cfg'].get('dirs', []):
        os.makedirs(os.path.join(top, n), exist_ok=True)
    os.chdir(top)

    def cwd():
        return os.path.relpath(os.getcwd(), top).replace('.', 'top')

    def path(d):
        return top if d == 'top' else os.path.join(top, d)
    words = ['alpha', 'beta', 'gamma', 'delta']
    for o in s['ops']:
        e, op = dict(o), o['op']
        if op == 'enter':
            cm = utils.remember_cwd(path(o['d']) if not o.get('rel') else os.path.relpath(path(o['d'])))
            e['out'], _ = k.attempt(cm.__enter__)
            if e['out'] == 'ok':
                stack.append(cm)
            e['cwd'] = cwd()
        elif op == 'leave':
            cm = stack.pop()
            err = {'error': KeyError('x'), 'value': ValueError('y'), 'interrupt': KeyboardInterrupt(), 'exit': SystemExit(3), 'closed': GeneratorExit(), 'stop': StopIteration(4)}.get(o['how'])

            def go():
                try:
                    return bool(cm.__exit__(type(err) if err else None, err, None))
                except BaseException as x:
                    if x is err:
                        return False
                    raise
            e['out'], sw = k.attempt(go)
            e['swallowed'] = bool(sw)
            e['cwd'] = cwd()
        elif op == 'chdir':
            os.chdir(path(o['d']))
        elif op in ('load', 'plain'):
            inf, spec = os.path.join(top, 'in.cfg'), os.path.join(top, 'spec.cfg')
            with open(inf, 'w') as fp:
                for x in o['sections']:
                    if x.get('absent'):
                        continue
                    fp.write('[%s]\n' % x['name'] + ''.join('%s = %s\n' % (y['name'], y['tok']['text']) for y in x['keys']))
            with open(spec, 'w') as fp:
                if o.get('many', True):
                    fp.write('[__many__]\n' + ''.join(rule(r, words) + '\n' for r in o.get('rules', [])))
                else:
                    for x in o['sections']:
                        fp.write('[%s]\n' % x['name'] + ''.join(rule(r, words) + '\n' for r in o.get('rules', [])))
            e['out'], r = k.attempt(lambda: config.load_config(inf, spec) if op == 'load' else config.load_config(inf))
            e['res'] = [dict(name=n, keys=[dict(name=y, val=value(v)) for y, v in sec.items()]) for n, sec in r.items()] if r is not None else []
        elif op == 'signature':
            parts = []
            for a in o['args']:
                p = a.get('star', '') + a['name'] + (': int' if a['hasann'] else '')
                if a['hasdef']:
                    p += ' = ' + ('None' if a['def'] == -1000 else '%d' % a['def'])
                parts.append(p)
            ns = {}
            exec('def f(%s):\n    pass' % ', '.join((['*'] if o['kwonly'] else []) + parts), ns)
            items = []

            def go():
                for a in utils.parse_signature(ns['f']):
                    items.append(dict(name=a.name, **{'def': a.default if a.default is not None else -1000, 'ann': a.annotation is int}))
            e['out'], _ = k.attempt(go)
            e['items'] = items
        elif op == 'callables':
            d = path(o['d'])
            for m in o['modules']:
                with open(os.path.join(d, m['name'] + '.py'), 'w') as fp:
                    fp.write({'ok': '', 'nothing': 'import no_such_module_anywhere\n'}.get(m['how'], 'raise %s("x")\n' % m['how']))
                    fp.write(''.join('def %s():\n    return "%s"\n\n\n' % (f, m['name']) for f in m['functions']))
            cfg = os.path.join(d, 'crowddynamics.cfg')
            with open(cfg, 'w') as fp:
                fp.write('[simulations]\n' + ''.join('[[%s]]\npath = %s.py\n%s' % (x['name'], x['module'], 'functions = ' + ''.join(f + ', ' for f in x['functions']).rstrip() + '\n' if x['functions'] else '') for x in o['sections']))
            items, cwds = [], []

            def go():
                gen = config.import_simulation_callables(cfg if o['how'] == 'abs' else os.path.relpath(cfg))
                for name, f in gen:
                    items.append([name, f()])
                    cwds.append(cwd())
                    if len(items) >= o['take']:
                        break
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                e['out'], _ = k.attempt(go)
            cwds.append(cwd())
            e['items'], e['cwds'] = items, cwds
        elif op == 'deprecated':
            def old(a, b=0):
                """text"""
                return a + 2 * b
            new = exceptions.deprecated(old)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                e['out'], e['res'] = k.attempt(lambda: new(o['a'], o['b']) if o['pos'] else new(o['a'], b=o['b']))
            e['res'] = e['res'] if e['res'] is not None else -99999
            e['warned'] = sum(issubclass(x.category, DeprecationWarning) for x in w)
            e['kept'] = new.__name__ == 'old' and new.__doc__ == 'text'
        elif op == 'doc':
            doc = ' '.join('%%(k%d)s' % p['i'] if p['sub'] else 't%d' % p['i'] for p in o['parts'])
            base = type('Base', (), {'__doc__': doc, 'x': 3})
            cls = type('Foo', (base,), {'__doc__': doc})
            subs = {}
            for i, v in enumerate(o['subs']):
                def call(c, v=v):
                    return v if c is cls else 'other'
                subs['k%d' % (i + 1)] = {'text': v, 'function': call, 'partial': functools.partial(call), 'object': type('C', (), {'__call__': lambda self, c, v=v: call(c, v)})(), 'class': type('C', (), {'__new__': lambda t, c, v=v: call(c, v)})}[o['calls'][i]]
            e['out'], r = k.attempt(lambda: utils.interpolate_docstring(**subs)(cls))
            e['res'] = (r.__doc__ or '').split(' ') if r is not None else []
            e['same'] = r is cls
            e['baseKept'] = base.__doc__ == doc
        ev.append(e)


k.main(setup, run)
