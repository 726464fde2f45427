import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())
sys.dont_write_bytecode = True
HEAD = '''import json, logging, os
from traitlets import Int, Float, Bool, Unicode, Enum
from crowddynamics.simulation.base import SimulationBase
from crowddynamics.simulation.multiagent import MultiAgentSimulation
SETS = {'words': ['alpha', 'beta', 'x y', '7'], 'types': [int, float, complex, str], 'numbers': [4, 3, 2, 1]}


def encode(kind, of, v):
    if kind == 'Int':
        return v if type(v) is int else -77
    if kind == 'Float':
        return round(v * 4) if type(v) is float else -77
    if kind == 'Bool':
        return int(v) if type(v) is bool else -77
    return SETS[of].index(v) + 1 if v in SETS[of] else -77


def note(self):
    self.times = getattr(self, 'times', 0) + 1
    with open(os.environ['CLI_LOG'], 'a') as fp:
        fp.write(json.dumps({'cls': type(self).__name__, 'vals': [encode(kind, of, getattr(self, n)) for n, kind, of in self.TR],
                             'fresh': self.times == 1 and self.data['iterations'] == 2, 'level': logging.getLogger('crowddynamics').level}) + '\\n')
'''
BODY = '''
    TR = %s
    FAILS = %s

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.exit_condition = lambda s: s.data['iterations'] >= 2

    def update(self):
        self.data['iterations'] += 1

    def run(self):
        SimulationBase.run(self)
        note(self)
        if self.FAILS:
            raise RuntimeError('fails')
'''
SETS = {'words': ['alpha', 'beta', 'x y', '7'], 'types': [int, float, complex, str], 'numbers': [4, 3, 2, 1]}
LEVELS = {'NOTSET': 0, 'FATAL': 50, 'WARN': 30, 'CRITICAL': 50, 'ERROR': 40, 'WARNING': 30, 'INFO': 20, 'DEBUG': 10}


def setup():
    import click
    from click.testing import CliRunner
    from crowddynamics import cli, utils
    from crowddynamics.simulation.multiagent import MultiAgentSimulation
    return click, CliRunner, cli, utils, MultiAgentSimulation


def source(m):
    out, first = HEAD, 'MultiAgentSimulation'
    for c in m['classes']:
        base = {'sim': 'MultiAgentSimulation', 'sub': first, 'base': 'SimulationBase', 'plain': 'object'}[c['kind']]
        out += '\n\nclass %s(%s):' % (c['name'], base)
        for t in c['traits']:
            d, vals = t['default'], SETS[t.get('of', 'words')]
            names = [v.__name__ if isinstance(v, type) else repr(v) for v in vals]
            out += '\n    %s = %s' % (t['name'], {'Int': 'Int(%d, min=%d)' % (d, t['min']), 'Float': 'Float(%r)' % (d / 4.), 'Bool': 'Bool(%r)' % bool(d),
                                                  'Unicode': 'Unicode(%s)' % names[d - 1 if t['kind'] == 'Unicode' else 0],
                                                  'Enum': 'Enum((%s,), default_value=%s)' % (', '.join(names[:t['n']]), names[max(0, d - 1) % 4])}[t['kind']])
        out += BODY % ([(t['name'], t['kind'], t.get('of', 'words')) for t in c['traits']], c['fails'])
        if c['kind'] == 'sim' and first == 'MultiAgentSimulation':
            first = c['name']
    return out + '\n\nVALUE = 3\n\n\ndef function():\n    return MultiAgentSimulation\n'


def run(env, s, ev):
    click, CliRunner, cli, utils, MAS = env
    home, top = os.getcwd(), tempfile.mkdtemp(prefix='verif_cli_')
    try:
        work(env, s, ev, top)
    finally:
        os.chdir(home)
        shutil.rmtree(top, ignore_errors=True)


def work(env, s, ev, top):
    click, CliRunner, cli, utils, MAS = env
    d = os.path.join(top, 'sims')
    os.mkdir(d)
    log = os.path.join(top, 'runs.log')
    cfg = os.path.join(top, 'log.json')
    with open(cfg, 'w') as fp:
        json.dump({'version': 1, 'disable_existing_loggers': False, 'handlers': {}, 'loggers': {'crowddynamics': {'level': 'INFO'}}}, fp)
    os.environ.update(CLI_LOG=log, LOG_CFG=cfg, LC_ALL='C.UTF-8', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1')
    os.chdir(d)
    here = s['cfg'].get('via', 'inside')
    mods, chunks = {}, 0

    def call(argv, exe=here):
        if exe == 'inside':
            r = CliRunner().invoke(importlib.reload(cli).main, argv)
            return {0: 'ok', 2: 'usage'}.get(r.exit_code, 'failed'), r.output
        cmd = [sys.executable, '-W', 'ignore'] + (['-m', 'crowddynamics.cli'] if exe == 'module' else ['-c', 'import sys; from crowddynamics.cli import main; sys.exit(main())'])
        p = subprocess.run(cmd + argv, env=dict(os.environ, PYTHONPATH=os.pathsep.join(x for x in sys.path if x)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, universal_newlines=True)
        return {0: 'ok', 2: 'usage'}.get(p.returncode, 'failed'), p.stdout

    def texts(cls, o):
        t = next((t for m in mods.values() if m['py'] for c in m['classes'] if c['name'] == cls for t in c['traits'] if t['name'] == o['name']), None)
        if t is None:
            return ['%d' % o['v']]
        if o['junk']:
            return ['q1']
        vals = SETS[t.get('of', 'words')]
        return {'Int': ['%d' % o['v']], 'Float': [repr(o['v'] / 4.)], 'Bool': []}.get(t['kind']) if t['kind'] in ('Int', 'Float', 'Bool') else [str((vals + ['gamma', 'delta'])[o['v'] - 1])]

    def rerun():
        if not os.path.exists(log):
            return []
        with open(log) as fp:
            res = [json.loads(x) for x in fp]
        os.remove(log)
        return res
    for o in s['ops']:
        e, op = dict(o), o['op']
        if op == 'write':
            m = o['m']
            with open(os.path.join(d, m['name'] + ('.py' if m['py'] else '.txt')), 'w') as fp:
                fp.write(source(m))
            if m['name'] in mods and mods[m['name']]['py'] != m['py']:
                os.remove(os.path.join(d, m['name'] + ('.txt' if m['py'] else '.py')))
            mods[m['name']] = m
        elif op == 'remove':
            m = mods.pop(o['name'])
            os.remove(os.path.join(d, m['name'] + ('.py' if m['py'] else '.txt')))
        elif op == 'run':
            argv = ['run']
            if o['num'] != 1 or not o['cmds'] or o.get('spell'):
                argv += ['--num', '%d' % o['num']]
            if o.get('loglevel'):
                argv += ['--loglevel', o['loglevel']]
            e['level'] = LEVELS[o.get('loglevel') or 'INFO']
            for c in o['cmds']:
                argv.append(c['cmd'])
                for x in c['opts']:
                    argv += ['--' + x['name']] + texts(c['cmd'], x)
            rerun()
            e['out'], _ = call(argv)
            got = rerun()
            e['levels'] = [r.pop('level') for r in got]
            e['runs'] = got
        elif op == 'list':
            e['out'], text = call(['list'])
            e['names'] = sorted({c['name'] for m in s['cfg']['all'] for c in m['classes'] if re.search(r"'%s'" % c['name'], text)})
        elif op == 'help':
            e['out'], text = call(['run'] + ([o['cmd']] if o['cmd'] else []) + ['--help'])
            if o['cmd']:
                e['names'] = [x for x in re.findall(r'^ +--(\w+)', text, re.M) if x != 'help']
            else:
                e['names'] = re.findall(r'^ +(\w+)\s*$', text.split('Commands:')[1], re.M) if 'Commands:' in text else []
        elif op == 'import':
            os.chdir({'parent': top, 'root': '/', 'here': d}[o['from']])
            path = {'parent': 'sims', 'root': d, 'here': '.'}[o['from']]
            e['out'], r = k.attempt(lambda: importlib.reload(cli).import_simulations(path))
            e['names'] = list(r or {})
            e['fresh'] = all(c.__name__ == n and issubclass(c, MAS) for n, c in (r or {}).items())
            os.chdir(d)
        elif op == 'module':
            e['out'], r = k.attempt(lambda: utils.import_subclasses(os.path.join(d, o['name'] + '.py'), MAS))
            e['names'] = list(r or {})
        elif op == 'chunk':
            np.save(os.path.join(d, 'data_%d.npy' % chunks), np.array(o['rows']))
            chunks += 1
        elif op == 'concat':
            made = os.path.join(d, 'data.npy')
            if os.path.exists(made):
                os.remove(made)
            if o['where'] == 'elsewhere':
                os.makedirs(os.path.join(top, 'other'), exist_ok=True)
                os.chdir(os.path.join(top, 'other'))
            e['out'], text = call(['concat_npy'] + {'rel': ['-d', '.'], 'abs': ['-d', d], 'default': [], 'elsewhere': ['-d', '../sims']}[o['where']] + ['-n', 'data'])
            os.chdir(d)
            e['rows'] = np.load(made).tolist() if os.path.exists(made) else []
        ev.append(e)


k.main(setup, run)
