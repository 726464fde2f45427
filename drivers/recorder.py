import csv
import gc
import os
import shutil
import sys
import tempfile
import zlib
import numpy as np
import drvkit as k
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def setup():
    from crowddynamics import io
    from crowddynamics.simulation import agents, logic
    from crowddynamics.simulation.field import Field
    from crowddynamics.simulation.multiagent import MultiAgentSimulation
    from shapely import geometry
    return io, agents, logic, Field, MultiAgentSimulation, geometry


def num(v):
    return '%d' % v if v == int(v) else repr(float(v))


def pts(c):
    return ','.join(' '.join(num(v) for v in p) for p in c)


def canon(o):
    if o is None:
        return 'none'
    t = getattr(o, 'geom_type', None)
    if t == 'Polygon':
        return 'Y(%s)' % '|'.join([pts(o.exterior.coords)] + [pts(h.coords) for h in o.interiors])
    if t in ('Point', 'LineString', 'LinearRing'):
        return t + '(%s)' % pts(o.coords)
    if t:
        return '%s(%s)' % (t, ';'.join(canon(x) for x in o))
    if isinstance(o, dict):
        return '{%s}' % ';'.join('%s=%s' % (n, canon(o[n])) for n in sorted(o))
    return '[%s]' % ';'.join(canon(x) for x in o)


def digest(frame):
    """Number for one frame of agents."""
    a = np.ascontiguousarray(frame)
    return zlib.crc32(repr([(n, np.asarray(a[n]).tolist()) for n in a.dtype.names]).encode()) % 1000000007


def run(env, s, ev):
    io, ag, logic, Field, Simulation, geo = env
    c = s['cfg']
    tmp = tempfile.mkdtemp(prefix='mbv_rec_')
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        execute(env, s, ev, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def execute(env, s, ev, tmp):
    io, ag, logic, Field, Simulation, geo = env
    c = s['cfg']
    sim = Simulation(name=c['name']) if c.get('name') else Simulation()
    for n, v in c.get('meta', []):
        sim.metadata[n] = v
    typ = getattr(ag, c['kind'])
    sim.agents = ag.Agents(agent_type=typ)
    f = Field(domain=geo.Polygon([(-9, -9), (9, -9), (9, 9), (-9, 9)]))
    if c['walls']:
        lines = [geo.LineString([(w, 0), (w, 5)]) for w in range(c['walls'])]
        f.obstacles = lines[0] if len(lines) == 1 else geo.MultiLineString(lines)
    f.targets = [geo.LineString([(t, 1), (t + 1, 2)]) for t in range(c['targets'])]
    f.spawns = [geo.Polygon([(-9, -9), (-8 + t, -9), (-8, -7)]) for t in range(c['spawns'])]
    sim.field = f
    rng = np.random.RandomState(c['seed'])

    def fresh(n):
        arr = np.zeros(n, dtype=typ.dtype())
        for name in arr.dtype.names:
            if arr[name].dtype.kind == 'f':
                arr[name] = rng.randint(-8, 9, arr[name].shape) / 4.
        return arr
    sim.agents.array = fresh(c['n'])
    sim.data['val'] = 0
    for n in c.get('extra', []):         # columns without a value, or with any
        sim.data[n] = {'none': None, 'text': 'a "b", c', 'truth': False, 'nan': float('nan')}[n]
    cur = {}

    class Move(logic.LogicNode):
        def update(self):
            a = self.simulation.agents.array
            a['position'] += rng.randint(-8, 9, a['position'].shape) / 4.
            a['velocity'] = rng.randint(-8, 9, a['velocity'].shape) / 4.
            a['force'] += 1.5
            self.simulation.data['time_tot'] += .25
            self.simulation.data['val'] = cur['op'].get('val', 0)

    class Over(logic.LogicNode):
        def update(self):
            a = self.simulation.agents.array
            cur['live'], cur['zero'] = digest(a), not a['force'].any()
            a['position'] += .125
            self.simulation.data['val'] += 1000

    reset = logic.Reset(sim)
    reset << Move(sim)
    if c['over']:
        Over(sim) << reset
    sim.logic = reset if not c['entry'] else [x for x in reset.children][0]
    dirs, nodes, calls = [], [], []

    def column(name, v):
        return k.q(v, 4) if name == 'time_tot' else int(float(v)) if float(v) == int(float(v)) else -1

    def disk():
        res = []
        for d in dirs:
            chunks = [[digest(fr) for fr in ch] for ch in io.load_npy(d, 'agents')]
            p = os.path.join(d, 'data.csv')
            rows = []
            if os.path.exists(p):
                with open(p, newline='') as fp:
                    rows = [r for r in csv.reader(fp)]
            want = ['iterations', 'time_tot', 'val']
            sel = [rows[0].index(w) if w in rows[0] else None for w in want] if rows else []
            known = {'metadata.csv', 'geometry.json', 'data.csv'} | {'agents_%d.npy' % i for i in range(len(chunks))}
            note = os.path.join(d, 'notes.txt')
            if os.path.exists(note):
                with open(note) as fp:
                    known |= {'notes.txt'} if fp.read() == 'keep' else set()
            try:
                body = [[column(w, r[i]) for w, i in zip(want, sel)] for r in rows[1:]]
            except Exception:
                body = [[-7]]
            res.append(dict(chunks=chunks, head=rows[0] if rows else [], rows=body, other=len(set(os.listdir(d)) - known)))
        return res

    def condition(i):
        def cond(simulation, *a):
            calls[i] += 1
            cur['self'] = cur['self'] and simulation is sim
            t = cur['op']['saves'][i]
            return [t, np.bool_(t), (i + 1) if t else 0][i % 3]
        return cond
    for o in s['ops']:
        op, e = o['op'], dict(o)
        cur.update(op=o, self=True)
        if op == 'open':
            i = len(nodes)
            base = c['bases'][i % len(c['bases'])]
            kw = dict(save_condition=condition(i))
            if base == 'abs':
                kw['base_directory'] = os.path.join(tmp, 'abs')
            elif base != '.':
                kw['base_directory'] = base
            sub = c['subs'][i % len(c['subs'])]
            if sub:
                sub = '%s%d' % (sub, i)
                kw['save_directory'] = sub
            elif i:
                kw['base_directory'] = 'other%d' % i
            want = os.path.join(os.getcwd(), kw.get('base_directory', '.'), sub or sim.name_with_timestamp)
            if o.get('pre'):         # the directory is there already
                os.makedirs(want, exist_ok=True)
                if o.get('notes'):   # and not empty
                    with open(os.path.join(want, 'notes.txt'), 'w') as fp:
                        fp.write('keep')
            before = dict((x, set(fs)) for x, _, fs in os.walk(tmp))
            e['out'], node = k.attempt(lambda: logic.SaveSimulationData(sim, **kw))
            if e['out'] == 'ok':
                e['out'], _ = k.attempt(node.add_to_simulation_logic)
            new = sorted(x for x, _, fs in os.walk(tmp) if set(fs) - before.get(x, set()))
            dirs.append(want)
            os.makedirs(want, exist_ok=True)
            e['dir'], e['wantdir'] = [os.path.relpath(x, tmp) for x in new], [os.path.relpath(want, tmp)]
            nodes.append(node)
            calls.append(0)
            try:
                with open(os.path.join(want, 'metadata.csv'), newline='') as fp:
                    e['meta'] = list(csv.reader(fp))
                e['geo'] = canon(io.load_geometry_json(os.path.join(want, 'geometry.json')))
            except Exception as x:
                e['meta'], e['geo'] = [], repr(x)
            e['metakeys'], e['metavals'] = list(sim.metadata.keys()), [str(v) for v in sim.metadata.values()]
            e['field'] = canon({n: getattr(f, n) for n in ('domain', 'obstacles', 'targets', 'spawns')})
            e['keys'] = list(sim.data)
            e['disk'] = disk()
            ev.append(e)
            if e['out'] != 'ok':
                return
        elif op == 'chdir':
            os.makedirs(o['to'], exist_ok=True)
            os.chdir(o['to'])
        elif op == 'swap':           # the simulation gets other agents (as many as before)
            sim.agents.array = sim.agents.array[::-1].copy()
        elif op == 'step':
            calls[:] = [0] * len(calls)
            e['saves'] = o['saves'][:len(nodes)]
            t0 = k.q(sim.data['time_tot'], 4)
            e['out'], _ = k.attempt(sim.update)
            if not c['over']:
                cur['live'], cur['zero'] = digest(sim.agents.array), not sim.agents.array['force'].any()
            e.update(live=cur.get('live', -1), zero=bool(cur.get('zero')), time=t0 + 1, val=o.get('val', 0), calls=list(calls), self=cur['self'], keys=list(sim.data), disk=disk())
            ev.append(e)
            if e['out'] != 'ok':
                return
        elif op == 'drop':
            e['keys'] = list(sim.data)
            nodes[:] = []
            sim = reset = None
            gc.collect()
            e.update(out='ok', disk=disk())
            ev.append(e)
            return


k.main(setup, run)
