import multiprocessing
import os
import queue as pyqueue
import time

import drvkit as k


def setup():
    from crowddynamics.simulation.multiagent import MultiAgentSimulation, MultiAgentProcess
    from crowddynamics.simulation.logic import LogicNode
    from crowddynamics.exceptions import CrowdDynamicsException, OverlappingError

    class Probe(LogicNode):
        def update(self):
            self.hook(self.idx)
    return MultiAgentSimulation, MultiAgentProcess, Probe, CrowdDynamicsException, OverlappingError


class TooMany(BaseException):
    pass


def build(env, size, hook):
    Simulation, Process, Probe = env[:3]
    simu = Simulation()
    nodes = [Probe(simu, name=str(i)) for i in range(size)]
    for i, n in enumerate(nodes):
        n.hook, n.idx = hook, i + 1
    for i in range(size - 1):
        nodes[-1] << nodes[i]              # children first, the last node is the root
    simu.logic = nodes[-1]
    return simu


class FakeQueue(object):
    def __init__(self):
        self.items = []

    def put(self, x, *a, **kw):
        self.items.append(x)
    put_nowait = put


def run(env, s, ev):
    cfg = s['cfg']
    if cfg['mode'] == 'real':
        return real(env, s, ev)
    size = cfg['size']
    q = FakeQueue()
    marker = env[1].EndProcess

    def qlist():
        return [0 if x is marker else x if isinstance(x, int) else -1 for x in q.items]
    plan = list(s['ops'])         # what happens, in order: eval n / raise n / stop
    pos = [0]
    total = [0]

    def stops():
        while pos[0] < len(plan) and plan[pos[0]]['op'] in ('stop', 'check'):
            if plan[pos[0]]['op'] == 'stop':
                proc.stop()
                ev.append({'op': 'stop', 'queue': qlist()})
            pos[0] += 1

    def hook(n):
        total[0] += 1
        if total[0] > 200:
            raise TooMany()
        if pos[0] < len(plan) and plan[pos[0]]['op'] == 'raise' and plan[pos[0]]['n'] == n:
            pos[0] += 1
            ev.append({'op': 'raise', 'n': n, 'queue': qlist()})
            raise env[3 + total[0] % 2]('planted')
        q.put(n)
        ev.append({'op': 'eval', 'n': n, 'queue': qlist()})
        pos[0] += 1
        stops()          # requests that arrive before the next observable moment

    simu = build(env, size, hook)
    if cfg.get('had'):       # a condition of its own that never holds
        simu.exit_condition = lambda _: False
    proc = env[1](simu, q)
    stops()
    try:
        out, _ = k.attempt(proc.run)
    except TooMany:
        out = 'endless'
    ev.append({'op': 'end', 'out': out, 'queue': qlist(), 'it': simu.data['iterations']})


def real(env, s, ev):
    cfg = s['cfg']
    size = cfg['size']
    q = multiprocessing.Queue()
    count = [0]

    def hook(n):
        count[0] += 1
        if cfg['failing'] and count[0] > cfg['failing']:
            raise env[3]('planted')
        q.put(n)
        time.sleep(0.002)
    simu = build(env, size, hook)
    if cfg.get('had'):       # a condition of its own that never holds
        simu.exit_condition = lambda _: False
    proc = env[1](simu, q)
    proc.daemon = True
    if cfg['early']:
        proc.stop()
    proc.start()
    items, ended = [], False
    deadline = time.time() + 60
    stop_at = cfg['stop_after']
    while time.time() < deadline:
        if len(items) >= stop_at and not cfg['failing']:
            proc.stop()
        try:
            items.append(q.get(timeout=0.2))
        except pyqueue.Empty:
            if not proc.is_alive():
                break
    proc.join(20)
    ended = not proc.is_alive()
    if not ended:
        proc.terminate()
        proc.join(10)
    while True:
        try:
            items.append(q.get(timeout=0.2))
        except pyqueue.Empty:
            break
    marker = env[1].EndProcess
    ev.append({'op': 'drained', 'queue': [0 if x is marker or getattr(x, '__name__', '') == 'EndProcess' else x if isinstance(x, int) else -1
                                          for x in items],
               'early': cfg['early'], 'failing': cfg['failing'], 'ended': ended})


k.main(setup, run)
