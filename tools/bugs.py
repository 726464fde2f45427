bug('hash-trunc-negative', 'P01', [('crowddynamics/core/block_list.py',
    'return tuple(elem // cell_size for elem in value)', 'return tuple(int(elem / cell_size) for elem in value)')],
    '''
from crowddynamics.core.block_list import MutableBlockList
b = MutableBlockList(1.0)
b[(-0.5,)] = 1
b[(0.5,)] = 2
assert list(b[(0.25,)]) == [2], b[(0.25,)]
assert sorted(b.nearest((-1.5,), radius=1)) == [1]
''', 'points on both sides of zero', 'cells around zero are merged: lookups return values of another cell')

bug('hash-nearest-alias', 'P01', [('crowddynamics/core/block_list.py',
    """        return sum((self._blocks[key] for key in
                    self._nearest_blocks(index, radius)), self._list())""",
    """        found = self._list()
        for key in self._nearest_blocks(index, radius):
            block = self._blocks[key]
            if len(found) == 0:
                found = block
            elif len(block) > 0:
                found = found + block
        return found""")],
    '''
from crowddynamics.core.block_list import MutableBlockList
b = MutableBlockList(1.0)
b[(0.5, 0.5)] = 1
near = b.nearest((0.5, 0.5), radius=1)
near.append(99)
assert list(b[(0.5, 0.5)]) == [1], b[(0.5, 0.5)]
''', 'exactly one occupied cell in the neighbourhood and a caller that modifies the result', 'the query hands out the internal list: changing the result changes the grid')

bug('npy-chunk-sort-text', 'P02', [('crowddynamics/io.py',
    'for index, filepath in sorted(values, key=lambda x: x[0]):', 'for index, filepath in sorted(values, key=lambda x: x[1]):')],
    '''
import tempfile, numpy as np
from crowddynamics.io import save_npy, load_npy_concatenated
with tempfile.TemporaryDirectory() as d:
    s = save_npy(d, 'a'); s.send(None)
    for i in range(12):
        s.send(np.array([float(i)])); s.send(True)
    assert [int(v) for v in load_npy_concatenated(d, 'a')[:, 0]] == list(range(12))
''', 'eleven or more chunks', 'chunks are loaded in alphabetical order (10 before 2)')

bug('npy-keep-last-frame', 'P02', [('crowddynamics/io.py', '            buffer.clear()\n', '            del buffer[:-1]\n            buffer = [] if len(buffer[0].shape) == 1 else buffer\n')],
    '''
import tempfile, numpy as np
from crowddynamics.io import save_npy, load_npy_concatenated
with tempfile.TemporaryDirectory() as d:
    s = save_npy(d, 'a'); s.send(None)
    for i in range(3):
        s.send(np.array([[float(i), 0.0]])); s.send(True)
    assert [int(v) for v in load_npy_concatenated(d, 'a')[:, 0]] == [0, 1, 2]
''', 'two-dimensional frames and at least two flushes', 'the last frame of a chunk is written again at the start of the next one')

bug('csv-truncate-without-seek', 'P03', [('crowddynamics/io.py', """                buffer.truncate(0)
                buffer.seek(0)
""", """                buffer.seek(0)
""")],
    '''
import tempfile, os, csv
from crowddynamics.io import save_csv
with tempfile.TemporaryDirectory() as d:
    s = save_csv(d, 'data'); s.send(None)
    s.send({'a': 1000000}); s.send(True)
    s.send({'a': 2}); s.send(True)
    with open(os.path.join(d, 'data.csv'), newline='') as fp:
        rows = list(csv.reader(fp))
    assert rows == [['a'], ['1000000'], ['2']], rows
''', 'a second flush that is shorter than the first', 'remains of the previous flush are written again')

bug('csv-first-row-flush', 'P03', [('crowddynamics/io.py', """            with open(filepath, 'a') as fp:
                fp.write(buffer.getvalue())""", """            with open(filepath, 'a' if started else 'w') as fp:
                fp.write(buffer.getvalue())"""), ('crowddynamics/io.py', """        writer.writerow(data.values())
        dump = yield  # bool
        if dump:
            dumper()

        while True:""", """        writer.writerow(data.values())
        started = False
        dump = yield  # bool
        if dump:
            dumper()
        started = True

        while True:""")],
    '''
import tempfile, os, csv
from crowddynamics.io import save_csv
with tempfile.TemporaryDirectory() as d:
    for i in (1, 2):
        s = save_csv(d, 'data'); s.send(None)
        s.send({'a': i}); s.send(True)
    with open(os.path.join(d, 'data.csv'), newline='') as fp:
        rows = list(csv.reader(fp))
    assert rows == [['a'], ['1'], ['a'], ['2']], rows
''', 'a second writer on the same file that flushes its first record', 'existing content of the file is destroyed')

bug('tree-inject-after-live', 'P04', [('crowddynamics/simulation/base.py', """        for child in self.children:
            child.parent = node
        node.parent = self""", """        node.parent = self
        for child in self.children[1:]:
            if child is not node:
                child.parent = node
        if self.children[0] is not node and len(self.children) > 2:
            self.children[0].parent = node""")],
    '''
from crowddynamics.simulation.base import LogicNodeBase
a, b, n = (LogicNodeBase(name=x) for x in 'abn')
a << b
a.inject_after(n)
assert a.children == (n,), a.children
assert n.children == (b,)
''', 'injecting after a node that has children', 'children are left behind instead of moving below the injected node')

bug('tree-lookup-subtree', 'P04', [('crowddynamics/simulation/base.py', 'for node in PreOrderIter(self.root):', 'for node in PreOrderIter(self.root if self.is_leaf else self):')],
    '''
from crowddynamics.simulation.base import LogicNodeBase
a, b, c, d = (LogicNodeBase(name=x) for x in 'abcd')
a << (b << d, c)
assert b['c'] is c
''', 'lookup that starts at an inner node and asks for a node elsewhere in the tree', 'only the own subtree is searched: KeyError for nodes that exist')

bug('sim-exit-after-step', 'P05', [('crowddynamics/simulation/base.py', """        while self.exit_condition is None or not self.exit_condition(self):
            self.update()""", """        while True:
            self.update()
            if self.exit_condition is not None and self.exit_condition(self):
                break""")],
    '''
from crowddynamics.simulation.base import SimulationBase
class S(SimulationBase):
    n = 0
    def update(self):
        S.n += 1
s = S()
s.exit_condition = lambda _: True
s.run()
assert S.n == 0, S.n
''', 'an exit condition that holds before the first step', 'one step is executed although the exit condition already holds')

bug('sim-shared-data', 'P05', [('crowddynamics/simulation/base.py', """        super().__init__(*args, **kwargs)
        self.metadata['name'] = self.name""", """        super().__init__(*args, **kwargs)
        self.metadata = self._metadata
        self.metadata['name'] = self.name"""), ('crowddynamics/simulation/base.py', """class SimulationBase(CrowdDynamicsObject):
""", """class SimulationBase(CrowdDynamicsObject):
    _metadata = OrderedDict()
""")],
    '''
from crowddynamics.simulation.base import SimulationBase
a = SimulationBase(name='a')
b = SimulationBase(name='b')
assert a.metadata['name'] == 'a', a.metadata
''', 'two simulations in one process', 'simulations share one metadata dictionary: the second overwrites the first')

PRE = '''
import numpy as np
np.asscalar = getattr(np, 'asscalar', None) or (lambda a: a.item())
'''

bug('proc-stop-lost', 'P06', [('crowddynamics/simulation/multiagent.py',
    "        self.simulation.exit_condition = lambda _: self.exit.is_set()\n",
    "        self.exit.clear()\n        self.simulation.exit_condition = lambda _: self.exit.is_set()\n")],
    PRE + '''
import queue, signal
signal.alarm(20)
from crowddynamics.simulation.multiagent import MultiAgentSimulation, MultiAgentProcess
class S(MultiAgentSimulation):
    n = 0
    def update(self):
        S.n += 1
        if S.n > 3:
            raise SystemExit('still running')
p = MultiAgentProcess(S(), queue.Queue())
p.stop()
p.run()
assert S.n == 0
assert p.queue.get_nowait() is MultiAgentProcess.EndProcess
''', 'a stop request that arrives before the worker has begun its loop', 'the request is lost and the worker runs on', stubs=True)

bug('proc-marker-lost-on-error', 'P06', [('crowddynamics/simulation/multiagent.py',
    """            self.stop()
        self.queue.put(self.EndProcess)
""", """            self.stop()
            if not self.queue.empty():
                return
        self.queue.put(self.EndProcess)
""")],
    PRE + '''
import queue
from crowddynamics.exceptions import CrowdDynamicsException
from crowddynamics.simulation.multiagent import MultiAgentSimulation, MultiAgentProcess
class S(MultiAgentSimulation):
    def update(self):
        q.put(1)
        raise CrowdDynamicsException('x')
q = queue.Queue()
MultiAgentProcess(S(), q).run()
assert q.get_nowait() == 1
assert q.get_nowait() is MultiAgentProcess.EndProcess
''', 'a library error in a step while results are still waiting in the queue', 'the end marker is never put into the queue', stubs=True)

bug('geo-none-dropped', 'P07', [('crowddynamics/io.py', """               geometries.items()}
""", """               geometries.items() if geom is not None}
""")],
    PRE + '''
import tempfile, os
from shapely.geometry import Point
from crowddynamics.io import save_geometry_json, load_geometry_json
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'g.json')
    save_geometry_json(f, {'a': Point(1, 2), 'obstacles': None})
    r = load_geometry_json(f)
    assert set(r) == {'a', 'obstacles'} and r['obstacles'] is None, r
''', 'a field without obstacles', 'names of missing geometries disappear from the file', stubs=True)

bug('place-tries-reset', 'P08', [('crowddynamics/simulation/agents.py', """            self.index += 1
            index += 1
""", """            self.index += 1
            index += 1
            overlaps = 0
""")],
    PRE + '''
from crowddynamics.simulation.agents import Agents, AgentGroup, Circular
agents = Agents(agent_type=Circular)
n = [0]
def position():
    n[0] += 1
    if n[0] == 1:
        return np.array((0.0, 0.0))
    if n[0] == 22:
        return np.array((10.0, 0.0))
    return np.array((0.1, 0.0))
group = AgentGroup(agent_type=Circular, size=3, attributes=lambda: dict(radius=0.3))
agents.add_non_overlapping_group(group, position_gen=position)
assert n[0] == 31 + 1 and len(agents.array) == 2, (n, len(agents.array))
''', 'rejected positions spread over several members of a group', 'the number of tries is no longer bounded for the group: counting starts again after each success', stubs=True)

bug('place-shoulder-side', 'P08', [('crowddynamics/simulation/agents.py', """        return overlapping_three_circles(
            others,
            (self.position, self.position_ls, self.position_rs),
            (self.r_t, self.r_s, self.r_s))""", """        return overlapping_three_circles(
            others,
            (self.position, self.position_ls, self.position_ls),
            (self.r_t, self.r_s, self.r_s))""")],
    PRE + '''
from crowddynamics.simulation.agents import Agents, AgentGroup, ThreeCircle
agents = Agents(agent_type=ThreeCircle)
pos = iter([(0.0, 0.0), (0.0, 0.52), (3.0, 0.0)] + [(9.0, 9.0)] * 30)
body = dict(radius=0.27, r_t=0.15, r_s=0.1, r_ts=0.17, mass=70.0)
group = AgentGroup(agent_type=ThreeCircle, size=2, attributes=lambda: dict(body, orientation=0.0))
agents.add_non_overlapping_group(group, position_gen=lambda: np.array(next(pos)))
x = agents.array
d = np.linalg.norm(x[0]['position_ls'] - x[1]['position_rs'])
assert d >= 0.2, d
assert tuple(x[1]['position']) == (3.0, 0.0), x['position']
''', 'three circle agents of which only the right shoulder of the new one overlaps', 'bodies placed on top of each other', stubs=True)

bug('body-ratio-once', 'P09', [('crowddynamics/simulation/agents.py', """            elif name == 'ratio_ts':
                self.r_ts = self.ratio_ts * self.radius
""", """            elif name == 'ratio_ts' and self.r_ts == 0:
                self.r_ts = self.ratio_ts * self.radius
""")],
    PRE + '''
from crowddynamics.simulation.agents import ThreeCircle
a = ThreeCircle(radius=0.25, ratio_ts=0.5)
a.ratio_ts = 0.625
assert abs(a.r_ts - 0.625 * 0.25) < 1e-12, a.r_ts
''', 'a ratio that is changed after radius and ratio were set', 'the shoulder distance keeps its previous value', stubs=True)

bug('body-type-again-applied', 'P09', [('crowddynamics/simulation/agents.py', """        if change['old'] == '':
            new = change['new']
            for k, v in self.body_types[new].items():
                setattr(self, k, v)
        else:
            raise TraitError('Body type can only be set once.')
""", """        new = change['new']
        for k, v in self.body_types[new].items():
            setattr(self, k, v)
        if change['old'] != '':
            raise TraitError('Body type can only be set once.')
""")],
    PRE + '''
from crowddynamics.simulation.agents import Circular
from traitlets import TraitError
a = Circular(body_type='adult')
before = (a.ratio_rt, a.radius_mean, a.mass_mean)
try:
    a.body_type = 'child'
    raise SystemExit('accepted')
except TraitError:
    pass
assert (a.ratio_rt, a.radius_mean, a.mass_mean) == before
''', 'a second body type', 'TraitError is raised but the measures are already those of the other type', stubs=True)

bug('group-generator-extra', 'P10', [('crowddynamics/simulation/agents.py',
    "self.members = [self.agent_type(**next(self.attributes)) for _ in range(self.size)]",
    "self.members = [self.agent_type(**a) for a, _ in zip(self.attributes, range(self.size))]")],
    PRE + '''
from crowddynamics.simulation.agents import AgentGroup, Circular
def gen():
    i = 0
    while True:
        i += 1
        yield dict(radius=i / 8)
g = AgentGroup(agent_type=Circular, size=2, attributes=gen())
g.size = 3
assert [m.radius for m in g.members] == [3 / 8, 4 / 8, 5 / 8], [m.radius for m in g.members]
''', 'a generator that is used for a second set of members', 'one item of the generator is thrown away after every group', stubs=True)

bug('force-wrong-horizon', 'P11', [('crowddynamics/core/motion/power_law.py', """    force_j[:] -= - agent[j]['mass'] * agent[j]['k_soc'] * grad * \\
                  magnitude(tau, agent[j]['tau_0'])
""", """    force_j[:] -= - agent[j]['mass'] * agent[j]['k_soc'] * grad * \\
                  magnitude(tau, agent[i]['tau_0'])
""")],
    PRE + '''
from crowddynamics.simulation.agents import Circular
from crowddynamics.core.interactions import interaction_agent_agent_circular
def pair(i, j):
    a = np.concatenate([np.array(Circular(radius=0.25, mass=80.0, position=(0, 0), velocity=(1, 0), tau_0=3.0)),
                        np.array(Circular(radius=0.25, mass=80.0, position=(2, 0.1), velocity=(-1, 0), tau_0=1.0))])
    interaction_agent_agent_circular(i, j, a)
    return a['force']
assert np.allclose(pair(0, 1), pair(1, 0)), (pair(0, 1), pair(1, 0))
''', 'two agents with different interaction horizons', 'the second agent feels a force with the horizon of the first', stubs=True)

bug('force-orientation-other', 'P11', [('crowddynamics/core/motion/power_law.py', """    elif contact_j == 2:
        phi = agent[j]['orientation']
""", """    elif contact_j == 2:
        phi = agent[i]['orientation']
""")],
    PRE + '''
from crowddynamics.simulation.agents import ThreeCircle, shoulders
from crowddynamics.core.motion.power_law import force_social_three_circle
def pair(i, j):
    body = dict(radius=0.27, r_t=0.15, r_s=0.1, r_ts=0.17, mass=70.0, inertia_rot=4.0)
    a = np.concatenate([np.array(ThreeCircle(position=(0, 0), velocity=(1, 0), orientation=0.3, **body)),
                        np.array(ThreeCircle(position=(2, 0.2), velocity=(-1, 0), orientation=-1.4, **body))])
    shoulders(a)
    f, g = force_social_three_circle(a, i, j)
    return (f, g) if i == 0 else (g, f)
assert np.abs(pair(0, 1)[0]).max() > 0
assert np.allclose(pair(0, 1), pair(1, 0)), (pair(0, 1), pair(1, 0))
''', 'three circle agents of different orientation where the right shoulder of the second one is hit first', 'the gradient is taken at a point that is not on the body', stubs=True)

bug('crowd-cell-one-radius', 'P12', [('crowddynamics/simulation/logic.py',
    "        return self.sight_soc + 2 * self.max_agent_radius\n", "        return self.sight_soc + self.max_agent_radius\n")],
    PRE + '''
from types import SimpleNamespace as N
from crowddynamics.simulation.agents import Circular
from crowddynamics.simulation.logic import AgentAgentInteractions
# four agents so that the grid is finer than the whole scene
pos = [(0, 0), (3.29, 0.0), (6.85, 0.0), (10.0, 0.0)]
vel = [(0, 0), (1.0, 0.0), (-1.0, 0.0), (0, 0)]
for shift in np.arange(-4, 4, 0.25):
    a = np.concatenate([np.array(Circular(radius=0.3, mass=80.0, position=p, velocity=v)) for p, v in
                        zip([(0, 0), (0.01 + 3.29, 0), (10.0, 0), (3.29 + 3.3 + 0.28, 0)], vel)])
    node = AgentAgentInteractions(N(agents=N(array=a)))
    assert node.cell_size >= 3.0 + 2 * 0.3
''', 'agents of radius 0.3 in cells that are not next to each other', 'pairs in sight of each other are missed', stubs=True)

bug('motion-fastest-target', 'P13', [('crowddynamics/core/integrator.py', """    v_max = 0.0
    for agent in agents:
        l = length(agent['velocity'])
        if l > v_max:
            v_max = l
""", """    v_max = 0.0
    target_max = 0.0
    for agent in agents:
        l = length(agent['velocity'])
        if l > v_max:
            v_max = l
            target_max = max(target_max, agent['target_velocity'])
"""), ('crowddynamics/core/integrator.py', "    dx_max = c * np.max(agents[:]['target_velocity']) * dt_max\n", "    dx_max = c * target_max * dt_max\n")],
    PRE + '''
from crowddynamics.simulation.agents import Circular
from crowddynamics.core.integrator import adaptive_timestep
a = np.concatenate([np.array(Circular(radius=0.3, mass=80.0, velocity=(4, 0), target_velocity=1.0)),
                    np.array(Circular(radius=0.3, mass=80.0, velocity=(1, 0), target_velocity=2.0))])
dt = [adaptive_timestep(x, 0.001, 0.01) for x in (a, a[::-1])]
assert abs(dt[0] - 0.0055) < 1e-12 and abs(dt[1] - 0.0055) < 1e-12, dt
''', 'the agent with the largest target speed is a slow one that comes after a faster one', 'the time step depends on the order of the agents', stubs=True)

bug('motion-stale-shoulders', 'P13', [('crowddynamics/core/integrator.py', """        rotational_verlet(agents, dt)
        shoulders(agents)
""", """        shoulders(agents)
        rotational_verlet(agents, dt)
""")],
    PRE + '''
from crowddynamics.simulation.agents import ThreeCircle
from crowddynamics.core.integrator import velocity_verlet_integrator
a = np.array(ThreeCircle(radius=0.27, r_t=0.15, r_s=0.1, r_ts=0.17, mass=70.0, inertia_rot=4.0, angular_velocity=3.0))
velocity_verlet_integrator(a, 0.01, 0.01)
phi = a[0]['orientation']
assert np.allclose(a[0]['position_rs'] - a[0]['position'], 0.17 * np.array((np.sin(phi), -np.cos(phi))), atol=1e-9)
''', 'a rotating three circle agent', 'shoulders lag one step behind the orientation', stubs=True)

bug('cycle-unwrapped-turn', 'P14', [('crowddynamics/core/motion/adjusting.py',
    "(wrap_to_pi(phi_0 - phi) / np.pi * omega_0 - omega)", "((wrap_to_pi(phi_0) - wrap_to_pi(phi)) / np.pi * omega_0 - omega)")],
    PRE + '''
from crowddynamics.core.motion.adjusting import torque_adjust
assert torque_adjust(4.0, 0.2, -3.0, 3.0, 4 * np.pi, 0.0) > 0
''', 'orientation and target orientation on different sides of the direction pi', 'agents turn the long way round', stubs=True)

bug('cycle-half-plane-noise', 'P14', [('crowddynamics/core/motion/fluctuation.py',
    "    phi = np.random.uniform(0.0, 2.0 * np.pi, size=size)\n", "    phi = np.random.uniform(0.0, np.pi, size=size)\n")],
    PRE + '''
from crowddynamics.core.motion.fluctuation import force_fluctuation
np.random.seed(1)
f = force_fluctuation(np.full(400, 80.0), np.full(400, 0.1))
assert f[:, 1].min() < 0
''', 'statistics over many draws', 'random forces only push upwards', stubs=True)

bug('exit-hidden-first', 'P15', [('crowddynamics/core/evacuation.py', """                                          obstacles):
                continue
""", """                                          obstacles):
                break
""")],
    PRE + '''
from crowddynamics.core.evacuation import exit_detection
from crowddynamics.core.structures import obstacle_type_linear
o = np.zeros(1, dtype=obstacle_type_linear)
o['p0'], o['p1'] = (1, -1), (1, 1)
r = exit_detection(np.array([(2.0, 0.0), (-3.0, 0.0)]), np.array([(0.0, 0.0)]), o, 20.0)
assert list(r[0]) == [1] and list(r[1]) == [True], r
''', 'a hidden exit listed before a visible one', 'exits after a hidden one are not considered', stubs=True)

bug('exit-takes-idle', 'P15', [('crowddynamics/simulation/logic.py',
    "        mask = agents['is_follower'] & has_detected\n", "        mask = (agents['is_follower'] | (agents['target'] == -1)) & has_detected\n")],
    PRE + '''
from types import SimpleNamespace as N
from shapely.geometry import LineString
from crowddynamics.simulation.agents import Circular
from crowddynamics.simulation.logic import ExitDetection
a = np.array(Circular(radius=0.3, mass=80.0, is_leader=True))
ExitDetection(N(agents=N(array=a), field=N(targets=[LineString([(1, -1), (1, 1)])], obstacles=LineString([(9, 9), (9, 10)])))).update()
assert a[0]['target'] == -1, a[0]['target']
''', 'an agent without target that is no follower', 'agents that are not followers are sent to exits', stubs=True)

bug('herd-velocity-leak', 'P16', [('crowddynamics/core/steering/collective_motion.py', """        mean_position[:] = 0
        mean_velocity[:] = 0
""", """        mean_position[:] = 0
""")],
    PRE + '''
from crowddynamics.core.steering.collective_motion import herding_interaction
x = np.array([(0.0, 0.0), (1.0, 0.0), (0.0, 10.0), (0.0, 11.0)])
v = np.array([(1.0, 0.0), (1.0, 0.0), (0.0, 1.0), (0.0, 1.0)])
d, has = herding_interaction(np.array([True, False, True, False]), x, v, np.array([[1], [-1], [3], [-1]]), 0.15, 0.45 * np.pi)
assert np.allclose(d[2], (0, 1)), d
''', 'at least two herding agents with neighbours', 'an agent is pulled along by the herd of another one', stubs=True)

bug('follow-first-leader', 'P16', [('crowddynamics/core/steering/collective_motion.py',
    "                    index_leader[i] = j\n", "                    if index_leader[i] == NO_LEADER:\n                        index_leader[i] = j\n")],
    PRE + '''
from types import SimpleNamespace as N
from crowddynamics.core.steering.collective_motion import leader_follower_interaction
from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.simulation.agents import Circular
a = np.concatenate([np.array(Circular(radius=0.3, mass=80.0, position=p, velocity=(1, 0), is_leader=l, is_follower=not l))
                    for p, l in (((0, 0), False), ((1, 0), True), ((5, 0), True))])
no = np.zeros(0, dtype=obstacle_type_linear)
leader_follower_interaction(a, no, 20.0)
assert a[0]['index_leader'] == 1
a['position'][1] = (7, 0)
leader_follower_interaction(a, no, 20.0)
assert a[0]['index_leader'] == 2, a['index_leader']
''', 'a follower whose nearest leader changes', 'the first leader ever seen is remembered, not the one that is followed', stubs=True)

bug('nav-linspace', 'P17', [('crowddynamics/core/steering/quickest_path.py',
    "    x = np.arange(minx, maxx + step, step=step)\n    y = np.arange(miny, maxy + step, step=step)\n",
    "    x = np.linspace(minx, maxx, int(np.ceil((maxx - minx) / step)) + 1)\n    y = np.linspace(miny, maxy, int(np.ceil((maxy - miny) / step)) + 1)\n")],
    PRE + '''
from crowddynamics.core.steering.quickest_path import meshgrid
m = meshgrid(0.5, 0.0, 0.0, 2.75, 2.0)
x, y = m.values
for p in ((2.49, 1.1), (1.3, 0.2), (0.6, 0.6)):
    i, j = m.indicer(p)
    assert x[j, i] <= p[0] < x[j, i] + 0.5 and y[j, i] <= p[1] < y[j, i] + 0.5, (p, x[j, i], y[j, i])
''', 'a domain whose size is not a multiple of the step', 'mesh points and the index of a position drift apart', stubs=True)

bug('nav-skip-rest', 'P17', [('crowddynamics/simulation/logic.py', """            if not has_target.size:
                continue
""", """            if not has_target.any():
                break
""")],
    PRE + '''
from types import SimpleNamespace as N
from shapely.geometry import Polygon, LineString
from crowddynamics.simulation.agents import Circular
from crowddynamics.simulation.field import Field
from crowddynamics.simulation.logic import Navigation
field = Field(domain=Polygon([(0, 0), (4, 0), (4, 4), (0, 4)]), targets=[LineString([(0, 0), (0, 4)]), LineString([(4, 0), (4, 4)])])
a = np.array(Circular(radius=0.3, mass=80.0, position=(2, 2), target=1))
Navigation(N(agents=N(array=a), field=field), step=0.25).update()
assert np.allclose(a[0]['target_direction'], (1, 0), atol=0.05), a[0]['target_direction']
''', 'a target that nobody has, listed before one that somebody has', 'agents of later targets are not navigated', stubs=True)

bug('field-map-in-place', 'P18', [('crowddynamics/core/steering/obstacle_handling.py', """    n, m = dmap_obs.shape
    for i in range(n):
        for j in range(m):
            # Distance from the obstacles
            x = -dmap_obs[i, j]
            if 0 < x < radius:
                # Decreasing function
                p = strength ** (x / radius)
                # Weighted average
                u_out""", """    n, m = dmap_obs.shape
    np.negative(dmap_obs, dmap_obs)
    for i in range(n):
        for j in range(m):
            # Distance from the obstacles
            x = dmap_obs[i, j]
            if 0 < x < radius:
                # Decreasing function
                p = strength ** (x / radius)
                # Weighted average
                u_out""")],
    PRE + '''
from shapely.geometry import Polygon, LineString
from crowddynamics.simulation.field import Field
def field():
    return Field(domain=Polygon([(0, 0), (4, 0), (4, 4), (0, 4)]), targets=[LineString([(4, 0), (4, 4)])], obstacles=LineString([(0.1, 0.5), (3.9, 0.5)]))
f, g = field(), field()
g.navigation_to_target(0, 0.25, 1.0, 0.5)
a, b = f.navigation_to_target(0, 0.25, 1.0, 0.3)[2], g.navigation_to_target(0, 0.25, 1.0, 0.3)[2]
assert np.array_equal(np.nan_to_num(np.ma.filled(a[1], 7)), np.nan_to_num(np.ma.filled(b[1], 7)))
''', 'two navigation maps of one field with different strength', 'the cached distances to the obstacles are negated by each use, so every second map ignores the obstacles', stubs=True)

bug('field-np-int-index', 'P18', [('crowddynamics/simulation/field.py',
    "        if isinstance(index, (int, np.int64)):\n", "        if type(index) is int:\n")],
    PRE + '''
from shapely.geometry import Polygon, LineString
from crowddynamics.simulation.field import Field
f = Field(domain=Polygon([(0, 0), (4, 0), (4, 4), (0, 4)]), targets=[LineString([(4, 0), (4, 4)])])
f.navigation_to_target(np.int64(0), 0.25, 1.0, 0.3)
''', 'the index of a target that comes from an array of agents', 'numpy integers are rejected as target index', stubs=True)

bug('sample-signed-area', 'P19', [('crowddynamics/core/geom2D.py', "    return 0.5 * abs(area)\n", "    return 0.5 * area\n")],
    PRE + '''
from crowddynamics.core.sampling import triangle_area_cumsum
t = np.array([[(0, 0), (1, 0), (0, 1)], [(1, 1), (1, 0), (0, 1)]], dtype=float)
assert np.allclose(np.abs(np.diff(triangle_area_cumsum(t), prepend=0)), 0.5)
assert np.allclose(triangle_area_cumsum(t), (0.5, 1.0)), triangle_area_cumsum(t)
''', 'a mesh with triangles of both orientations', 'areas of triangles given clockwise count negative', stubs=True)

bug('sample-clock-phase', 'P19', [('crowddynamics/core/rand.py', "    t_tot = np.random.exponential(scale=interval)\n    while", "    t_tot = np.random.uniform(0.0, interval)\n    while")],
    PRE + '''
from crowddynamics.core.rand import poisson_clock
np.random.seed(1)
n = sum(not list(poisson_clock(1.0, 1.0)) for _ in range(2000))
assert 600 < n < 870, n          # exp(-1) of the windows stay empty
''', 'statistics of windows that are about as long as the interval', 'the first update always comes within one interval: the process is not memoryless', stubs=True)

SIMU = PRE + '''
import os, tempfile
from shapely.geometry import Polygon, LineString
from crowddynamics.simulation.field import Field
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from crowddynamics.simulation.agents import Agents, Circular
from crowddynamics.simulation import logic
def simulation(n=1, targets=()):
    s = MultiAgentSimulation()
    s.field = Field(domain=Polygon([(0, 0), (8, 0), (8, 4), (4, 4), (4, 8), (0, 8)]), targets=list(targets))
    s.agents = Agents(agent_type=Circular)
    s.agents.array = np.zeros(n, dtype=Circular.dtype())
    s.agents.array['active'] = True
    return s
'''

bug('arrival-hull-domain', 'P20', [('crowddynamics/simulation/logic.py', "        self.domain_path = Path(np.asarray(field.domain.exterior))", "        self.domain_path = Path(np.asarray(field.domain.convex_hull.exterior))")],
    SIMU + '''
s = simulation()
s.agents.array['position'] = 5, 5
logic.InsideDomain(s).update()
assert not s.agents.array['active'][0]
''', 'a domain that is not convex and an agent in the notch', 'agents in a notch of the domain stay active', stubs=True)

bug('arrival-never-back', 'P20', [('crowddynamics/simulation/logic.py', """        change = agents['active'] ^ new_state
        agents['active'] = new_state
""", """        change = agents['active'] & ~new_state
        agents['active'] &= new_state
""")],
    SIMU + '''
s = simulation()
node = logic.InsideDomain(s)
for x, active, count in [(1, True, 0), (-1, False, 1), (1, True, 2)]:
    s.agents.array['position'] = x, 1
    node.update()
    assert bool(s.agents.array['active'][0]) == active
    assert s.data['inactive'] == count
''', 'an agent that leaves the domain and comes back', 'agents that come back stay inactive', stubs=True)

bug('recorder-last-before', 'P21', [('crowddynamics/simulation/logic.py', """        self.save_data_csv.send(self.simulation.data)
        self.save_data_csv.send(save)
""", """        self.save_data_csv.send(self.simulation.data)
        self.save_data_csv.send(save and self.simulation.data['iterations'] > 0)
""")],
    SIMU + '''
with tempfile.TemporaryDirectory() as d:
    s = simulation()
    s.logic = logic.Reset(s)
    node = logic.SaveSimulationData(s, save_condition=lambda sim: True, base_directory=d, save_directory='run')
    node.add_to_simulation_logic()
    s.update()
    assert sorted(os.listdir(os.path.join(d, 'run'))) == ['agents_0.npy', 'data.csv', 'geometry.json', 'metadata.csv'], os.listdir(os.path.join(d, 'run'))
''', 'a flush in the very first step and a stop before the next one', 'agents are flushed without their data', stubs=True)

bug('recorder-late-path', 'P21', [('crowddynamics/simulation/logic.py', """        return os.path.join(os.path.abspath(self.base_directory),
                            self.save_directory)""", """        return os.path.normpath(os.path.join(self.base_directory,
                                             self.save_directory))""")],
    SIMU + '''
with tempfile.TemporaryDirectory() as d:
    here = os.getcwd()
    os.chdir(d)
    s = simulation()
    s.logic = logic.Reset(s)
    logic.SaveSimulationData(s, save_condition=lambda sim: True, save_directory='run').add_to_simulation_logic()
    os.mkdir('x')
    os.mkdir('x/run')
    os.chdir('x')
    s.update()
    os.chdir(here)
    assert os.path.exists(os.path.join(d, 'run', 'agents_0.npy')) and not os.listdir(os.path.join(d, 'x', 'run'))
''', 'a relative base directory and a change of the working directory during the run', 'records go to another directory than metadata and geometry', stubs=True)

bug('breakup-no-perimeter', 'P22', [('crowddynamics/core/geometry.py', "        x, y = skimage.draw.polygon_perimeter(i[:, 0], i[:, 1])\n", "")],
    PRE + '''
from shapely.geometry import Polygon
from crowddynamics.core.geometry import draw_geom
from crowddynamics.core.steering.quickest_path import meshgrid
g = meshgrid(1.0, 0, 0, 5, 5)
a = np.zeros(g.shape)
draw_geom(Polygon([(1, 2), (4, 2), (4, 3), (1, 3)]), a, g.indicer, 1)
assert a[2, 1:5].all() and a[3, 1:5].all() and a.sum() == 8, a
''', 'a wall that is one step of the mesh thick', 'the border of polygons is not drawn, thin walls vanish from the navigation', stubs=True)

bug('breakup-hull-elif', 'P22', [('crowddynamics/simulation/field.py', """        if self.targets:
            field |= union(*self.targets)
        if self.spawns:
            field |= union(*self.spawns)
""", """        if self.targets:
            field |= union(*self.targets)
        elif self.spawns:
            field |= union(*self.spawns)
""")],
    PRE + '''
from shapely.geometry import Polygon, LineString
from crowddynamics.simulation.field import Field
f = Field(domain=Polygon([(0, 0), (9, 0), (9, 9), (0, 9)]), targets=[LineString([(8, 0), (9, 4)])], spawns=[Polygon([(0, 0), (3, 0), (0, 3)])])
assert f.convex_hull().bounds[0] == 0, f.convex_hull().bounds
''', 'a field that has targets and spawns', 'spawns are left out of the convex hull', stubs=True)

bug('density-one-per-cell', 'P23', [('crowddynamics/core/quantities.py', "    for i, j in zip(x, y):\n", "    for i, j in set(zip(x, y)):\n")],
    PRE + '''
from crowddynamics.core.quantities import density_classical
d = density_classical(np.array([(0.5, 0.5), (0.25, 0.5), (1.5, 0.5)]), 1.0)
assert d.tolist() == [[2], [1]], d
''', 'two agents in one cell', 'cells are only occupied or free', stubs=True)

bug('density-ridge-side', 'P23', [('crowddynamics/core/quantities.py', "            direction = np.sign(np.dot(midpoint - center, n)) * n\n", "            direction = np.sign(np.dot(vor.vertices[v2] - center, n)) * n\n")],
    PRE + '''
from crowddynamics.core.quantities import density_voronoi_1
p = np.array([(x, y) for x in (0., 2., 8.) for y in (0., 4.)])
d = density_voronoi_1(p, 4.0) * 16
def part(a, b, i):
    return max(0, min(b, 4 * i + 4) - max(a, 4 * i))
xi, yi = [(0, 1), (1, 5), (5, 8)], [(0, 2), (2, 4)]
for i in range(2):
    for j in range(1):
        want = sum(part(*a, i) * part(*b, j) / ((a[1] - a[0]) * (b[1] - b[0])) for a in xi for b in yi)
        assert np.isclose(d[i, j], want), (i, j, d[i, j], want)
''', 'a Voronoi vertex on the other side of the centre of the crowd than its infinite ridge', 'unbounded cells are closed on the wrong side', stubs=True)
bug('traits-excluded-class-ends', 'P24', [('crowddynamics/traits.py', "        if callable(exclude_cls) and exclude_cls(c):\n            continue\n", "        if callable(exclude_cls) and exclude_cls(c):\n            break\n")],
    PRE + '''
import traitlets
from crowddynamics.traits import class_to_struct_dtype
class A(traitlets.HasTraits):
    a = traitlets.Int()
class B(A):
    b = traitlets.Float()
class C(B):
    c = traitlets.Bool()
assert class_to_struct_dtype(C, None, None).names == ('c', 'b', 'a')
assert class_to_struct_dtype(C, None, lambda k: k is B).names == ('c', 'a')
''', 'an excluded class which has a base class with traits', 'traits of the bases of an excluded class are missing from the struct', stubs=True)
bug('traits-mro-two-levels', 'P24', [('crowddynamics/traits.py', "    for c in inspect.getmro(cls):\n", "    for c in (cls,) + cls.__bases__:\n")],
    PRE + '''
import traitlets
from crowddynamics.traits import class_traits
class A(traitlets.HasTraits):
    a = traitlets.Int()
class B(A):
    b = traitlets.Float()
class C(B):
    c = traitlets.Bool()
assert [n for n, _ in class_traits(B)] == ['b', 'a']
assert [n for n, _ in class_traits(C)] == ['c', 'b', 'a']
''', 'a class three or more levels away from the class that declares the trait', 'traits of grandparents are missing', stubs=True)
CLI = PRE + '''
import json, os, sys, tempfile
sys.dont_write_bytecode = True
top = tempfile.mkdtemp()
os.chdir(top)
with open('log.json', 'w') as fp:
    json.dump({'version': 1, 'disable_existing_loggers': False, 'handlers': {}, 'loggers': {'crowddynamics': {'level': 'INFO'}}}, fp)
os.environ.update(LOG_CFG=os.path.join(top, 'log.json'), LC_ALL='C.UTF-8', LANG='C.UTF-8')
with open('sims.py', 'w') as fp:
    fp.write("""
import logging
from traitlets import Int
from crowddynamics.simulation.multiagent import MultiAgentSimulation
class First(MultiAgentSimulation):
    size = Int(3, min=1)
    def run(self):
        print('RUN', type(self).__name__, self.size, logging.getLogger('crowddynamics').level)
class Second(First):
    pass
""")
from click.testing import CliRunner
from crowddynamics import cli
def call(*argv):
    r = CliRunner().invoke(cli.main, list(argv))
    assert r.exit_code == 0, (r.output, r.exception)
    return [x.split()[1:] for x in r.output.splitlines() if x.startswith('RUN')]
'''
bug('cli-direct-subclasses', 'P25', [('crowddynamics/utils.py', "        return issubclass(obj, cls) and obj is not cls\n", "        return cls in obj.__bases__\n")],
    CLI + '''
assert call('run', 'First', '--size', '4') == [['First', '4', '20']]
assert call('run', 'Second', 'First') == [['Second', '3', '20'], ['First', '3', '20']]
''', 'a simulation class that extends another simulation class', 'simulations that extend other simulations are neither listed nor can be run', stubs=True)
bug('cli-level-dropped', 'P25', [('crowddynamics/cli.py', "    setup_logging(loglevel)\n", "    setup_logging()\n")],
    CLI + '''
assert call('run', 'First') == [['First', '3', '20']]
assert call('run', '--loglevel', 'ERROR', 'First') == [['First', '3', '40']]
''', 'a log level different from the default', 'the given log level has no effect', stubs=True)
bug('cli-concat-elsewhere', 'P25', [('crowddynamics/cli.py', "    np.save(os.path.join(path, basename + '.npy'), arr)\n", "    np.save(basename + '.npy', arr)\n")],
    CLI + '''
import numpy as np
os.mkdir('data')
np.save('data/a_0.npy', np.array([[1, 2]]))
np.save('data/a_1.npy', np.array([[3, 4]]))
call('concat_npy', '-d', 'data', '-n', 'a')
assert np.load('data/a.npy').tolist() == [[1, 2], [3, 4]]
''', 'a directory other than the current one', 'the concatenated file is written to the current directory', stubs=True)
bug('cwd-not-on-error', 'P26', [('crowddynamics/utils.py', "    try:\n        os.chdir(directory)\n        yield\n    finally:\n        os.chdir(curdir)\n", "    os.chdir(directory)\n    yield\n    os.chdir(curdir)\n")],
    PRE + '''
import os, tempfile
from crowddynamics.utils import remember_cwd
top = os.path.realpath(tempfile.mkdtemp())
os.mkdir(os.path.join(top, 'a'))
os.chdir(top)
with remember_cwd('a'):
    assert os.getcwd() == os.path.join(top, 'a')
assert os.getcwd() == top
try:
    with remember_cwd('a'):
        raise KeyError('x')
except KeyError:
    pass
assert os.getcwd() == top
''', 'an error raised inside the context', 'the working directory is not restored', stubs=True)
bug('callables-stop-at-missing', 'P26', [('crowddynamics/config.py', "            for funcname in configs['functions']:\n                try:\n", "            for funcname in configs['functions'][:1] + [\n                    f for f in configs['functions'][1:] if f not in conf]:\n                try:\n")],
    PRE + '''
import os, tempfile, warnings
warnings.simplefilter('ignore')
from crowddynamics.config import import_simulation_callables
top = tempfile.mkdtemp()
with open(os.path.join(top, 'm.py'), 'w') as fp:
    fp.write('def f():\\n    return 1\\n\\n\\ndef g():\\n    return 2\\n')
def names(text):
    with open(os.path.join(top, 'c.cfg'), 'w') as fp:
        fp.write(text)
    return [(n, f()) for n, f in import_simulation_callables(os.path.join(top, 'c.cfg'))]
assert names('[simulations]\\n[[one]]\\npath = m.py\\nfunctions = f, g\\n') == [('f', 1), ('g', 2)]
assert names('[simulations]\\n[[g]]\\npath = m.py\\nfunctions = f, g\\n') == [('f', 1), ('g', 2)]
''', 'a function with the same name as a section of the configuration, not first in its list', 'that function is not listed', stubs=True)
bug('signature-falsy-default', 'P26', [('crowddynamics/utils.py', "    return None if value is inspect._empty else value\n", "    return None if value is inspect._empty or not value else value\n")],
    PRE + '''
from crowddynamics.utils import parse_signature
def f(a=1, b=0, c=False, d=None):
    pass
assert [(x.name, x.default) for x in parse_signature(f)] == [('a', 1), ('b', 0), ('c', False), ('d', None)]
assert list(parse_signature(f))[2].default is False
''', 'arguments whose default is zero, false or empty', 'their default reads as None', stubs=True)
bug('vector-wrap-minus-pi', 'P27', [('crowddynamics/core/vector2D.py', "    if rad < 0 and rad_ == np.pi:\n        # negative multiples of pi map to −pi\n        return -np.pi\n    elif rad_ > np.pi:\n", "    if rad_ >= np.pi:\n")],
    PRE + '''
from crowddynamics.core.vector2D import wrap_to_pi
for x in (0.0, 1.0, -1.0, 3.0, -3.0):
    assert abs(wrap_to_pi(x) - x) < 1e-12
    assert abs(wrap_to_pi(x + 4 * np.pi) - x) < 1e-12
assert wrap_to_pi(-np.pi) == -np.pi
assert wrap_to_pi(np.pi) == np.pi
''', 'an angle of exactly pi', 'pi comes out as -pi: an agent that looks exactly backwards flips its orientation', stubs=True)
bug('vector-truncate-square', 'P27', [('crowddynamics/core/vector2D.py', "    vlen = length(v)\n    if vlen > l:\n        v *= l / vlen\n", "    vlen = v[0] * v[0] + v[1] * v[1]\n    if vlen > l:\n        v *= l / np.sqrt(vlen)\n")],
    PRE + '''
from crowddynamics.core.vector2D import truncate
def cut(v, l):
    v = np.array(v)
    truncate(v, l)
    return np.hypot(*v)
assert np.isclose(cut([30., 40.], 5.0), 5.0)
assert np.isclose(cut([.3, .4], 5.0), .5)
assert np.isclose(cut([3., 4.], 10.0), 5.0)
assert np.isclose(cut([.6, .8], .5), .5)
''', 'a limit between the length and its square', 'vectors shorter than the limit are made longer, to the limit', stubs=True)
bug('dist-other-radius', 'P28', [('crowddynamics/core/distance.py', "    r_moment1 = x1[j_min] - r1[j_min] * normal - x1[0]\n", "    r_moment1 = x1[j_min] - r1[i_min] * normal - x1[0]\n")],
    PRE + '''
from crowddynamics.core.distance import distance_three_circles
def body(x, y):
    return (np.array([x, y]), np.array([x, y + .3]), np.array([x, y - .3]))
r = (.25, .1, .1)
def arm(a, b):
    h, n, m0, m1 = distance_three_circles(a, r, b, r)
    return h, m1
# torso to torso, shoulder to shoulder
h, m = arm(body(0., 0.), body(1., 0.))
assert np.isclose(h, .5) and np.allclose(m, [.25, 0])
# the shoulder of the first one is nearest to the torso of the second
a = (np.array([0., 0.]), np.array([.3, 0.]), np.array([-.3, 0.]))
h, m = arm(a, body(1., 0.))
assert np.isclose(h, .35) and np.allclose(m, [.25, 0]), m
''', 'the nearest parts are the shoulder of one agent and the torso of the other', 'the moment arm of the second agent has the radius of the wrong part: its torque is wrong', stubs=True)
bug('dist-wall-end-late', 'P28', [('crowddynamics/core/distance.py', "    elif l_t < -l_w:\n", "    elif l_t < -(l_w + r):\n")],
    PRE + '''
from crowddynamics.core.distance import distance_circle_line
p, q = np.array([0., 0.]), np.array([4., 0.])
for x, h, n in (([2., 1.], .5, [0, 1]), ([-3., 4.], 4.5, [-.6, .8]), ([7., 4.], 4.5, [.6, .8]), ([4.03, .04], -.45, [.6, .8]), ([-.03, .04], -.45, [-.6, .8])):
    for a, b in ((p, q), (q, p)):
        got = distance_circle_line(np.array(x), .5, a, b)
        assert np.isclose(got[0], h) and np.allclose(got[1], n), (x, got)
''', 'an agent beyond the second end of a wall by less than its radius', 'it is pushed as if the wall were longer', stubs=True)
bug('nav-fill-walls', 'P17', [('crowddynamics/core/steering/quickest_path.py', "    draw_geom(obstacles, mask, mgrid.indicer, True)\n    fill_missing", "    draw_geom(obstacles_buffered, mask, mgrid.indicer, False)\n    fill_missing")],
    PRE + '''
from shapely.geometry import LineString, Polygon
from crowddynamics.core.steering.quickest_path import meshgrid, shortest_path
d = Polygon([(0, 0), (6, 0), (6, 6), (0, 6)])
g = meshgrid(.5, *d.bounds)
(u, v), m = shortest_path(g, d, LineString([(0, 0), (0, 6)]), LineString([(3, 2), (3, 6)]), .6)
assert not np.isnan(np.asarray(u[4:9, 5].filled(np.nan))).any()
assert u.mask[6, 6] and u.mask[10, 6]
''', 'cells of an obstacle', 'the direction field is defined inside obstacles too', stubs=True)
bug('follow-memory-any', 'P16', [('crowddynamics/core/steering/collective_motion.py', "                if leader != NO_LEADER and leader == j:\n", "                if leader != NO_LEADER:\n")],
    PRE + '''
from crowddynamics.core.steering.collective_motion import leader_follower_interaction_brute
from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.simulation.agents import NO_TARGET
walls = np.array([((1., -1.), (1., .5))], dtype=obstacle_type_linear)
def choice(memory):
    pos = np.array([[0., 0.], [2., 0.], [0., 3.]])
    vel = np.array([[0., 1.], [1., 0.], [0., 1.]])
    target, led = np.array([NO_TARGET, 0, 1]), np.array([memory, 0, 0])
    d, has = leader_follower_interaction_brute(np.array([True, False, False]), np.array([False, True, True]), pos, vel, .4, .45 * np.pi, target, led, walls, 20.)
    return bool(has[0]), int(target[0]), d[0].tolist(), int(led[0])
# the nearest leader (1) is hidden; the other one (2) is seen
assert choice(1)[:2] == (True, 0)
assert choice(2) == (True, NO_TARGET, [0., 1.], 2), choice(2)
''', 'a follower with a remembered leader in sight and another, nearer leader that is hidden', 'the follower stops following the leader it sees', stubs=True)
bug('vector-wrap-odd', 'P27', [('crowddynamics/core/vector2D.py', "    if rad < 0 and rad_ == np.pi:\n", "    if rad == -np.pi:\n")],
    PRE + '''
from crowddynamics.core.vector2D import wrap_to_pi
assert wrap_to_pi(np.pi) == np.pi and wrap_to_pi(-np.pi) == -np.pi
assert wrap_to_pi(3 * np.pi) == np.pi
assert wrap_to_pi(-3 * np.pi) == -np.pi
''', 'an angle of minus three pi', 'it comes out as pi instead of -pi', stubs=True)
bug('breakup-ring-open', 'P22', [('crowddynamics/core/geometry.py', "        return zip(geom.coords[:-1], geom.coords[1:])\n", "        coords = list(geom.coords)\n        if coords[0] == coords[-1] and len(coords) > 5:\n            coords = coords[:-1]\n        return zip(coords[:-1], coords[1:])\n")],
    PRE + '''
from shapely.geometry import Polygon, LineString, LinearRing
from crowddynamics.core.geometry import geom_to_linesegment
for c in ([(0, 0), (4, 0), (0, 3)], [(0, 0), (4, 0), (4, 4), (0, 4)], [(0, 0), (4, 0), (6, 2), (4, 4), (0, 4)]):
    for g in (Polygon(c), LinearRing(c), LineString(c + c[:1])):
        assert len(list(geom_to_linesegment(g))) == len(c), (g, c)
''', 'a closed line or polygon with at least five corners', 'its last wall is missing: agents walk through', stubs=True)
bug('recorder-existing-directory', 'P21', [('crowddynamics/simulation/logic.py', "        os.makedirs(self.full_path, exist_ok=True)\n", "        os.makedirs(self.full_path)\n")],
    SIMU + '''
from crowddynamics.simulation.logic import SaveSimulationData
with tempfile.TemporaryDirectory() as d:
    for i, sub in enumerate(('a', 'b/c', 'a')):
        s = simulation()
        SaveSimulationData(s, save_condition=lambda _: True, base_directory=d, save_directory=sub)
        assert os.path.exists(os.path.join(d, sub, 'geometry.json'))
''', 'a second recorder for a directory that exists already', 'the simulation cannot be recorded there', stubs=True)
bug('density-tangent-length', 'P23', [('crowddynamics/core/quantities.py', "            t /= np.linalg.norm(t)\n", "            t /= np.abs(t).max() + np.abs(t).min() + 1e-3\n")],
    PRE + '''
from crowddynamics.core.quantities import density_voronoi_1, density_voronoi_2
p = np.array([[0., 0.], [4., 1.], [1., 5.], [6., 6.], [3., 3.]])
for h in (density_voronoi_1, density_voronoi_2):
    f = 2.0 ** -10
    a, b = h(p, 2.0), h(p * f, 2.0 * f) * f * f
    assert a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-9), (a, b)
''', 'a crowd measured in small units', 'the area of agents at the edge depends on the unit of length', stubs=True)
bug('crowd-walls-once', 'P12', [('crowddynamics/simulation/logic.py', """        if self.simulation.field.obstacles is None:
            obstacles = np.zeros(shape=0, dtype=obstacle_type_linear)
        else:
            obstacles = geom_to_linear_obstacles(
                self.simulation.field.obstacles)
        agent_obstacle(agents, obstacles)
""", """        obstacles = getattr(self, '_walls', None)
        if obstacles is None:
            obstacles = self._walls = geom_to_linear_obstacles(
                self.simulation.field.obstacles)
        agent_obstacle(agents, obstacles)
""")],
    SIMU + '''
s = simulation()
a = s.agents.array
a['radius'], a['mass'], a['mu'], a['position'] = .5, 80.0, 1e5, (1.0, 1.0)
node = logic.AgentObstacleInteractions(s)
def push(walls):
    s.field.obstacles = walls
    a['force'] = 0
    node.update()
    return bool(np.any(a['force'] != 0))
assert push(LineString([(0, .75), (2, .75)]))
assert not push(LineString([(0, 7), (2, 7)]))
assert push(LineString([(0, 1.25), (2, 1.25)]))
''', 'a simulation whose walls change while it runs', 'agents collide with the walls that were there at the first step', stubs=True)
bug('option-no-maximum', 'P24', [('crowddynamics/traits.py', "                                type=click.IntRange(trait.min, trait.max))\n", "                                type=click.IntRange(trait.min, trait.max and trait.max + 1))\n")],
    PRE + '''
import click
from click.testing import CliRunner
from traitlets import Int
from crowddynamics.traits import trait_to_option
got = []
c = click.Command('c', params=[trait_to_option('n', Int(2, min=1, max=4))], callback=lambda n: got.append(n))
run = lambda *a: CliRunner().invoke(c, list(a)).exit_code
assert [run('--n', str(v)) for v in (1, 4, 0)] == [0, 0, 2]
assert run('--n', '5') == 2 and run() == 0 and got == [1, 4, 2]
''', 'a value just above the maximum of a trait', 'the command line accepts it', stubs=True)
bug('aspect-empty-height', 'P30', [('crowddynamics/visualizations.py', "    height = 1.0 if height <= 0 else height\n", "    height = width if height <= 0 else height\n")],
    PRE + '''
from bokeh.plotting import Figure
from crowddynamics.visualizations import set_aspect
def size(x, y, **kw):
    fig = Figure(plot_width=600, plot_height=300)
    set_aspect(fig, x, y, **kw)
    return [fig.x_range.end - fig.x_range.start, fig.y_range.end - fig.y_range.start]
assert np.allclose(size((0, 8), (0, 2)), [9.6, 4.8])
assert np.allclose(size((1, 1), (0, 4)), [9.6, 4.8])
assert np.allclose(size((0, 4), (1, 1), margin=0), [4, 2])
assert np.allclose(size((0, 4), (1, 1), aspect=.25, margin=0), [4, 8])
assert np.allclose(size((0, 4), (1, 1), aspect=2, margin=0), [4, 1])
''', 'data on a horizontal line on a figure wider than high', 'far more than the data is shown', stubs=True)
bug('plot-nested-legend', 'P30', [('crowddynamics/visualizations.py', """        for item in geom:
            add_geom(fig, item, **kwargs)
""", """        legend = kwargs.pop('legend', None)
        for i, item in enumerate(geom):
            if legend is not None and i == 0:
                kwargs['legend'] = legend
            add_geom(fig, item, **kwargs)
            kwargs.pop('legend', None)
""")],
    PRE + '''
from bokeh.plotting import Figure
from shapely.geometry import LineString, MultiLineString
from crowddynamics.visualizations import add_geom
fig = Figure()
add_geom(fig, LineString([(0, 0), (1, 1)]), legend='a')
add_geom(fig, MultiLineString([LineString([(0, 0), (1, 1)]), LineString([(2, 0), (1, 1)])]), legend='b')
assert [s.get('legend') for _, _, s in fig.glyphs] == ['a', 'b', 'b'], fig.glyphs
''', 'a geometry of several parts in a plot with a legend', 'hiding its entry leaves all but one part of it on the plot', stubs=True)
bug('arrows-length-once', 'P30', [('crowddynamics/visualizations.py', "    y1 = y0 + 0.9 * freq * mgrid.step * V[::freq, ::freq].flatten()\n", "    y1 = y0 + 0.9 * 2 * mgrid.step * V[::freq, ::freq].flatten()\n")],
    PRE + '''
from bokeh.plotting import Figure
from crowddynamics.core.steering.quickest_path import meshgrid
from crowddynamics.visualizations import add_direction_map
m = meshgrid(0.5, 0.0, 0.0, 4.0, 3.0)
U, V = np.full(m.shape, .6), np.full(m.shape, .8)
for freq in (2, 1, 3):
    fig = Figure()
    add_direction_map(fig, m, (U, V), freq=freq)
    d = [d for n, d, _ in fig.glyphs if n == 'segment'][0]
    assert np.allclose(d['x1'] - d['x0'], .9 * freq * .5 * .6), freq
    assert np.allclose(d['y1'] - d['y0'], .9 * freq * .5 * .8), freq
''', 'a frequency of arrows other than the default', 'arrows point in a wrong direction', stubs=True)
bug('figure-extension', 'P30', [('crowddynamics/visualizations.py', "    if ext != '.html':\n", "    if not ext:\n")],
    PRE + '''
import tempfile, os, bokeh
from crowddynamics.visualizations import figure
for name, file in (('a', 'a.html'), ('b.html', 'b.html'), ('run.1', 'run.1.html')):
    del bokeh.LOG[:]
    with figure(name, save=True) as p:
        pass
    assert bokeh.LOG[0][1] == file, bokeh.LOG
''', 'a name with a dot in it', 'the picture is written into a file that no browser opens', stubs=True)
bug('runs-doors-remembered', 'P31', [('crowddynamics/simulation/logic.py', """        center_door = np.stack([
            np.mean(np.asarray(target), axis=0) for target in field.targets])
""", """        if not hasattr(self, 'doors'):
            self.doors = np.stack([
                np.mean(np.asarray(target), axis=0) for target in field.targets])
        center_door = self.doors
""")],
    SIMU + '''
def run(first):
    s = simulation(1, [LineString([(0, 0), (0, 1)])])
    s.agents.array['position'] = 3, 3
    node = logic.ExitDetection(s, detection_range=2.0)
    if first:
        node.update()
    s.field.targets = [LineString([(2, 3), (2, 4)])]
    s.agents.array['is_follower'] = True
    node.update()
    return bool(s.agents.array['is_follower'][0])
assert run(False) == run(True) == False
''', 'exits of a field that change after the first step', 'followers look for the exits that were there first: a copy made midway goes another way', stubs=True)
bug('runs-maps-overwritten', 'P31', [('crowddynamics/core/steering/obstacle_handling.py', "    u_out, v_out = np.copy(u2), np.copy(v2)\n", "    u_out, v_out = u2, v2\n")],
    SIMU + '''
def field():
    return Field(domain=Polygon([(0, 0), (4, 0), (4, 3), (0, 3)]), targets=[LineString([(0, 1), (0, 2)])], obstacles=LineString([(2, 1), (2, 2)]))
a, b = field(), field()
a.navigation_to_target(0, .25, .5, .9)
x, y = a.navigation_to_target(0, .25, .5, .3)[2]
u, v = b.navigation_to_target(0, .25, .5, .3)[2]
assert np.array_equal(np.ma.filled(x, 9), np.ma.filled(u, 9), equal_nan=True) and np.array_equal(np.ma.filled(y, 9), np.ma.filled(v, 9), equal_nan=True)
''', 'maps asked for with one strength of avoidance and then with another', 'what was asked before shows in the directions of the agents', stubs=True)
bug('runs-neighbour-once', 'P31', [('crowddynamics/core/steering/collective_motion.py', "        if l < distances_max[j]:\n", "        elif l < distances_max[j]:\n")],
    PRE + '''
from crowddynamics.simulation.agents import Agents, Circular
from crowddynamics.core.steering.collective_motion import leader_follower_with_herding_interaction as herd
from crowddynamics.core.structures import obstacle_type_linear
X = [(0., 0.), (1., 0.), (2.2, .3), (2., 1.)]
def directions(order):
    a = np.zeros(4, dtype=Circular.dtype())
    for r, i in zip(a, order):
        r['position'], r['velocity'], r['is_follower'], r['index_leader'] = X[i], (1, .1 * i), True, -1
    d = herd(a, np.zeros(0, dtype=obstacle_type_linear), 10.0, 2)
    return [tuple(np.round(d[order.index(i)], 9)) for i in range(4)]
assert directions([0, 1, 2, 3]) == directions([3, 1, 0, 2]) == directions([3, 2, 1, 0])
''', 'herding agents listed in another order', 'the way of the herd depends on the order in which agents are listed', stubs=True)
