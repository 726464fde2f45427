TC = 'TLA+/TLC: exhaustive design model, model-generated transition tours replayed on the real code, trace validation'

prop('P01', 'c_sphash', 'Spatial hash: queries return exactly what was stored nearby',
     'After any history of insertions, looking up a point returns exactly the values stored in its cell (cell index = '
     'floor of coordinate / cell size per dimension, in insertion order), and a neighbourhood query returns, as a multiset, exactly the values in '
     'the cells within the radius in every dimension - so never misses anything within radius cell lengths. '
     'Queries change nothing, hand out results the caller may modify, and grids share nothing; '
     'a key that is not an iterable of numbers is rejected with KeyError and changes nothing.',
     ['histories', 'inputs', 'configurations'], 'every history of insertions and queries, in 1-3 dimensions, negative and '
     'boundary coordinates, any cell size, radius, container type and number of grids',
     'the test inserts random points near the origin and makes one query that covers all of them: it passes if cells are '
     'mis-assigned, neighbours outside are returned, or a query leaves something behind',
     ['crowddynamics/core/block_list.py'], [('floor-division cell keys, per-instance dictionary of containers', 'MutableBlockList._transform, __setitem__, __getitem__'),
                                            ('product of per-dimension index ranges', 'MutableBlockList._nearest_blocks, nearest')],
     TC, 'Model-checked design (<= 3 insertions, 1-2 dims), every transition of it replayed on the real class, plus seeded '
     'random histories in 1-3 dims; judged by TLC on dyadic coordinates where cell indices are exact. Containers: list, '
     'SortedList (appends in order, as that container requires), array.',
     [('blocks', 'values per cell', 'MutableBlockList')], ['return values of lookups and neighbourhood queries'])

prop('P02', 'c_npystore', 'Array store: chunks hold exactly the flushed rows, loaded in order',
     'Every flush writes one new numbered file holding exactly the rows received since the previous flush, with the values they had when '
     'they were sent; without a flush nothing reaches the disk, and an abandoned writer loses at most its unflushed rows. '
     'Loading a basename returns its chunks in numeric order (also past ten) and nothing else, '
     'whatever other files share the directory or parts of the name.',
     ['histories', 'crash_points', 'inputs'], 'every interleaving of frames, flush flags, in-place reuse of the sent '
     'array, abandonment and foreign files, for any basenames',
     'the test stores the same zero array four times under one basename: order, values, chunk numbering beyond 1, aliasing and '
     'foreign files are never distinguished',
     ['crowddynamics/io.py'], [('buffering coroutine with running chunk index', 'save_npy'), ('exact file-name match and numeric sort', 'find_npy_files, load_npy, load_npy_concatenated')],
     TC, 'Model-checked design; after every event the complete directory content is compared with the model state. numpy save/load are trusted.',
     [('buffer', 'frames since the last flush', 'save_npy')], ['files in the directory', 'load functions'])

prop('P03', 'c_csvstore', 'Table store: header once, every record once and in order, append only',
     'A table writer puts the keys of its first record as a header once and then each record exactly once and in order, as it was when it was sent; '
     'records reach the file at the next flush and not before. Existing file content is never altered, and writers do not disturb each other.',
     ['histories', 'crash_points', 'inputs'], 'every interleaving of records, flush flags, abandonment and several writers on the same or different files, with values that need quoting',
     'no test exercises the table store', ['crowddynamics/io.py'], [('in-memory csv writer, appended and truncated on flush', 'save_csv')],
     TC, 'Model-checked design; the parsed content of every file is compared with the model state after every event. The csv module is trusted.',
     [('buffer', 'lines since the last flush', 'save_csv')], ['file content'])

prop('P04', 'c_logictree', 'Logic tree: construction, injection, lookup and evaluation order',
     'Adding children keeps them in the order added; injecting a node before another puts it between that node and its parent, '
     'injecting after puts it between that node and all its former children; no node is ever lost or duplicated. '
     'Lookup by name from any node finds the first match in pre-order of the whole tree or raises KeyError; '
     'one simulation step evaluates every node of the tree exactly once, children before parents and siblings in order, from whichever node the simulation refers to.',
     ['histories', 'programs'], 'every sequence of tree operations on any forest of nodes, with equal names and repeated adds',
     'the test builds one three-level tree and looks at three children; injection, lookup and evaluation are not exercised',
     ['crowddynamics/simulation/base.py', 'crowddynamics/simulation/multiagent.py'],
     [('re-parenting of anytree nodes', 'LogicNodeBase.add_children, __lshift__, inject_before, inject_after'), ('pre-order search from the root', 'LogicNodeBase.__getitem__'),
      ('post-order iteration from the root', 'MultiAgentSimulation.update')],
     TC, 'All forests over 3 (thorough: 4) nodes with every operation replayed on the real classes, plus random forests of up to 12 nodes. '
     'Operations that would create a cycle are outside the design. anytree is trusted.', None, ['parent/children of every node', 'order of node evaluations'])

prop('P05', 'c_simloop', 'Simulation loop: check, whole step, count - until told to stop',
     'A run evaluates the exit condition that is set at that time before every step (also before the first) and stops at the first true answer; without exit condition it only ends by an error. '
     'A step evaluates each logic node once and then counts one iteration; if a node raises, the error reaches the caller, later nodes are not evaluated and the iteration does not count, '
     'and the simulation can go on afterwards. Simulations start at iteration 0 and time 0 with their own data and metadata (name and timestamp).',
     ['histories', 'programs', 'fault_sequences'], 'every sequence of runs, single steps, planted node errors and tree changes',
     'the test only constructs the base class', ['crowddynamics/simulation/base.py', 'crowddynamics/simulation/multiagent.py'],
     [('exit-condition loop', 'SimulationBase.run'), ('post-order update and iteration counter', 'MultiAgentSimulation.update')],
     'TLA+/TLC: design with safety and liveness, exhaustive command pairs and random histories on the real code, trace validation of every small step',
     'Small-step design (check/evaluate/raise/count) model-checked with liveness; all pairs of commands on six trees plus random histories, every small step validated.',
     [('iterations', 'completed steps', "simulation.data['iterations']")], ['calls of the exit condition and of the nodes', 'simulation data'])

prop('P06', 'c_procstop', 'Worker process: a stop request ends it after the current step, marker last',
     'Once a stop is requested - at any moment, also before the start, and any number of times - the worker completes at most the step in progress, begins no further step, '
     'and ends. It then puts the end marker into the queue exactly once, after everything else; a library error in a step also ends the run in this way.',
     ['schedules', 'fault_sequences'], 'every point of the loop at which stop requests or library errors can arrive; real processes with asynchronous stops',
     'no test starts a worker process', ['crowddynamics/simulation/multiagent.py'], [('exit event polled as exit condition', 'MultiAgentProcess.run, stop'), ('end marker', 'MultiAgentProcess.EndProcess')],
     'TLA+/TLC: stop protocol with safety and liveness, requests planted at every point of the real loop, trace validation; real processes judged on what leaves the queue',
     'All arrival points within 3 steps of 1-3 nodes are driven in-process through the real run method; real forked processes are checked on their drained queue (end marker, whole steps, termination within 60 s).',
     [('exit', 'stop requested', 'MultiAgentProcess.exit')], ['queue content', 'process state'])

prop('P07', 'c_geostore', 'Geometry files: what was saved last is what is loaded',
     'Loading a geometry file returns, under the same names, the geometries of the last save to that file: single geometries of any kind (multipart ones stay one geometry), '
     'lists, dictionaries of geometries, or nothing (None). The file is one valid JSON document of GeoJSON geometries whatever was in the file before, and files do not affect each other.',
     ['histories', 'inputs'], 'every sequence of saves and loads on any number of files, all geometry kinds, nesting and names',
     'no test touches geometry files', ['crowddynamics/io.py'],
     [('conversion by kind of value', 'geometry_mapping, geometry_shape'), ('whole-file JSON', 'save_geometry_json, load_geometry_json')],
     TC, 'Model-checked design; after each event a plain JSON reader compares every file with the model. shapely mapping/shape are stand-ins.',
     [('file content', 'dictionary of the last save', 'geometry.json')], ['file content', 'load_geometry_json'])

prop('P08', 'c_placement', 'Placement: agents never overlap agents or obstacles, in order, bounded tries',
     'Adding a group places its members in order, each at the next offered position where its body overlaps no agent placed before (by any group) and no obstacle; shoulders and all attributes of a row belong to '
     'that member at that position. It gives up after ten rejected positions per member in total; the array then holds exactly the agents that were placed. '
     'Earlier rows are never altered, and a group of another agent type is rejected with CrowdDynamicsException without any effect.',
     ['histories', 'inputs'], 'every sequence of groups, bodies no wider than the cell size, positions, retries and obstacles, both agent types',
     'the test adds one random group and asserts True; it does not run without numba', ['crowddynamics/simulation/agents.py', 'crowddynamics/core/distance.py', 'crowddynamics/core/block_list.py'],
     [('rejection loop with spatial hash', 'Agents.add_non_overlapping_group'), ('body overlap', 'overlapping, overlapping_obstacles, distance functions')],
     TC, 'Design in exact integer geometry (model-checked on a line with walls); all its transitions and random 2-D histories run on the real class and judged row by row. '
     'Exactly touching bodies are only generated where floating point is exact. numba is a stand-in that runs the functions as Python.',
     [('rows', 'agents placed', 'Agents.array')], ['Agents.array', 'positions taken from the generator'])

prop('P09', 'c_bodytype', 'Agent attributes: body measures are consistent, records keep everything',
     'Selecting a body type once (selecting another one raises TraitError and changes no measure) fills in measures: radius, mass and target velocity that are not set are drawn once from mean +- scale; torso and shoulder measures are their ratios of the '
     'radius whenever radius or ratio changes; the rotational inertia 4 pi (m/80)(r/0.27)^2 is set when mass and radius are known and it was not given. Other values stay as given, invalid ones raise TraitError and change nothing, agents share no values. '
     'The array record of an agent holds all its attributes and from_array restores them exactly; it takes exactly one row.',
     ['histories', 'inputs', 'configurations'], 'every order of construction arguments and assignments, all attributes, both agent types, built-in and custom body types',
     'the tests construct one random agent and assert True', ['crowddynamics/simulation/agents.py', 'crowddynamics/traits.py'],
     [('observers', 'BodyType._observe_*'), ('trait validation', 'Body, States, shape_validator, length_validator'), ('structured record', 'AgentType.dtype, __array__, from_array; class_to_struct_dtype')],
     TC, 'Derivation rules as a relation in TLA+ (draws are nondeterministic in mean +- scale); model-checked on a small domain and every transition replayed; random histories over all attributes. '
     'Values are compared in units of 1e-4. scipy.stats.truncnorm is a stand-in.', None, ['attribute values', 'np.array(agent)'])

prop('P10', 'c_groupops', 'Agent groups: members are built from attributes, each used once, in order',
     'Once size, agent type and attributes are given - together or one by one in any order - the group holds members of that type built in order: one per element of a collection, '
     'or `size` of them from as many items of a generator or calls of a callable. Every item is used once; changing a setting builds new members from the following items, '
     'assigning an equal value or an incomplete group builds none.',
     ['histories', 'configurations'], 'every order of assignments and changes, all attribute sources, shared between groups',
     'the test builds one random group and asserts True', ['crowddynamics/simulation/agents.py'], [('trait observer', 'AgentGroup._observe_members')],
     TC, 'All histories of 3 (thorough: 4) assignments replayed, random ones beyond. A collection without size is not covered (the code needs a positive size).', None,
     ['AgentGroup.members', 'items taken from each source'])

prop('P11', 'c_pairforces', 'Interaction forces between two bodies follow the documented laws',
     'Two agents interact iff their skin distance is below 3 m. Touching bodies get the contact force along the normal between their closest discs (with damping, and friction along the tangent); agents whose '
     'current velocities lead to a collision get the social force m k (2/tau + 1/tau0) exp(-tau/tau0) / tau^2 times the gradient of tau, tau the smallest positive time to collision over all pairs of discs, at most 2 kN; others none. '
     'Forces on the two agents are opposite when their parameters agree; torques act at the documented moment arms. A wall acts by contact only, from its nearest point. Nothing but force and torque changes, and they accumulate.',
     ['inputs'], 'all positions, velocities, sizes, orientations and parameters of two bodies, or of a body and a wall',
     'the tests (which need numba) assert the types of the results or nothing', ['crowddynamics/core/interactions.py', 'crowddynamics/core/distance.py', 'crowddynamics/core/motion/power_law.py', 'crowddynamics/core/motion/contact.py', 'crowddynamics/core/vector2D.py'],
     [('distance, normal, moment arms', 'distance_circles, distance_three_circles, distance_circle_line, distance_three_circle_line'), ('force laws', 'force_contact, force_social_circular, force_social_three_circle'),
      ('accumulation', 'interaction_agent_agent_*, interaction_agent_*_obstacle')],
     'TLA+/TLC: force laws in exact integer geometry, symmetry invariants model-checked, every model scene and constructed scenes run on the real functions, trace validation',
     'Integer geometry with fixed-point exponentials (2 per cent; 10 per cent where the collision time is irrational); outcomes that hinge on ties between discs are not compared. numba functions run as Python (stand-in).', None, ['force and torque of each agent'])

prop('P12', 'c_pairforces', 'Crowd forces: every agent gets the sum over everyone it can see, once',
     'The agent-agent update adds to each agent exactly the sum of its pair interactions with all other agents in sight, each pair once - whatever the number, order and position of agents and the cell size (at least sight plus twice the radius) - '
     'and the obstacle update adds the sum over all walls, those of the geometry the field has at that moment when it runs as a node (lines, chains, rings, polygons with holes, collections; without obstacles it does nothing). Agents of any other type are refused with InvalidType. The default cell size of the node covers agents of radius up to 0.3. Nothing but force and torque changes.',
     ['inputs', 'configurations'], 'all crowds, agent orders, cell sizes, both agent types, any walls', 'the test runs it on at most two random agents and asserts True',
     ['crowddynamics/core/interactions.py', 'crowddynamics/simulation/logic.py'], [('cell list enumeration', 'agent_agent_block_list'), ('all walls', 'agent_obstacle, AgentObstacleInteractions.update, geom_to_linear_obstacles'), ('default cell size', 'AgentAgentInteractions._default_cell_size')],
     'TLA+/TLC: model of the cell enumeration (complete, no pair twice), its configurations and random crowds run on the real code, sums judged by TLC',
     'Pair contributions are taken from isolated runs of the pair functions (decided by P11); the cell_lists package is a stand-in.', None, ['force and torque of each agent'])

prop('P13', 'c_motion', 'Integration: one step of motion for every agent, with a bounded time step',
     'The time step is 1.1 dt_max times the largest target speed over the largest current speed, within dt_min and dt_max (dt_max when nobody moves). A velocity Verlet step changes each agent\'s velocity by the mean of previous and '
     'current acceleration and moves it by v dt + a dt^2 / 2, an Euler step by its own law, rotation likewise; forces become the previous ones, orientations stay within +-pi, shoulders sit on the new position across the '
     'new orientation. Agents are independent of each other and of their order; the Integrator node records the step and adds it to the clock. Nothing else changes.',
     ['inputs', 'histories'], 'all states of any number of agents of both types, all bounds, sequences of steps with any integrator',
     'the tests (which need numba) only assert that the returned step lies between the bounds', ['crowddynamics/core/integrator.py', 'crowddynamics/simulation/logic.py', 'crowddynamics/core/vector2D.py', 'crowddynamics/simulation/agents.py'],
     [('time step', 'adaptive_timestep'), ('integrators', 'translational_euler, rotational_euler, translational_verlet, rotational_verlet, euler_integrator, velocity_verlet_integrator(_init)'),
      ('clock', 'Integrator.update'), ('shoulders', 'shoulders'), ('angles', 'wrap_to_pi')],
     'TLA+/TLC: step laws as integer arithmetic, short node sequences model-checked and replayed on the real nodes, random states and sequences judged step by step',
     'Masses and relaxation times are powers of two so that each step is exact in units of 2^-14; arbitrary time steps are compared to their rounding. Each step is judged from the recorded state before it.', None,
     ['agent array before and after', 'data time_tot and dt'])

prop('P14', 'c_motion', 'Force cycle: forces start from zero, drive to the target, and are used once',
     'Adjusting adds the force m / tau_adj (v0 e0 - v) and the torque I / tau_rot (omega0 (phi0 - phi) / pi - omega), with the difference of angles wrapped to +-pi, to what is there; Orientation sets the target orientation to the angle of the target direction; '
     'Fluctuation adds a random force of at most 3 sigma m in any direction and a torque of at most 3 sigma I (none for sigma 0); Reset sets forces and torques to zero. One update of the documented tree, from whichever of its nodes the simulation '
     'refers to, thus integrates exactly the forces of that step, advances clock and iteration count once and leaves zero forces. Nothing else changes.',
     ['inputs', 'histories'], 'all agent states and parameters of both types, any number of agents, sequences of nodes and cycles',
     'no stable test runs any logic node', ['crowddynamics/core/motion/adjusting.py', 'crowddynamics/core/motion/fluctuation.py', 'crowddynamics/core/steering/orientation.py', 'crowddynamics/simulation/logic.py', 'crowddynamics/core/rand.py'],
     [('adjusting', 'force_adjust_agents, torque_adjust_agents'), ('orientation', 'orient_towards_target_direction'), ('fluctuation', 'force_fluctuation, torque_fluctuation, truncnorm'), ('nodes', 'Reset, Adjusting, Orientation, Fluctuation, Integrator')],
     'TLA+/TLC: node laws as integer arithmetic, short cycles model-checked (drive towards the target) and replayed on the real nodes, random states judged event by event',
     'Fluctuations are bounded, their distribution is not tested (scipy truncnorm is a stand-in). Interactions are absent from these cycles (decided by P11, P12).', None, ['agent array before and after', 'data'])

prop('P15', 'c_sight', 'Exits: followers head for the nearest exit in sight and range, once and for all',
     'Exit detection gives each agent the nearest exit whose centre is nearer than the range and not hidden: a wall hides when it has a point in common with the line of sight (parallel ones never do). On each update of the ExitDetection node exactly the followers that '
     'detect an exit take it as target and stop being followers; nobody else and nothing else changes, so the choice is final. agent_closer_to_exit ranks positions by distance; narrow_exit_capacity is the documented step function.',
     ['inputs', 'histories'], 'all scenes of agents, walls and exits, ties and touching ends included; movements between updates',
     'the tests (which need numba) only check ranges or assert nothing', ['crowddynamics/core/evacuation.py', 'crowddynamics/core/geom2D.py', 'crowddynamics/core/sensory_region.py', 'crowddynamics/simulation/logic.py'],
     [('exit choice', 'exit_detection'), ('segment intersection', 'line_intersect, is_obstacle_between_points'), ('node', 'ExitDetection.update'), ('helpers', 'agent_closer_to_exit, narrow_exit_capacity')],
     TC, 'Integer coordinates, exact; small grid worlds model-checked (choices are final, visible and nearest) and every transition replayed; random scenes. Targets are line strings. numba and shapely are stand-ins.', None,
     ['return values', 'target and is_follower of each agent'])

prop('P16', 'c_following', 'Followers: nearest seen leader that heads away, else memory, else familiar exit',
     'Each follower follows and remembers the nearest leader in range that it sees and that moves and does not come towards it (velocity more than 0.45 pi off the follower\'s direction), giving up its own target; a remembered leader that is hidden or not to be followed '
     'passes on its target; who has neither leader nor memory (and no herd) takes its familiar exit. With herding, followers join the at most k nearest agents they see within range that head away. Directions are the documented weighted means of '
     'directions, normalized; none gives zero. Leaders, other agents and everything else are left alone.',
     ['histories', 'inputs'], 'all scenes of leaders, followers, others and walls; histories of moves and decisions',
     'no stable test touches collective motion', ['crowddynamics/core/steering/collective_motion.py', 'crowddynamics/core/sensory_region.py', 'crowddynamics/simulation/logic.py'],
     [('leader choice and memory', 'leader_follower_interaction_brute, leader_follower_interaction'), ('herding', 'find_nearest_neighbors, herding_interaction, leader_follower_with_herding_interaction'),
      ('relation', 'herding_relationship'), ('nodes', 'LeaderFollower.update, LeaderFollowerWithHerding.update')],
     TC, 'Decision rules as a TLA+ state machine on integer scenes; follower with two leaders model-checked around a wall (memory, stability) and every transition replayed; random scenes of up to 12 agents. '
     'Equal distances, limit angles and agents that are leader and follower at once are not compared; directions within 1 per cent.', None, ['target, index_leader, target_direction of every agent'])

prop('P17', 'c_nav', 'Navigation: directions lead around obstacles to the target',
     'The mesh covers the domain with both ends included, and a position belongs to the mesh point at or below it. The distance map is masked exactly on obstacles and grows away from the target with slope one. The direction field is the unit gradient of the (negative) distance to the target, in x and y, defined exactly off obstacles; nearer than the radius to an obstacle, at distance d, it is turned away '
     'from it by the share strength^(d/radius). The Navigation node gives each agent that has a target the direction of its cell; agents off the mesh, without target, or where the direction is undefined keep theirs, and nothing else changes. '
     'Walking along it from any free point reaches the target without entering an obstacle. Obstacles are optional.',
     ['inputs', 'histories'], 'all domains, targets, obstacles, mesh steps, radii and agents; every walk along the field',
     'no stable test touches navigation; the existing ones assert shapes', ['crowddynamics/core/steering/quickest_path.py', 'crowddynamics/core/steering/obstacle_handling.py', 'crowddynamics/core/steering/navigation.py', 'crowddynamics/simulation/field.py', 'crowddynamics/simulation/logic.py'],
     [('mesh and index', 'meshgrid'), ('fields', 'direction_map, shortest_path, obstacle_handling, obstacle_handling_continuous, direction_map_obstacles'), ('lookup', 'getdefault'), ('node', 'Navigation.update, Field.navigation_to_target, static_potential')],
     TC, 'Field laws exact on integer grids; closed loops (walkers driven by the real node) judged on scenes of boxes and walls. Fast marching, rasterisation and interpolation libraries are coarse stand-ins (8-neighbour distances), so distances are judged against bounds that any eikonal solver meets. '
     'Model-checked: descending geodesic distance always arrives.', None, ['direction fields', 'target_direction of each agent', 'walks'])

prop('P18', 'c_fieldstate', 'Field: only valid geometries, and derived maps follow the present ones',
     'A field takes a valid non-empty polygon (or None) as domain, any valid non-empty geometry (or None) as obstacles and lists of geometries as targets; everything else raises a TraitError and changes nothing. Mesh, distance and direction maps, also when asked for again, '
     'are those of the geometries assigned now, of this field only, and asking changes nothing. A missing domain, or navigation without targets, raises CrowdDynamicsException; an index that is neither integer nor "closest" raises InvalidType.',
     ['histories'], 'all histories of assignments and questions on several fields', 'no stable test touches fields', ['crowddynamics/simulation/field.py', 'crowddynamics/core/steering/quickest_path.py'],
     [('validation', 'Field._valid_domain, _valid_obstacles'), ('cached maps', 'Field.meshgrid, shortest_path_target, direction_map_obstacles, navigation_to_target')],
     TC, 'Assignments and questions model-checked and every transition replayed; maps are compared with those of a new field holding the same geometries. Lists are assigned, not changed in place. Map values come from stand-ins (P17).',
     [('geometries', 'domain, obstacles, targets', 'Field')], ['attributes', 'maps'])

prop('P19', 'c_sampling', 'Sampling: random points lie on their figure evenly, random times are Poisson',
     'Points sampled from a triangle, from the convex hull of a polygon, from a spawn of the field (less what is within the radius of obstacles, where the rest is convex) or along a line string lie on that figure, and every part of it gets its share of the area or length; areas and cumulative weights are exact. Random vectors have the given length and an orientation in the '
     'given range. The Poisson clock gives increasing times within the window at the given rate, independent of the past; Poisson timings give only players, each at that rate, in order of their times. Truncated normals stay within their bounds and follow the normal law inside; random forces point everywhere evenly.',
     ['inputs'], 'all triangles, polygons (any vertex order, convex or not), line strings, spawns, rates', 'no stable test samples', ['crowddynamics/core/sampling.py', 'crowddynamics/core/rand.py', 'crowddynamics/core/geom2D.py', 'crowddynamics/simulation/field.py'],
     [('weights', 'triangle_area_cumsum, linestring_length_cumsum, polygon_area'), ('draws', 'random_sample_triangle, polygon_sample, linestring_sample, random_sample_line'), ('spawns', 'Field.sample_spawn'), ('times', 'poisson_clock, poisson_timings'), ('vectors', 'random_vector'), ('noise', 'truncnorm, force_fluctuation, torque_fluctuation')],
     'TLA+/TLC: the sampling scheme model-checked (fans, weights), recorded draws judged against exact areas computed in the specification',
     'Statistical: seeded draws, counts in parts within six standard deviations, so a bias below a few per cent is not seen. Spawns cut by obstacles are not judged (shapely stand-in has no exact difference).', None, ['sampled points', 'yielded times'])

prop('P20', 'c_arrival', 'Arrival: active iff inside the domain; targets count who ever arrived',
     'After each update of InsideDomain an agent is active exactly when its position lies inside the exterior of the domain, and data["inactive"], zero at the start, has grown by the number of agents whose activity changed. TargetReached keeps in data["target_<index>"], for each polygon target '
     'of the field (other kinds of targets are ignored), zero at the start, the number of different agents that were inside that polygon at some update: an agent counts once for each target, for ever, also when it leaves again or joined later. Neither node changes anything else.',
     ['histories'], 'all simple polygons, positions not on an edge, walks of any number of agents, agents joining, any order of updates', 'no stable test touches logic nodes', ['crowddynamics/simulation/logic.py'],
     [('activity', 'InsideDomain.__init__, InsideDomain.update'), ('arrival', 'TargetReached.__init__, TargetReached.update')],
     TC, 'Exact crossing-number geometry on integer coordinates; positions on an edge are not judged. Point-in-polygon of matplotlib is a stand-in. Domain and targets stay the same after the nodes were made. Activity is recorded only: no other node looks at it (DESIGN section 4).',
     None, ['active of each agent', 'data entries'])

prop('P21', 'c_recorder', 'Recorder: a run is stored completely, in order, agents and data together',
     'Making a SaveSimulationData writes, once, the metadata (names and values) and the geometries of the field (domain, obstacles, targets, spawns) into base_directory/save_directory, by default named after the simulation and its timestamp, creating the directory. Added to the logic it '
     'runs after Reset: each step records the agents and the data of the simulation as they are then, and asks save_condition once, with the simulation. When the answer is true everything recorded since the last flush goes to the files, agents as one more chunk and data as rows below one header; '
     'otherwise nothing is written. So the files hold exactly the steps up to the last flush, in order and with the values of their time, the same number of agents frames and data rows; several recorders do not interfere.',
     ['histories', 'crash points'], 'all histories of steps, answers of the conditions, numbers of recorders, directories, values of agents and data; stop after any step', 'the stable tests save two arrays; no stable test touches the recorder',
     ['crowddynamics/simulation/logic.py', 'crowddynamics/io.py', 'crowddynamics/simulation/base.py', 'crowddynamics/simulation/multiagent.py'],
     [('set up', 'SaveSimulationData.__init__, full_path, _default_save_directory'), ('steps', 'SaveSimulationData.update, add_to_simulation_logic'), ('files', 'save_npy, save_csv, save_geometry_json')],
     TC, 'Buffers and files modelled; all histories of four steps with two recorders model-checked and replayed on real simulations, longer random ones judged after each step. A stop loses what was not flushed; stops inside a write are not explored. '
     'Not claimed: number of agents or names of data changing between flushes, two recorders on the same directory.',
     [('pend', 'recorded since the last flush', 'buffer in save_npy, save_csv'), ('disk', 'flushed', 'agents_<i>.npy, data.csv')], ['files after every step'])

prop('P22', 'c_breakup', 'Geometries taken apart: every edge, every part, every covered cell',
     'geom_to_linesegment (and the obstacles made from it) gives every edge of every line, shell and hole of a geometry exactly once, in order, collections part by part; points and None give none. geom_to_array lists the parts with a flag each: holes before their shell. '
     'draw_geom sets exactly the grid points on lines and on or inside polygons to the value and leaves all others, also those in holes, as they were; a collection is the union of its parts in any order. The convex hull of a field holds all obstacles, targets and spawns. Other values raise TypeError.',
     ['inputs', 'histories'], 'all nested geometries, grids, orders of drawing', 'no stable test touches geometry', ['crowddynamics/core/geometry.py', 'crowddynamics/simulation/field.py', 'crowddynamics/core/steering/quickest_path.py'],
     [('edges', 'geom_to_linesegment, geom_to_linear_obstacles'), ('flags', 'geom_to_array'), ('raster', 'draw_geom, meshgrid'), ('hull', 'Field.convex_hull, union')],
     TC, 'Exact on integer coordinates: edges, flags, hull, and rasters of axis-parallel and diagonal edges; grid points within one step of slanted edges and on edges of holes are not judged. Rasterisation and overlay libraries are stand-ins (union collects parts). '
     'Geometries lie on the grid.', None, ['arrays', 'grids'])

prop('P23', 'c_density', 'Density: every agent counts once, by the area it has',
     'density_classical gives, for the grid of cells from the lowest to the highest occupied one (cells are counted by floor, also for negative coordinates), the number of agents in the cell by its area. density_voronoi_1 spreads each agent evenly over its Voronoi cell inside the bounding box of the agents: '
     'shares are exact and add up to the number of agents. density_voronoi_2 gives the number of agents in the cell by the sum of the areas of their Voronoi cells, zero where nobody is. bounding_box gives the least and the greatest coordinate for each dimension. The order of the agents has no influence and nothing given is changed.',
     ['inputs'], 'all crowds of three or more agents not in one line, all cell sizes', 'the only test of it is skipped (Fixme)', ['crowddynamics/core/quantities.py', 'crowddynamics/core/geom2D.py'],
     [('counts', 'density_classical'), ('boxes', 'bounding_box, rectangle'), ('Voronoi', 'voronoi_finite_polygons_2d, density_voronoi_1, density_voronoi_2, _core_2')],
     TC, 'Exact for crowds on the crossings of parallel lines at arbitrary distances (Voronoi cells are boxes), for others conservation only. The Voronoi tesselation and the overlap of convex polygons are exact stand-ins. Unbounded Voronoi cells are judged only where they are cut by the bounding box.',
     None, ['returned grids'])

prop('P24', 'c_traits', 'Declared attributes: every name once, as the most derived class has it',
     'class_traits lists the traits of a class and of all classes it inherits from: each name exactly once, as declared by the first class in the method resolution order that declares it, classes in that order, names in order of declaration; excluded names and classes are left out. '
     'class_to_struct_dtype and table_of_traits have one field or row for each of these, in the same order. Traits convert to numpy types (with the shape of arrays), Python types and command line options: an option takes what the trait takes (ranges, choices, tuples), gives the value with the right type, '
     'and the default of the trait when left out; unsupported traits raise InvalidValue (NotImplementedError for texts in arrays), other objects InvalidType. shape_validator and length_validator hand on exactly the values of that shape or of one of those lengths and raise TraitError for others.',
     ['inputs', 'histories'], 'all class hierarchies (also with several bases), kinds of traits, defaults and given values', 'the stable tests do not touch traits (test_traits samples single values)', ['crowddynamics/traits.py'],
     [('listing', 'class_own_traits, class_traits'), ('records', 'trait_to_dtype, class_to_struct_dtype'), ('options', 'trait_to_type, trait_to_option'), ('validators', 'shape_validator, length_validator'), ('documentation', 'table_of_traits')],
     TC, 'Method resolution order (C3) is part of the specification; all hierarchies of three classes and two names model-checked, replayed on real classes. Enumerations with values that are not texts, and without default, are not judged.',
     None, ['returned lists, types, options'])

prop('P25', 'c_cli', 'Command line: the simulations that are there, run as asked, in order',
     'The command line knows exactly the simulations (proper subclasses of MultiAgentSimulation) of the Python modules in the directory, as these are at that moment: "list" shows them, import_simulations imports them from any directory, "run" has one command for each, with one option for each trait the class declares. '
     '"run --num N A opts B opts ..." runs every named simulation N times, in order, each time a new object of that very class with the given values (the last of an option given twice; defaults for the others), under the given log level; a line with an unknown command, an unknown option or a value out of bounds is refused before anything runs; '
     'a simulation that raises ends the run. concat_npy writes all chunks of a store, in order, into one file.',
     ['inputs', 'histories'], 'all sets of modules, command lines and later changes of the modules', 'the stable tests never run a command (test_cli lists an empty directory)', ['crowddynamics/cli.py', 'crowddynamics/utils.py', 'crowddynamics/logging.py'],
     [('finding simulations', 'import_simulations, import_subclasses, import_module, filter_cls'), ('commands', 'main, run, simulation_commands, simulation_callback'), ('options', 'trait_to_option, class_own_traits'), ('log level', 'setup_logging'), ('concatenation', 'concat_npy')],
     TC, 'Class names are different in different modules of a directory (which one counts otherwise depends on the order of the file system). logging is configured through LOG_CFG (the installed yaml library no longer offers what loggingtools calls); only the level of the package is judged.',
     None, ['simulations run with their values, exit codes, listed names, files'])

prop('P26', 'c_config', 'Configuration: accepted only as a whole; helpers leave no trace',
     'load_config accepts a file exactly when every value of every section fits its specification (type, bounds, choices) and no value without default is missing; then every value has its type, defaults stand for missing ones and everything not specified stays text; otherwise it raises ValidationError. '
     'remember_cwd comes back to the directory it was entered from, however it is left and however deeply it is nested, and hands on errors. import_simulation_callables yields the functions named in a configuration, in order, those that exist (modules that raise ImportError are passed over, other errors are handed on), without changing the working directory between them. '
     'parse_signature lists the arguments with their defaults and refuses arguments without; interpolate_docstring fills in the text of the class it decorates and no other; functions marked deprecated do what they did, and warn once per call.',
     ['inputs', 'histories'], 'all files, specifications, nestings and functions', 'the stable tests do not touch these modules', ['crowddynamics/config.py', 'crowddynamics/utils.py', 'crowddynamics/exceptions.py'],
     [('files', 'load_config'), ('named functions', 'import_simulation_callables'), ('working directory', 'remember_cwd'), ('signatures', 'parse_signature, mkspec, empty_to_none'), ('documentation', 'interpolate_docstring'), ('deprecation', 'deprecated')],
     TC, 'A missing file reads as an empty configuration (not judged). Values are single numbers, words and truth values; the list of functions is the only list.',
     None, ['loaded values, working directory, listed functions and arguments'])

prop('P27', 'c_vectors', 'Plane vectors: turns, products, lengths, angles and first contact are exact',
     'rotate90 and rotate270 turn by a quarter to the left and to the right; dot and cross are the products of the plane; length is the Euclidean length, normalize gives the same direction with length one (the zero vector stays zero); angle lies in [-pi, pi] and unit_vector leads back; all of these row by row for columns of vectors, without touching their arguments. '
     'wrap_to_pi gives the one angle in [-pi, pi] that differs by whole turns (pi and -pi stay as they are). truncate shortens a vector in place to the limit if it is longer, and otherwise leaves it exactly as it is. weighted_average is w a + (1 - w) b. '
     'time_to_collision_circle_circle is the first time at which two discs touch, and not a number, with a zero gradient, when they move apart, never touch, only graze, overlap already or do not move; its gradient lies along the line of centres at contact, and its product with the velocity is one in size; the social force is the slope of the potential.',
     ['inputs'], 'all vectors, angles and limits', 'the stable tests cannot import these functions', ['crowddynamics/core/vector2D.py', 'crowddynamics/core/motion/power_law.py'],
     [('turns and products', 'rotate90, rotate270, dot, cross'), ('length and direction', 'length, normalize, truncate, angle, unit_vector, weighted_average'), ('angles', 'wrap_to_pi'), ('first contact', 'time_to_collision_circle_circle, gradient_circle_circle'), ('social force', 'potential, magnitude')],
     TC, 'Integer vectors up to 60 and angles in sixteenths of a turn; results with irrational values are judged to four digits. Odd multiples of pi beyond seven may come out as pi or -pi (rounding).',
     None, ['returned numbers and vectors'])

prop('P28', 'c_distances', 'Skin distances: nearest parts, unit normals, arms of the nearest parts',
     'The distance of two discs is that of their centres less both radii (negative when they overlap), with the unit normal from the second to the first (zero when the centres coincide); from the other side it is the same with the opposite normal. The distance of a disc from a wall is that of its centre from the nearest point of the segment - an end, or the foot of the perpendicular - less its radius, with the unit normal away from that point '
     '(for a centre on the wall zero or a normal of the wall, always a number), and does not depend on which end comes first. For bodies of three discs it is the least over all pairs of parts (over all parts, for a wall), and distance, normal and both moment arms belong to one and the same nearest pair: r0 = x_i + r_i n - torso0, r1 = x_j - r_j n - torso1, and x_i - r_i n - torso for a wall. '
     'It scales with the unit of length, does not depend on where the scene is, and leaves its arguments as they were.',
     ['inputs'], 'all discs, bodies and walls, overlapping, touching or apart, at any scale', 'the stable tests cannot import these functions', ['crowddynamics/core/distance.py'],
     [('discs', 'distance_circles'), ('bodies', 'distance_three_circles'), ('walls', 'distance_circle_line'), ('bodies and walls', 'distance_three_circle_line')],
     TC, 'Integer coordinates (times a power of two, anywhere in the plane); distances are judged to a hundredth and normals to four digits. Where several pairs are nearest within that, any of them may explain the result. Walls have two different ends.',
     None, ['returned distances, normals and moment arms'])

prop('P29', 'c_scenes', 'Examples: rooms are closed but for their exits, crowds as asked, runs go on',
     'Every example field has the geometry its sizes say: domain, spawns, exits and walls as drawn, all within the domain; the boundary of a room is wall or exit, an exit is as wide as asked and no wall runs along it; the pillar stands in the middle of its domain. OutdoorField and HallwayField follow every later change of width, height and ratio as a whole. '
     'Every example simulation has the field of its sizes and as many agents as asked (half at either end of the hallway, walking towards each other\'s end), of the type asked for, each in its spawn, none overlapping another (nor walls, where leaders and followers are placed in rooms), leaders and followers with their flags and targets. '
     'Updating it counts the steps, keeps all agents with their bodies, flags and - unless they follow - targets, every value stays a number, and agents are active exactly inside the domain, where that is looked at. The validation scenes behave: one agent keeps its speed straight ahead, two agents get past each other.',
     ['inputs', 'histories', 'configurations'], 'all sizes, ratios, changes of them, group sizes, agent types and random crowds', 'the stable tests cannot import the examples', ['crowddynamics/examples/fields.py', 'crowddynamics/examples/simulations.py', 'crowddynamics/examples/collective_motion.py', 'crowddynamics/examples/validation.py', 'crowddynamics/simulation/multiagent.py'],
     [('scenes', 'OutdoorField, HallwayField, Rounding, AvoidObstacle, ClosedRoom, RoomWithOneExit, FourExitsField, PillarInTheMiddle'), ('crowds', 'Outdoor, Hallway, RoomWithOneExit, FourExitsRandomPlacing, FourExitsFixedPlacing, Rounding, AvoidObstacle, ClosedRoom'), ('validation', 'TestMovement, TestAgentInteraction')],
     TC, 'Sizes in halves of a unit, small crowds that fit; AroundCircle and AvoidPillar are unfinished in the repository and not judged. Only OutdoorField and HallwayField follow later changes, as coded. Runs have up to twelve updates, with coarser meshes for the large scenes.',
     None, ['recorded geometries, agents before and after updates'])

prop('P30', 'c_pictures', 'Pictures: every part where it is, maps over their mesh, whole trees',
     'add_geom draws every part of a geometry once, in order: points as markers, lines through their points, polygons by their outline, collections part by part, with the style given; other values raise TypeError and draw nothing. add_field draws the domain, every spawn, every target and the obstacles, those that the field has; plot_field does the same, each part under its own name, over the maps to the closest target, in a range that fits the domain, and shows the picture once, when it is finished. '
     'set_aspect centres the range on the data, holds it with the margin on every side, in the aspect asked for, and no larger than that needs. A distance map lies over exactly the bounds of its mesh; a direction map has one arrow for every freq-th mesh point with a direction, from that point along it, 0.9 freq steps long for a unit vector, with a head at its tip that points the same way. Drawing never changes what was drawn before. '
     'The figure context names its file (ending in .html) before drawing, shows and saves as asked once its body is done, and neither when it raises. render_tree writes the whole tree from its root, from whichever node it is called, as .dot or .png, and refuses other formats.',
     ['inputs', 'configurations', 'histories'], 'all geometries, fields with and without obstacles, meshes and their positions, aspects and margins, and trees', 'no test draws anything', ['crowddynamics/visualizations.py'],
     [('glyphs', 'add_geom, add_field, plot_field'), ('ranges', 'set_aspect'), ('maps', 'add_distance_map, add_direction_map'), ('output', 'figure, render_tree')],
     TC, 'bokeh is not installed: figures are stand-ins that record glyphs by their documented arguments. Holes of polygons are not drawn by the code and not asked for; colours and widths are not judged. A png is only asked to be one.',
     [('glyphs', 'glyphs on the figure', 'Figure')], ['glyphs, ranges and output calls recorded by the stand-in figure', 'dot files'])

prop('P31', 'c_runs', 'Whole runs: what was set at each step decides the run, nothing else',
     'What a simulation becomes is determined by its starting agents and field, by the walls, targets and parameters in force at each of its steps, and by the random numbers drawn. '
     'Two simulations with the same past of that kind have the same agents and clock after every step, whatever else happened: other simulations made, stepped or changed in between, maps and meshes asked for, settings changed and changed back before a step, steps made by update or by run, the simulation rebuilt midway in new objects from its present agents, field and data (in memory or through the saved files), the agents listed in another order, or the whole scene moved in the plane. '
     'Asking for anything and assigning walls, targets or parameters moves no agent, and whatever is done with one simulation leaves the agents and data of all others as they are; iterations count the steps.',
     ['histories', 'configurations', 'interleavings'], 'all interleavings of making, changing, asking, copying and stepping several simulations, all scenes with walls, targets, leaders, followers and noise, both kinds of agents',
     'tests run every part once, from a fresh state', ['crowddynamics/simulation/multiagent.py', 'crowddynamics/simulation/logic.py', 'crowddynamics/simulation/field.py', 'crowddynamics/core/interactions.py', 'crowddynamics/core/integrator.py', 'crowddynamics/core/steering/navigation.py', 'crowddynamics/core/steering/collective_motion.py'],
     [('step', 'MultiAgentSimulation.update and the logic nodes'), ('kept maps', 'Field caches'), ('order of agents', 'block lists, neighbours, masks'), ('copies', 'save_npy, save_geometry_json and their loaders')],
     TC, 'Equal pasts are compared within 5e-5 in every coordinate, velocity and direction, flags and targets exactly; other simulations must be untouched to the last bit. Reordering needs runs without noise. Runs of up to some 30 steps of up to 9 agents. TargetReached, which counts over its own past, is judged in P20.',
     [('agents and clock', 'agents array, data', 'MultiAgentSimulation')], ['agents array and data after every operation'])
