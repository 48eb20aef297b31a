"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)
B = 'omgtools/basics/'; V = 'omgtools/vehicles/'; PR = 'omgtools/problems/'; E = 'omgtools/environment/'; X = 'omgtools/execution/'; G = 'omgtools/gui/'; EX = 'omgtools/export/'

prop('C01', 'Spline arithmetic equals pointwise arithmetic of the functions',
 'For any two splines on the same interval, whatever their degrees and knots, their sum, difference, product, integer power and combination with scalars evaluate at every point of the interval to the same operation applied to the two function values. This holds for every sequence of such operations in one process, for numeric and for symbolic coefficients, and operating on splines never changes the operands.',
 ['inputs', 'histories'], 'every pair/sequence of spline operations over bases of any degree, knot multiplicity and breakpoints',
 'The examples only ever combine degree 3-6 splines with uniform knots; wrong results only show up as a slightly different trajectory, which no test looks at.',
 [B+'spline.py'], [('BSplineBasis.__add__/__mul__, transform, pairs', B+'spline.py'), ('memoize', B+'spline.py')], ['BSpline evaluation'])
prop('C02', 'Derivative, integral and evaluation of a spline are exact',
 'For every spline, the derivative of any order, the running integral, the definite integral between any two points of the interval and the symbolic evaluation at a point equal the exact derivative, integral and value of the piecewise polynomial the spline represents, including at the interior knots, at both ends of the interval, and for non-unit interval lengths.',
 ['inputs'], 'every basis (degree, knots), coefficient vector, derivative order and evaluation/integration bounds',
 'Tests never evaluate a spline against a known function; only a few uniform bases occur.',
 [B+'spline.py', B+'spline_extra.py'], [('derivative/_basis matrices', B+'spline.py'), ('evalspline, running_integral, definite_integral', B+'spline_extra.py')])
prop('C03', 'Changing the representation of a spline does not change the curve',
 'Inserting knots, cropping to a sub-interval, shifting the horizon past a knot, shifting the first knot forth and back, extrapolating and joining consecutive segments yield a spline that coincides with the original curve wherever both are defined (for a join: with each segment on its own time span).',
 ['inputs', 'histories'], 'every basis, coefficient vector, shift time, crop interval, inserted knots and segment list',
 'The examples use one basis and the shifts that happen to occur; an error moves the warm start or the plan silently.',
 [B+'spline_extra.py', B+'spline.py'], [('shift_over_knot, shift_knot1_fwd/bwd, extrapolate, concat_splines', B+'spline_extra.py'), ('insert_knots, crop', B+'spline.py')])
prop('C04', 'The optimisation layer hands the solver exactly the declared problem',
 'For every set of modelled objects declaring variables, parameters, constraints and objectives (scalar, matrix or spline valued, same names in different objects), the assembled problem has each variable and parameter once at its own place, bounds for each constraint row equal to the declared ones, and evaluates to what the declared expressions evaluate to. Values set for a variable or parameter of an object are read back unchanged and a spline constraint that holds for the assembled rows holds for all times of the interval.',
 ['configurations', 'inputs'], 'every combination of declared variables/parameters/constraints across objects and every value assignment',
 'A packing error would only disturb convergence of an example, and most examples have one shape of problem.',
 [B+'optilayer.py'], [('OptiFather.translate_symbols/construct_variables/construct_constraints', B+'optilayer.py'), ('get_variables/set_parameters/update_bounds', B+'optilayer.py')])
prop('C05', 'Replanning shifts the plan in time without moving it',
 'For every sequence of update times of a point-to-point problem with a fixed or a free end time, the plan held between two solves is, as a function of absolute time, the plan that was last computed: moving the horizon start only changes its parametrisation. The initial guess passed to the solver is that same plan (extended by its own continuation at the end), and the time passed to the solver is the elapsed time within the current knot interval.',
 ['histories', 'schedules'], 'every sequence of update intervals, incl. those crossing zero, one or several knots and hitting a knot exactly',
 'Examples run one fixed update interval; a wrong warm start or wrong plan offset still converges.',
 [PR+'point2point.py', PR+'problem.py', B+'optilayer.py'], [('FixedTPoint2point/FreeTPoint2point.init_step, transform_primal_splines, store', PR+'point2point.py'), ('OptiFather.transform_primal_splines', B+'optilayer.py')])
prop('C06', 'Simulated and deployed signals form one gap-free, time-aligned record',
 'For every sequence of updates the stored signals and trajectories of every vehicle share a strictly increasing, uniformly sampled time axis that starts at the start time, have no gap, overlap or missing sample between consecutive updates, and every signal has one column per time sample. The trajectory handed out after an update with a given current time starts at exactly that time.',
 ['histories', 'schedules'], 'every sequence of update times, sample times, delays and end times, restart included',
 'Examples use one update/sample ratio and never inspect the stored record.',
 [X+'simulator.py', X+'deployer.py', V+'vehicle.py'], [('Vehicle.store/simulate/predict', V+'vehicle.py'), ('Deployer.update', X+'deployer.py'), ('Simulator.run/update', X+'simulator.py')])
prop('C07', 'The state the planner starts from is the state the vehicle will be in',
 'Under the ideal model, the initial state used for the next plan equals the state the simulated vehicle has at that time, for every vehicle type and every sequence of update intervals, also when a computation delay is configured, and when a measured state and inputs are supplied the prediction integrates the vehicle model from that state over exactly the prediction time.',
 ['histories', 'inputs'], 'every vehicle model, update interval, delay and measured state',
 'Examples use few vehicle types, no delay, and check nothing numeric.',
 [V+'vehicle.py', PR+'problem.py'], [('Vehicle.predict, set_initial_conditions, integrate_ode', V+'vehicle.py'), ('Problem.predict', PR+'problem.py')])
prop('C08', 'State, input and pose signals obey the vehicle model',
 'For every vehicle type and every spline plan in its regular domain, the state and input signals derived from the plan satisfy the vehicle differential equation, and pose, velocity and signals agree with each other and with what is drawn. Physical configuration parameters (lengths, geometric offsets, gravity) enter consistently.',
 ['inputs', 'configurations'], 'every vehicle type, option setting and spline plan',
 'Signals are only plotted by the tests; several vehicle classes never run in them.',
 ['omgtools/vehicles/'], [('splines2signals, state2pose, ode', 'omgtools/vehicles/*.py')])
prop('C09', 'A plan accepted by the planner respects the physical limits of the vehicle',
 'Whenever a spline plan satisfies all constraints the vehicle imposes on the optimisation problem, the state and input signals derived from that plan stay within the configured limits (velocity, acceleration, jerk, steering, thrust, roll/pitch) at every time of the horizon, for symmetric and asymmetric limits and every horizon length. A plan that clearly stays inside all the limits is not rejected.',
 ['inputs', 'configurations'], 'every vehicle type, limit set, horizon time and plan',
 'The solver converges and nothing checks the resulting signals; limits other than the default ones hardly occur.',
 ['omgtools/vehicles/'], [('define_trajectory_constraints', 'omgtools/vehicles/*.py')])
prop('C10', 'Initial and terminal conditions are enforced and arrival is reported correctly',
 'A plan satisfies the initial constraints exactly when it starts in the given initial state (with matching input where the vehicle fixes it) at the current time, and the terminal constraints only when it ends at rest at the requested goal. The arrival check reports success exactly when the vehicle is within the configured tolerance of the goal in position (and orientation) and at rest, for every tolerance value.',
 ['inputs', 'configurations'], 'every vehicle type, initial state, goal, tolerance and end state',
 'In the tests the goal is always reached with default tolerances; a check that accepts too much or stops too early passes.',
 ['omgtools/vehicles/', PR+'point2point.py'], [('get_initial_constraints, get_terminal_constraints, check_terminal_conditions', 'omgtools/vehicles/*.py'), ('define_init_constraints/define_terminal_constraints', PR+'point2point.py')])
prop('C11', 'Collision constraints imply separation from every obstacle',
 'Whenever plan and separating variables satisfy the collision constraints of the problem, vehicle shape and obstacle shape keep at least the required distance at every time at which the constraints are satisfied, for every combination of vehicle shape and obstacle shape, for moving and rotating obstacles, in two and three dimensions. Conversely shapes that are far enough apart can always be separated.',
 ['inputs', 'configurations'], 'every vehicle shape, obstacle shape, relative pose, motion and safety distance',
 'The tests contain a handful of shape pairs and never check the resulting distance.',
 [V+'vehicle.py', E+'obstacle.py', E+'environment.py', B+'shape.py', PR+'problem.py'], [('define_collision_constraints_2d/3d', V+'vehicle.py'), ('Obstacle.define_collision_constraints', E+'obstacle.py')])
prop('C12', 'Vehicles in one problem keep clear of each other and of nothing else',
 'For every number of vehicles and shapes in one problem with inter-vehicle avoidance, each pair of vehicles gets its own separation constraints, and any plan satisfying them keeps the pair apart; variables belonging to one pair or vehicle are not shared with another pair, vehicle or obstacle.',
 ['configurations', 'inputs'], 'every number of vehicles, shapes and obstacles in one problem',
 'Only two- and three-vehicle examples with single shapes run in the tests.',
 [E+'environment.py', PR+'problem.py', PR+'point2point.py'], [('define_intervehicle_collision_constraints', E+'environment.py')])
prop('C13', 'A plan accepted by the planner keeps the whole vehicle inside the room',
 'Whenever a plan satisfies the room constraints, every part of the vehicle shape stays inside the room (or the room of the current segment) over the horizon, for every vehicle shape, room position and size, in two and three dimensions. Plans for which vehicle and room boundary are clearly apart are not rejected.',
 ['inputs', 'configurations'], 'every vehicle shape, room shape/position and plan',
 'Room constraints are only exercised with centred rooms and plans that stay away from the walls.',
 [V+'vehicle.py', E+'environment.py'], [('define_room_constraints / room branch of collision constraints', V+'vehicle.py')])
prop('C14', 'Predicted obstacle motion equals simulated obstacle motion',
 'For every obstacle kind (static, constant velocity or acceleration, rotating, with a scheduled change of position, velocity or acceleration), and every simulation step size, the position assumed inside the optimisation problem equals the position the simulated obstacle reaches at that time until its next scheduled change. Scheduled changes take effect once, at their time, whatever the step pattern, obstacles set to bounce never leave the room, and simulated signals stay aligned with time.',
 ['histories', 'schedules', 'inputs'], 'every obstacle option set and every sequence of simulation steps',
 'Examples run one step pattern with one or two obstacle kinds and never look at the obstacle record.',
 [E+'obstacle.py', E+'environment.py'], [('Obstacle.define_parameters/set_parameters, simulate', E+'obstacle.py'), ('Environment.simulate', E+'environment.py')])
prop('C15', 'Shapes and geometric predicates agree with exact geometry',
 'Every shape describes the same point set through its vertices, its half-planes, its checkpoints with radius and its bounding limits, in every orientation. Every geometric predicate (point in or overlap with a polyhedron, distances to rectangles, circle and segment tests) returns the exact geometric answer away from the boundary.',
 ['inputs'], 'every shape kind, size, orientation and every argument of the predicates',
 'The predicates are called by planners in a few scenes; no test compares an answer with geometry.',
 [B+'geometry.py', B+'shape.py'], [('point_in_polyhedron, polyhedra_overlap, distance_*', B+'geometry.py'), ('get_hyperplanes, get_checkpoints, get_canvas_limits', B+'shape.py')])
prop('C16', 'A fleet keeps its formation definition consistent for every vehicle',
 'For every number of vehicles and interconnection, each vehicle has exactly the neighbours of the chosen interconnection, neighbourhood is symmetric, and the desired relative positions of two neighbours as seen from either side are opposite and equal the difference of the configured positions, also after rotation and when only some states are configured.',
 ['configurations'], 'every fleet size, interconnection, configuration format and orientation',
 'Examples use circular fleets of 3-4 vehicles only.',
 [V+'fleet.py', PR+'formation.py'], [('Fleet.set_neighbors/set_configuration', V+'fleet.py')])
prop('C17', 'Distributed iterations exchange exactly what the method prescribes',
 'For every fleet topology, in every distributed iteration each vehicle uses the shared trajectories and multipliers that belong to the same neighbour pair, as a function of the same time, and the multiplier, consensus and residual updates are those of the method (consensus copies minimise the augmented objective, multipliers add the scaled disagreement). The result does not depend on the order in which vehicles are processed, and agreement of all vehicles is a fixed point.',
 ['histories', 'schedules', 'configurations'], 'every topology, iteration history, update pattern and processing order',
 'Examples run two or three vehicles and only check that nothing throws; slow convergence is invisible.',
 [PR+'admm.py', PR+'dualdecomposition.py', PR+'dualmethod.py', PR+'distributedproblem.py'], [('ADMM update_x/z/l, communicate', PR+'admm.py'), ('DD updates', PR+'dualdecomposition.py')])
prop('C18', 'The global planner returns a valid path whenever one exists',
 'For every environment, grid resolution, start and goal, a cell that touches a stationary obstacle grown with the vehicle size is never used, consecutive waypoints are neighbouring cells without cutting an occupied corner, and the path leads from start to goal. If a path exists on the grid one is returned; if none exists the planner says so.',
 ['inputs', 'configurations'], 'every grid size, cell shape, obstacle set, start and goal',
 'Only four scenes are planned by the tests.',
 [PR+'globalplanner.py'], [('AStarPlanner.get_path, Grid.is_accessible, block, get_occupied_cells', PR+'globalplanner.py')])
prop('C19', 'Frames stay inside the room, avoid static obstacles and contain the path',
 'For every environment and waypoint path, each generated frame lies within the room, contains its start and the waypoints assigned to it with clearance for the vehicle, contains no stationary obstacle when it is of corridor kind, and consecutive frames connect, so that every waypoint of the path is covered up to the goal.',
 ['inputs', 'configurations'], 'every environment, path, frame type, frame size and vehicle size',
 'Only the scenes in the scheduler examples are used by the tests.',
 [E+'frame.py', PR+'schedulerproblem.py'], [('CorridorFrame.create_frame/scale_up_frame, ShiftFrame', E+'frame.py')])
prop('C20', 'Handing over between segments keeps one continuous plan and reaches the goal',
 'For every schedule of updates of a multi-segment problem the trajectory followed across segment switches is continuous, time is counted continuously over all segments, obstacle information passed to the active segment is up to date, segments are visited in order without skipping, and the problem ends only at the final goal.',
 ['histories', 'schedules'], 'every sequence of update times, segment durations and switch moments',
 'Tests run a few full scenes with one update interval.',
 [PR+'multiframeproblem.py', PR+'schedulerproblem.py', PR+'gcodeschedulerproblem.py', PR+'gcodeproblem.py'], [('init_step/update/stop_criterium/store', PR+'multiframeproblem.py')])
prop('C21', 'A G-code program is read with the meaning of its commands',
 'For every program in the supported command set, the reader yields one segment per motion command, in order, whose start is the end of the previous one and whose end is the commanded point with omitted axes kept, with arcs having the commanded centre, radius, direction and sweep, and comments, blank lines, line numbers and unsupported words having no effect on the geometry; dividing the program into parts, connecting parts, loading subfiles, shifting, scaling and using the reader again keep that meaning.',
 ['programs', 'histories'], 'every short sequence of G-code lines over the supported words',
 'Tests read a few well-formed files.',
 [G+'gcode_reader.py', G+'gcode_block.py'], [('GCodeReader.read/create_blocks', G+'gcode_reader.py'), ('G00..G03.get_environment/get_coordinates', G+'gcode_block.py')])
prop('C22', 'Machining rooms enclose the programmed path within the tolerance',
 'For every program, the room built for each segment contains the programmed segment and no point farther from it than the tolerance allows, and the rooms of consecutive segments overlap around the connecting point so that the tool can pass.',
 ['programs', 'configurations'], 'every short program of line and arc segments and tolerance setting',
 'Tests run a few parts and do not compare rooms with the path.',
 [PR+'gcodeschedulerproblem.py', G+'gcode_block.py', PR+'gcodeproblem.py'], [('get_environment, room splitting', PR+'gcodeschedulerproblem.py')])
prop('C23', 'Exported C++ code behaves as the Python original',
 'For every exported problem and every sequence of updates the C++ library gives the solver the same parameter values, bounds and initial guess and derives the same states, inputs and predicted initial conditions as the Python problem does.',
 ['inputs', 'histories', 'configurations'], 'every exported problem configuration and update sequence',
 'The export tests compare one scenario of three problems with a coarse tolerance.',
 [EX+'export.py', EX+'export_p2p.py', EX+'point2point/Point2Point.cpp', EX+'vehicles/Vehicle.cpp', EX+'vehicles/Holonomic.cpp'], [('Point2Point::update, transformSplines, fillParameterDict', EX+'point2point/Point2Point.cpp'), ('Vehicle::splines2signals/predict', EX+'vehicles/Vehicle.cpp')])
prop('C24', 'Using one object does not silently change another one',
 'Copies of environments and obstacles, option sets, initial values, waypoints and shapes passed to the library stay independent: for every sequence of building, simulating, copying and setting values, objects not addressed by an operation, and the values the user passed in, keep their values.',
 ['histories'], 'every sequence of construct/copy/set/simulate operations on two objects sharing inputs',
 'Aliasing only shows when the same object is used twice, which examples do not do.',
 [E+'environment.py', E+'obstacle.py', V+'vehicle.py', V+'holonomic.py'], [('Environment.copy, ObstaclexD.__init__, get_init_spline_value, set_options', E+'environment.py')])
if __name__ == '__main__':
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p)+'\n')
    print(len(P))
