# technique (what is explored against which model) and level_note per property
NOTES = {
 'C01': ('all sequences of spline operations up to a depth on the real classes, every step against an exact rational piecewise-polynomial model',
         'bounded: operand bases with degree 0..3 and up to 3 spans, sequence depth 2 (quick) / 3 (thorough); trust: mc/refspline.py'),
 'C02': ('all bases and coefficient sets of the bound, every operation on the real classes against the exact piecewise-polynomial model',
         'bounded degrees, knots, lengths; trust: mc/refspline.py'),
 'C03': ('all histories of curve-preserving operations on the real classes against the exact piecewise-polynomial model',
         'bounded degrees, knots and history depth; trust: mc/refspline.py'),
 'C04': ('all sets of declarations of the bound assembled by the real optimisation layer and compared with the declared model',
         'bounded: 8 declaration kinds in up to 3 objects; the solver itself is outside'),
 'C05': ('all histories of update intervals and solver answers up to a depth driven through the real point-to-point problems, every update against the plan as a curve of absolute time',
         'bounded: horizon/knot grids, update intervals and start times of the lists in the module, <= 3 consecutive updates; the solver is a stand-in answering plans of the explorer'),
 'C06': ('all histories of update intervals, sample times and plans up to a depth driven through the real simulator and deployer, every recorded sample against the plans that were in force',
         'bounded: grids in the module; solver stand-in'),
 'C07': ('all histories of simulator and deployer events (steps, sleep, disturbed state, measured states, delays) up to a depth through the real problems, every initial condition handed to the solver against an independent vehicle model',
         'bounded: 12 vehicle variants, 4 sample/update grids, 3 (quick) / 4 (thorough) events; model integration by Runge-Kutta; tolerance 3e-4 (trailer 3e-2)'),
 'C08': ('all plans of an enumerated family for every vehicle variant and configuration turned into signals by the real classes, every sample against an independent model of the vehicle',
         'bounded: plan family, horizons and start times listed in the module; trust: mc/vehlib.py'),
 'C09': ('all plans of an enumerated family (shapes x directions x amplitudes through every limit) for every vehicle variant, limit set and horizon, evaluated in the constraints of the real problem and compared with the limits evaluated on an independent vehicle model',
         'bounded plan family; B-spline relaxation: rejection only judged below half of a limit except for exact families; see assumptions'),
 'C10': ('all start states, goals, tolerances and end states of an enumerated grid, for every vehicle variant and problem type: the initial and terminal constraints of the real problem and its arrival check compared with the definition evaluated on an independent vehicle model',
         'bounded grids; solver stand-in; tolerance margins stated in the module'),
 'C11': ('all combinations of plan, obstacle placement, separating direction, offset and softening of an enumerated family, for every vehicle/shape/obstacle/motion variant, evaluated in the collision constraints of the real problem and compared with the exact distance of reference shapes moved by independent models',
         'bounded families; far-apart acceptance judged above the margins in the module; 3D shapes keep their orientation'),
 'C12': ('all chained arrangements of the bodies of every enumerated fleet (vehicle kinds, several shapes, obstacles, segments), at rest and moving, with a family of separating candidates for every pair at once, evaluated in the constraints of the real problem; which bodies each variable ties together is derived from the sparsity of the real constraints',
         'bounded fleets and arrangements; straight-line plans with constant heading'),
 'C13': ('all placements of an enumerated family (room shape, position, orientation, vertex order x vehicle shape x side x depth, at rest and moving) evaluated in the room constraints of the real problem and compared with exact containment of the reference shape in the reference room',
         'bounded families; margins stated in the module; circular rooms are not supported by the toolbox'),
 'C14': ('all sequences of simulation calls up to a depth for every kind of scheduled obstacle on the real classes, every recorded sample against an exact piecewise polynomial model; the motion assumed by the real optimisation problem against the same model; all bouncing configurations of a grid',
         'bounded: 19 schedules x 3 sample times x sequences of 4 (quick) / 6 (thorough) calls; assumptions in the module'),
 'C15': ('all shapes of a set in all orientations of a grid against an independent description (support function, exact membership on grids), all arguments of the geometric predicates on exhaustive grids against exact geometry',
         'bounded grids; answers closer than 1e-6 to the boundary are not judged'),
 'C16': ('all fleets, interconnections, configurations, formation kinds (central, ADMM, dual decomposition, rendezvous, soft and hard) and start offsets of the bound: the inter-vehicle constraints of the real problems evaluated on enumerated families of plans (exact formations and every single deviation)',
         'bounded: fleets of 1-6 vehicles, 3 vehicle kinds, plan families of the module'),
 'C17': ('all histories of update steps, iterations per update, start times and processing orders up to a depth driven through the real ADMM, dual decomposition and rendezvous updaters, every exchanged quantity, residual and local objective against a model of the method on curves of absolute time',
         'bounded: fleets of 2-4 (thorough 5), horizon/knot grids, 2 (quick) / 3 (thorough) steps plus long regular histories; local solvers are stand-ins answering plans of the explorer'),
 'C18': ('all occupancy patterns of small grids and all placements of obstacles of a family given to the real planner, every path against breadth-first search and exact geometry on an independent grid',
         'bounded: grid sizes, obstacle shapes, positions and vehicle sizes of the module'),
 'C21': ('all programs up to 3 (4) lines over an alphabet of lines read by the real reader, every block, division, connection, shift and scaling against an independent interpreter of the text',
         'bounded: 27 lines; words separated by white space; XY arcs'),
 'C22': ('all programs of one and all pairs of motions over an alphabet x tolerance settings: rooms of the real scheduler against exact geometry of the programmed path; the constraints of the real machining problem evaluated on the programmed path and on paths leaving it sideways, in height or too fast in every segment',
         'bounded: motions, settings and deviations of the module'),
}
NA = {}
