#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})
G='pympc/geometry/polyhedron.py'; GU='pympc/geometry/utils.py'
D='pympc/dynamics/discrete_time_systems.py'; DM='pympc/dynamics/discretization_methods.py'; DU='pympc/dynamics/utils.py'
K='pympc/control/controllers.py'; O='pympc/optimization/programs.py'; M='pympc/optimization/parametric_programs.py'
SP='pympc/optimization/solvers/pnnls.py'; SG='pympc/optimization/solvers/gurobi.py'; SD='pympc/optimization/solvers/drake.py'

prop('C01','Calls leave the data of the caller untouched',
 'No public function, constructor, method or property of the library changes a value the caller passed in (arrays, lists, dictionaries, polyhedra, systems), nor any object other than the receiver; the entries of an array that the caller passed in, or that two objects may share, are never overwritten. Only the operations documented to modify their receiver (adding constraints or bounds, normalizing, removing redundant inequalities, storing the explicit solution) change its constraints or data; queries, simulations, set operations, solves and plots change nothing observable.',
 ['inputs','histories'],'every public operation, every argument value (including arrays shared between objects and integer arrays), after any history of calls',
 'A test sees the one result it asserts on; hardly any test re-examines its inputs after a call, and sharing between objects shows up only when both are used later.',
 [G,GU,D,DM,M,K,SP,SG,SD,O],[('fresh arrays are built for every result; constraints are rebound, not written into',G),('copies are made before a modifying operation is applied to a given polyhedron or list',G+', '+D+', '+M)],
 [('constraint matrices of a polyhedron','may be shared with the caller and with shallow copies',G)],['the arguments and the other objects after the call'])
prop('C02','Facts remembered by a polyhedron are never stale',
 'Emptiness, boundedness, Chebyshev radius and center, and vertices of a polyhedron always describe its current constraints: after any sequence of queries and of operations that add inequalities, equalities or bounds, each query returns what the same query would return on a newly built polyhedron with the same constraints. A polyhedron returned by an operation (intersection, projection, copy, facet) never answers with facts remembered for another one.',
 ['histories'],'every interleaving of queries and constraint-adding operations, on the polyhedron or on one derived from it',
 'Tests query each polyhedron mostly once, before or after the last modification; the fault needs a query, a modification and a second query of the right kind.',
 [G],[('remembered facts are reset whenever constraints are added',G+': _delete_attributes'),('queries store only what they computed from the current constraints',G)],
 [('remembered empty/bounded/radius/center/vertices','None, or the fact for the current constraints',G)],['properties empty, bounded, radius, center, vertices'])
prop('C03','Infeasible, unbounded and empty cases surface as documented',
 'When an optimization problem solved internally has no solution, or a set is empty, unbounded or does not cover the given point, the operation answers with its documented value (None, False, True for vacuous inclusion) or raises a ValueError that says so. The missing value never flows into arithmetic, indexing, iteration or a comparison.',
 ['inputs'],'every public operation and every input for which an internal program is infeasible or unbounded, a polyhedron is empty or unbounded, or a point is not covered',
 'Tests exercise the None outcome at a few sites; each of the many consumers of a possibly missing value has to test for it on every path.',
 [G,D,M,K],[('results of linear_program/quadratic_program are tested for None before use','all callers'),('feedforward/feedback, explicit lookups, vertices, minimal facets return None',K+', '+M+', '+G)],
 (),['return values and exceptions of the public operations'])
prop('C04','Every solver returns the same, well-formed solution record',
 'The record returned for a linear or quadratic program always has exactly the keys min, argmin, active_set, multiplier_inequality and multiplier_equality (min and argmin for mixed-integer programs), whichever solver is used. Either the solver found an optimum and every entry holds a value, except that multiplier_equality is None when there are no equality rows; or it did not and every entry is None.',
 ['inputs','configurations'],'every problem (feasible, infeasible, unbounded, with or without equality rows) and every available solver',
 'The drake backend is not installed in the test environment, and tests look at the entries they need on a few problems.',
 [SP,SG,SD],[('record initialised with None, filled only when the solver reports an optimum',SP+', '+SG+', '+SD)],(),['the returned dictionary'])
prop('C05','Equality constraints are never silently dropped',
 'Whenever an operation takes a polyhedron that has equality constraints, the equalities take part in the result: emptiness, boundedness, membership, inclusion, intersection, product, Chebyshev data, vertices, redundancy removal, the MPC constraints and the big-M bounds use them, or the operation rejects such a polyhedron with a ValueError.',
 ['inputs'],'every public operation that takes a polyhedron, every polyhedron with at least one equality',
 'Most polyhedra in the tests have no equalities; those that have are used with a handful of operations.',
 [G,D,K],[('C and d passed to the solver, or eliminated, or stated as two inequalities',G+', '+K),('mcais and project_to reject lower-dimensional sets',D+', '+G)],(),['results of the operations'])
prop('C06','A rejected modification leaves the polyhedron unchanged',
 'If adding an inequality, an equality or bounds to a polyhedron raises an exception, for whatever reason in the arguments (sizes, missing or extra columns, indices out of range), the polyhedron still has exactly the constraints it had before the call.',
 ['inputs','fault_sequences'],'every modifying operation and every argument that makes it raise',
 'Tests only assert that the exception is raised, not the state of the object afterwards, for one or two of the failing arguments.',
 [G],[('all fallible work precedes the first change of the constraints',G+': add_inequality, add_equality, add_bounds')],(),['constraints of the polyhedron after the exception'])
prop('C07','Malformed problem data are rejected with a ValueError',
 'Inconsistent data never yield an object or a result: constructing a polyhedron (row counts of A and b or C and d differ, right-hand sides not one dimensional, C without d or d without C), adding constraints or bounds with a wrong number of rows, bounds of different sizes or indices without a dimension, constructing or discretizing a linear, affine or piecewise affine system (A not square, row counts of A, B, c differ, c not one dimensional, negative time step, different numbers of states, inputs, modes or domain dimensions), solving a program with only one of C and d, projecting an empty, unbounded or lower-dimensional polyhedron, and reading an explicit solution that was not stored each raise a ValueError.',
 ['inputs'],'every constructor and operation listed, every inconsistent combination of sizes in both directions (too many and too few)',
 'A test tries one inconsistent size per check, in one direction, and not for every entry point.',
 [G,D,DM,DU,SP,SG,SD,K],[('explicit size checks',DU+': check_affine_system; '+G+': __init__, _same_number_rows; '+D+': PieceWiseAffineSystem.__init__')],(),['exceptions raised'])
prop('C08','The named solver or method runs, with the data it was given',
 'Selecting a solver (pnnls, gurobi, drake) or a discretization method (zero_order_hold, explicit_euler) by name runs exactly that implementation for that problem class, with every piece of data passed on unchanged and in its own role; the documented default is used when no name is given. An unknown name is rejected with a ValueError.',
 ['configurations','inputs'],'every dispatching function, every name and every combination of optional data',
 'Tests compare solvers on problems where different backends give the same answer, so a wrong target or dropped default is invisible; drake cannot be run.',
 [O,D],[('if/elif dispatch on the name',O+', '+D+': from_continuous')],(),['which backend is called with which arguments'])
prop('C09','Polyhedra hold exactly the constraints they were given',
 'Constructors, bounds, added (symbolic or numeric) constraints, intersections, Cartesian products and the inequality-only form produce a polyhedron whose constraints are exactly the given ones together with those already present: each bound constrains the component named by its position in the index list, with the right sign and right-hand side, and every previous constraint is kept.',
 ['inputs','histories'],'all dimensions, index lists in any order, numbers of constraints (including none), and sequences of additions',
 'Tests use small fixed examples with sorted indices and, mostly, symmetric data.',
 [G],[('selection matrix, stacking and block-diagonal assembly',G)],(),['A, b, C, d of the resulting polyhedron'])
prop('C10','Membership and inclusion tests examine every constraint',
 'A point is reported inside a polyhedron only if it satisfies every inequality and, in both directions, every equality, up to the tolerance; a polyhedron is reported included in another only if every inequality and both directions of every equality of the other one are checked against it; domains are reported well posed only if every pair was checked; the mode of a piecewise affine system is the first domain that contains state and input.',
 ['inputs'],'all points, polyhedra, numbers of constraints, modes and tolerances',
 'Tests evaluate a few points of low-dimensional sets, mostly without equalities.',
 [G,D],[('elementwise comparison under a universal quantifier; loops over all facets and all pairs',G+', '+D)],(),['contains, is_included_in, is_well_posed, get_mode'])
prop('C11','Simulation and condensed matrices follow the same recursion',
 'For every horizon, mode sequence and dimension, the simulated trajectories satisfy x(0) given and x(t+1) = A x(t) + B u(t) + c for the mode in force at t (with u = K x in closed loop), one state more than inputs; and the condensed matrices reproduce exactly that recursion for the stacked states x(0), ..., x(N), for linear, affine and piecewise affine systems.',
 ['inputs'],'every horizon, mode sequence, number of states, inputs and modes',
 'Tests run one or two horizons with a single system or a two-mode sequence of equal sizes.',
 [D],[('simulate loops; productory and the block assembly of condense_pwa_system',D)],(),['simulate, simulate_closed_loop, condense'])
prop('C12','Discretized and symbolic systems are the stated ones',
 'Explicit Euler returns I + h A, h B, h c; zero-order hold returns the blocks of the exponential of h times the matrix [A B c; 0 0 0] that multiply state, input and offset; systems and constraints given symbolically get the Jacobians with respect to state and input and the value at the origin as offset (with the sign convention of each class), and a linear system with a nonzero offset is rejected.',
 ['inputs'],'every number of states and inputs, every matrix and time step',
 'Tests use one or two systems, where states and inputs often have equal sizes, and c = 0 in part of them.',
 [DM,D,G],[('block assembly and slicing around expm; jacobian/subs extraction',DM+', '+D+', '+G)],(),['A, B, c of the resulting system'])
prop('C13','The condensed MPC program is the stated optimal control problem',
 'For every system, horizon, cost and constraint set the parametric program behind an MPC controller (and the one for a given mode sequence) has exactly the cost 1/2 sum of x\'Qx + u\'Ru over the horizon plus 1/2 x(N)\'P x(N), and exactly the constraints that each (x(t),u(t)) is in the stage set (or in the domain of the mode at t) and x(N) in the terminal set, after substituting the dynamics.',
 ['inputs'],'every dimension, horizon, mode sequence, cost and constraint set, including affine offsets',
 'Tests check one linear example and a hybrid one against simulations with few sizes; wrong blocks that vanish for zero offsets or equal sizes pass.',
 [K],[('block assembly of Hessian, gradient, offset and constraints',K+': condense_optimal_control_problem')],(),['the mpQP of the controller'])
prop('C14','The hybrid MPC program encodes the mode logic and its big-Ms',
 'For every number of modes, states, inputs, horizon and (possibly different) numbers of facets per domain, the mixed-integer program contains for each step exactly the constraints that select one mode, bound and tie the auxiliary states to the dynamics of that mode and enforce its domain, with big-M constants equal to the extreme values over the corresponding domain, plus the terminal constraint, and the cost of the stated problem; its solution is unpacked into the inputs, states and modes of the corresponding steps.',
 ['inputs'],'every number of modes, states, inputs, steps and facets, not only equal ones',
 'The test system has as many modes as states and domains with equally many facets, so mixed-up sizes and indices pass.',
 [K],[('block assembly of the mixed-integer constraints, LPs for the big-Ms, slicing of the solution',K+': HybridModelPredictiveController')],(),['the mpMIQP and the output of feedforward'])
prop('C15','Critical regions satisfy the optimality conditions',
 'The affine law, multipliers, region and value function computed for an active set satisfy the KKT conditions of the parametric program identically in the parameter: stationarity, the active constraints hold with equality, inactive multipliers are zero, the region is exactly nonnegativity of the active multipliers and satisfaction of the inactive constraints, and the value function is the cost of the law (all including linear and constant cost terms). Solving at a point poses the program with the parameter substituted and returns its full cost.',
 ['inputs'],'all problem data including nonzero linear and constant terms, all active sets, all parameters',
 'The test problems have no linear or constant cost terms; wrong terms vanish.',
 [M],[('closed-form solution of the KKT system',M+': explicit_solve_given_active_set, solve, u, p, V')],(),['u, p, V and region of a critical region; solve'])
prop('C16','Explicit lookups answer only from a region covering the point',
 'An explicit solution evaluates its law, multipliers or value only with a critical region that contains the queried point and returns None when no region does; the explicit controller splits that answer into the N inputs of its steps; the feedback is the first input of the sequence, or None when there is none. A guessed active set is accepted only if its region contains the point, otherwise the program is solved at the point.',
 ['inputs','histories'],'all points inside, outside and on the boundaries, any list of regions, any guess',
 'Tests query points inside the feasible set of one or two examples.',
 [M,K],[('get_critical_region; guess check in explicit_solve_given_point; slicing in feedforward/feedback',M+', '+K)],(),['u, p, V, get_critical_region, feedforward, feedback'])
prop('C17','Solver backends pose exactly the given program',
 'Each backend hands to its solver the program it was given, for all sizes: every inequality row with its right-hand side, every equality row, free continuous variables, binaries exactly from position nc on, the full linear and quadratic cost (with the factor one half), and reads primal, dual and objective values from the entries that belong to them.',
 ['inputs','configurations'],'every size, with and without equalities, with and without quadratic cost, every backend',
 'Tests use a few small programs; drake cannot be run; multipliers of equalities are hardly examined.',
 [SP,SG,SD],[('KKT system and nonnegative least squares of pnnls; model building of gurobi and drake',SP+', '+SG+', '+SD)],(),['program seen by the numerical kernel; entries of the record'])
prop('C18','The maximal admissible invariant set keeps every needed constraint',
 'The maximal constraint-admissible invariant set starts from all constraints, is extended at step t exactly by the constraints of X propagated t steps that are not implied by those collected so far, stops only when none is left, and is computed only for stable dynamics and bounded sets containing the origin (others are rejected with ValueError); for a linear system with feedback it is the set for the closed loop A + B K and the constraints in terms of the state.',
 ['inputs'],'all stable dynamics, all constraint sets, any number of steps to convergence',
 'Tests run two low-dimensional systems that converge in few steps.',
 [D],[('LP per facet over the current set; loop until no facet is violated',D+': mcais, LinearSystem.mcais')],(),['mcais'])
prop('C19','Chebyshev data, equality elimination, vertices and projection agree',
 'Chebyshev radius and center come from the largest ball in the polyhedron (row norms on the radius variable), with equalities eliminated through an orthogonal change of variables and results mapped back to the original coordinates; vertices are those of the same reduced set, mapped back the same way; a projection keeps the requested coordinates, in the requested order, and drops the others.',
 ['inputs'],'all dimensions, with and without equalities, all lists of residual dimensions',
 'Tests use two- and three-dimensional sets with symmetric data; the back-substitution is visible only with a nonzero right-hand side.',
 [G,GU],[('_chebyshev, _remove_equalities, vertices, convex_hull_method',G)],(),['radius, center, vertices, project_to'])
prop('C20','Results do not depend on hidden or shared state',
 'The library keeps no state between calls other than the attributes of its own objects: no module- or class-level data and no mutable default argument is changed at run time, and randomness enters only the offset used to fit a plane through points and the colors of plots. Two objects built by separate calls never share mutable state the library created.',
 ['histories'],'every sequence of calls, on one or several objects',
 'Tests run each case on fresh objects in a fresh process and cannot see state leaking from one call into another.',
 [G,GU,D,DM,K,M,O,SP,SG,SD],[('only constants at module level; defaults None or constants','all modules')],(),['all public operations'])
prop('C21','Only redundant inequalities are removed',
 'The minimal facets of a polyhedron are found by testing every inequality against all the inequalities still kept (equalities included), with only the tested one relaxed; an inequality is dropped only if the others already imply it, and removing redundancy keeps left- and right-hand sides of exactly the kept inequalities and all equalities.',
 ['inputs'],'all polyhedra, with and without equalities, duplicated and scaled rows',
 'Tests use a few small examples.',
 [G],[('LP per facet in minimal_facets; paired row selection',G+': minimal_facets, remove_redundant_inequalities')],(),['minimal_facets, remove_redundant_inequalities'])
prop('C22','Numerical answers are optimal within tolerance',
 'The minimizers, minima and multipliers returned by the solvers are optimal for the given program up to the stated tolerances, for every well-posed program.',
 ['inputs'],'every program with floating-point data','Tests sample a few programs.',
 [SP,SG],[('nonnegative least squares / gurobi',SP+', '+SG)],(),['solution records'])
prop('C23','The explicit solution covers the feasible set',
 'Every parameter for which the parametric program is feasible lies in some critical region of its explicit solution.',
 ['inputs'],'every parametric program and every feasible parameter','Tests compare explicit and implicit solutions on sampled points.',
 [M],[('facet-to-facet exploration',M+': explicit_solve')],(),['ExplicitSolution'])
prop('C24','The iterative algorithms terminate',
 'Maximal invariant set, convex-hull projection and explicit solution terminate for every input satisfying their documented assumptions.',
 ['inputs'],'every admissible input','Tests only see inputs on which they stop.',
 [D,G,M],[('finite determination / finitely many facets and regions',D+', '+G+', '+M)],(),['mcais, project_to, explicit_solve'])
prop('C25','Emptiness and boundedness are decided for every polyhedron',
 'Polyhedron.empty is True exactly when no point satisfies all inequalities and equalities, and Polyhedron.bounded is True exactly when the set is empty or contains no ray, also for sets with lineality, flat sets and sets described with equalities.',
 ['inputs'],'all polyhedra of all dimensions, with and without equalities',
 'Tests use a few sets that are full dimensional and bounded or clearly unbounded.',
 [G],[('feasibility QP; kernel test and Stiemke alternative LP',G+': empty, bounded')],(),['empty, bounded'])
prop('C26','Controllability and the optimal feedback gain',
 'LinearSystem.controllable is True exactly when the reachable subspace of (A, B) is the whole state space; solve_dare rejects an uncontrollable system with a ValueError and otherwise returns the solution P of the Riccati equation for exactly the given A, B, Q and R together with the optimal gain K = -(R + B\'PB)^-1 B\'PA, with the sign convention u = K x used by simulate_closed_loop and mcais.',
 ['inputs'],'all systems and weights of all dimensions',
 'Tests solve one double integrator; a wrong power range, a transposed product or a swapped weight shows only for more inputs, nonsymmetric data or higher dimensions.',
 [D],[('rank of the reachability matrix; gain from the Riccati solution',D+': LinearSystem.controllable, solve_dare')],(),['controllable, solve_dare'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
