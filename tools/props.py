T_IN = 'The bindings tests compare a few hundred numbers on one fixed or random state and one material; '
prop('C01', 'Conserved and primitive variables determine each other, for every material law',
  'Converting a state from primitive to conserved variables and back (and the other way round) returns the same state, for every equation of state, with and without heat conduction and reaction energy. The pressure computed from an energy is the pressure that energy was computed from, and temperature, internal energy, velocity, distortion and level sets are read from the places they are written to.',
  ['inputs', 'configurations'], 'every state of positive density, every parameter value, every equation of state, in the compiled configurations base and THERMAL+MULTI',
  T_IN + 'an inverse that is wrong for one law or one corner of parameter space passes them.', [S + 'system/functions/vectors.cpp', S + 'system/energy/eos.cpp', S + 'system/variables/state.cpp', S + 'system/energy/mg.cpp'],
  ['Cvec@' + S + 'system/functions/vectors.cpp', 'Pvec@' + S + 'system/functions/vectors.cpp', 'pressure@' + S + 'system/variables/state.cpp', 'total_energy@' + S + 'system/energy/eos.cpp'],
  'Every obligation proved over the reals for all states and parameters, one material per cell; rounding is not covered.')
prop('C02', 'Every derivative the solver uses is the derivative of the quantity it belongs to',
  'The functions giving derivatives of reference curves, energy, temperature, shear and thermal sound speeds and stress return exactly the partial derivatives of the corresponding quantity, for every equation of state.',
  ['inputs', 'configurations'], 'every density, pressure, distortion and parameter value inside a branch of the law',
  T_IN + 'no test compares a derivative with the function it differentiates.', [S + 'system/energy/mg.cpp', S + 'system/energy/derivatives.cpp', S + 'system/waves/shear.cpp'],
  ['dEdρ@' + S + 'system/energy/derivatives.cpp', 'dp_ref@' + S + 'system/energy/mg.cpp', 'dsigmadA@' + S + 'system/variables/state.cpp'],
  'Symbolic differentiation of the value computed by the real code, compared with the real derivative function; exact, all inputs.')
prop('C03', 'The system matrix is the exact linearisation of the fluxes',
  'In every direction the system matrix equals the derivative of the flux with respect to the conserved variables plus the non-conservative matrix, and the non-conservative product equals that matrix times its argument. The change-of-variables matrices are exact derivatives, and the source terms are the strain, heat-flux and reaction relaxation laws for fluids, power-law and Bingham fluids, elastic and plastic solids.',
  ['inputs', 'configurations'], 'every state of positive density, every direction, material law and parameter value',
  T_IN + 'and the matrix is only compared with a second hand-written copy of the same formulas.', [S + 'system/equations.cpp', S + 'system/jacobians.cpp', S + 'system/variables/sources.cpp'],
  ['system_matrix', 'Bdot', 'block', 'source', 'dFdP@' + S + 'system/jacobians.cpp', 'dPdQ@' + S + 'system/jacobians.cpp', 'theta1inv@' + S + 'system/variables/sources.cpp'],
  'All obligations proved over the reals; one material per cell.')
prop('C04', 'Fluxes are the physical conservation laws, whichever axis they are taken along',
  'The flux along each axis is the mass, energy, momentum, distortion, thermal-impulse and concentration flux of the model, and is added to what the caller passes. Relabelling or mirroring the coordinate axes relabels fluxes, non-conservative products and sources accordingly.',
  ['inputs', 'configurations'], 'every state of positive density, axis, material law, and axis permutation or reflection',
  T_IN + 'mostly along the first axis.', [S + 'system/equations.cpp'], ['flux', 'Bdot', 'source', 'sigma@' + S + 'system/variables/state.cpp'], 'All obligations proved over the reals, base and THERMAL+MULTI.')
prop('C05', 'Numerical fluxes are consistent and dissipate as their scheme prescribes',
  'For equal states each numerical flux (Rusanov, Roe, Osher) returns twice the physical flux; for different states it adds the dissipation of its scheme: the larger of the two maximal wave speeds, the absolute value of the path-averaged system matrix, or the path-averaged absolute value of the system matrix, times the jump. The interface jump term is the path integral of the non-conservative product: zero without a jump, changing sign with the path, zero in the conserved components.',
  ['inputs'], 'every pair of states and every axis', T_IN + 'consistency and dissipation are statements about all pairs of states.', [S + 'solvers/fv/fluxes.cpp'], ['D_RUS', 'D_ROE', 'D_OSH', 'Bint'],
  'All obligations proved; eigendecompositions enter through the contract of the library (A = R diag(l) L).')
prop('C06', 'The finite-volume update is conservative, local and leaves masked cells alone',
  'One update changes each active cell by its time- and space-integrated sources and non-conservative products and by the fluxes through its faces, where a face counts only if the cells on both sides are active. Inactive cells keep their values, what leaves one cell enters its neighbour, and a uniform flow without sources stays uniform.',
  ['inputs', 'configurations'], 'all reconstructed data, all masks, all time steps and spacings, each numerical flux, with and without sources and time nodes, in 1 and 2 dimensions',
  'The tests run one grid with an all-true mask and compare with the Python solver.', [S + 'solvers/fv/fv.cpp', S + 'solvers/poly/evaluations.cpp'], ['fv_launcher', 'centers1_inner', 'interfs1_inner', 'centers2_inner', 'interfs2_inner'],
  'Callees enter by contract (arbitrary functions); data and masks arbitrary; grid sizes bounded as listed in the evidence.', level='other')
prop('C07', 'The reconstruction keeps cell averages and reproduces polynomials',
  'In every cell the reconstructed polynomial has the average of the cell, whatever the data, and data that come from a polynomial of degree below the order are reproduced exactly, in one and two dimensions and next to the edges of the grid. The reconstruction is the convex combination of the polynomials of its stencils with the prescribed weights, and every value of the output is set.',
  ['inputs', 'configurations'], 'all cell data; grid shapes', 'The tests compare two implementations on one data set.', [S + 'solvers/weno/weno.cpp', S + 'solvers/weno/weno_matrices.cpp'], ['weno_launcher', 'weno1', 'weno2', 'coeffs', 'weight'],
  'Per-cell contracts proved for all data; grid traversal with bounded grid sizes.')
prop('C08', 'Basis, weights and projection matrices define an exact reconstruction space',
  'The nodal basis takes the value one at its own node and zero at the others, the quadrature weights integrate it exactly, the derivative, end-value and space-time matrices are those of that basis, interpolation and differentiation of nodal values are exact for polynomials of the order of the scheme in every direction, and the smoothness indicator is the integral of the squared derivatives.',
  ['inputs', 'configurations'], 'all nodal values, orders N=2 and N=3, one and two dimensions', 'The tests compare matrices of one order with a second implementation.', [S + 'solvers/poly/basis.cpp', S + 'solvers/poly/evaluations.cpp', S + 'solvers/weno/weno_matrices.cpp'],
  ['nodes', 'weights', 'derivs2d@' + S + 'solvers/poly/evaluations.cpp', 'endpts2d@' + S + 'solvers/poly/evaluations.cpp', 'oscillation_indicator@' + S + 'solvers/weno/weno_matrices.cpp'],
  'All obligations proved; the constants are the exact rationals of the printed literals to the tolerance stated in the harness.')
prop('C09', 'The predictor solves the element-local weak form of the system',
  'In each active cell the predictor returns a fixed point of the local space-time Galerkin equations: the residual it iterates on is the weak form of the system with fluxes, non-conservative products and sources, a uniform source-free state is its own solution, the result is the first iterate that meets the tolerance or else the nonlinear solver\'s solution of that residual, and inactive cells and the reconstruction are untouched.',
  ['inputs', 'configurations'], 'all reconstructed data, steps, spacings and masks; one and two dimensions', 'The tests run one smooth problem.', [S + 'solvers/dg/dg.cpp', S + 'solvers/dg/dg1.cpp', S + 'solvers/dg/dg2.cpp'],
  ['predictor', 'rhs1@' + S + 'solvers/dg/dg1.cpp', 'rhs2@' + S + 'solvers/dg/dg2.cpp', 'obj1@' + S + 'solvers/dg/dg1.cpp', 'obj2@' + S + 'solvers/dg/dg2.cpp'],
  'Weak form proved for all data; iteration and cell loops bounded (iteration limit 2, up to three cells), callees by contract.')
prop('C10', 'Boundary layers realise the boundary condition asked for',
  'The extended grid holds the original cells unchanged in its interior, and its ghost layers hold the nearest cell, the opposite side, or the mirrored cell with the velocity components and distortion entries reversed that the condition (transmissive, periodic, slip, stick, moving, symmetric) prescribes, on each side of each axis independently.',
  ['inputs', 'configurations'], 'all cell data, every pair of conditions per axis, grid shapes', 'The tests use transmissive and periodic grids only.', [S + 'etc/grid.cpp'], ['boundaries', 'boundaries1', 'boundaries2', 'extended_dimensions'],
  'All data, every combination of conditions; grid sizes bounded as listed in the evidence.', level='other')
prop('C11', 'The extended mask holds exactly the active cells and their neighbours',
  'A cell is marked for prediction if and only if it or a face neighbour is active, the outer layer repeats the nearest inner cells, the corners are unmarked, and the input mask and everything outside the extended mask are untouched.',
  ['inputs'], 'all masks on the listed grid shapes', 'The tests use an all-true mask.', [S + 'etc/grid.cpp'], ['extend_mask'], 'Exhaustive over masks; grid sizes bounded as listed in the evidence.', level='other')
prop('C13', 'The time step obeys the stability limit and lands on the final time',
  'The step is the stability factor over the largest sum of signal speed per spacing among active cells of materials that are not vacuum, a fifth of that during the first six steps, and never passes the final time: it is cut to end exactly there.',
  ['inputs', 'history'], 'all states, masks, materials, spacings, times and step counts', 'No test evolves a flow.', [S + 'solvers/utils.cpp', S + 'solvers/iterator.cpp'], ['timestep@' + S + 'solvers/iterator.cpp'], 'Signal speeds by contract (proved in C21); numbers of cells and materials bounded.', level='other')
prop('C14', 'Material grids are reassembled into one state without loss',
  'After a step each cell of the domain takes its state from the grid of the material that occupies it, vacuum cells are empty, the level sets are the mean over the grids that updated the cell and otherwise unchanged, and reaction concentrations are limited to between zero and the density.',
  ['inputs'], 'all grids, masks, level sets and materials', 'No test has more than one material.', [S + 'solvers/iterator.cpp', S + 'system/functions/vectors.cpp'], ['make_u', 'limit_concentration', 'get_material_index@' + S + 'system/functions/vectors.cpp'], 'All data; numbers of cells and materials bounded, material index proved.', level='other')
prop('C17', 'Maintenance of the distortion changes only what it should',
  'Renormalising scales the distortion of each cell to the determinant its density prescribes and changes nothing else; rotating it keeps the metric tensor, hence stress and energy, and leaves the determinant positive; resetting gives an unstrained distortion of the prescribed determinant with pressure kept; and a grid counts as contorted exactly when some cell has a mean squared stretch, relative to its volume, more than the tolerance above one. Vacuum and empty cells are left alone.',
  ['inputs'], 'every state of positive density and every invertible distortion', 'No test calls these functions with a strained state.', [S + 'solvers/utils.cpp', S + 'system/functions/matrices.cpp'], ['renorm_distortion', 'rotate_distortion', 'reset_distortion', 'contorted'], 'Cell functions proved, with the library decompositions by contract; loops over cells bounded.')
prop('C18', 'Source splitting relaxes every cell by the laws of the model',
  'Relaxing a cell changes its momentum by the body force, relaxes its distortion toward the unstrained state with its determinant and principal directions kept at the rate of the strain source (not at all for elastic solids), relaxes the thermal impulse exactly as its source prescribes at every time, and its concentration by Runge-Kutta steps of the reaction rate, never below zero; the half step of the reconstruction advances active cells by the homogeneous system.',
  ['inputs', 'configurations'], 'every invertible distortion, material law, equation of state, state and time step', T_IN + 'relaxation is tested on one state and one step.', [S + 'system/relaxation/analytic.cpp', S + 'system/relaxation/numerical.cpp', S + 'solvers/split/ode.cpp', S + 'solvers/split/homogeneous.cpp', S + 'solvers/split/rk.cpp'],
  ['analyticSolver_distortion', 'analyticSolver_thermal', 'nondimensionalized_time', 'ode_stepper_numerical@' + S + 'system/relaxation/numerical.cpp', 'midstepper@' + S + 'solvers/split/homogeneous.cpp', 'runge_kutta@' + S + 'solvers/split/rk.cpp'],
  'Cell functions proved for all inputs (distortion in its principal frame, singular value decomposition by contract); sweeps over cells bounded.')
prop('C21', 'Wave speeds are those of the system the solver evolves',
  'In every direction the thermo-acoustic tensor is the product of the two off-diagonal blocks of the primitive system matrix, and all other variables only advect, so that flow speed plus the square root of its largest eigenvalue bounds every signal speed. The maximal wave speed returned is exactly that value, and the adiabatic and heat wave speeds are the ones the equation of state implies.',
  ['inputs', 'configurations'], 'every hyperbolic state of positive density, direction and material law', T_IN + 'a wrong coupling in the second or third direction makes time steps too long only for some flows.', [S + 'system/eig.cpp', S + 'system/waves/speeds.cpp'], ['Xi1', 'Xi2', 'thermo_acoustic_tensor', 'max_abs_eigs', 'c_0@' + S + 'system/waves/speeds.cpp', 'c_h@' + S + 'system/waves/speeds.cpp'],
  'All obligations proved; eigenvalues of the tensor enter by library contract.')
prop('C20', 'The nonlinear solver returns a point whose residual it computed and accepted',
  'The Newton-Krylov solver stops early only at a point where the function it was given has a residual below the tolerances (or exactly zero), and otherwise makes all its steps; the residual it carries along always belongs to its current point; a shortened step gives sufficient decrease; its matrix product is the directional difference quotient at the current point, exact for linear functions; a cycle of the linear solver minimises the (preconditioned) residual over the directions it tried, starts from the guess, and keeps its list of corrections bounded and normalised.',
  ['inputs', 'histories of residuals'], 'every function, point, step and tolerance for the single operations; scripted histories of residuals for the loops', 'The only test compares lgmres with SciPy on one random matrix; nothing tests the nonlinear solver.', [S + 'scipy/newton_krylov.cpp', S + 'scipy/lgmres.cpp'],
  ['nonlin_solve@' + S + 'scipy/newton_krylov.cpp', 'matvec@' + S + 'scipy/newton_krylov.cpp', 'check@' + S + 'scipy/newton_krylov.cpp', 'lgmres@' + S + 'scipy/lgmres.cpp'], 'Termination test, matrix product, full steps and one-direction cycles proved; line search and outer loop bounded to scripts.', level='other')
prop('C22', 'The time loop takes the prescribed steps in order and returns what it computed',
  'Until the final time is reached each step fills the ghost cells, takes one time step for all materials, applies the boundary conditions and advances every material that is not vacuum, reassembles the state, limits concentrations, and maintains the distortion (renormalised every step, rotated every tenth if configured, reset when contorted). The loop stops at the final time or at the first state that is not a number, returning at most a hundred snapshots in order, none before its share of the time, with the last state at the end and, on failure, the states before and after it.',
  ['history', 'inputs', 'configurations'], 'all data and functions, and every history of step sizes, contortion tests and failures listed in the harness', 'No test evolves a flow.', [S + 'solvers/iterator.cpp'], ['iterator', 'limit_concentration'],
  'All data and callees arbitrary; step-size histories bounded as listed.', level='other')
prop('C15', 'Level sets become signed distances without moving the interface',
  'Renormalising a level set returns the signed distance to its zero set: no cell changes sign, a cell on the interface stays at zero, a cell beside the interface gets the distance to the nearest crossing on its grid lines, every other cell solves the unit-gradient equation from its nearer neighbours, a field without an interface is kept, and nothing but the level sets of a state is touched. A material indicator is negative exactly inside its material.',
  ['inputs'], 'any values and signs of the level set on grids of square cells', 'No test of the suite compares a distance with anything.', [S + 'multi/functions.cpp', 'code/cpp/include/skfmm/base_marcher.cpp', 'code/cpp/include/skfmm/distance_marcher.cpp', 'code/cpp/include/skfmm/heap.cpp'],
  ['distance@' + S + 'multi/functions.cpp', 'renormalize_levelsets@' + S + 'multi/functions.cpp', 'updatePointOrderOne@code/cpp/include/skfmm/distance_marcher.cpp', 'initalizeFrozen@code/cpp/include/skfmm/distance_marcher.cpp', 'march@code/cpp/include/skfmm/base_marcher.cpp'], 'One step of the march and its start proved for all values; the whole march and the queue bounded in cells.', level='other')
prop('C16', 'Ghost cells hold the interface state and leave real cells alone',
  'Before a step each material grid is filled outside of its material: cells across the interface get the state of the interface problem between the two materials along the interface normal, cells beyond get the state of the filled cell they are reached from along the normal, cells of the material itself are not changed, and no cell outside of the grid is read.',
  ['inputs'], 'any states, level sets and materials', 'No test has more than one material.', [S + 'multi/fill.cpp', S + 'multi/functions.cpp'],
  ['fill_ghost_cells@' + S + 'multi/fill.cpp', 'fill_boundary_cells@' + S + 'multi/fill.cpp', 'fill_neighbor_cells@' + S + 'multi/fill.cpp', 'find_interface_cells@' + S + 'multi/functions.cpp', 'finite_difference@' + S + 'multi/functions.cpp'], 'Normals and signs proved; masks, gradients and filling for any states on grids of bounded size, the interface solver by contract.', level='other')
prop('C12', 'A step is the same for every number of threads',
  'Splitting the rows of the grid over any number of threads, run in any order, gives the same new state as one thread: the slices are disjoint and cover the grid, each thread sees its rows with the full margins and mask, and none reads what another writes. A step is reconstruction, prediction and update, or, split, half a step of the sources on the state and on the extended grid, reconstruction, the optional half step, the update, and another half step of the sources; each of these works row by row.',
  ['schedule', 'inputs', 'configurations'], 'all data and masks; the listed numbers of rows and threads, in both orders', 'The tests never step a grid in parallel.', [S + 'solvers/steppers.cpp', S + 'solvers/weno/weno.cpp', S + 'solvers/fv/fv.cpp'],
  ['ader_stepper_para', 'split_stepper_para', 'ader_stepper', 'split_stepper'],
  'OpenMP regions executed by a simulated run-time thread by thread in both orders; grid sizes and thread counts bounded. One known finding (side-wall cells at slice ends).', level='other')
prop('C19', 'Interface states satisfy the conditions between the two materials',
  'The state imposed at a material interface is found in the frame whose first axis is the interface normal and returned in the frame of the grid. Each iteration changes the state on each side along its outgoing waves only (eigenvectors of the primitive system: mass and entropy kept, nothing coming in), with strengths for which traction and velocity of both sides agree to first order - normal components only where materials slip - and temperature and heat flux with heat conduction; next to a vacuum the traction vanishes. It stops when every mismatch is below the tolerance, after at most ten iterations, and a failed iteration leaves the state as it was.',
  ['inputs', 'configurations'], 'every pair of states, material parameters, normal and time step, slip and stick, with and without heat conduction and vacuum', 'The tests have no interface between two materials with a known solution.',
  [S + 'system/multi/riemann.cpp', S + 'system/multi/conditions.cpp', S + 'system/multi/eigenvecs.cpp', S + 'system/multi/rotations.cpp'], ['left_star_state', 'star_stepper', 'riemann_constraints', 'check_star_convergence', 'slip_bcs@' + S + 'system/multi/conditions.cpp', 'stick_bcs@' + S + 'system/multi/conditions.cpp', 'eigen@' + S + 'system/multi/eigenvecs.cpp', 'rotation_matrix@' + S + 'system/multi/rotations.cpp'],
  'All obligations proved; state functions, eigendecomposition and the five-by-five solve by contract; convergence histories of the iteration prescribed (its bound is ten).')
PY_ = 'code/python/gpr/'
prop('C23', 'The Python layer describes the same materials and states as the solver',
  'For every equation of state the Python package evaluates the same curves, energies, pressures, temperatures, stresses, heat fluxes, sound speeds and relaxation and reaction rates as the solver, and its derivative functions are the derivatives of its value functions. A state built from density, pressure, velocity, distortion, thermal impulse and concentration is read back by the solver as that state, hyperelastic states have the pressure and stress of their energy, State returns what its vector holds, and material parameters reach the solver in the field and form they were meant for, for one and for two materials.',
  ['inputs', 'configurations'], 'every state, distortion, material law and set of parameters (non-zero where given; stresses below the cap of the plastic law)', 'The tests compare a few functions at random states of one material; most material kinds and all reaction and hyperelastic functions are never called.',
  [PY_ + 'vars/mg.py', PY_ + 'vars/eos.py', PY_ + 'vars/derivatives.py', PY_ + 'vars/state.py', PY_ + 'vars/sources.py', PY_ + 'vars/hyp.py', PY_ + 'misc/structures.py', PY_ + 'misc/objects.py'],
  ['internal_energy@' + PY_ + 'vars/mg.py', 'total_energy@' + PY_ + 'vars/eos.py', 'dEdA_s@' + PY_ + 'vars/derivatives.py', 'theta1inv@' + PY_ + 'vars/sources.py', 'Cvec@' + PY_ + 'misc/structures.py', 'material_params@' + PY_ + 'misc/objects.py', 'Sigma_hyp@' + PY_ + 'vars/hyp.py'],
  'All obligations proved; the Python functions are transcribed by execution on every run. Out of scope: plotting, and the prototypes in gpr.sys and gpr.multi that cannot be imported.')
prop('C24', 'A mixture of two materials closes consistently and differentiates consistently',
  'For a cell that holds two materials (reactant and product) in any proportion, each with any equation of state, the pressure and the two densities are those at which volumes add up, energies add up and both temperatures agree, to the tolerance of the nonlinear solver; a cell of one material alone has exactly the pressure of that material (never negative). The derivatives of the mixture energy by density and by pressure, and with them the sound speed, are the derivatives along that closure, both materials moving so that volumes and temperatures stay matched.',
  ['inputs', 'configurations'], 'every state and proportion and every pair of equations of state (25 pairs)', 'The tests run two mixtures to completion and look at none of these relations.',
  [S + 'system/energy/multi.cpp', S + 'system/energy/derivatives.cpp', S + 'system/variables/state.cpp'],
  ['solve_multi@' + S + 'system/energy/multi.cpp', 'obj@' + S + 'system/energy/multi.cpp', 'average_pressure@' + S + 'system/energy/multi.cpp', 'dEdp@' + S + 'system/energy/derivatives.cpp', 'dEdρ@' + S + 'system/energy/derivatives.cpp'],
  'All obligations proved; the nonlinear solver is taken by contract (C20). Not covered: that the system has a solution and that the solver finds it; temperature() and the concentration column of the Jacobians, which treat a mixture as its first material.')
