"""Property texts.  tools/gen.py writes properties.jsonl and MANIFEST.json from this table."""
P = {}


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, notes='', na=None):
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None),
                 notes=notes, na=na)


ONLY5 = 'The five stable tests solve a handful of fixed HEX8 problems and compare against stored fields; '

prop('C01', 'Finite element interpolation is exact for the polynomials of each element',
     'For every supported element type and every cell shape, sampling a polynomial of the element\'s complete degree at the nodes '
     '(numbered in the mesh file convention) and evaluating the discrete field gives back the same value and the same physical '
     'gradient at every volume and surface quadrature point. Linear fields are reproduced on distorted multilinear cells too, and '
     'surface quadrature points lie on the face they belong to.',
     ['inputs', 'configurations'], 'all nine element types, all non-degenerate affine cells in the stated box, all polynomial coefficients',
     ONLY5 + 'eight of the nine element types and all non-cubic cells are never exercised.',
     ['jax_am/fem/basis.py', 'jax_am/fem/core.py'],
     [('reordering of tabulated shape functions into mesh numbering', 'basis.get_elements / get_shape_vals_and_grads / get_face_shape_vals_and_grads'),
      ('pull-back of gradients by the inverse Jacobian', 'core.FEM.get_shape_grads, get_face_shape_grads')],
     ['FEM.convert_from_dof_to_quad', 'FEM.sol_to_grad', 'FEM.convert_neumann_from_dof'])

prop('C02', 'Integration weights reproduce volumes, areas and moments of any cell',
     'For every supported element type, the volume quadrature of any positively oriented cell has positive weights and integrates 1, '
     'x and (where the rule is of second order) x*x exactly, and the surface quadrature of every face carries exactly that face\'s '
     'area with its centroid. Distorted multilinear cells get their exact volume.',
     ['inputs', 'configurations'], 'all nine element types, all affine cells in the stated box, all faces, distorted HEX8/QUAD4 cells',
     ONLY5 + 'unit-cube cells hide missing Jacobian factors, wrong face scaling and wrong weights.',
     ['jax_am/fem/basis.py', 'jax_am/fem/core.py'],
     [('weights times Jacobian determinant', 'core.FEM.get_shape_grads'), ('Nanson scaling of face weights', 'core.FEM.get_face_shape_grads')],
     ['FEM.JxW', 'FEM.get_face_shape_grads'])

prop('C03', 'The assembled residual is the weak form, summed over every cell and face',
     'For every mesh size, nodal field, coefficient field and load, the residual returned for a problem equals the sum over all cells '
     'of the stress and mass terms, plus the surface terms that depend on the solution, minus body forces and prescribed tractions, '
     'each counted exactly once. Loads act on exactly those faces all of whose vertices satisfy the user\'s location predicate.',
     ['inputs', 'configurations'], 'mesh sizes 1..45 cells around the batching limit, element types, all nodal values, per-cell coefficients and load parameters, boundary location thresholds',
     ONLY5 + 'cells are processed in batches whose sizes depend on the number of cells, and a wrong batch, a face selected twice or a lost coefficient only shows for particular sizes.',
     ['jax_am/fem/core.py'],
     [('batched cell kernels', 'core.FEM.split_and_compute_cell'), ('scatter-add of cell and face contributions', 'core.FEM.compute_residual_vars_helper, compute_face, compute_Neumann_integral_vars, compute_body_force_by_fn'),
      ('face selection', 'core.FEM.get_boundary_conditions_inds')],
     ['FEM.compute_residual', 'FEM.compute_residual_vars'])

prop('C04', 'The tangent matrix is the exact derivative of the residual',
     'For every problem and every state, the sparse matrix assembled for Newton\'s method applied to any direction equals the '
     'derivative of the residual in that direction, including surface terms that depend on the solution, and assembling it returns the same residual '
     'as the residual-only evaluation.',
     ['inputs', 'configurations'], 'all nodal states and directions, mesh sizes 1..45 cells, element types, vector problems',
     ONLY5 + 'a wrong tangent still converges on easy problems, only slower, and never shows in a comparison of converged fields.',
     ['jax_am/fem/core.py'],
     [('forward-mode cell Jacobians and row/column index arrays', 'core.FEM.split_and_compute_cell, compute_newton_vars')],
     ['FEM.newton_update', 'FEM.I', 'FEM.J', 'FEM.V'])

SOLVE = ('The inner Krylov solver is a contract (its answer satisfies A x = b; dense direct solve in replays); its convergence is not claimed.')

prop('C05', 'A solved problem honours prescribed values and equilibrium',
     'Whenever the row-elimination solver returns, every constrained degree of freedom has exactly its prescribed value and the discrete '
     'equations of all other degrees of freedom are satisfied to the solver tolerance: for linear and nonlinear problems, with and without PETSc, '
     'with and without an initial guess, for scalar and vector problems, and after the conditions have been replaced between solves.',
     ['inputs', 'configurations', 'histories'], 'all coefficients, boundary values, tractions and sources in the boxes; five element types; up to four Newton steps',
     ONLY5 + 'prescribed values, starting guesses and coefficient fields vary without bound and the Newton loop takes a data-dependent number of steps.',
     ['jax_am/fem/solver.py', 'jax_am/fem/core.py'],
     [('row elimination and residual of constrained rows', 'solver.apply_bc_vec, row_elimination, get_A_fn'), ('Newton loop', 'solver.solver_row_elimination'),
      ('linear start and increments', 'solver.linear_guess_solve, linear_incremental_solver')], ['solver.solver'], notes=SOLVE)

prop('C06', 'Multiplier solves honour prescribed values, periodicity and balance',
     'Whenever a problem with periodic conditions is solved, prescribed values hold, both nodes of every periodic pair carry the same value, nodes that are '
     'neither prescribed nor paired are in equilibrium, and the residuals of a pair cancel each other. This holds for linear and nonlinear problems, with and without PETSc.',
     ['inputs', 'configurations', 'histories'], 'all coefficients, boundary values and loads in the boxes; three element types; up to three linear solves',
     'No stable test has periodic conditions; constraint rows, multiplier numbering and signs matter only in combination.',
     ['jax_am/fem/solver.py', 'jax_am/fem/core.py'],
     [('augmented matrix and residual', 'solver.get_A_fn_and_res_aug, compute_residual_lm, aug_dof_w_bc'), ('Newton loop with multipliers', 'solver.solver_lagrange_multiplier'),
      ('pairing of nodes', 'core.FEM.periodic_boundary_conditions')], ['solver.solver'], notes=SOLVE)

prop('C07', 'Adjoint and tangent derivatives of a solve are the exact sensitivities',
     'For every parameter field, state, cotangent and direction, the gradient delivered by the differentiable forward solve equals the derivative of the '
     'discrete solution with respect to the parameters, and the forward-mode variant delivers the solution of the tangent equation with zero change on constrained degrees of freedom.',
     ['inputs', 'configurations'], 'all per-cell parameters, cotangents and directions in the boxes; linear and quadratic fluxes; with and without PETSc',
     'A gradient test compares one direction of one problem by finite differences; a transposed or unconstrained adjoint is often right for symmetric matrices.',
     ['jax_am/fem/solver.py', 'jax_am/fem/autodiff_utils.py'],
     [('adjoint solve', 'solver.implicit_vjp, ad_wrapper'), ('tangent solve', 'autodiff_utils.ad_wrapper_jvp, implicit_jvp_helper')],
     ['solver.ad_wrapper', 'autodiff_utils.ad_wrapper_jvp'], notes=SOLVE + ' Reverse mode through ad_wrapper_jvp is not encoded.')

prop('C08', 'Elastic material laws are frame indifferent and derive from their energy',
     'For every displacement gradient, linear elasticity returns Hooke\'s stress (E = 70e3, nu = 0.3), unaffected by rotations, and hyperelasticity returns '
     'the first Piola-Kirchhoff stress of its compressible neo-Hookean energy (E = 1e3, nu = 0.3): stress free at rest, consistent with Hooke\'s law for small '
     'strains, in angular momentum balance.',
     ['inputs'], 'all displacement gradients in the boxes with positive volume ratio, plane and spatial',
     ONLY5 + 'a test samples one strain path; couplings between shear and normal components need gradients that no test uses.',
     ['jax_am/fem/models.py'], [('stress functions', 'models.LinearElasticity.get_tensor_map, HyperElasticity.get_tensor_map')], ['get_tensor_map'])

prop('C09', 'Plastic stress update returns to the yield surface and keeps its history',
     'For every previous stress and strain and every new strain, the stress is symmetric, changes its mean part elastically, equals the elastic trial stress inside '
     'the yield surface and lies exactly on the yield surface (radially) when the trial stress is outside; pure volume changes and rotations stay elastic. After each load step the '
     'stored stress and strain of each quadrature point are those of that step.',
     ['inputs', 'histories'], 'all symmetric previous states and displacement gradients in the boxes, two load steps',
     ONLY5 + 'one uniaxial load path cannot distinguish a wrong trial stress, history or deviator.',
     ['jax_am/fem/models.py'], [('return map', 'models.Plasticity.get_maps'), ('history update', 'models.Plasticity.update_stress_strain')],
     ['Plasticity.get_tensor_map', 'Plasticity.update_stress_strain'])

prop('C10', 'Post-processing integrals equal the exact integrals of the field',
     'For every affine displacement field, the reported surface area, surface integral and traction resultant of a selected boundary are exact; the average stress is the volume-weighted '
     'mean; the reported L2 and H1 errors are the exact norms of the difference to the reference field.',
     ['inputs', 'configurations'], 'all affine fields and errors, six element/mesh combinations of non-unit boxes, every stress field',
     ONLY5 + 'unit boxes hide missing weights and mixed-up axes.',
     ['jax_am/fem/models.py', 'jax_am/fem/core.py'], [('surface quadrature', 'models.Mechanics.surface_integral, compute_traction, compute_surface_area'),
      ('norms', 'models.LinearPoisson.compute_l2_norm_error, compute_h1_norm_error'), ('average', 'models.Plasticity.compute_avg_stress')], ['return values'])

prop('C11', 'Design updates respect bounds and move limits in every iteration',
     'In every iteration of the topology optimisation loop, the box handed to the subproblem contains the current design, lies inside the variable bounds and inside the move limit, '
     'and keeps a positive distance from the asymptotes; hence every density handed to the objective lies in [0,1] and differs from its predecessor by at most the move limit, and '
     'asymptotes are driven by the last three designs.',
     ['inputs', 'histories'], 'all bounds, iterates, previous asymptotes, gradients and move limits in the boxes; up to three iterations of the loop; any answer of the subproblem solver inside its box',
     'Optimisation runs take hundreds of steps; no stable test runs one.',
     ['jax_am/fem/mma.py'], [('bounds alfa, beta and asymptotes', 'mma.MMA.mmasub'), ('iterate bookkeeping', 'mma.optimize, MMA.registerMMAIter')], ['mma.optimize', 'MMA.getOptimalValues'],
     notes='The interior-point iteration (subsolv) is a contract in the symbolic runs (any point of its box); concrete replays run it for real.')

prop('C12', 'Each design step minimises a convex first-order model of the problem',
     'For every design, gradient and history, the subproblem built for the step agrees with objective and constraints to first order at the current design, is strictly convex '
     'between the asymptotes, and the asymptotes widen by 1.2 on steady progress, tighten by 0.7 on oscillation and stay between 0.01 and 10 times the variable range. '
     'The point returned for a subproblem lies strictly inside its box and satisfies its optimality conditions (stationarity, constraints, complementarity, positive multipliers) to the barrier tolerance.',
     ['inputs', 'histories'], 'all designs, gradients, constraint values and previous asymptotes in the boxes; 1-2 variables, 1-2 constraints, first and later iterations',
     'A wrong term leaves the optimiser converging to a slightly worse design; nothing is compared against.',
     ['jax_am/fem/mma.py'], [('moving asymptotes and p, q, b', 'mma.MMA.mmasub'), ('primal-dual Newton method', 'mma.subsolv')], ['subproblem handed to subsolv', 'return value of subsolv'],
     notes='The interior-point loop is encoded for its first barrier parameter and at most one Newton step.')

prop('C13', 'Sensitivity filter averages over neighbours within 1.5 cell sizes only',
     'For every number and arrangement of design cells, the filter weights are max(0, 1.5 h - distance), symmetric, and the filtered sensitivity of each cell is the weighted sum over its neighbours '
     'of density-scaled sensitivities divided by the neighbour\'s row sum, for the objective and every constraint; with full densities the total sensitivity is kept.',
     ['inputs', 'configurations'], 'meshes of 1..27 cells in 2-D and 3-D including subsets and arbitrary positions of 2-3 cells, all densities and sensitivities',
     'Neighbour search and per-constraint broadcasting depend on mesh size and numbering.',
     ['jax_am/fem/mma.py'], [('neighbour weights', 'mma.compute_filter_kd_tree'), ('application', 'mma.applySensitivityFilter')], ['return values'])

NOCFD = 'No test touches the CFD package; '

prop('C14', 'Finite-volume balance: what leaves a cell enters its neighbour',
     'For every grid, field, coefficient, source and boundary value, the residual of the finite-volume diffusion problem is, cell by cell, the sum of face outflows minus the source times the cell volume: '
     'each interior face contributes equal and opposite fluxes (harmonic-mean conductivity for variable coefficients), walls with a prescribed value use the half-cell distance, walls with a prescribed flux add exactly that flux times area, '
     'walls without a condition are insulated. Linear fields with matching wall data are in equilibrium, and the grid geometry (centres, areas, neighbours, surface sets) matches the domain.',
     ['inputs', 'configurations'], '2-D and 3-D grids up to 3 cells per direction, all domain sizes, fields, coefficients, sources and boundary values in the boxes, all combinations of the listed wall types',
     NOCFD + 'a flux lost or doubled at one wall, or a wrong neighbour at a corner, shows only for particular grids and boundary combinations.',
     ['jax_am/cfd/cfd_am.py'], [('cell residual and boundary fluxes', 'cfd_am.poisson.compute_residual, apply_BC_to_residual, laplace'), ('grids', 'cfd_am.mesh2d, cfd_am.mesh3d')],
     ['poisson.compute_residual', 'mesh attributes'])

prop('C15', 'Finite-volume solves use the true derivative and return equilibrium',
     'For every state, the stored stencil matrix of a finite-volume problem is the derivative of its residual (including wall terms), its preconditioner is that matrix\'s diagonal, the linear solver returns a field whose residual vanishes '
     '(or, with a pinned cell, vanishes in all other cells with that cell at zero), and the nonlinear solver stops early only when the residual has dropped by its tolerance 1e-5.',
     ['inputs', 'configurations'], 'grids up to 3 cells per direction, all states, directions, coefficients, sources and boundary values in the boxes; nonlinear solver: one Newton step explored',
     NOCFD + 'a wrong stencil entry at a wall still converges to something plausible.',
     ['jax_am/cfd/cfd_am.py'], [('stencil matrix', 'cfd_am.poisson.newton_update, apply_BC_to_matrix'), ('solvers', 'cfd_am.solver_linear, cfd_am.solver_nonlinear')],
     ['compute_linearized_residual', 'solver_linear', 'solver_nonlinear'], notes='The Krylov solver is a contract (A x = b); its convergence is not claimed.')

prop('C16', 'Structured-grid operators respect boundary data and conserve what they transport',
     'For every field, spacing, boundary type and value: gradients are central differences using the given boundary conditions; diffusion is the balance of face fluxes; face velocities interpolate neighbours and equal the prescribed value '
     'on walls (the surface condition prescribes slope in-plane and value normal to it), also for a single component; advection is a balance of face fluxes upwinded by the sign of the face velocity, so it is conservative and leaves uniform fields alone in divergence-free flow.',
     ['inputs', 'configurations'], 'grids up to 4 cells per direction, all fields, face velocities of either sign, spacings, boundary values; boundary types value/slope/surface',
     NOCFD + 'sign- and side-dependent branches need flows of either direction at every wall.',
     ['jax_am/cfd/cfd_am.py'], [('ghost values', 'cfd_am.ghost_cell, get_GC_values'), ('operators', 'cfd_am.gradient, laplace, div, get_face_vels, get_face_vel_component')], ['return values'])

prop('C17', 'Melt-pool driver: laser, moving window and surface conditions',
     'At every time: the laser is at start + speed*t with its power until the switch-off time and none after it (surface and body heat sources alike); the moving window has its fixed size, stays inside the domain and follows the laser; '
     'fluid fraction follows the lever rule between solidus and liquidus; the top surface exchanges laser flux, convection and radiation and the other walls are insulated; thermocapillary stress is proportional to the surface temperature gradient where the surface is molten. '
     'One step replaces temperature everywhere, velocity, pressure gradient and advection inside the window only, and the record of melted cells never decreases. Written output carries the current temperature, velocity and melt record cell by cell under the interval-numbered file name.',
     ['inputs', 'histories', 'configurations'], 'all laser positions, speeds, times, powers, temperatures and material limits in the boxes; grids up to 9x5x3; one step with arbitrary equation updates from an arbitrary state',
     NOCFD + 'window and switch-off logic depend on where the laser is relative to grid and time limits.',
     ['jax_am/cfd/cfd_am.py'], [('driver', 'cfd_am.AM_3d.time_integration, get_moving_box_boundary, toolpath, fluid_frac'), ('boundary closures', 'cfd_am.AM_3d.get_energy_bc_fn, get_vel_bc_fn, get_body_heat_source')],
     ['AM_3d attributes after a step', 'closures'])

prop('C18', 'Energy and momentum steps satisfy their discrete balance laws',
     'For every old state: the new temperature balances storage (with latent heat released inside the melting range), advection, conduction, source and wall exchange to the solver tolerance; the predicted velocity satisfies the implicit momentum balance '
     'with viscosity, old pressure gradient, advection and a drag that immobilises solid cells; and the pressure correction has exactly the divergence of the predicted face velocities as its Laplacian, is subtracted from the velocity and added to the pressure gradient.',
     ['inputs', 'configurations'], '1 to 4 cells, all old fields, sources, boundary values and fluid fractions in the boxes; energy solve: one Newton step explored',
     NOCFD + 'errors in a coefficient or sign give plausible but wrong melt pools.',
     ['jax_am/cfd/cfd_am.py'], [('energy equation', 'cfd_am.energy_eqn'), ('projection step', 'cfd_am.velocity_eqn.update')], ['energy_eqn.update', 'velocity_eqn.update'],
     notes='Krylov solver is a contract; the pure-Neumann pressure system is consistent because wall velocities vanish.')

prop('C19', 'Explicit thermal model balances heat at every wall and cell',
     'For every temperature field and laser state: conductivity, heat capacity and fluid fraction follow the stated piecewise-linear laws (latent heat only strictly inside the melting range); after the boundary update conduction through each wall equals convective plus radiative loss '
     'minus, on top, the absorbed laser flux; each interior cell changes by dt*k/(rho*cp) times the discrete Laplacian; a body at ambient temperature with the laser off stays there.',
     ['inputs', 'configurations'], '2 to 4 interior cells in cold, solid, mushy and liquid states, all temperatures, laser positions, powers, loss coefficients, time steps in the boxes',
     NOCFD + 'each of six walls has its own expression and each state its own branch.',
     ['jax_am/cfd/gamma.py'], [('material laws', 'gamma.update_mat'), ('walls', 'gamma.BC_thermal'), ('step', 'gamma.laplace, gamma.update_T')], ['return values'])

NOLBM = 'No test runs the lattice Boltzmann solver at all; '

prop('C20', 'Lattice collision conserves mass and enthalpy and adds exactly the force',
     'For every distribution, force, heat source, viscosity and diffusivity: collision in a molten cell keeps the mass, adds exactly the applied force to the momentum (the velocity being the half-step average) and relaxes the momentum flux towards '
     'its equilibrium at the rate of the given viscosity; solid cells are brought to rest; the enthalpy changes by exactly the heat source, and the heat flux relaxes at the rate of the diffusivity of the cell\'s state. Gas and wall cells stay empty.',
     ['inputs', 'configurations'], 'two interior cells of a walled lattice, all distributions in the box, forces, velocities, temperatures, sources, viscosities, diffusivities; solid and liquid; plus one complete step under gravity and under the laser',
     NOLBM + 'a wrong coefficient in one of 19 directions gives a plausible flow with a slightly wrong momentum.',
     ['jax_am/lbm/core.py', 'jax_am/lbm/utils.py'], [('collision', 'lbm.core.simulation: collide_f, collide_h, equilibrium_f, equilibrium_h, f_forcing, h_forcing_vmap, compute_u')],
     ['distributions after collide_f_vmap / collide_h_vmap'])

prop('C21', 'Streaming moves every population once and balances interface mass',
     'For every state and phase pattern: each population of a liquid or interface cell comes from the neighbour it left, is bounced back at walls (for heat: replaced by the ambient wall population), and is reconstructed from the ambient gas pressure and interface velocity at gas neighbours (heat is '
     'reflected there); the mass of an interface cell changes by the populations exchanged with liquid neighbours and, weighted by the mean fill level, with interface neighbours; and the total mass of closed liquid and interface regions is unchanged.',
     ['inputs', 'configurations'], 'walled lattices up to 5 interior cells in several phase patterns along all axes, all distributions, velocities and masses',
     NOLBM + 'every direction and neighbour kind is its own case.',
     ['jax_am/lbm/core.py'], [('streaming', 'lbm.core.simulation: update_f, update_h, compute_total_mass'), ('neighbour access', 'lbm.core.simulation: extract_income, extract_local, extract_self')],
     ['distributions, mass after update_f_vmap / update_h_vmap'])

prop('C22', 'Free-surface bookkeeping: conversions follow fill level, mass is kept',
     'For every interface mass and state: an interface cell becomes liquid exactly when overfull and gas exactly when empty beyond the hysteresis; liquid exposed to gas becomes interface keeping its mass; gas exposed to new liquid becomes interface with no mass and the equilibrium of its neighbours\' average density, velocity, temperature and enthalpy; '
     'stranded interface cells dissolve; after the four conversions liquid never touches gas and walls stay; a complete time step restores the prescribed total mass, leaves gas and wall cells empty, and the initial state has half-full interface cells separating liquid and gas.',
     ['inputs', 'histories', 'configurations'], 'walled lattices with up to 6 interior cells in several phase patterns, all interface masses in [-0.5,1.5] and densities in [0.9,1.1], one complete step from injected states',
     NOLBM + 'lost or created mass needs a cell that fills, empties or is stranded in that very step.',
     ['jax_am/lbm/core.py'], [('conversions', 'lbm.core.simulation: reini_lg_to_liquid, reini_gas_to_lg, reini_lg_to_gas, reini_liquid_to_lg, adhoc_step'), ('mass correction', 'lbm.core.simulation: reassign excess mass / total mass'), ('initial state', 'lbm.core.simulation: initial phases and masses')],
     ['phase, mass, distributions after a step'])

prop('C23', 'Interface geometry, surface forces and heat exchange of the lattice solver',
     'For every state: temperature and enthalpy are related by the piecewise linear law with latent heat between solidus and liquidus; the fill level is mass over the state of the cell; the interface gradient is the central difference of the fill level and curvature is that of the height function along its steepest axis; '
     'the temperature gradient uses molten neighbours only (adiabatic otherwise); gravity, surface tension, Marangoni and recoil forces and laser, convective and radiative heat equal their stated laws converted from physical units exactly, and act only at the interface.',
     ['inputs', 'configurations'], 'all fields, coefficients and laser states in the boxes; interface normal to each axis; two sets of unit scales',
     NOLBM + 'conversions cancel in unit scales and single-axis cases hide wrong components.',
     ['jax_am/lbm/core.py'], [('laws', 'lbm.core.simulation: compute_T, compute_vof, compute_curvature, compute_T_grad, compute_f_source_term, compute_h_src')],
     ['return values'])

prop('C24', 'Complete lattice steps follow the laser path and physical units',
     'For every start point, speed, switch sequence, power and material coefficient: the laser visits its path at the scanning speed with each segment\'s switch; the enthalpy field after each step is that of the physical laws in the given units, using the laser position of that step; a closed box of resting melt accelerates by gravity '
     'exactly; reported temperature and velocity are in physical units; and a cell that has once melted stays recorded as melted.',
     ['inputs', 'histories', 'configurations'], 'one and two complete steps from injected states on lattices up to 3x3x7, all laser positions, powers, switches, coefficients; non-unit scales; two-segment paths',
     NOLBM + 'wiring errors between sub-steps only show over a sequence of steps.',
     ['jax_am/lbm/core.py', 'jax_am/lbm/utils.py'], [('driver', 'lbm.core.simulation: read_path, time loop, refresh_for_output, output_result'), ('units', 'lbm.core.simulation: conversions of lbm_args')],
     ['written cell data', 'solver state at each output'])

NOPF = 'No test runs the phase-field solver; '

prop('C25', 'Grain growth rate is the mobility-scaled descent of the grain energy',
     'For every state, temperature, spacing and coefficient the rate of every order parameter is minus the Arrhenius mobility (temperature capped at 2000) times the derivative of one free energy: double well, cross-grain repulsion, melt penalty above the liquidus, and gradient energy with no flux through the boundary; '
     'hence no order parameter moves uphill. Anisotropy scales the gradient term by 1 + a (cos^4 + sin^4) of the angle to the closest crystal axis of that orientation, the axes being the rotated coordinate axes of its quaternion.',
     ['inputs', 'configurations'], 'grids up to 9 cells in 1, 2 and 3 dimensions, 1 to 3 orientations, solid, liquid and overheated cells; anisotropy for fixed gradient directions and all amplitudes and strengths',
     NOPF + 'boundary slabs and melt branches only differ on particular cells.',
     ['jax_am/phase_field/allen_cahn.py'], [('rate', 'allen_cahn.phase_field.state_rhs'), ('anisotropy', 'allen_cahn.phase_field.update_anisotropy_helper')], ['state_rhs'])

prop('C26', 'Phase-field time stepping, start and output follow the state exactly',
     'For every state and time step: a solver step is the explicit Euler step of the rate at the old state and reports its new time; the fourth-order integrator is exact for cubic rates and of order four; the initial state is one-hot in each cell\'s orientation; a uniform solid grain never changes; the melt reset zeroes exactly the cells above liquidus + 1; '
     'written output has each cell\'s dominant orientation, its temperature and its orientation colours, black where molten, under the interval-numbered file name.',
     ['inputs', 'histories', 'configurations'], 'up to 6 cells and 3 orientations, all states, temperatures, times, orientations; one and two steps',
     NOPF + 'the dominant orientation and melt branch depend on every cell\'s state.',
     ['jax_am/phase_field/allen_cahn.py'], [('integrators', 'allen_cahn.rk4, explicit_euler'), ('driver', 'allen_cahn.PFSolver.stepper, ini_cond, write_sols, get_force_eta_fn')], ['PFSolver.stepper', 'PFSolver.ini_cond', 'written cell data'])

prop('C27', 'Grains are the connected solid regions of equal orientation; layers stack',
     'For every assignment of orientations and molten cells, grain segmentation puts each solid cell in exactly one grain and no molten cell in any, two cells sharing a grain exactly when joined by face-adjacent solid cells of one orientation; grain volumes add up to the solid volume and carry their own cells\' centroids. '
     'A polycrystal read from file has the grid counts, spacing and centroids of its domain with one orientation per grain, and each added layer is shifted by the domain height with all its data kept in order.',
     ['inputs', 'configurations'], 'grids up to 5 cells (8 in the thorough tier), 2-3 orientations, all assignments; all domain sizes; up to 3 layers',
     NOPF + 'the number of label patterns is exponential; grains that bend, touch diagonally or meet melt are easily mislabelled.',
     ['jax_am/phase_field/utils.py'], [('segmentation', 'utils.compute_edges_in_order, BFS, get_aspect_ratio_inputs, process_eta'), ('mesh', 'utils.Field.process_neper_mesh, generate_new_mesh')], ['BFS', 'process_eta', 'Field attributes'])

prop('C28', 'Structured meshes tile their domain in order with positive cells',
     'For every domain size, the structured box and rectangle meshes have the requested number of cells, each with its corners in the mesh-file order at exactly its grid position (so orientation is positive and cells tile the domain), cells numbered with x slowest and every point used. '
     'The tetrahedron quality check is the signed volume (times six), and counting selected faces counts each cell face all of whose vertices satisfy the predicate.',
     ['inputs', 'configurations'], 'all domain sizes, several grid shapes in 2 and 3 dimensions, all vertex positions, all positions of the selecting plane',
     'Tests only use gmsh meshes of fixed size; ' + 'a transposed axis is invisible on cubes.',
     ['jax_am/common.py', 'jax_am/fem/generate_mesh.py'], [('grids', 'common.box_mesh, rectangle_mesh'), ('mesh tools', 'generate_mesh.check_mesh_TET4, Mesh.count_selected_faces')], ['returned mesh'])
