prop('C09', 'Calibration by nullification restores the settings of a mesh',
     'Programming a mesh column by column, by nulling light for each vector of its own nullification basis, brings it back from any initial setting to the setting the basis was recorded at: '
     'the same coupling phases, the same external phases and the same transfer matrix, also when the couplers are imperfect.',
     ['inputs', 'histories', 'configurations'], 'all target settings with coupling phases in (0, pi), all initial settings (symbolic), every architecture and single-arm style of the sizes below',
     'The tests calibrate one random setting of one architecture; whether the recovered phase is right depends on quadrants no sample covers.',
     ['simphox/circuit/forward.py'], [('basis', 'simphox/circuit/forward.py: nullification_basis'), ('nulling', 'simphox/circuit/forward.py: program_by_null_basis')],
     ['ForwardMesh.nullification_basis', 'ForwardMesh.program_by_null_basis', 'ForwardMesh.matrix_fn', 'parallel_nullify'],
     'trees, chains, triangular, cascaded, rectangular meshes of 2 to 4 rails and the 4-rail butterfly with ideal couplers, trees of 2 and 3 rails with imperfect ones (any error of each coupler within pi/4); target coupling phases strictly between 0 and pi', MESH_OUT +
     ' Differential style: settings are determined only up to a sign per node (half phases), so the matrix is compared up to output phases; symmetric style is not calibrated by the code.')
prop('C10', 'Normalized error is an invariant distance to a unitary',
     'The normalized error of an implemented matrix with respect to a target unitary depends only on their normalised overlap: it is zero exactly when one is a multiple of the other, at most one, '
     'unchanged by a common phase or loss, and the same in NumPy and JAX.',
     ['inputs'], 'all unitary targets and all complex implemented matrices of the sizes below', 'Tests evaluate it at matching matrices only.',
     ['simphox/utils.py'], [('error function', 'simphox/utils.py: normalized_error')], ['normalized_error'],
     'n = 2, 3; implemented matrices of squared Frobenius norm above 0.01',
     'Larger matrices; the floating-point square root of a rounding-negative number when the error is exactly zero.')
prop('C11', 'Node elements are the physical devices they name',
     'Every elementary element (phase shifter pair, split-ratio coupler, phase-controlled coupler, interferometer and MMI nodes) is unitary for every setting, acts on its own two rails only, '
     'couples the power its parameter names, and the conversions between split ratio, transmissivity, loss in dB and phase are inverse to each other, with unequal coupler errors too.',
     ['inputs', 'configurations'], 'all phases, split ratios, coupler errors and input vectors (symbolic), rails as listed', 'Tests compare some elements at random settings; embedding and unequal errors are not sampled.',
     ['simphox/circuit/coupling.py'], [('elements', 'simphox/circuit/coupling.py: phase_matrix, coupling_matrix_s, coupling_matrix_phase, CouplingNode'),
                                       ('split to phase', 'simphox/circuit/coupling.py: transmissivity_to_phase, direct_transmissivity')],
     ['phase_matrix', 'coupling_matrix_s', 'coupling_matrix_phase', 'loss2insertion', 'CouplingNode.ideal_node', 'CouplingNode.phase_matrix', 'CouplingNode.mzi_node_matrix', 'CouplingNode.mmi_node_matrix',
      'CouplingNode.mzi_terms', 'CouplingNode.nullify', 'transmissivity_to_phase', 'direct_transmissivity'],
     'nodes embedded in 2 to 4 rails, adjacent or not, either order', 'Larger embeddings (the code embeds by index assignment); floating-point rounding.')
prop('C12', 'Imperfections and regrouping keep node identity',
     'Coupler errors and losses given to a mesh or to its nodes stay with those nodes however the nodes are listed, regrouped into columns, aggregated, inverted or cascaded, and regrouping changes nothing but the order of light. '
     'Adding errors leaves phases, style and the original mesh untouched; settings read from a mesh are a copy; cascaded circuits multiply.',
     ['inputs', 'histories', 'configurations'], 'all phases, errors (left and right, per node) and losses (symbolic), every architecture and style of the sizes below',
     'Tests add a scalar error to one mesh; whether each node got its own error is invisible to them.',
     ['simphox/circuit/coupling.py', 'simphox/circuit/forward.py'],
     [('error bookkeeping', 'simphox/circuit/coupling.py: CouplingCircuit, CouplingMesh; simphox/circuit/forward.py: add_error_mean, add_error_variance'),
      ('regrouping', 'simphox/circuit/coupling.py: aggregate, column_ordered, offset, invert_columns')],
     ['ForwardMesh', 'ForwardMesh.add_error_mean', 'ForwardMesh.add_error_variance', 'ForwardMesh.aggregate', 'CouplingCircuit.column_ordered', 'CouplingCircuit.offset', 'CouplingCircuit.offset_column',
      'CouplingCircuit.invert_columns', 'ForwardMesh.matrix'],
     'trees of 3, 4 and 5 rails, chains of 3 and 4, rectangular, triangular and cascaded meshes of 3, 4-rail butterfly', MESH_OUT + ' Random draws of add_error_variance (only the zero-variance case).')
prop('C13', 'The Hessian of a vector unit is the second derivative of its error',
     'The closed-form Hessian of a vector unit equals the matrix of second derivatives of its error at the programmed setting, entry by entry, with respect to the coupling phases and then the external phases, '
     'for every vector, in the balanced and the linear layout, and it is symmetric. The distribution of Hessians holds the full Hessian of each random vector, normalised.',
     ['inputs', 'configurations'], 'all complex vectors of the sizes below', 'The tests compare two functions of the library at a few random vectors, and both had the same blocks transposed.',
     ['simphox/circuit/vector.py'], [('closed form', 'simphox/circuit/vector.py: hessian_vector_unit'), ('distribution', 'simphox/circuit/vector.py: hessian_distribution')],
     ['hessian_vector_unit', 'hessian_distribution', 'balanced_tree', 'unbalanced_tree', '_program_vector_unit', 'ForwardMesh.matrix_fn'],
     'n = 2..5 (6 thorough), vectors with no zero entry', MESH_OUT + ' hessian_fd is a finite difference with a fixed step: outside.')
prop('C14', 'The Dirichlet matrix of a vector is unitary and routes it',
     'The Dirichlet matrix of a vector is unitary and sends the vector into one port with all its norm, for every vector, embedded or not.',
     ['inputs', 'configurations'], 'all complex vectors of the sizes below', 'Tests use two random vectors.',
     ['simphox/circuit/matrix.py'], [('construction', 'simphox/circuit/matrix.py: dirichlet_matrix')], ['dirichlet_matrix'],
     'n = 2..4, embeddings into 4 rails', MESH_OUT)
prop('C15', 'Decompositions rebuild the matrix they were given',
     'The cosine-sine decomposition of a unitary gives four unitary blocks and angles whose block product, as its inverse forms it, is the unitary, with vanishing cosines or sines (identity, swaps, block-diagonal unitaries) included; '
     'the inverse is the documented block formula for any blocks; the singular value network gives two meshes and singular values whose product is the matrix, rank-deficient matrices included; the bowtie mesh of a unitary has n (n - 1) / 2 nodes and implements it.',
     ['inputs', 'configurations'], 'all unitaries written by their cosine-sine factors (symbolic phases and angles), all matrices written by their singular value factors, of the sizes below', 'Tests decompose random unitaries, which have no vanishing cosine.',
     ['simphox/circuit/matrix.py', 'simphox/circuit/rectangular.py'], [('decomposition', 'simphox/circuit/matrix.py: cs'), ('inverse', 'simphox/circuit/matrix.py: csinv'), ('networks', 'simphox/circuit/matrix.py: psvd, bowtie')], ['cs', 'csinv', 'psvd', 'bowtie', 'rectangular'],
     'decomposition of 2 to 5 rails (three or more: one angle of each block, or permutations and phases), inverse up to 6, bowtie meshes of 2 to 5 rails (up to 4 fully symbolic), singular value networks of 2 and 3 rails (4 thorough)', MESH_OUT + ' The LAPACK routines are represented by their contracts: the singular value decomposition returns the factors the matrix was made of, the QR decomposition any valid signs.')
prop('C16', 'Common phases flow through grid meshes without effect, and powers are read at the shifters',
     'Moving the phases on the lower arms of a grid mesh forward leaves phases on the top arms of its couplers only and does not change the action of the mesh, whatever its couplers do; '
     'of the fields after every component, the phase-shifter powers are those at the input, coupling and output phase shifters in the order of the settings, for every architecture.',
     ['inputs', 'configurations'], 'all external phases, couplers and fields (symbolic) of the sizes below', 'Tests never call these functions on their own, and the rectangular decomposition that uses them only passes square grids.',
     ['simphox/circuit/rectangular.py', 'simphox/circuit/forward.py'], [('flow', 'simphox/circuit/rectangular.py: grid_common_mode_flow'), ('powers', 'simphox/circuit/rectangular.py: rectangular_phase_shift_powers; simphox/circuit/forward.py: ForwardMesh.phase_shift_localize')],
     ['grid_common_mode_flow', 'rectangular_phase_shift_powers', 'ForwardMesh.phase_shift_localize'], 'grids of 2 to 5 rails and 1 to 6 columns; rectangular meshes of 2 to 6 rails; other meshes of 3 and 4 rails', MESH_OUT)
prop('C17', 'Training a mesh follows the normalized error of the device',
     'Matrix optimisation starts from the settings given (or those of the mesh), reports the normalized error between the target and the matrix of the mesh, device errors and losses included, at the settings of each iteration, and updates them by the gradient of that cost with the iteration and step size asked for; '
     'the neural-network layer of a mesh applies its matrix at the parameters to every input, then its activation, and its first parameters are the settings of the mesh.',
     ['inputs', 'histories', 'configurations'], 'all settings, gradients, step sizes, targets and inputs (symbolic) of the sizes below', 'Tests neither run the optimiser nor the layer against an independent cost.',
     ['simphox/circuit/forward.py', 'simphox/utils.py'], [('optimisation', 'simphox/circuit/forward.py: ForwardMesh.matrix_opt'), ('layer', 'simphox/circuit/forward.py: InSituBackpropLayer')],
     ['ForwardMesh.matrix_opt', 'ForwardMesh.matrix_fn', 'normalized_error', 'InSituBackpropLayer.__init__', 'InSituBackpropLayer.__call__'],
     'meshes of 2 and 3 rails, one or two iterations; device errors and losses at fixed values, the layer at equal splitting (C08 has the gradients and other settings of the forward pass it uses)',
     MESH_OUT + ' Differentiation and the optimiser of JAX are replaced by arbitrary gradients and a rule that depends on iteration, step size and gradient.')
GRID_OUT = 'Larger grids (the stencils are the same in every cell, but no induction over the size is done); floating-point rounding.'
prop('C18', 'Random settings are those of random vectors and unitaries',
     'Random settings give every node a split ratio of its own, which is the one it couples across, also with coupler errors, drawn with the weights that make the circuit random in the Haar sense: '
     'in balanced trees, alone or cascaded, the light of the rails above and below a node is weighed by the numbers of those rails, in linear chains, which spread the light of their first rail, the rails further down are weighed against the rail itself, '
     'and in grid meshes (rectangular, triangular) a node is weighed by its sensitivity index, the number of inputs it collects plus the number of outputs it reaches minus the number of rails and one. '
     'The light a random tree collects and a random chain spreads is shared accordingly. '
     'Random vectors have independent normal parts of one deviation, and norm one if asked.',
     ['inputs', 'configurations'], 'all numbers drawn, phases and coupler errors (symbolic), every architecture and single-arm or differential style of the sizes below',
     'Tests never look at the statistics of random settings; a sample would not tell two distributions apart either.',
     ['simphox/circuit/forward.py', 'simphox/circuit/vector.py', 'simphox/circuit/rectangular.py'],
     [('draws', 'simphox/circuit/forward.py: ForwardMesh.rand_s, ForwardMesh.rand_theta'), ('weights', 'simphox/circuit/vector.py: _tree; simphox/circuit/rectangular.py: get_alpha_checkerboard')],
     ['ForwardMesh.rand_s', 'ForwardMesh.rand_theta', 'random_vector', 'random_tensor', 'transmissivity_to_phase', 'CouplingNode.mzi_node_matrix', 'ForwardMesh.matrix_fn', 'balanced_tree', 'unbalanced_tree', 'tree_cascade', 'triangular', 'rectangular', 'get_alpha_checkerboard'],
     'trees, chains and rectangular meshes of 2 to 6 rails (quick) or 8 (thorough), triangular meshes of 2 to 4 (those of 3 and 4 are known findings), cascades of 3 to 5 (7); vectors of 1 and 3 entries; numbers drawn above 0.001 and below 0.999', MESH_OUT +
     ' The quantile function of the beta distribution is replaced by an arbitrary number that remembers its weights (that SciPy computes it right, and that the uniform numbers are uniform, is outside). The weights of butterfly meshes are not claimed.')
prop('C19', 'Noise of the simulated hardware acts as declared',
     'Phases read with an error differ from the settings by that error times a normal number of their own (or by the same error, if constant), output phases only if asked, and the settings of the mesh stay. '
     'Fields measured in situ have amplitudes scaled by one plus the amplitude deviation times a number of their own and phases turned by pi times the phase deviation times a number of their own, in the forward pass as in the analog measurement of the cotangent. '
     'Shot noise changes the power P of every tap and measurement by its deviation times the square root of P times a number of its own, with light and cotangent normalised, and reaches nothing but the gradients of the phases.',
     ['inputs', 'configurations'], 'all normal numbers, deviations, phases, coupler errors, fields and cotangents (symbolic), for the meshes below',
     'Tests run without noise; a sample would only show that noise is there, not where, how much, or that it is independent.',
     ['simphox/circuit/forward.py'],
     [('phase errors', 'simphox/circuit/forward.py: ForwardMesh.phases'), ('measurement', 'simphox/circuit/forward.py: ForwardMesh.in_situ_matrix_fn')],
     ['ForwardMesh.phases', 'ForwardMesh.in_situ_matrix_fn', 'ForwardMesh.phase_shift_localize', 'ForwardMesh.propagate_matrix_fn', 'ForwardMesh.matrix_fn'],
     'trees and rectangular meshes of 3 rails (phases), of 2 and 3 rails (measured outputs), trees of 2 rails (cotangent and shot noise; 3 in the thorough tier)', MESH_OUT +
     ' Normal numbers are symbols between -2 and 2 (that NumPy draws them normally is outside); a jitted layer draws them once, when it is traced, which is not claimed either way.')
prop('E01', 'Derivative operators are the Bloch-periodic finite differences of the grid',
     'On every grid, forward and backward derivatives are the finite differences between neighbouring cells divided by the cell size, the neighbour beyond an edge being the opposite cell times the Bloch phase; '
     'the matrix form and the functional form (NumPy and JAX) agree, each backward derivative is minus the adjoint of the forward one, and curl, divergence and gradient satisfy div curl = 0 and curl grad = 0.',
     ['inputs', 'configurations'], 'all spacings, Bloch phases, fields and propagation constants (symbolic) on grids of one, two and three axes of the shapes below',
     'The tests compare the two forms on one shape without Bloch phase; edges and unequal spacings on each axis are where they could differ.',
     ['simphox/grid.py', 'simphox/utils.py'], [('derivatives', 'simphox/grid.py: YeeGrid.deriv, YeeGrid.diff_fn'), ('curls', 'simphox/grid.py: YeeGrid.curl_fn; simphox/utils.py: curl_fn, d2curl_op')],
     ['YeeGrid.deriv', 'YeeGrid.diff_fn', 'YeeGrid.curl_fn', 'curl_fn', 'd2curl_op'], 'grids of up to 4 cells on an axis and 18 cells in all (quick), 27 to 36 (thorough), axes of one cell included', GRID_OUT)
prop('E02', 'FDFD matrices are the discrete Maxwell operators of the grid',
     'The matrices handed to the solver are curl curl - k0^2 eps (vector), its z component for an electric field along z, and curl (1/eps) curl - k0^2 for a magnetic field along z, with the permittivity averaged to where each component lives, '
     'the Bloch phase at the edges and the complex stretching of the absorbing layers; without Bloch phase they are reciprocal (symmetric), and they follow every edit of the permittivity.',
     ['inputs', 'histories', 'configurations'], 'all wavelengths, spacings, Bloch phases, real or complex permittivities and fields (symbolic)',
     'Tests pin the matrices of one permittivity on one grid; a cached average, a transposed axis or a wrong edge needs other shapes or an edit to show.',
     ['simphox/fdfd.py', 'simphox/grid.py', 'simphox/utils.py'], [('matrices', 'simphox/fdfd.py: FDFD.mat, FDFD.mat_ez, FDFD.mat_hz'), ('averages', 'simphox/utils.py: yee_avg; simphox/grid.py: YeeGrid.eps_t')],
     ['FDFD.__init__', 'FDFD.mat', 'FDFD.mat_ez', 'FDFD.mat_hz', 'YeeGrid.deriv', 'YeeGrid.eps_t', 'yee_avg', 'd2curl_op'],
     'grids of up to 12 cells (quick) or 36 (thorough) with everything symbolic; absorbing layers of 4 cells on 10 cells with symbolic wavelength and on 10 x 11 cells at one wavelength with four symbolic pixels',
     GRID_OUT + ' The permittivity is averaged in the xy plane only, also in three dimensions: that is what the library documents and tests pin; the profile of the stretching itself is the subject of E08.')
prop('E10', 'The direct solver solves the system it is given',
     'Whatever matrices it has factorised before, and whether the factorisation was kept, freed or made for another matrix with the same size or the same printed form, a solve returns the solution of the given matrix and the given right-hand sides, in their shape.',
     ['inputs', 'histories'], 'all sequences of two and three solves over two symbolic matrices and symbolic right-hand sides',
     'The suite never solves two systems with one solver object; whether a stored factorisation is reused depends on the history.',
     ['simphox/mkl.py'], [('factor reuse', 'simphox/mkl.py: Pardiso.factor, Pardiso.solve'), ('entry point', 'simphox/mkl.py: spsolve_pardiso')],
     ['Pardiso.factor', 'Pardiso.solve', 'Pardiso._set_mat', 'Pardiso.pardiso', 'Pardiso.free', 'spsolve_pardiso'], 'matrices of 2 to 3 rows, one or two right-hand sides, histories of up to three calls',
     'The numerical factorisation inside MKL, which is replaced by its contract; hashes are taken as injective; refinement and rounding.')

prop('E03', 'Fields of the FDFD solver satisfy both Maxwell equations',
     'For a source of the right size, the electric and magnetic fields returned by the solver satisfy the discrete Faraday and Ampere laws of the grid with that source (current for E, z component for TE, TM), whatever the grid, '
     'permittivity, Bloch phase, absorbing layer and linear solver (the default, a given one, or scipy when the Intel library is absent); conversions between E and H obey the same laws, also for modes varying as exp(-i beta z); a source of the wrong size is refused.',
     ['inputs', 'configurations'], 'all wavelengths, spacings, Bloch phases, real or complex permittivities and all sources (symbolic)',
     'The tests compare some fields with stored numbers; whether E and H belong together for every source is not something samples settle.',
     ['simphox/fdfd.py', 'simphox/grid.py', 'simphox/utils.py'], [('solver', 'simphox/fdfd.py: FDFD.solve'), ('conversions', 'simphox/fdfd.py: FDFD.e2h, FDFD.h2e'), ('linear solver selection', 'simphox/fdfd.py, simphox/primitives.py: imports')],
     ['FDFD.solve', 'FDFD.e2h', 'FDFD.h2e', 'FDFD.mat', 'FDFD.mat_ez', 'FDFD.mat_hz', 'YeeGrid.diff_fn', 'curl_fn'],
     'grids of up to 12 cells (quick) or 27 (thorough) with everything symbolic; absorbing layers as in E02', GRID_OUT + ' The linear solver is replaced by its contract (A x = b): its numerics are outside, singular systems too.',
     note='Known finding K01: the fields of the TM problem satisfy the law of Ampere but not that of Faraday, because mat_hz is staggered the other way round than the fields; its entries are pinned by tests.')
prop('E04', 'The differentiable FDFD solver agrees with the plain one',
     'The JAX field function returns, for any permittivity, transform and source (real or complex), the fields that satisfy the same Maxwell equations as the plain solver for the transformed permittivity, in TE, TM and vector form, with Bloch phases and absorbing layers.',
     ['inputs', 'configurations'], 'all wavelengths, spacings, Bloch phases, permittivities and sources (symbolic)', 'Tests compare the two solvers at one permittivity.',
     ['simphox/fdfd.py', 'simphox/primitives.py', 'simphox/utils.py'], [('field function', 'simphox/fdfd.py: FDFD.get_fields_fn'), ('operators', 'simphox/primitives.py: TMOperator, spsolve')],
     ['FDFD.get_fields_fn', 'spsolve', 'TMOperator', 'yee_avg_jax', 'yee_avg_2d_z', 'YeeGrid.diff_fn', 'curl_fn'],
     'grids of up to 12 cells (quick) or 27 (thorough); absorbing layers as in E02', GRID_OUT + ' Linear solvers replaced by their contract; the iterative solver of the vector problem stops at a residual of 1e-5, outside.')
prop('E05', 'Backward rules of the differentiable solver are exact adjoints',
     'The hand-written backward rules of the sparse solve and of the TM operator return the exact cotangents: contracted with any perturbation of the entries, right-hand side or permittivity they give the first-order change of the output, repeated entries included, '
     'and the entries computed for the operator are those of the product of derivative matrices at the advertised positions.',
     ['inputs', 'configurations'], 'all complex matrix entries, solutions, cotangents and perturbations; all permittivities, spacings and Bloch phases (symbolic)', 'Tests compare one finite difference; an adjoint with a wrong conjugate or transpose agrees on symmetric real cases.',
     ['simphox/primitives.py'], [('sparse solve rule', 'simphox/primitives.py: spsolve_fwd, spsolve_bwd'), ('operator rule', 'simphox/primitives.py: TMOperator.compile_operator_along_axis')],
     ['spsolve', 'spsolve_fwd', 'spsolve_bwd', '_spsolve_hcb', 'TMOperator.__init__', 'TMOperator.compile_operator_along_axis'],
     'five sparsity patterns of 2 to 4 rows; grids of up to 12 cells (quick) or 25 (thorough)', GRID_OUT + ' Linear solver replaced by its contract; the sparsity patterns are a list, the numbers in them are symbolic.')
prop('E06', 'A time step of the FDTD is the leapfrog step of Maxwell equations',
     'From any state, a step adds dt/eps (curl H - J) to the electric field and subtracts dt (curl E + M) from the magnetic field, with the auxiliary recursion of the documentation inside absorbing layers, in NumPy and in JAX, in one, two and three dimensions; '
     'it leaves the given state as it was and follows edits of the permittivity. Without sources and layers it conserves the discrete energy, the electric and the magnetic charge, and its time step obeys the Courant condition.',
     ['inputs', 'histories', 'configurations'], 'all states (fields and auxiliary fields), permittivities, spacings and sources (symbolic), hence every number of steps', 'No test runs the FDTD.',
     ['simphox/fdtd.py', 'simphox/utils.py'], [('update', 'simphox/fdtd.py: FDTD.step, _step_e, _step_h'), ('layers', 'simphox/fdtd.py: FDTD._set_pml, curl_e_pml, curl_h_pml; simphox/utils.py: curl_pml_fn')],
     ['FDTD.__init__', 'FDTD.zero_state', 'FDTD.step', 'FDTD._step_e', 'FDTD._step_h', 'FDTD._set_pml', 'FDTD.curl_e_pml', 'FDTD.curl_h_pml', 'FDTD.eps_t', 'curl_pml_fn', 'curl_fn', 'pml_sigma', 'yee_avg', 'yee_avg_jax', 'YeeGrid.diff_fn'],
     'grids of up to 12 cells (quick) or 27 (thorough) with everything symbolic; layers of 4 cells on 10 cells (one and two steps, complex fields) and on 10 x 11 cells (real fields, fixed permittivities)', GRID_OUT +
     ' How well the layers absorb; three-dimensional grids with layers (10 cells an axis); growth of rounding errors over many steps.')
prop('E11', 'Cross-section modes solve Maxwell equations and are reported consistently',
     'The mode solver hands the documented operator to the eigensolver and turns its eigenpairs into modes whose electric and magnetic fields satisfy Maxwell equations for a wave exp(-i beta z): propagating modes only, largest propagation constant first, '
     'each propagation constant with its own mode; indices, phases, beat lengths and fields of the library follow, also after the wavelength has been changed and for every wavelength of a dispersion sweep. Asked for by a range of propagation constants, only the modes found in it are returned. Mode numbers out of range are refused. The power flow along any axis is that component of E x H*, averaged to a common point of the cell. '
     'Fields evolved along the guide are the sum of the modes at their positions, each at its own phase and weight.',
     ['inputs', 'histories', 'configurations'], 'all permittivities, spacings, wavelengths and eigenpairs (symbolic), in every order and with cut-off modes among them',
     'The tests compare propagation constants of a few waveguides; wrong fields, or an eigensolver that returns pairs in another order, do not show there.',
     ['simphox/mode.py', 'simphox/utils.py', 'simphox/grid.py'], [('eigenproblem', 'simphox/mode.py: ModeSolver.waveguide_mode_matrix, ModeSolver.solve'), ('fields', 'simphox/mode.py: ModeLibrary.e, ModeLibrary.h, ModeSolver.e2h, ModeSolver.h2e')],
     ['ModeSolver.waveguide_mode_matrix', 'ModeSolver.solve', 'ModeSolver.e2h', 'ModeSolver.h2e', 'ModeSolver.dispersion_sweep', 'ModeLibrary._update_solve', 'ModeLibrary.update_wavelength', 'ModeLibrary.e', 'ModeLibrary.h',
      'ModeLibrary.beta', 'ModeLibrary.n', 'ModeLibrary.ns', 'ModeLibrary.phase', 'ModeLibrary.beat_length', 'ModeLibrary.sz', 'ModeLibrary.te_ratio', 'ModeLibrary.evolve', 'poynting_fn', 'curl_fn'],
     'cross-sections of up to 9 cells (quick) or 16 (thorough), one to three eigenpairs', GRID_OUT + ' The eigensolver is replaced by arbitrary eigenpairs with real non-zero eigenvalues (lossless materials): which ones ARPACK finds, and degenerate ones, are outside. '
     'Modes of line cross-sections satisfy the scalar equation the documentation gives for them, which for TM modes is an approximation where the permittivity varies.')
prop('E13', 'Ports measure the waves that leave and enter',
     'Measuring fields at ports returns, for the ports and modes asked for and in the order asked for, the amplitudes of the waves leaving and entering the device: fields that are a superposition of a leaving and an entering mode '
     'at a port give exactly the two amplitudes (of the transverse electric field), whatever the fields are elsewhere, for ports along x and y facing either way, TE and TM, in NumPy and JAX, and also after the permittivity has been edited. '
     'S-parameters are leaving amplitudes divided by the entering amplitude at the source, for modes at the wavelength of the simulation.',
     ['inputs', 'configurations', 'histories'], 'all amplitudes, fields, permittivities and mode profiles (symbolic); orders and forms of asking; iteration orders of sets of port names',
     'The tests do not compare a measurement with known amplitudes; exchanged ports, swapped directions and stale modes give plausible numbers.',
     ['simphox/sim.py', 'simphox/mode.py', 'simphox/grid.py', 'simphox/fdfd.py', 'simphox/parse.py'],
     [('measurement', 'simphox/sim.py: SimGrid.get_measure_fn'), ('mode overlap', 'simphox/mode.py: ModeLibrary.measure_fn'), ('port modes', 'simphox/sim.py: SimGrid.port_modes, SimGrid.modes'), ('s-parameters', 'simphox/fdfd.py: FDFD.sparams; simphox/sim.py: SimGrid.get_sim_sparams_fn')],
     ['SimGrid.get_measure_fn', 'SimGrid.port_modes', 'SimGrid.modes', 'SimGrid.parse_excitation', 'parse_excitation', 'ModeLibrary.measure_fn', 'ModeLibrary.e', 'ModeLibrary.h', 'Grid.view_fn', 'Grid.slice', 'YeeGrid.pml_safe_placement', 'poynting_fn', 'SimCrossSection.prop_axis',
      'FDFD.sparams', 'SimGrid.get_sim_sparams_fn', 'SimGrid.get_sim_fn'],
     'two to four ports of 2..4 cells with up to two modes on a grid of 10 x 12 cells; libraries of lines of 3 cells and cross-sections of 2 x 2 cells', GRID_OUT + ' The eigensolver is replaced by arbitrary modes, and the FDFD solve of s-parameters by arbitrary '
     'superpositions at the ports. Overlap with other modes and radiation (orthogonality of modes) and ports of 3D grids are outside. The centre of a port has the largest permittivity of the port.')
prop('E14', 'Port sources send the mode into the device only',
     'A port source is a current that sends the mode asked for, with its weight, from the outer side of the port into the device and nothing out of it (or one line of the mode, if unidirectionality is switched off), and is zero elsewhere. '
     'Sources at several ports or of several modes add up. None, port names, lists, weights in the order of the ports, and dictionaries of port names or of pairs of port and mode mean what is documented; modes are solved at the wavelength of the source.',
     ['inputs', 'configurations'], 'all weights, permittivities, propagation constants and mode profiles (symbolic); ports facing each way; forms of asking',
     'The tests compare sources with stored arrays of one waveguide; the cancellation behind the source is not tested.',
     ['simphox/sim.py', 'simphox/mode.py', 'simphox/parse.py'],
     [('source', 'simphox/sim.py: SimGrid.port_source'), ('placement', 'simphox/mode.py: ModeLibrary.place'), ('forms', 'simphox/parse.py: parse_source_port')],
     ['SimGrid.port_source', 'SimGrid.port_modes', 'SimGrid.modes', 'ModeLibrary.place', 'parse_source_port', 'parse_excitation', 'Grid.slice', 'YeeGrid.pml_safe_placement', 'SimCrossSection.prop_axis'],
     'one to three of two to four ports of 2..4 cells with up to three modes on a grid of 11 x 13 cells', GRID_OUT + ' The eigensolver is replaced by arbitrary modes. The cancellation is that of currents radiating exp(-i beta distance) (continuous dispersion, as documented). Ports of 3D grids and ports less than four cells from an edge are outside.')
prop('E08', 'Absorbing layers stretch as documented and sources stay clear of them',
     'Frequency-domain grids leave cells inside unstretched and stretch those in the absorbing layers by 1 - i sigma / k0, with sigma growing as the documented polynomial of the depth to its value at the edge, on both staggered positions, at both ends of every axis. '
     'Layers are as thick as asked for, to the nearest cell; layers too thin or overlapping are refused. Sources and monitors moved by the placement helper end up outside layers and their safety margin, moved no further than needed, and stay where they are when already clear. '
     'A frequency-domain solver made from a simulation grid has its permittivity, layers, Bloch phases and ports.',
     ['inputs', 'configurations'], 'all spacings, wavelengths, layer parameters, layer thicknesses and positions (symbolic)', 'Tests build grids whose layers are whole numbers of cells in binary fractions, and never look at the stretching.',
     ['simphox/fdfd.py', 'simphox/grid.py', 'simphox/fdtd.py'], [('stretching', 'simphox/fdfd.py: FDFD.scpml'), ('thickness', 'simphox/grid.py: YeeGrid.__init__'), ('placement', 'simphox/grid.py: YeeGrid.pml_safe_placement'), ('conversion', 'simphox/fdfd.py: FDFD.from_simgrid')],
     ['FDFD.scpml', 'FDFD.__init__', 'FDFD.from_simgrid', 'YeeGrid.__init__', 'YeeGrid.pml_safe_placement', 'FDTD.__init__'],
     'two- and three-dimensional grids of 10 to 24 cells an axis (quick) or up to 60 (thorough), polynomial degrees 1 to 4 (6)',
     GRID_OUT + ' How well layers absorb. The profile is bounded by the documented polynomial half a cell earlier and later rather than fixed to one sampling; the largest conductivity is taken as (m + 1) ln R / (2 x correction) in units of k0, the definition of the fdfd_tools code this follows.')
prop('E07', 'Continuous-wave runs drive the port mode at the frequency of the wavelength and measure every step',
     'A continuous-wave run of the time-domain solver advances the given or the zero state by the number of steps asked for, each driven by the modes of the source ports, electric and magnetic, oscillating with the phase of the time of the step at the wavelength asked for; '
     'the measurements are those of the first state and of the fields of every step with the magnetic field averaged to the time of the electric one; ports, profile sizes and wavelength are handed on as given, in NumPy and JAX.',
     ['inputs', 'histories', 'configurations'], 'all mode profiles, first states and phases per step (symbolic)', 'Tests run one source and look at shapes.',
     ['simphox/fdtd.py', 'simphox/parse.py'], [('runs', 'simphox/fdtd.py: FDTD.run_cw_port'), ('ports', 'simphox/parse.py: parse_source_port')], ['FDTD.run_cw_port', 'FDTD.step', 'parse_source_port'],
     '2 and 3 steps (5 thorough) on grids of 9 to 12 cells (24 thorough), one and two source ports', GRID_OUT + ' The modes themselves (E11, E13) are arbitrary profiles here; their measurement is any linear function of the fields.')
prop('E15', 'Fidelity is the overlap with the desired s-parameters',
     'The fidelity objective is minus the squared magnitude of the overlap of the s-parameters with the normalised desired ones, matched by port and mode in whatever order they are measured, with unlisted ones desired to be zero; '
     'the desired s-parameters themselves, with any common phase, have the fidelity of their power. With an insertion weight, overlap of the normalised s-parameters and transmitted power are weighed as documented. S-parameters and fields are handed on unchanged.',
     ['inputs', 'configurations'], 'all complex desired and measured s-parameters and weights (symbolic)', 'No test evaluates the objective.',
     ['simphox/sim.py'], [('objective', 'simphox/sim.py: SimGrid.fidelity')], ['SimGrid.fidelity'], 'up to 5 ports and modes; desired and measured vectors of squared norm above 0.05', 'Larger ports lists; rounding.')
prop('E16', 'Gaussian sources are a carrier under the envelope asked for',
     'A Gaussian source is zero up to its start, and afterwards a carrier of the wavelength asked for (with the chirp asked for) under a Gaussian envelope of peak one, whose width is the same whether it is given in time or in frequency, '
     'which peaks the documented number of widths after the start. A delay of the start delays the pulse, twice the frequency width squares the envelope. A pulse without a width is refused.',
     ['inputs', 'configurations'], 'all wavelengths, widths, starts, chirps and times (symbolic)', 'No test evaluates the source; the check for a missing width never fired.',
     ['simphox/utils.py'], [('source', 'simphox/utils.py: gaussian_fn')], ['gaussian_fn'], 'wavelengths 0.5 to 3, widths 0.5 to 20, times within 3 of the peak or start',
     'The exponential function is abstracted to its algebraic laws (sums of exponents, positivity); rounding. gaussian_fft is not claimed: its documentation does not say what it returns.')
prop('G01', 'Regions of a grid mean the same cells everywhere',
     'Setting the permittivity, masks, slices and mask functions mean the same cells for the same centre and size: those of the region to within a cell, exactly those for regions of an even number of cells ending at cell edges, clipped to the grid and never wrapped around its edges. '
     'Filling sets the layers up to a height, to the nearest cell (all for height zero); adding a pattern sets the cells of its mask, between its heights in 3D, refuses patterns beyond an edge and places its ports at the middle of the layer. Later edits win, cells outside keep their value and the grid its shape. '
     'Views of a cross-section return its cells with fields and axes turned to (across, across, along).',
     ['inputs', 'histories', 'configurations'], 'all centres, sizes, heights, permittivities and fields (symbolic)', 'Tests set regions at a few positions; truncation, wrap-around and off-by-one errors sit between them.',
     ['simphox/grid.py'], [('regions', 'simphox/grid.py: Grid.slice, Grid.set_eps, Grid.mask, Grid.mask_fn'), ('layers', 'simphox/grid.py: Grid.fill, Grid.add'), ('views', 'simphox/grid.py: Grid.view_fn')],
     ['Grid.__init__', 'Grid.slice', 'Grid.set_eps', 'Grid.mask', 'Grid.mask_fn', 'Grid.fill', 'Grid.add', 'Grid.view_fn'], 'grids of up to 9 cells along the axis of the region (quick) or 30 (thorough), one to three dimensions', GRID_OUT +
     ' Masks of real dphox patterns (not installed; a stand-in returns the mask). Regions of an odd number of cells may sit up to a cell off (the code centres them on a cell). Positions within rounding of half a cell.')
prop('G03', 'Boxes align as asked and mean the cells of their extent',
     'Boxes keep their size when translated and aligned; aligned boxes share centres, and edges meet as asked, beside or flush, on either side, also for plain positions; copies are independent. Their slices, shapes and masks are the cells of their extent to the nearest cell, within the array. '
     'Design masks change a design within the union of the boxes only. Cross-sections built of waveguide, substrate, rib, gap and perturbing blocks have the permittivity asked for at every cell, also when a mode library is made of them.',
     ['inputs', 'configurations'], 'all positions, sizes, permittivities and designs (symbolic)', 'Tests compare stored cross-sections of a few designs.',
     ['simphox/utils.py', 'simphox/transform.py', 'simphox/grid.py'], [('boxes', 'simphox/utils.py: Box'), ('design masks', 'simphox/transform.py: get_mask_fn'), ('cross-sections', 'simphox/grid.py: Grid.block_design; simphox/mode.py: ModeLibrary.from_block_design')],
     ['Box.max', 'Box.min_i', 'Box.max_i', 'Box.shape', 'Box.center', 'Box.slice', 'Box.copy', 'Box.mask', 'Box.translate', 'Box.align', 'Box.halign', 'Box.valign', 'get_mask_fn', 'Grid.block_design', 'ModeLibrary.from_block_design'],
     'arrays of up to 5 cells an axis (quick) or 10 (thorough); cross-sections of 16 x 12 cells with symbolic permittivities and listed geometries', 'Positions within rounding of half a cell; boxes of an odd number of cells in cross-sections.')
prop('G04', 'Design transforms give symmetric and projected designs',
     'Symmetry transforms return designs with every reflection symmetry asked for (two orthogonal ones, diagonals, or both orthogonal with diagonals), leave symmetric designs alone, and keep the first half, or take the average, as asked. '
     'The smoothing transform is the documented tanh projection of the average over a disk, empty outside: empty designs stay empty and full ones stay full inside. Neither changes the design passed in.',
     ['inputs', 'configurations'], 'all designs, projection strengths and thresholds (symbolic)', 'Tests compare odd sizes of one example; the projection formula is not tested.',
     ['simphox/transform.py'], [('symmetry', 'simphox/transform.py: get_symmetry_fn'), ('smoothing', 'simphox/transform.py: get_smooth_fn')], ['get_symmetry_fn', 'get_smooth_fn'],
     'designs of up to 5 x 6 cells (quick) or 10 x 10 (thorough); radii 1 and 2 (4)', 'One orthogonal symmetry together with diagonals (the tests fix a result that is not symmetric in both). The convolution of JAX is replaced by its definition.')
prop('G05', 'Labelled results say where each number belongs',
     'Labelled s-parameters carry the names of the ports in the order of the numbers; labelled fields carry their component and the position of their cell, those of the magnetic field half a cell after those of the electric field, '
     'and axes of a single cell are at zero. Splitter metrics are the powers of the ports they are named after and their shares.',
     ['inputs', 'configurations'], 'all fields, s-parameters and spacings (symbolic), any names and order of ports', 'No test labels fields or evaluates the metrics.',
     ['simphox/sim.py', 'simphox/utils.py'], [('labels', 'simphox/sim.py: SimGrid.decorate'), ('metrics', 'simphox/utils.py: splitter_metrics')], ['SimGrid.decorate', 'splitter_metrics'],
     'grids of up to 5 cells an axis in one to three dimensions, up to 4 ports; output power above 0.05', 'xarray itself is replaced by a record of data, axes and labels.')
prop('G08', 'Optimization runs follow the cost and record their own results',
     'An optimization over one or several problems that share parameters records at every iteration the average cost of all problems at the parameters of that iteration, applies the update of the optimizer to exactly those gradients, and leaves every simulation with the permittivity of the final parameters. '
     'Problems without a simulation act on the transformed design. Recorded metrics, permittivities and fields belong to their own problem and iteration at the intervals asked for; progress bar and visualization are optional.',
     ['histories', 'inputs', 'configurations'], 'all parameters, gradients, step sizes, transforms and linear simulations (symbolic)', 'No test runs an optimization.',
     ['simphox/opt.py'], [('run', 'simphox/opt.py: opt_run, OptProblem')], ['OptProblem.__post_init__', 'opt_run'], 'up to 3 problems and 4 iterations (quick) or 4 and 5 (thorough), parameters of 2 x 3',
     'Differentiation, compilation and the Adam rule of JAX are replaced by arbitrary gradients and an update that depends on iteration, gradient and state; simulations are arbitrary linear ones; three-dimensional simulations and live visualization.')
