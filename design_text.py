"""Text of DESIGN.md; `python meta.py` assembles it with the bounds of meta*.py, known_findings.json and seeded/."""
HEAD = r'''# Solver-based checking of simphox

simphox simulates photonic devices: meshes of interferometers (`simphox/circuit`), frequency- and time-domain Maxwell solvers on Yee
grids (`fdfd.py`, `fdtd.py`, `grid.py`, `utils.py`), cross-section modes (`mode.py`), ports and sources (`sim.py`, `parse.py`), design
transforms (`transform.py`) and optimization (`opt.py`). What a user relies on are identities that hold for *all* phases, unitaries,
permittivities, wavelengths, fields, settings and histories; the tests compare a handful of random ones. This directory states
these identities (`properties.jsonl`) and decides them by symbolic execution of the real functions and z3.

Layout: `symx/` engine, `props/<ID>.py` one harness per property, `check.sh <ID> [--tier quick|thorough] [--case TEXT] [--replay FILE] [-v]`
the command line of a check, `meta.py`/`meta_more.py`/`design_text.py` the single source of `properties.jsonl`, `MANIFEST.json` and this file,
`known_findings.json` defects found (fixed or recorded), `seeded/` planted bugs. `setup.sh` only checks that the tools are there.

## Method

**Encoding.** Nothing of simphox is transcribed. Every run imports the modules from `/repo` and executes the real functions on symbolic
scalars. While a case runs, the names `np`, `math`, `scipy.sparse`, `scipy.special`, `jax`, `jnp`, `isinstance`... *inside simphox modules*
are bound to facades (`symx/nd.py`, `symx/jx.py`, `symx/sparse.py`) that implement numpy's, JAX's and scipy.sparse's semantics over object
arrays of symbolic scalars. There is no per-function or per-line knowledge of the code under test: a refactoring that uses other
numpy idioms is executed just the same, and an operation that no facade knows is an error ("inconclusive"), never a verdict.

**Scalars** (`symx/core.py`, `symx/poly.py`). A scalar is a quotient of polynomials with rational-complex coefficients over *atoms*: harness inputs, and algebraic
atoms for what functions return (`sqrt`, `1/x`, `exp(i a)`, `exp(x)`, `sin`, `cos`, `arctan2`, `arcsin`, `tanh`, `floor`, ...), each with its defining
relation (e.g. `s*s = x, s >= 0`; `u*conj(u) = 1` for a phase factor, kept as fourth roots so that half and quarter angles stay polynomial).
Arithmetic is exact over the reals. Float literals of the code are read as the simple ratio they stand next to (denominator up to 1000, within an ulp), literals up to 1e-13 as
infinitesimal regularisers (`x + 1e-15` is `x` unless `x` is exactly 0).

**Branches.** A Python `if`, `while`, comparison used as index, `argmax`, `sort`, ... on symbolic values asks z3 which outcomes are possible under the path
condition; all possible ones are explored by re-execution. Decisions (also implied ones) are recorded and a replay that meets other decisions than its trace is an error.

**Deciding.** An obligation is an equation, inequality or predicate over scalars. Equations are reduced to a polynomial normal form modulo the defining relations and handed to
z3 as an assertion of their negation with the path condition, first linearly over monomials, then as nonlinear real arithmetic with a time limit.
`unsat` = holds for all values of the symbolic inputs within the bounds. `sat`/`unknown` = the model (or, if z3 gives none, a point found by evaluating the residual) is a candidate only.

**Counterexamples are replayed.** A candidate is put into the unpatched code (real numpy, JAX, MKL, ARPACK) and the obligation is evaluated numerically. Only a failing
replay is a violation: it is written to `evidence/replay/` and printed as `VIOLATION property=<id> replay=<path>`; `check.sh ID --replay FILE` runs it again. A candidate
that does not fail is reported as *inconclusive*.

**Inconclusive policy.** Time limits, unsupported operations and candidates without replay print `INCONCLUSIVE`, go into the evidence and do not fail the check (exit 0): an alarm is
only ever raised with a failing run of the real code in hand. On the unchanged tree no case is inconclusive. When *every* path of a case ends in an exception of the code under test that a replay confirms, that is a violation (the function cannot be used).

**Validation of the models.** For every case the symbolic results are compared with those of the real, unpatched code at witnesses (the harness is run on floats on the real libraries, all its obligations included). This guards the facades and exercises rounding; it decides nothing.

**Contracts.** Numerical kernels are replaced by their contract: linear solvers (`A x = b`: fields are chosen freely and the source built from them), eigensolvers (arbitrary eigenpairs), MKL Pardiso (a recorder of what
was factorised), the optimizer and automatic differentiation of G08 (any update rule depending on iteration, gradient and state). Replays use the real kernels unless the contract is the subject.

**Bounds** are structural only: sizes of meshes and grids, numbers of ports, steps, lists. Numbers (phases, spacings, wavelengths, permittivities, fields, amplitudes) are symbolic unless a case says otherwise. `quick` (<= 2 minutes each) and `thorough` differ in sizes.

What solving reaches that tests do not: all quadrants and zero patterns of programming, all coupler errors, edges of grids, unequal spacings, Bloch phases, histories (edit after use, factor after factor, batch after single), orders of ports (the iteration order of sets is a symbolic choice), exact adjoints instead of finite differences.

## General limits
* Arithmetic is over exact reals; rounding only enters through the replays and witnesses. Comparisons of floats that differ by rounding only (e.g. `0.3 / 0.1` cells) are covered where a case puts such values in (E08, G01, G03).
* Sizes beyond the bounds. The stencils and node products are uniform, but no induction over size is claimed.
* Plotting, file formats, GPU kernels, performance.
'''
# how each property is decided: (harness idea, oracle)
HOW = {
 'C01': 'A unitary is built as a product of symbolic rotations and phases (every unitary is one), given to the real programming code, and the matrix of the resulting mesh is compared entry by entry. The nulling arithmetic (arctan2, ratios of vanishing entries) forks on zeros; degenerate patterns are enumerated as zero/one rotation factors.',
 'C02': 'Symbolic complex vector, every zero pattern; the programmed tree or chain is applied to it: all rails but one vanish and the last carries the programmed phase and norm; backwards from that rail gives the conjugate vector. Unequal coupler errors restricted to the range where a null exists (stated as assumption).',
 'C03': 'M M^dagger - 1 is reduced to zero over symbolic half-phase factors and error angles.',
 'C04': 'M(backward) - M(forward)^T entry by entry.',
 'C05': 'Oracle: product of 2x2 blocks written from the documentation (shifter, coupler, shifter, coupler, each with its error and loss), node after node.',
 'C06': 'Oracle: propagation element by element from the physical definition; compared with `propagate`, column-wise and component-wise, forwards and backwards, and with the matrix.',
 'C07': 'Both back ends run on the same symbolic settings (jnp as facade over the same exact arithmetic) and are compared; real JAX is compared at witnesses.',
 'C08': 'Oracle: exact derivative, obtained by first-order expansion (dual numbers over symbolic scalars) of the mesh output; compared with the gradients assembled from interference powers.',
 'C09': 'Record the basis at a symbolic setting, re-program from another symbolic setting, compare settings modulo 2 pi and matrices.',
 'C10': 'Inequalities (0 <= e <= 1) and equalities over squares, by nonlinear arithmetic.',
 'C11': 'Unitarity, embedding and inverse relations of elementary matrices and conversions.',
 'C12': 'Symbolic errors and losses as labels: after regrouping, the symbolic value found at each node must be the one given to it; matrices before and after must agree.',
 'C13': 'Oracle: second-order expansion of the error (nested dual numbers) around the programmed setting.',
 'C14': 'Unitarity and routing of the closed form.',
 'C15': 'The unitary is built from symbolic cosine-sine factors (generic, zero and unit cosines as separate cases), SVD and QR are replaced by their contracts; the factors must be unitary and rebuild it.',
 'C16': 'Couplers are arbitrary symbolic 2 x 2 matrices, fields arbitrary; oracle: the mesh written out column by column.',
 'C17': 'Gradients are symbolic, the optimiser a rule over iteration, step and gradient; oracle: the normalised overlap written out. The layer runs in haiku with symbolic parameters.',
 'C18': 'The beta quantile function returns symbols that remember their weights; the split ratio each node couples must be one of them, with the weights its light cone asks for.',
 'C19': 'randn returns symbols of their own for each number drawn; measured outputs, cotangents and gradients are compared with the declared error model, whichever way round the numbers were used.',
 'E01': 'Operators act on symbolic fields with symbolic spacings and Bloch factors; oracle: the difference quotient cell by cell; adjointness as identity of matrices.',
 'E02': 'Oracle: curl curl - k0^2 eps cell by cell with permittivity averages written from the documentation; layers via the stretching of E08.',
 'E03': 'Fields are symbolic, the source is computed from them by the discrete law (so every source is covered); the solver is replaced by its contract; the returned pair must satisfy both laws.',
 'E04': 'As E03, with the JAX field function; host callbacks run their host functions.',
 'E05': 'Bilinear identity of cotangents and perturbations, for symbolic solutions and adjoint solutions.',
 'E06': 'One step from a symbolic state against the leapfrog formula; energy and charge as invariants of one step, hence of any number.',
 'E07': 'Mode profiles, first states and the phase of a step are symbolic; oracle: the FDTD step of E06 with the source at its time, written out.',
 'E08': 'Stretching, thickness, placement and conversion as functions of symbolic spacings, layers and positions; roundings fork over the possible integers.',
 'E10': 'The MKL routine is a recorder; hashes are injective symbols; every history of up to three calls must solve the matrix given last.',
 'E11': 'Eigenpairs are symbolic; what the code makes of them must satisfy: Maxwell residual = known factor times (lambda v - C v) with C the documented operator, which is also the matrix handed over; order and cut-off fork.',
 'E13': 'Fields at a port are the superposition a*out + b*in of arbitrary mode profiles; the measurement must return a and b. Names of ports have chosen hashes, so set orders are covered.',
 'E14': 'Current lines radiate exp(-i beta d): the amplitude sent out must vanish and the amplitude sent in be the weight; forms of asking are enumerated.',
 'E15': 'Overlap formula against the code for symbolic complex s-parameters and any order of ports.',
 'E16': 'The real source function at symbolic times; exponentials as abstract symbols with their laws; oracle: the documented envelope and phase.',
 'G01': 'Symbolic centres, sizes and spacings; which cells belong to a region is decided by z3 from the real rounding code; compared with the extent.',
 'G03': 'As G01 for boxes; alignment as equations of edges and centres.',
 'G04': 'Symbolic designs; reflections and projection formula.',
 'G05': 'xarray is replaced by a recorder; labels compared with cell positions computed from symbolic spacings; metrics with powers written out.',
 'G08': 'The real loop with symbolic parameters, any update rule (the optimizer is a symbolic function of iteration, gradient and state), stand-in linear simulations; records compared with the history.',
}
TAIL = r'''
## Not claimed, and why
* `SimGrid.to_2d`, `MaterialBlock`-less `from_pattern` (needs dphox, absent), `BPM` (marked work in progress), 3D `port_source`/`ModeLibrary.place` (fail on every path, unfinished code): no behaviour to specify.
* `rectangular_rows`: orientation undocumented. `BPM`, `SimCrossSection.profile` orientation and `tfsf_profile`: no documented result to hold them to.
* Symmetry with a single orthogonal axis *and* diagonals: the tests pin a result that is not symmetric under what is asked; only the combinations with a meaning are claimed (G04).
* `normalized_error` at exactly zero in floating point (square root of a rounding-negative number) is a rounding matter.
* Real matrices given to Pardiso are refused by its type check, and a factorisation with perturbed pivots is refused as singular: both are treated as refusals (E10).
* 3D permittivity averaging acts in the xy plane only, as documented and pinned by tests (E02).
* `scpml` has no division of the conductivity by the layer thickness, as the fdfd_tools code it follows (E08); how well layers absorb is not claimed.
* TM modes of line cross-sections follow the scalar equation of the documentation, an approximation at permittivity steps (E11).
* `Grid.slice` of regions with an odd number of cells may sit one cell off the exact extent, since the centre is rounded (G01 claims the exact extent for even regions only).
* `SimGrid.add` after `add` keeps ports of the last component only: documented as "the" component (not claimed).
* E13 amplitudes refer to the transverse electric field; overlaps with other modes are outside (orthogonality of eigenmodes needs the eigensolver).
* Weights of random butterfly meshes (m + 1 on both sides) have no documented meaning. Random triangular meshes are known findings K02 and K03 of C18: the weights of chains fit light spread from the first rail, not light collected into the last one; the existing tests pin them, so they are recorded rather than repaired.
* FEAST is called through MKL and returns status 1 on its first call in a process (its tables are not initialised); only what simphox makes of its result is claimed (E11), and Hermitian matrices are its documented domain.
* The documentation of `opt_run` says sum of costs, the code averages and the recorded cost is the average: G08 claims the average. Permittivities are recorded after the update of their iteration.

## False alarms met and removed
* An early version compared settings instead of settings modulo 2 pi, and phases of dark rails (C01, C02, C09): the properties speak about matrices and fields.
* E11 first required all eigenvalues to be kept; cut-off modes are documented as dropped.
* G01/G03 first required the exact extent for odd regions; see above.
* An engine defect: implied decisions were not part of the trace of a path, so that later paths could be misread (missed paths or spurious errors). Fixed in `core.decide`; diverging replays are errors now.
'''
MISSED = '. T07-scpml-positions, T15-shared-nodes, U02-cotangent-phase, U03-thin-layers and U04-vector-parts were missed at first; E08 (refusals hold in both directions, absorption midway lies between that at both ends of its cell) and C12 (a transformed mesh leaves the mesh it came from untouched), C18 (vectors of negated numbers are negated) and C19 (phase errors of cotangents) were strengthened for them. A change to the nulling phase for unequal couplers (on a repaired line, so not kept) was seen by C02 alone; C09 now calibrates meshes with imperfect couplers too.'
CAUGHT = {}
