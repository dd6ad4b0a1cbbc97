"""Properties: statement, anchors, and what each check encodes and bounds.  `python3 meta.py` rewrites properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, functions=(), bounds='', outside='', observe=(), note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                      functions=list(functions), bounds=bounds, outside=outside, observe=list(observe), note=note))


def na(id, reason):
    NOT_APPLICABLE.append(dict(property=id, reason=reason))


MESH_OUT = 'Meshes larger than the listed sizes; floating-point rounding (arithmetic is over exact reals, compared with the real code at witnesses).'

prop('C01', 'Programming a unitary reproduces it exactly',
     'Programming a mesh with a unitary matrix yields phases and output phases for which the mesh implements exactly that matrix (its adjoint for '
     'the architectures documented to invert it), for every unitary, every supported phase style and every balanced or unbalanced layout. '
     'Every node phase needed is found, including when parts of the matrix vanish.',
     ['inputs', 'configurations'], 'all unitaries of the sizes below in a factorised parametrisation (all angles symbolic), all styles and layouts',
     'Tests program a few random unitaries; degenerate and phase-wrapped matrices are never drawn, and one matrix says nothing about another.',
     ['simphox/circuit/rectangular.py', 'simphox/circuit/matrix.py', 'simphox/circuit/vector.py', 'simphox/circuit/coupling.py'],
     [('Clements elimination sweep', 'simphox/circuit/rectangular.py: rectangular'),
      ('vector cascade decomposition', 'simphox/circuit/matrix.py: cascade / triangular / tree_cascade'),
      ('vector unit programming', 'simphox/circuit/vector.py: _program_vector_unit, vector_unit')],
     ['rectangular', 'triangular', 'tree_cascade', 'vector_unit', '_program_vector_unit', 'CouplingNode.mzi_node_matrix', 'CouplingCircuit aggregate',
      'ForwardMesh.matrix_fn', 'parallel_nullify'],
     'rectangular n = 2..4; triangular and tree cascades n = 2, 3; every factorised unitary with rotation angles in (0, pi/2) and free phases; '
     'degenerate factors (bar and cross nodes): every pattern for rectangular n = 3, and for cascades n = 3 (quick: all factors degenerate), 8 patterns (thorough: 64) for rectangular n = 4.', MESH_OUT)
prop('C02', 'A vector unit routes its vector to one output and back',
     'A vector unit programmed for a nonzero vector sends all the power of that vector to a single output with the programmed phase and norm, and sending '
     'light backwards from that output recreates the vector. This holds for every vector, including ones with zero entries, for every phase style, for balanced and '
     'unbalanced trees, and whenever the couplers have the same or different splitting errors that leave the needed split reachable.',
     ['inputs', 'configurations'], 'all complex vectors of the sizes below with any pattern of zero entries, all phase styles and layouts, symbolic coupler errors',
     'Tests use random dense vectors and one error level: exact zeros, unequal errors and all four styles are not sampled.',
     ['simphox/circuit/vector.py', 'simphox/circuit/coupling.py', 'simphox/circuit/forward.py'],
     [('nullification', 'simphox/circuit/component.py / vector.py: parallel_nullify'), ('split to phase', 'simphox/circuit/coupling.py: transmissivity_to_phase')],
     ['vector_unit', '_program_vector_unit', 'parallel_nullify', 'direct_transmissivity', 'transmissivity_to_phase', 'ForwardMesh.matrix_fn'],
     'n = 2..4, every zero pattern for n <= 3, errors equal or unequal per coupler', MESH_OUT)
prop('C03', 'A lossless mesh conserves energy',
     'Without loss, the transfer matrix of every mesh is unitary for every setting of its phases and every splitting error of its couplers. '
     'No choice of parameters creates or destroys optical power.',
     ['inputs', 'configurations'], 'all phases and coupler errors (symbolic), every architecture and phase style of the sizes below',
     'Tests check unitarity at a handful of random settings of a few architectures.',
     ['simphox/circuit/forward.py', 'simphox/circuit/component.py'],
     [('transfer matrix of a column', 'simphox/circuit/forward.py: matrix_fn'), ('node coefficients', 'simphox/circuit/forward.py: _dc / mzi terms')],
     ['ForwardMesh.matrix_fn', 'ForwardMesh.matrix', 'ForwardMesh.add_error_mean', 'tree', 'butterfly', 'rectangular', 'triangular', 'tree_cascade'],
     'trees and chains n <= 4 (5 thorough), rectangular n <= 4 (5), triangular/cascade n = 3 (4), butterfly n = 4, embedded trees', MESH_OUT)
prop('C04', 'Reciprocity: light sent backwards sees the transposed matrix',
     'The transfer matrix of a mesh for light sent backwards through it is the transpose of the forward one, for every setting of phases, coupler errors and losses. '
     'This holds for every architecture and phase style.',
     ['inputs', 'configurations'], 'all phases, coupler errors and losses (symbolic), every architecture and style of the sizes below',
     'No test compares both directions with errors or losses in every style.',
     ['simphox/circuit/forward.py'], [('backward transfer matrix', 'simphox/circuit/forward.py: matrix_fn(back=True)')],
     ['ForwardMesh.matrix_fn', 'ForwardMesh.matrix'], 'as C03, with losses for n <= 3', MESH_OUT)
prop('C05', 'The mesh matrix is the ordered product of its physical nodes',
     'The matrix of a mesh equals the product, in the order light meets them, of each node (phase shifter, coupler, internal phase shifter, coupler, each with its own error and loss) '
     'followed by the output phases. Phases, errors and losses stored in a mesh are the ones its matrix uses, and applying the mesh to a vector applies that matrix.',
     ['inputs', 'configurations'], 'all phases, errors and losses (symbolic), every architecture and phase style of the sizes below',
     'Tests never compare with an independent physical model; a misplaced loss or error changes nothing they look at.',
     ['simphox/circuit/forward.py', 'simphox/circuit/coupling.py'],
     [('vectorised columns', 'simphox/circuit/forward.py: matrix_fn'), ('single node model', 'simphox/circuit/coupling.py: CouplingNode.mzi_node_matrix')],
     ['ForwardMesh.matrix_fn', 'ForwardMesh.matrix', 'ForwardMesh.add_error_mean', 'CouplingNode.mzi_node_matrix', 'CouplingNode.dc', 'phase_matrix', 'loss2insertion'],
     'architectures as C03; losses for n <= 3', MESH_OUT)
prop('C06', 'Propagated fields agree with the transfer matrix',
     'The fields recorded while propagating through a mesh start at the inputs, follow each physical element in turn, and end at the matrix applied to the inputs; forwards and backwards, '
     'component by component or column by column, for every setting of phases, errors and losses.',
     ['inputs', 'configurations'], 'all phases, errors, losses and inputs (symbolic), every architecture and style of the sizes below, both directions and both recording modes',
     'Tests compare only final fields at random ideal settings; intermediate fields and imperfect meshes are not compared.',
     ['simphox/circuit/forward.py'], [('field recording', 'simphox/circuit/forward.py: propagate_matrix_fn, propagate')],
     ['ForwardMesh.propagate_matrix_fn', 'ForwardMesh.propagate', 'ForwardMesh._parallel_dc', 'ForwardMesh.matrix_fn'],
     'trees, chains, butterfly and rectangular meshes up to 4 rails', MESH_OUT)
prop('C07', 'JAX and NumPy backends of a mesh agree',
     'For the same phases, errors, losses and inputs the differentiable backend of a mesh returns the same transfer matrix and the same propagated fields as the NumPy backend, in both directions and every phase style.',
     ['inputs', 'configurations'], 'all phases, errors, losses and inputs (symbolic), every architecture and style of the sizes below',
     'Tests compare the two at a few random ideal settings, forwards only.',
     ['simphox/circuit/forward.py'], [('backend switch', 'simphox/circuit/forward.py: matrix_fn(use_jax), propagate_matrix_fn(use_jax)')],
     ['ForwardMesh.matrix_fn', 'ForwardMesh.propagate_matrix_fn', 'ForwardMesh.matrix'],
     'architectures as C03 with two simultaneous inputs; coupler errors fixed at zero for the 4-rail rectangular mesh', MESH_OUT +
     ' The JAX entry points are modelled on NumPy semantics and compared with real JAX at witnesses.')
prop('C08', 'In-situ backpropagation returns the exact gradient',
     'The gradient that a mesh reports from its optical measurements (interference powers at the phase shifters) equals the true derivative of the output, for every input field, every cotangent, every setting of the phases and '
     'every coupler error, in the all-optical and the digital-subtraction protocols, for single inputs and batches. The cotangent handed to the previous layer is the transpose map applied to the cotangent.',
     ['inputs', 'configurations'], 'all phases, coupler errors, nonzero inputs and cotangents (symbolic), single and batched inputs, both protocols, both single-arm phase styles',
     'Tests look at no gradient value; a wrong order or sign of the parameters still lets an optimisation run.',
     ['simphox/circuit/forward.py'], [('optical vector-Jacobian product', 'simphox/circuit/forward.py: in_situ_matrix_fn'), ('gradient readout', 'simphox/circuit/forward.py: phase_shift_localize')],
     ['ForwardMesh.in_situ_matrix_fn', 'ForwardMesh.phase_shift_localize', 'ForwardMesh.propagate_matrix_fn', 'ForwardMesh.matrix_fn'],
     'lossless meshes: 2 rails with batches 0, 1, 2 and coupler errors; 3-rail tree, chain, rectangular with batch 0 and ideal couplers; cotangents g = conj(M) a with every entry of a nonzero', MESH_OUT +
     ' Zero cotangents and zero inputs (the normalisation divides by their norms); lossy meshes (the optical gradient is exact only for lossless ones).')

exec(open(os.path.join(HERE, 'meta_more.py')).read()) if os.path.exists(os.path.join(HERE, 'meta_more.py')) else None


def get(pid):
    return next((p for p in PROPS if p['id'] == pid), None)


TECH = ('bounded symbolic execution of the real Python functions with exact symbolic scalars; every obligation and branch decided by z3 '
        '(linear abstraction over polynomial normal forms, then nonlinear real arithmetic); counterexamples replayed on the unpatched code')


def write():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                     why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mechanism']],
                                  observe_at=p['observe'] or ['return values of the public functions named above'], hook_needed=None))
            f.write(json.dumps(d) + '\n')
    checks = []
    nas = {x['property'] for x in NOT_APPLICABLE}
    for p in PROPS:
        if p['id'] in nas:
            continue
        checks.append(dict(property=p['id'], quick_cmd=f"./check.sh {p['id']} --tier quick", thorough_cmd=f"./check.sh {p['id']} --tier thorough",
                           technique=TECH, level='other',
                           level_note=(p['note'] or 'Holds for every value of the symbolic inputs within the bounds, over exact reals, given the numpy/scipy/jax models in symx/ '
                                       '(validated against the real code on every run). ') + ' Bounds: ' + p['bounds'] + ' Outside: ' + p['outside']))
    m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=NOT_APPLICABLE,
             notes='Solver-based checking of the real Python code: see DESIGN.md. Each check reads /repo on every run; known_findings.json lists repaired defects and open findings.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


def design():
    import design_text as T
    out = [T.HEAD, '\n## Properties\n\nStatements are in `properties.jsonl`. Functions listed are executed from source, with everything they call in simphox.\n']
    for p in PROPS:
        out.append(f"**{p['id']} {p['title']}.** {T.HOW.get(p['id'], '')} *Functions:* {', '.join(p['functions'])}. *Bounds:* {p['bounds']}. *Outside:* {p['outside']}{' ' + p['note'] if p['note'] else ''}\n")
    if NOT_APPLICABLE:
        out.append('### Not applicable\n')
        out += [f"**{x['property']}** {x['reason']}\n" for x in NOT_APPLICABLE]
    out.append(T.TAIL)
    out.append('\n## Defects found (known_findings.json)\n\nAll were found or confirmed by a check on the tree of that time and shown on the real code; each `fixed` line is one commit in /repo.\n')
    for f in json.load(open(os.path.join(HERE, 'known_findings.json'))):
        out.append(f"* {f['id']} {f['line']}")
    out.append('\n## Planted bugs (seeded/)\n\nWritten from the statements and the code, each confirmed in a scratch state of /repo: it applies, passes the stable tests, and its demonstration passes without and fails with it. '
               'All listed are caught by the quick check of their property' + T.MISSED + '\n\n| bug | caught by | needs | breaks |\n|---|---|---|---|')
    sd = os.path.join(HERE, 'seeded')
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else ():
        m = json.load(open(os.path.join(sd, d, 'meta.json')))
        out.append(f"| {d} | {T.CAUGHT.get(d, m['property'])} | {m['needs']} | {m['what_it_breaks']} |")
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    write()
    if os.path.isdir(os.path.join(HERE, 'seeded')):
        design()
