"""One source for properties.jsonl and MANIFEST.json:  python tools/spec.py  rewrites both.

A property is claimed when props/<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, state=state, note=note, na=na))


def m(name, where):
    return {'name': name, 'where': where}


B = 'qmeq/approach/base/'
E = 'qmeq/approach/elph/'
ALLK = [B+x for x in ('pauli.py', 'lindblad.py', 'redfield.py', 'neumann1.py', 'c_pauli.pyx', 'c_lindblad.pyx',
                      'c_redfield.pyx', 'c_neumann1.pyx')]
ALLE = [E+x for x in ('pauli.py', 'lindblad.py', 'redfield.py', 'neumann1.py', 'c_pauli.pyx', 'c_lindblad.pyx',
                      'c_redfield.pyx', 'c_neumann1.pyx')]
KH = ['qmeq/approach/kernel_handler.py', 'qmeq/approach/c_kernel_handler.pyx']
APR = ['qmeq/approach/aprclass.py', 'qmeq/approach/c_aprclass.pyx']

prop('C01', 'Fock-state indexing is a bijection that respects the quantum numbers',
     'For every number of orbitals and every indexing scheme (Lin, charge, sz, ssq), converting a state index to an '
     'occupation list and back is the identity, and the charge, spin-projection and multiplet lists contain every '
     'state exactly once, under its true quantum numbers. After Fock states are removed, in one or several calls, the '
     'removed ones are unknown and the remaining ones still satisfy this.',
     ['inputs', 'histories', 'configurations'],
     'all orbital numbers within the bound, all four schemes, all states, all sets of removed states and splits of the '
     'removal into calls',
     'test_indexing compares literal tables for 2-4 orbitals; removal of Fock states is checked for one set',
     ['qmeq/indexing.py'],
     [m('StateIndexing.get_ind / get_state / remove_fock_states', 'qmeq/indexing.py'),
      m('construct_chargelst, construct_szlst, construct_ssqlst, make_quantum_numbers', 'qmeq/indexing.py')],
     ['StateIndexing.get_ind', 'StateIndexing.get_state', 'chargelst/szlst/ssqlst'])

prop('C02', 'Density-matrix element indexing is a consistent bijection',
     'For every set of kept many-body states and kept coherences, each kept density-matrix element has exactly one '
     'slot in the vector of unknowns, distinct elements have distinct slots, the slots fill 0..N-1 with the '
     'populations first, and an element and its Hermitian conjugate share one complex value. Lead-transition elements '
     'likewise have distinct slots filling 0..M-1.',
     ['inputs', 'configurations', 'histories'],
     'all subsets of kept states, all sets of removed coherences, all indexing schemes and both index classes, within '
     'the size bound',
     'test_indexing checks fixed literal maps for full state lists of 2-4 orbitals',
     ['qmeq/indexing.py', 'qmeq/builder/various.py'],
     [m('StateIndexingDM / StateIndexingDMc set_statesdm, set_mapdm, get_ind_dm0, get_ind_dm1', 'qmeq/indexing.py'),
      m('remove_coherences', 'qmeq/builder/various.py')],
     ['get_ind_dm0', 'get_ind_dm1', 'ndm0', 'ndm0r', 'ndm1', 'npauli', 'inddm0'])

prop('C03', 'The many-body Hamiltonian is the second-quantised operator of its input',
     'The many-body Hamiltonian built from single-particle energies/hoppings and Coulomb matrix elements has, between '
     'any two Fock states, exactly the matrix element of sum h_ij d_j^+ d_i + sum U_mnkl d_m^+ d_n^+ d_k d_l including '
     'the fermionic signs and the conjugate terms the options ask for. Only states of equal charge (and spin projection where '
     'that indexing is used) are connected.',
     ['inputs', 'configurations'],
     'all values of all hopping and Coulomb amplitudes, every index combination, all indexing schemes, all conjugation '
     'options, within the orbital bound',
     'test_qdot compares a few numbers for one or two fixed Hamiltonians',
     ['qmeq/qdot.py'], [m('construct_ham_hopping, construct_ham_coulomb, QuantumDot.set_ham', 'qmeq/qdot.py')],
     ['QuantumDot.ham_hopping', 'ham_coulomb', 'Ea', 'vecslst'])

prop('C04', 'The tunnelling matrix holds the matrix elements of the coupling operator',
     'In the Fock basis the many-body tunnelling matrix of every lead has exactly the matrix elements of '
     'sum_i (t_li d_i^+ + conj(t_li) d_i) with fermionic signs; it is Hermitian and connects only states whose charge '
     'differs by one. With the spin symmetry option the doubled leads and orbitals carry the same amplitudes.',
     ['inputs', 'configurations'],
     'all complex amplitudes, every lead/orbital pair, all indexing schemes, mtype options, within the orbital bound',
     'test_leadstun compares fixed numeric matrices for one real-valued example',
     ['qmeq/leadstun.py'], [m('construct_Tba, make_tleads_dict, LeadsTunneling.__init__', 'qmeq/leadstun.py')],
     ['LeadsTunneling.Tba', 'Tba0'])

prop('C05', 'The phonon coupling matrix holds the matrix elements of the coupling operator',
     'In the Fock basis the many-body electron-phonon matrix of every bath has exactly the matrix elements of '
     'sum_ij v_lij d_i^+ d_j with fermionic signs (no conjugate terms are added), and conserves charge. With the spin '
     'symmetry option both spins couple alike.',
     ['inputs', 'configurations'],
     'all complex amplitudes, every bath and orbital pair, all indexing schemes, within the orbital bound',
     'test_baths compares fixed numeric matrices for one example',
     ['qmeq/baths.py'], [m('construct_Vbbp, PhononBaths.__init__', 'qmeq/baths.py')], ['PhononBaths.Vbbp', 'Vbbp0'])

prop('C06', 'A history of add/change calls equals building with the final parameters',
     'After any sequence of add and change calls on a system (energies, Coulomb elements, tunnelling amplitudes, lead '
     'and bath temperatures, potentials, bandwidths, phonon couplings), all matrices and parameter arrays equal those '
     'of a system built directly with the accumulated parameters, whatever container format the inputs were given in. '
     'The containers the caller passed in are not modified by it.',
     ['histories', 'inputs', 'configurations'],
     'all sequences of add/change up to the length bound, all values, dict/list/array inputs, with and without the '
     'spin symmetry',
     'the tests apply one add and one change with fixed numbers per class',
     ['qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py', 'qmeq/builder/builder_base.py',
      'qmeq/builder/builder_elph.py'],
     [m('QuantumDot.add/change', 'qmeq/qdot.py'), m('LeadsTunneling.add/change', 'qmeq/leadstun.py'),
      m('PhononBaths.add/change', 'qmeq/baths.py'), m('Builder.add/change', 'qmeq/builder/builder_base.py')],
     ['hsingle', 'coulomb', 'Tba', 'Tba0', 'Vbbp', 'mulst', 'tlst', 'dlst', 'tleads'])

prop('C07', 'Diagonalisation rotates every operator into one common eigenbasis',
     'For whatever unitary eigenvectors the eigensolver returns for each block, the block handed to it is the '
     'Hamiltonian restricted to that block, the stored energies are the returned ones at the matching state indices, '
     'and each lead and phonon matrix becomes V^+ M V with the same V. Switching back reproduces the Fock matrices.',
     ['inputs', 'configurations', 'histories'],
     'all Hamiltonian values, all eigenvector matrices and eigenvalues returned by the solver, all indexing schemes, '
     'repeated diagonalisation',
     'tests look at a few eigenvalues of one Hamiltonian; eigenvector-dependent matrices are compared for one example',
     ['qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py'],
     [m('QuantumDot.diagonalise, construct_Ea', 'qmeq/qdot.py'),
      m('LeadsTunneling.rotate', 'qmeq/leadstun.py'), m('PhononBaths.rotate', 'qmeq/baths.py')],
     ['QuantumDot.Ea', 'QuantumDot.vecslst', 'LeadsTunneling.Tba', 'PhononBaths.Vbbp'])

prop('C08', 'The spin-multiplet basis diagonalises total spin and has the right labels',
     'For the ssq scheme the basis vectors of each (charge, Sz, S^2) block are orthonormal eigenvectors of the total '
     'spin operator with the stated eigenvalue, and raising/lowering links members of a multiplet consistently.',
     ['inputs', 'configurations'],
     'every block of every orbital number within the bound; every vector in the span of a block',
     'the tests compare final currents for one ssq system',
     ['qmeq/qdot.py'], [m('construct_ssq_eigenstates / QuantumDot.vecslst for ssq', 'qmeq/qdot.py')],
     ['QuantumDot.ssq', 'Ea for ssq'])

prop('C09', 'Master equations conserve total probability',
     'For every first-order approach (Pauli, Lindblad, Redfield, 1vN; compiled and Python; with and without phonon '
     'baths), the time derivative of the sum of the populations vanishes for every density matrix.',
     ['inputs', 'configurations'],
     'all energies, amplitudes, lead parameters, rate-function values and density matrices; all approaches; kept '
     'subsets of states and coherences; within the size bound',
     'tests compare currents of a few double-dot examples with stored numbers',
     ALLK+ALLE+KH, [m('generate_kern / generate_coupling_terms of each approach', B),
                    m('KernelHandler.add_matrix_element etc.', KH[0])], ['Builder.kern'])

prop('C10', 'The generated kernel is the master equation of the chosen approach',
     'The linear system built for each first-order approach equals, entry by entry, the one of the published equations '
     'written down independently for the given energies, amplitudes and rate functions, in the real-vector '
     'representation, for any kept set of states and coherences.',
     ['inputs', 'configurations'],
     'all energies, complex amplitudes, rate-function values, all approaches and lead/bath numbers within the size '
     'bound',
     'tests compare currents of a few fixed examples with stored numbers, so offsetting or untouched terms go unseen',
     ALLK+ALLE+KH, [m('generate_coupling_terms of each approach', B),
                    m('set_kern / add_element of KernelHandler', KH[0])], ['Builder.kern'])

prop('C11', 'Currents follow from the density matrix and conserve charge and energy',
     'For every density matrix the lead particle, energy and heat currents equal those of the defining expressions, '
     'the heat current being energy current minus chemical potential times particle current; summed over leads, the '
     'particle current equals the rate of change of the mean charge, so it is zero in a stationary state.',
     ['inputs', 'configurations'],
     'all density matrices, energies, amplitudes, lead parameters and rate-function values; all first-order approaches',
     'tests compare stored current values of a few systems',
     ALLK+APR, [m('generate_current of each approach', B), m('heat current in Approach.solve', APR[0])],
     ['Builder.current', 'energy_current', 'heat_current', 'phi1'])

prop('C12', 'Matrix-free application equals the kernel matrix',
     'For every density-matrix vector, the matrix-free evaluation of the time derivative equals the product of the '
     'explicit kernel with that vector, with the normalisation condition in the chosen row.',
     ['inputs', 'configurations'],
     'all vectors, parameters and rate-function values; all first-order approaches, leads and phonon baths',
     'tests solve a handful of systems with krylov and compare currents to 1e-4 or so',
     ALLK+ALLE+KH, [m('generate_vec of each approach', B), m('KernelHandlerMatrixFree', KH[0])],
     ['Approach.generate_vec'])

prop('C13', 'Compiled and Python approaches agree',
     'For every system and every option, the compiled and the pure Python implementation of an approach build the same '
     'equations, the same time derivative, the same currents and the same density-matrix read-outs.',
     ['inputs', 'configurations'],
     'all energies, amplitudes, lead and bath parameters, rate values, density matrices; options symq, mfreeq, itype; '
     'kept subsets',
     'tests compare both for a few fixed systems with one set of numbers',
     ALLK+ALLE+KH+APR, [m('py* and compiled approach classes', B)],
     ['kern', 'phi0', 'phi1', 'current', 'energy_current', 'heat_current'])

prop('C14', 'solve() yields the normalised stationary state or reports failure',
     'A successful solve hands the linear solver exactly the kernel with one population equation replaced by (or '
     'augmented with) the normalisation, returns its answer as density matrix and the currents of that answer, for '
     'every choice of replaced equation and solution method. When the solver fails, success is False and the density '
     'matrix and currents are zero, also after an earlier successful solve.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'],
     'all systems within the size bound, all replaced rows, direct / least squares / matrix-free, arbitrary solver '
     'answers and failures, repeated solves',
     'tests solve non-singular examples once with default options',
     APR+KH, [m('Approach.solve, solve_kern, solve_matrix_free', APR[0]), m('lapack wrappers', 'qmeq/wrappers/c_lapack.pyx')],
     ['Builder.solve', 'success', 'phi0', 'current', 'kern'])

prop('C15', 'Thermal equilibrium is stationary and carries no current',
     'When all leads (and phonon baths) share one temperature and the leads one chemical potential, the grand-'
     'canonical distribution of the many-body states is stationary for the Pauli master equation and every particle, '
     'energy and heat current in it is zero.',
     ['inputs', 'configurations'],
     'all energies, amplitudes, temperatures and potentials; any number of leads and states within the bound; both '
     'implementations, with and without phonon baths',
     'no test runs at equilibrium',
     [B+'pauli.py', B+'c_pauli.pyx', E+'pauli.py', E+'c_pauli.pyx', 'qmeq/specfunc/specfunc.py',
      'qmeq/specfunc/c_specfunc.pyx', 'qmeq/specfunc/specfunc_elph.py', 'qmeq/specfunc/c_specfunc_elph.pyx'],
     [m('func_pauli (detailed balance)', 'qmeq/specfunc/specfunc.py'), m('generate_kern of Pauli', B+'pauli.py')],
     ['kern', 'current', 'energy_current', 'heat_current'])

prop('C16', 'The rate functions satisfy their defining identities',
     'Occupation and rate functions obey their exact identities for all arguments: electron and hole occupations lie in '
     '[0,1] and sum to one, rates vanish outside the band and are non-negative inside, imaginary parts of the 1vN '
     'amplitudes equal the Pauli rates, phonon rates obey detailed balance. The compiled and Python versions of every '
     'special function agree.',
     ['inputs', 'configurations'],
     'all real energies, potentials, positive temperatures and band edges, all integral types',
     'test_specfunc compares stored numbers at one or two arguments',
     ['qmeq/specfunc/specfunc.py', 'qmeq/specfunc/c_specfunc.pyx', 'qmeq/specfunc/specfunc_elph.py',
      'qmeq/specfunc/c_specfunc_elph.pyx'],
     [m('fermi_func, func_pauli, func_1vN, bose, FuncPauliElPh, Func1vNElPh', 'qmeq/specfunc')],
     ['fermi_func', 'func_pauli', 'func_1vN', 'kernel of phonon functions'])

prop('C17', 'Results do not depend on how leads and equal inputs are labelled',
     'Permuting the leads permutes the currents and leaves the equations for the density matrix unchanged; splitting a '
     'lead into two of identical parameters with amplitudes t*cos, t*sin leaves the equations and total currents '
     'unchanged; multiplying all amplitudes of one lead by a phase changes nothing.',
     ['inputs', 'configurations'],
     'all permutations within the bound, all parameter values, all first-order approaches',
     'no test compares relabelled systems',
     ALLK, [m('sum over leads in generate_fct / generate_kern / generate_current', B)],
     ['kern', 'current', 'energy_current', 'heat_current'])

prop('C18', 'Solving again gives what a fresh system would give',
     'After any sequence of solves, parameter changes, switches of approach and option changes on one object, the next '
     'solve builds the same equations and currents as a freshly built system with the final parameters and options.',
     ['histories', 'configurations', 'inputs'],
     'all sequences up to the length bound over solve / change / add / kerntype / option setters / state removal, all '
     'parameter values',
     'tests do single solves, or one change followed by one solve, with fixed numbers',
     ['qmeq/builder/builder_base.py', 'qmeq/builder/builder_elph.py', 'qmeq/builder/funcprop.py']+APR,
     [m('Builder.solve / kerntype / change_si setters', 'qmeq/builder/builder_base.py'),
      m('Approach.prepare_arrays / clean_arrays / restart', APR[0])],
     ['kern', 'phi0', 'current'])

prop('C19', 'State and coherence removal keeps exactly the stated ones',
     'Removing states above an energy keeps exactly the states within that energy of the lowest one, and the equations '
     'are those of the system restricted to them; removing coherences keeps exactly the populations and the coherences '
     'between states closer than the given energy; using all states restores the original equations. Repeating or '
     'combining these calls gives the equations of the combined selection.',
     ['inputs', 'histories', 'configurations'],
     'all energies and thresholds, all orders of the calls within the bound, all approaches',
     'tests remove states once with one threshold and compare the remaining list',
     ['qmeq/builder/various.py', 'qmeq/builder/builder_base.py', 'qmeq/indexing.py'],
     [m('remove_states, use_all_states, remove_coherences', 'qmeq/builder/various.py')],
     ['si.statesdm', 'kern', 'get_phi0'])

prop('C20', 'Reading density-matrix elements is consistent',
     'For every solution vector and every pair of states, the zeroth- and first-order density-matrix read-outs return '
     'the element of a Hermitian matrix that the equations refer to, zero for pairs that are not kept or differ in '
     'charge, for every approach and state selection.',
     ['inputs', 'configurations'],
     'all density matrices, all pairs of states, all approaches, kept subsets and coherences',
     'tests read a few elements of one solution',
     ['qmeq/builder/various.py', 'qmeq/builder/builder_base.py'],
     [m('get_phi0, get_phi1', 'qmeq/builder/various.py')], ['Builder.get_phi0', 'Builder.get_phi1'])

prop('C21', 'The RTD kernel conserves probability and both implementations agree',
     'The second-order real-time-diagrammatic kernel built from any energies, amplitudes and integral values has zero '
     'column sums over the populations in each order, its particle and energy current kernels are consistent between '
     'the compiled and Python implementations, and so are all intermediate kernels.',
     ['inputs', 'configurations'],
     'all energies, amplitudes, integral values; 2..4 many-body states, one or two leads; off-diagonal corrections on '
     'and off',
     'tests compare one current of one model for each implementation with loose tolerance',
     [B+'RTD.py', B+'c_RTD.pyx'], [m('generate_kern, generate_row_* , add_element_*', B+'RTD.py'),
                                  m('same in compiled form', B+'c_RTD.pyx')], ['kern', 'current', 'energy_current'])

prop('C22', '2vN solves its integral equations and keeps its conservation laws',
     'For any energies, amplitudes, lead parameters and kept states, both implementations of the second-order von '
     'Neumann approach build the local and the iterated energy-resolved amplitudes of the 2vN integral equations, the '
     'master equation that follows conserves trace and Hermiticity, the particle currents add up to the change of the '
     'particle number, the occupations are the Fermi functions of an energy grid that covers every energy at which they '
     'are evaluated, and continuing or repeating a calculation, or changing parameters in between, gives what a fresh '
     'calculation gives.',
     ['inputs', 'configurations', 'histories'],
     'all parameters, occupations and amplitudes; small grids and systems, reduced sets of states and coherences, first '
     'and following iterations, repeated and continued solutions',
     'tests compare one stored current after fixed iterations of full systems',
     [B+'neumann2.py', B+'c_neumann2.pyx', 'qmeq/approach/aprclass.py'],
     [m('TermsCalculator2vN.phi1k_local/phi1k_iterate', B+'neumann2.py'), m('same in compiled form', B+'c_neumann2.pyx'),
      m('determine_emin_emax, determine_grid_ext, prepare_distribution, generate_kern, generate_current', B+'neumann2.py'),
      m('ApproachBase2vN.solve/iteration/restart, Iterations2vN', 'qmeq/approach/aprclass.py')],
     ['kern', 'phi1k', 'kern1k_inv', 'current', 'energy_current', 'Ek_grid_ext', 'iters'])

prop('C24', 'Many-body builders describe the same physics as the standard ones',
     'A system given by many-body energies, charges and coupling matrices yields the same equations, currents and '
     'density-matrix read-outs as the standard builder whose diagonalised operators are those, for any order of the '
     'input states and any offset of the charges.',
     ['inputs', 'configurations'],
     'all energies, amplitudes, permutations of the state list within the bound, charge offsets, all first-order '
     'approaches, with and without phonons',
     'tests build one many-body system and compare one current',
     ['qmeq/builder/builder_base.py', 'qmeq/builder/builder_elph.py', 'qmeq/indexing.py'],
     [m('BuilderManyBody, BuilderManyBodyElPh', 'qmeq/builder/builder_base.py'),
      m('QuantumDotManyBody-style set-up / set_statesdm', 'qmeq/indexing.py')],
     ['kern', 'current', 'get_phi0'])

prop('C25', 'Compiled code stays inside its arrays',
     'For every system, option and set of kept states, no compiled routine (which is built without bounds checks) '
     'reads or writes outside the arrays it works on.',
     ['inputs', 'configurations', 'histories'],
     'all approaches and options, kept subsets, coherence selections and preparation orders within the size bound',
     'an out-of-bounds access normally goes unnoticed in a test run; tests only use full state lists',
     [B+x for x in ('c_pauli.pyx', 'c_lindblad.pyx', 'c_redfield.pyx', 'c_neumann1.pyx', 'c_neumann2.pyx', 'c_RTD.pyx')]
     + [x for x in ALLE if x.endswith('pyx')]+[KH[1], APR[1]],
     [m('array allocation in prepare_arrays', APR[1]), m('index arithmetic in KernelHandler', KH[1])],
     ['every memoryview access'])

prop('C26', 'Parallel loops give the sequential result',
     'No two iterations of a parallel loop of the compiled code touch the same memory with one of them writing, so '
     'the result does not depend on the number of threads or the schedule.',
     ['schedules', 'inputs', 'configurations'],
     'all pairs of iterations of every parallel loop, all parameter values, within the size bound',
     'tests run whatever schedule the machine gives; a lost update is rare and timing dependent',
     [B+'c_RTD.pyx', APR[1], KH[1]], [m('prange loops and per-thread copies', B+'c_RTD.pyx')], ['kern'])

prop('C27', 'External numerical routines return accurate results',
     'The eigenvalues, linear solutions, principal-value integrals, FFT-based transforms and digamma values that '
     'come out of LAPACK, QUADPACK, FFTPACK and SciPy are accurate to the tolerance a user expects for every input '
     'the package hands them.',
     ['inputs'], 'all inputs', 'tests look at single values',
     ['qmeq/wrappers/c_lapack.pyx', 'qmeq/specfunc/specfunc.py'], [m('calls to numpy/scipy', 'qmeq')], [],
     na='The routines are binary numerical libraries outside the repository, iterating in floating point; no encoding '
        'of them into solver terms is within reach. The checks for the other properties replace them with arbitrary '
        '(contract-constrained) answers and decide what the repository hands them and does with the answer.')


LEVEL_NOTE = ('Every obligation is decided by z3 for all real parameter values within the stated sizes (bounded '
              'symbolic execution of the current sources, Python as is and .pyx through the Cython parser tree). '
              'Trusted: the .pyx translator and array model (validated against the compiled build), z3, and treating '
              'doubles as exact reals. Counterexamples are replayed on a fresh build before being reported. ')


def claimed(p):
    return p['na'] is None and os.path.exists(os.path.join(HERE, 'props', p['id']+'.py'))


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': p['mech'], 'observe_at': list(p['observe']),
                             'hook_needed': None}}
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(d)+'\n')
    checks, na = [], []
    for p in P:
        if claimed(p):
            checks.append({
                'property': p['id'],
                'quick_cmd': '/opt/venv/bin/python run.py check '+p['id'],
                'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python run.py check '+p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': 'bounded symbolic execution of the real sources, obligations decided by z3',
                'level': 'other', 'level_note': LEVEL_NOTE+p['note']})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
    d = {'version': 1, 'setup_cmd': '/opt/venv/bin/python run.py setup', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo. Bounds and assumptions of each check are in props/<id>.py and its evidence file.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
