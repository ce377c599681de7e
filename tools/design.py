"""regenerate DESIGN.md from design_head.md, the property list, the harness bounds and the seeded-bug results"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

HOW = {
    'C01': 'StateIndexing (all schemes) is built and get_state/get_ind/remove_fock_states are run with a symbolic state number and '
           'symbolic removed states; oracle: binary digits, sums of occupations. Needs: numbers that collide only for particular states.',
    'C02': 'StateIndexingDM/DMc/Pauli with symbolic kept subsets and (through symbolic energies and thresholds) symbolic kept '
           'coherences; every pair of elements is asked for its slot; oracle: the set of kept elements, counting.',
    'C03': 'construct_ham_hopping/coulomb, QuantumDot with all h_ij and U_mnkl symbolic at once; oracle: fock.py applies '
           'd, d^+ to occupation lists. One run per (orbitals, options) covers every coefficient combination because the operator is linear.',
    'C04': 'construct_Tba, LeadsTunneling as C03; plus Hermiticity and the charge selection rule.',
    'C05': 'construct_Vbbp, PhononBaths as C03.',
    'C06': 'Two objects are compared: one after add/change calls, one built from the final parameters; all values symbolic '
           '(including equal and zero values), all container formats; the containers passed in are compared with copies of themselves.',
    'C07': 'np.linalg.eigh answers with arbitrary symbolic numbers; claims: what it was asked (block of H), where its answer '
           'goes, V^+ M V for every operator, the way back.',
    'C08': 'operator construction and the multiplet basis on symbolic vectors; oracle: S^2 and S+- from fock.py.',
    'C09': 'kernel of every first-order approach applied to a symbolic density matrix; claim: the populations\' derivatives sum to 0.',
    'C10': 'kernel (and matrix-free derivative) against ref.Model, which writes Pauli/Lindblad/Redfield/1vN equations for an arbitrary '
           'density matrix from their published form.',
    'C11': 'generate_current for an arbitrary density matrix against ref.Model currents; heat = energy - mu*particle; continuity.',
    'C12': 'generate_vec / generate_phi0_root against kern*vec for arbitrary vectors and normalisation rows.',
    'C13': 'both implementations side by side on the same symbols: kernels, right-hand sides, currents, phi1, read-outs.',
    'C14': 'solve()/solve_kern/solve_matrix_free with a stub solver that answers an arbitrary vector or fails; claims on what it was handed and '
           'on the state of the object afterwards, also for a second solve.',
    'C15': 'generator times exp(-(E-mu N)/T) with rates that satisfy detailed balance (lemma cases decide detailed balance from '
           'func_pauli and FuncPauliElPh themselves, exp axiomatised).',
    'C16': 'the special functions themselves, Python and translated C, with exp/log/atan axiomatised, digamma/polygamma recurrences '
           'unrolled, quad probed at an arbitrary integrand point; identities and cross-implementation equality.',
    'C17': 'two models related by permutation / splitting / phase; equations and currents compared under the relation.',
    'C18': 'histories of solves and modifications on one object against a fresh object; solver, root finder and eigensolver are '
           'uninterpreted functions of their complete input, so any stale entry handed to them is visible.',
    'C19': 'remove_states/remove_coherences/use_all_states with symbolic energies and thresholds; oracle: definition by energy, and '
           'ref.Model restricted to the kept elements.',
    'C20': 'get_phi0/get_phi1/sort_eigenstates with an arbitrary solution vector; oracle: rho_of, Hermiticity, and the element the '
           'equations use for the pair.',
    'C21': 'RTD/pyRTD kernels against an independent enumeration of the second-order diagrams (paths of |a><b| through four '
           'vertices) with uninterpreted integrals; column sums; both implementations; histories.',
    'C22': '2vN/py2vN local and iterated amplitudes, kernel, currents, grid and interpolation against an enumeration of paths with two '
           'vertices; conservation laws; iteration histories against fresh ones.',
    'C23': '',
    'C24': 'a standard and a many-body builder (and, for gaps in the charges, ref.Model) get the same symbolic model under different labels '
           'and orders; d rho/dt, currents, read-outs and forwarded options are compared.',
    'C25': 'every memoryview and C-array access of the translated compiled code is checked against the extents it has at run time, for '
           'symbolic indices by a query; the harnesses drive every compiled routine through removed states, options and histories.',
    'C26': 'each prange loop is run iteration by iteration while recording the elements read and written; two iterations meeting in one '
           'element with a write, or reading a private variable before assigning it, is a violation.',
}


def main():
    out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        i = p['id']
        out.append('### %s %s\n' % (i, p['title']))
        try:
            m = importlib.import_module('props.'+i)
        except ImportError:
            mf = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
            why = [x['reason'] for x in mf['not_applicable'] if x['property'] == i]
            out.append('Not claimed: %s\n' % (why[0] if why else ''))
            continue
        out.append('%s\n' % HOW[i])
        if getattr(m, 'EXPLAIN', ''):
            out.append('%s\n' % m.EXPLAIN)
        out.append('* Bounds: %s.' % m.BOUNDS)
        if getattr(m, 'OUTSIDE', ''):
            out.append('* Outside: %s.' % m.OUTSIDE)
        for a in getattr(m, 'ASSUMPTIONS', ()):
            out.append('* Assumed: %s.' % a)
        out.append('')
    out.append(open(os.path.join(HERE, 'tools', 'design_tail.md')).read().split('%%FIXES%%')[0])
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    for f in kf:
        if f['status'] == 'fixed':
            out.append('* %s (%s, `%s`): %s.' % (f['id'], f['property'], f['entry'].split()[2], f['what']))
    tail = open(os.path.join(HERE, 'tools', 'design_tail.md')).read().split('%%FIXES%%')[1]
    a, b = tail.split('%%SEEDS%%')
    out.append(a)
    mx = json.load(open(os.path.join(HERE, 'tools', 'matrix.json')))
    out.append('| change | property | needs | caught by |\n|---|---|---|---|')
    for k in sorted(mx):
        meta = json.load(open(os.path.join(HERE, 'seeded', k, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (k, meta['property'], meta['needs'], ', '.join(mx[k]) or 'none'))
    out.append(b)
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


if __name__ == '__main__':
    main()
