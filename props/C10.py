"""The kernel is the generator of the documented master equation."""
from . import common as K, ref

BOUNDS = ('many-body models of 2..6 states with charge patterns 01, 011, 0112, 00112 (leads only) and 01, 0112 (with '
          'baths); 1-2 leads, 1 bath; every eigenenergy, tunnelling amplitude, coupling, chemical potential, temperature '
          'and bandwidth symbolic; all subsets of kept coherences for the pattern 0112/011')
OUTSIDE = 'larger Fock spaces; the numerical value of the special functions (uninterpreted here, see C16)'
ASSUMPTIONS = ['func_pauli, func_1vN, FuncPauliElPh, Func1vNElPh are uninterpreted functions of all their arguments '
               '(their values are the subject of C16)',
               'Tba is Hermitian and connects neighbouring charges only (established by C04)',
               'numpy arithmetic and compiled double arithmetic are treated as exact real arithmetic']


def cases(tier):
    out = []
    for kt in K.BASE:
        for Na, nl in (([0, 1], 2), ([0, 1, 1], 2), ([0, 1, 1, 2], 2), ([0, 0, 1, 1, 2], 1)):
            out.append(dict(kt=kt, Na=Na, nl=nl, nb=0, coh=0))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=1, nb=1, coh=0))
        out.append(dict(kt=kt, Na=[0, 1], nl=1, nb=1, coh=0))
        out.append(dict(kt=kt, Na=[1, 0, 2, 1], nl=2, nb=0, coh=0))     # states not listed by charge
        if 'Pauli' not in kt:
            out.append(dict(kt=kt, Na=[0, 1, 1, 1], nl=1, nb=0, coh=1))
        if tier == 'thorough':
            out.append(dict(kt=kt, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=2, nb=0, coh=0))
            out.append(dict(kt=kt, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=1, nb=1, coh=0))
            out.append(dict(kt=kt, Na=[0, 0, 0, 1, 1, 1], nl=2, nb=0, coh=0))
            out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=2, nb=2, coh=0))
    return out


def weight(c):
    return len(c['Na'])**3*(c['nl']+c['nb'])


def stubs(case):
    return K.stubs_elph() if case['nb'] else K.stubs_base()


def run(W, V, case):
    kt = case['kt']
    m = K.MB(W, V, case['Na'], case['nl'], nbaths=case['nb'])
    b = m.build(W, kt)
    si = b.si
    if case['coh']:
        b.remove_coherences(V.real('dE', 0, 1))
    k = K.arr(K.kern_of(b))
    R = ref.Model(W, V, kt, m, K.states_of(si), 1, itype_ph=2)
    n = b.appr.get_kern_size()
    V.holds('size', k.shape[1] == n)
    for j in range(n):
        rho = ref.basis_rho(si, j, R.pauli_only)
        col = ref.vec_of(si, R.generator(rho), R.pauli_only)
        V.holds('parameter[%d] used' % j, bool(rho))
        for i in range(n):
            V.eq('kern[%d,%d]' % (i, j), k[i, j], col.get(i, 0))
