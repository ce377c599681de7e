"""Matrix-free residual is the kernel applied to the state, with the normalisation row replaced."""
from . import common as K, ref

BOUNDS = ('2..5 many-body states (patterns 01, 011, 0112, 00112, 1021, 211; with a bath 01, 0112), 1-2 leads, arbitrary real '
          'state vector, every normalisation row; all states and chosen subsets; all parameters symbolic')
OUTSIDE = 'larger systems; the iteration of scipy.optimize.root'
ASSUMPTIONS = ['rate functions are uninterpreted functions of all their arguments',
               'Tba is Hermitian and connects neighbouring charges only (established by C04)',
               'rows belonging to imaginary parts may carry either overall sign (the residual has the same zeros)',
               'double arithmetic is treated as exact real arithmetic']


def cases(tier):
    out = []
    for kt in K.BASE:
        for Na, nl in (([0, 1], 2), ([0, 1, 1], 2), ([0, 1, 1, 2], 2), ([0, 0, 1, 1, 2], 1)):
            out.append(dict(kt=kt, Na=Na, nl=nl, nb=0, coh=0))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=1, nb=1, coh=0))
        out.append(dict(kt=kt, Na=[0, 1], nl=1, nb=1, coh=0))
        # states not listed by charge
        out.append(dict(kt=kt, Na=[1, 0, 2, 1], nl=1, nb=0, coh=0))
        out.append(dict(kt=kt, Na=[2, 1, 1], nl=2, nb=0, coh=0))
        # states left out
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=2, nb=0, coh=0, keep=[[], [1, 2], [3]]))
        out.append(dict(kt=kt, Na=[1, 2, 1, 0, 2], nl=1, nb=0, coh=0, keep=[[], [2, 0], [1, 4]]))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=1, nb=1, coh=0, keep=[[0], [2], [3]]))
        if 'Pauli' not in kt:
            out.append(dict(kt=kt, Na=[0, 1, 1, 1], nl=1, nb=0, coh=1))
        if tier == 'thorough':
            out.append(dict(kt=kt, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=2, nb=0, coh=0))
    return out


def weight(c):
    return len(c['Na'])**3*c['nl']


def stubs(case):
    return K.stubs_elph() if case['nb'] else K.stubs_base()


def run(W, V, case):
    kt = case['kt']
    m = K.MB(W, V, case['Na'], case['nl'], nbaths=case['nb'])
    dE = V.real('dE', 0, 1) if case['coh'] else None
    bs = []
    for mf in (False, True):
        b = m.build(W, kt, mfreeq=mf)
        if case.get('keep'):
            for s in (b.si, b.si_elph) if case['nb'] else (b.si,):
                s.set_statesdm([list(x) for x in case['keep']])
        if case['coh']:
            b.remove_coherences(dE)
        bs.append(b)
    b, f = bs
    k = K.arr(K.kern_of(b))
    n = b.appr.get_kern_size()
    phi = [V.real('phi%d' % i, -1, 1) for i in range(n)]
    Lphi = K.matvec(k, phi)
    a = f.appr
    v = W.np.zeros(n)
    for i in range(n):
        v[i] = phi[i]
    a.prepare_kern()
    a.generate_fct()
    si = f.si
    V.holds('same size', a.get_kern_size() == n)
    # the trace, written over the states that are kept
    tr = K.ssum(phi[si.get_ind_dm0(x, x, ch)] for ch in range(si.ncharge) for x in si.statesdm[ch])
    sgn = [1]*n
    if 'Pauli' not in kt:
        for i in range(si.ndm0, n):
            sgn[i] = -1
    for row in range(n):
        a.norm_row = row
        d = K.arr(a.generate_vec(v)).copy()
        V.eq('norm row[%d]' % row, d[row], tr-1)
        for i in range(n):
            if i != row and (row < 2 or i == (row+1) % n):
                V.eq('residual[%d] with norm row %d' % (i, row), d[i], sgn[i]*Lphi[i])
