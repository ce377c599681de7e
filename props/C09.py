"""Probability conservation of every first-order kernel."""
from . import common as K, ref

BOUNDS = ('2..6 many-body states (charge patterns 01, 011, 0112, 00112, 01112, 1223, with baths 01 and 0112), 2 leads, '
          '0-2 baths, every retained subset listed in the cases, both kernel forms (matrix and matrix free); all energies, '
          'amplitudes, couplings and lead parameters symbolic')
OUTSIDE = 'larger systems; RTD (C21) and 2vN (C22)'
ASSUMPTIONS = ['rate functions are uninterpreted functions of all their arguments',
               'Tba is Hermitian and connects neighbouring charges only (established by C04)',
               'double arithmetic is treated as exact real arithmetic']


def cases(tier):
    out = []
    for kt in K.BASE:
        for Na in ([0, 1], [0, 1, 1], [0, 1, 1, 2], [0, 0, 1, 1, 2], [0, 1, 1, 1, 2]):
            out.append(dict(kt=kt, Na=Na, nl=2, nb=0, keep=None, mf=0))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=2, nb=0, keep=[[], [1, 2], [3]], mf=0))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2, 2], nl=2, nb=0, keep=[[0], [2], [4, 3]], mf=0))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=2, nb=0, keep=None, mf=1))
        for mf in (0, 1):   # states not listed by charge
            out.append(dict(kt=kt, Na=[1, 0, 2, 1], nl=2, nb=0, keep=None, mf=mf))
            out.append(dict(kt=kt, Na=[1, 2, 1, 0, 2], nl=1, nb=0, keep=[[], [2, 0], [1, 4]], mf=mf))
        out.append(dict(kt=kt, Na=[0, 1], nl=1, nb=2, keep=None, mf=0))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=1, nb=1, keep=None, mf=0))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=1, nb=1, keep=None, mf=1))
        if tier == 'thorough':
            out.append(dict(kt=kt, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=2, nb=0, keep=None, mf=0))
            out.append(dict(kt=kt, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=1, nb=1, keep=None, mf=0))
            out.append(dict(kt=kt, Na=[0, 1, 1, 1, 1, 2], nl=3, nb=0, keep=None, mf=0))
            out.append(dict(kt=kt, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=2, nb=0, keep=[[0], [1, 3], [4, 5, 6], []], mf=0))
    return out


def weight(c):
    return len(c['Na'])**3*(c['nl']+c['nb'])


def stubs(case):
    return K.stubs_elph() if case['nb'] else K.stubs_base()


def run(W, V, case):
    m = K.MB(W, V, case['Na'], case['nl'], nbaths=case['nb'])
    b = m.build(W, case['kt'], mfreeq=bool(case['mf']))
    si = b.si
    if case['keep']:
        si.set_statesdm([list(x) for x in case['keep']])
        if case['nb']:
            b.si_elph.set_statesdm([list(x) for x in case['keep']])
    npauli, n = si.npauli, b.appr.get_kern_size()
    V.holds('some probability', npauli >= 1)
    if not case['mf']:
        k = K.arr(K.kern_of(b))
        nz = 0
        for j in range(n):
            V.eq('column[%d]' % j, K.ssum(k[i, j] for i in range(npauli)), 0)
            nz += any(not V.zero(k[i, j]) for i in range(n))
        V.holds('kernel not empty', nz > 0)
        return
    a = b.appr
    phi = [V.real('phi%d' % i, -1, 1) for i in range(n)]
    a.norm_row = 0
    a.prepare_kern()
    a.generate_fct()
    v = W.np.zeros(n)
    for i in range(n):
        v[i] = phi[i]
    d0 = K.arr(a.generate_vec(v)).copy()
    V.eq('norm residual', d0[0], K.ssum(phi[:npauli])-1)
    if npauli > 1:
        a.norm_row = 1 if npauli > 1 else 0
        d1 = K.arr(a.generate_vec(v)).copy()
        V.eq('trace of L(phi)', d1[0] + K.ssum(d0[1:npauli]), 0)
