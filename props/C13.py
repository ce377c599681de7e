"""Compiled and Python implementations of an approach build the same equations and the same answers."""
from . import common as K

BOUNDS = ('2..5 many-body states (patterns 01, 011, 0112, 00112, 0111), 1..2 leads, 0..1 phonon baths, symq on and off, '
          'itype 0..2, arbitrary kept subsets and coherence thresholds for listed patterns; all parameters and '
          'density-matrix elements symbolic')
OUTSIDE = 'the second-order approaches RTD (C21) and 2vN (C22); the special functions themselves (C16)'
ASSUMPTIONS = ['rate functions are uninterpreted functions of all their arguments (the two families of special '
               'functions are compared with each other in C16)',
               'double arithmetic is treated as exact real arithmetic']

PAIRS = (('Pauli', 'pyPauli'), ('Lindblad', 'pyLindblad'), ('Redfield', 'pyRedfield'), ('1vN', 'py1vN'))


def cases(tier):
    out = []
    for i in range(4):
        for Na, nl in (([0, 1], 2), ([0, 1, 1], 2), ([0, 1, 1, 2], 2), ([0, 0, 1, 1, 2], 1)):
            for symq in (1, 0):
                out.append(dict(p=i, Na=Na, nl=nl, nb=0, symq=symq, mode='', mf=0, it=1))
        for it in (0, 2):
            out.append(dict(p=i, Na=[0, 1, 1, 2], nl=1, nb=0, symq=1, mode='', mf=0, it=it))
        out.append(dict(p=i, Na=[0, 1, 1, 2], nl=2, nb=0, symq=1, mode='', mf=1, it=1))
        for mf in (0, 1):   # states not listed by charge
            out.append(dict(p=i, Na=[1, 0, 2, 1], nl=2, nb=0, symq=1, mode='', mf=mf, it=1))
            out.append(dict(p=i, Na=[2, 1, 0, 1], nl=1, nb=0, symq=1, mode='sub', mf=mf, it=1))
        out.append(dict(p=i, Na=[0, 1, 1, 2], nl=2, nb=1, symq=1, mode='', mf=0, it=1))
        out.append(dict(p=i, Na=[0, 1, 1, 2], nl=1, nb=1, symq=1, mode='', mf=1, it=1))
        out.append(dict(p=i, Na=[0, 1], nl=1, nb=2, symq=0, mode='', mf=0, it=1))
        out.append(dict(p=i, Na=[0, 1, 1, 2], nl=1, nb=0, symq=1, mode='sub', mf=0, it=1))
        out.append(dict(p=i, Na=[0, 1, 1, 1], nl=1, nb=0, symq=1, mode='coh', mf=0, it=1))
        out.append(dict(p=i, Na=[0, 1, 1, 1], nl=1, nb=0, symq=1, mode='coh', mf=1, it=1))
        if tier == 'thorough':
            out.append(dict(p=i, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=2, nb=0, symq=1, mode='', mf=0, it=1))
            out.append(dict(p=i, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=2, nb=1, symq=0, mode='', mf=0, it=1))
            out.append(dict(p=i, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=1, nb=1, symq=1, mode='', mf=1, it=1))
            out.append(dict(p=i, Na=[0, 1, 1, 1, 1, 2, 2], nl=3, nb=0, symq=1, mode='sub', mf=0, it=2))
    return out


def weight(c):
    return len(c['Na'])**3*(c['nl']+c['nb'])


def stubs(case):
    return K.stubs_elph() if case['nb'] else K.stubs_base()


def run(W, V, case):
    m = K.MB(W, V, case['Na'], case['nl'], nbaths=case['nb'])
    dE = V.real('dE', 0, 1) if case['mode'] else None
    res = []
    for kt in PAIRS[case['p']]:
        b = m.build(W, kt, symq=bool(case['symq']), mfreeq=bool(case['mf']), itype=case['it'])
        if case['mode'] == 'coh':
            b.remove_coherences(dE)
        elif case['mode'] == 'sub':
            b.remove_states(dE)
        a = b.appr
        n = a.get_kern_size()
        if n == 0:
            V.skip = True
            return
        r = {}
        a.prepare_kern()
        a.generate_fct()
        phi = [V.real('phi%d' % i, -1, 1) for i in range(n)]
        if case['mf']:
            v = W.np.zeros(n)
            for i in range(n):
                v[i] = phi[i]
            a.norm_row = n-1
            r['dphi0_dt'] = K.arr(a.generate_vec(v)).copy()
        else:
            a.generate_kern()
            r['kern'] = K.arr(a.kern).copy()
            r['bvec'] = K.arr(a.bvec).copy()
            r['norm_vec'] = K.arr(a.norm_vec).copy()
            K.set_phi0(b, phi)
        a.generate_current()
        for nm in ('current', 'energy_current', 'heat_current'):
            r[nm] = K.arr(getattr(a, nm)).copy()
        if case['p'] >= 2:
            r['phi1'] = K.arr(a.phi1).copy()
        if not case['mf']:
            nn = len(case['Na'])
            g = W.np.zeros((nn, nn), dtype=complex)
            for i in range(nn):
                for j in range(nn):
                    g[i, j] = b.get_phi0(i, j)
            r['get_phi0'] = K.arr(g)
        res.append(r)
    for nm in res[0]:
        V.eqs(nm, res[0][nm], res[1][nm])
