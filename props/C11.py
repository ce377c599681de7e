"""Lead-resolved currents are the rates of change they stand for."""
from . import common as K, ref

BOUNDS = ('2..5 many-body states (patterns 01, 011, 0112, 00112; with a bath 0112), 2 leads, arbitrary (not only '
          'stationary) density matrix; all parameters and density-matrix elements symbolic; subsets of kept coherences '
          'for the pattern 0111')
OUTSIDE = 'larger systems; RTD (C21) and 2vN (C22)'
ASSUMPTIONS = ['rate functions are uninterpreted functions of all their arguments',
               'Tba is Hermitian and connects neighbouring charges only (established by C04)',
               'double arithmetic is treated as exact real arithmetic']


def cases(tier):
    out = []
    for kt in K.BASE:
        for Na, nl in (([0, 1], 2), ([0, 1, 1], 2), ([0, 1, 1, 2], 2), ([0, 0, 1, 1, 2], 1)):
            out.append(dict(kt=kt, Na=Na, nl=nl, nb=0, coh=0))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=2, nb=1, coh=0))
        out.append(dict(kt=kt, Na=[1, 0, 2, 1], nl=2, nb=0, coh=0))     # states not listed by charge
        if 'Pauli' not in kt:
            out.append(dict(kt=kt, Na=[0, 1, 1, 1], nl=1, nb=0, coh=1))
        if tier == 'thorough':
            out.append(dict(kt=kt, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=2, nb=0, coh=0))
            out.append(dict(kt=kt, Na=[0, 0, 0, 1, 1, 1], nl=3, nb=0, coh=0))
    return out


def weight(c):
    return len(c['Na'])**3*c['nl']


def stubs(case):
    return K.stubs_elph() if case['nb'] else K.stubs_base()


def run(W, V, case):
    kt, Na = case['kt'], case['Na']
    m = K.MB(W, V, Na, case['nl'], nbaths=case['nb'])
    b = m.build(W, kt)
    if case['coh']:
        b.remove_coherences(V.real('dE', 0, 1))
    a, si = b.appr, b.si
    K.kern_of(b)
    phi = K.density(V, b)
    K.set_phi0(b, phi)
    a.generate_current()
    R = ref.Model(W, V, kt, m, K.states_of(si), 1, itype_ph=2)
    rho = ref.rho_of(si, phi, R.pauli_only)
    I, IE, IH = (K.arr(x) for x in (a.current, a.energy_current, a.heat_current))
    V.holds('one entry per lead', len(I) == case['nl'] == len(IE) == len(IH))
    for l in range(case['nl']):
        d = R.leads_part(rho, [l])
        V.eq('current[%d] = d<N>/dt by the lead' % l, I[l],
             K.ssum(Na[x]*ref_re(d.get((x, x), 0)) for x in range(len(Na))))
        if R.kt in ('Pauli', 'Lindblad'):
            V.eq('energy_current[%d] = d<H>/dt by the lead' % l, IE[l],
                 K.ssum(m.Ea[x]*ref_re(d.get((x, x), 0)) for x in range(len(Na))))
        else:
            phi1 = R.L.phi1(V, rho, R.kt == 'Redfield', 0, [l])
            for (ll, c, bb), v in phi1.items():
                V.eq('phi1[%d,%d,%d]' % (l, c, bb), K.arr(a.phi1)[l, si.get_ind_dm1(c, bb, Na[bb]-min(Na))], v)
            # the energy amplitudes are those returned for the same transition, fed through the same sum
            e = R.L.phi1(V, rho, R.kt == 'Redfield', 2, [l])
            V.eq('energy_current[%d]' % l, IE[l],
                 K.ssum(-2*ref_im(m.T[l][bb][c]*v) for (ll, c, bb), v in e.items()))
        V.eq('heat[%d]' % l, IH[l], IE[l]-m.mu[l]*I[l])


def ref_re(x):
    return x.real if not isinstance(x, (int, float)) else x


def ref_im(x):
    return x.imag if not isinstance(x, (int, float)) else 0
