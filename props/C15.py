"""The grand-canonical distribution is stationary and carries no current when all reservoirs agree."""
from engine.sym import R, C, app, toR, pkey
from . import common as K

BOUNDS = ('2..8 many-body states (patterns 01, 012, 0112, 00112, 01112223), 1-3 leads, 0-2 phonon baths; every energy, '
          'amplitude, coupling, bandwidth, the common temperature and the common potential symbolic; all sets of states '
          'kept by an energy threshold for the pattern 0112; the approaches with coherences are included with all '
          'coherences removed; func_pauli and FuncPauliElPh themselves for every energy, temperature, potential, band')
OUTSIDE = ('larger systems; level splittings between 0 and eps_elph*T (there the phonon rates are regularised); arguments '
           'with |E-mu| > 700 T, where double precision under- and overflows')
ASSUMPTIONS = ['system cases: func_pauli satisfies detailed balance F0(E) exp((E-mu)/T) = F1(E) and FuncPauliElPh '
               'satisfies P(E) = exp(-E/T) P(-E); both are themselves decided from the code in the "lemma" cases',
               'imaginary parts of func_1vN / Func1vNElPh are the Pauli rates up to the factor 1/2 (decided in C16)',
               'Tba is Hermitian and connects neighbouring charges only (C04)']


def cases(tier):
    out = [dict(lemma='pauli', py=p) for p in (0, 1)] + [dict(lemma='elph', py=p) for p in (0, 1)]
    for kt in ('Pauli', 'pyPauli'):
        for Na, nl in (([0, 1], 1), ([0, 1], 2), ([0, 1, 2], 2), ([0, 1, 1, 2], 2), ([0, 1, 1, 2], 3),
                       ([0, 0, 1, 1, 2], 2), ([0, 1, 1, 1, 2, 2, 2, 3], 2)):
            out.append(dict(kt=kt, Na=Na, nl=nl, nb=0, rem=0))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=2, nb=0, rem=1))
        out.append(dict(kt=kt, Na=[1, 0, 2, 1], nl=2, nb=0, rem=1))     # not listed by charge
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=1, nb=1, rem=0))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=2, nb=2, rem=0))
        out.append(dict(kt=kt, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=1, nb=1, rem=0))
    for kt in K.BASE:
        if 'Pauli' in kt:
            continue
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=2, nb=0, rem=2))
        out.append(dict(kt=kt, Na=[0, 1, 2], nl=2, nb=0, rem=0))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=1, nb=1, rem=2))
        if tier == 'thorough':
            out.append(dict(kt=kt, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=2, nb=0, rem=2))
    return out


def weight(c):
    return len(c.get('Na', ()))**3*(c.get('nl', 0)+c.get('nb', 0))


# ------------------------------------------------------------------ rates with detailed balance
PAIR = {}        # canonical key of E_c - E_b  ->  (weight of c, weight of b)


def _rates(*a):
    p = PAIR.get(pkey(toR(a[0])))
    if p is None:
        return app('F0', *a), app('F1', *a)
    g = app('g', *a)
    return g*p[0], g*p[1]


def _fp_py(*a):
    from engine.npshim import array
    return array(list(_rates(*a)))


def _fp_cy(Ecb, mu, T, Dm, Dp, itype, rez):
    for i, v in enumerate(_rates(Ecb, mu, T, Dm, Dp, itype)):
        rez[i] = v
    return 0


def _f1(*a):
    F0, F1 = _rates(*a)
    c0, c1 = C(app('c0r', *a), -F0/2), C(app('c1r', *a), F1/2)
    return [c0, c1, C(app('e0r', *a), 0)+a[0]*C(0, -F0/2), C(app('e1r', *a), 0)+a[0]*C(0, F1/2)]


def _f1_py(Ecb, mu, T, Dm, Dp, itype, limit=0):
    from engine.npshim import array
    return array(_f1(Ecb, mu, T, Dm, Dp, itype))


def _f1_cy(Ecb, mu, T, Dm, Dp, itype, limit, rez):
    for i, v in enumerate(_f1(Ecb, mu, T, Dm, Dp, itype)):
        rez[i] = v
    return 0


def _phonon(E, *a):
    """P(E_x - E_y) = h * w_x with h symmetric"""
    p = PAIR.get(pkey(toR(E)))
    if p is None:
        return app('P', E, *a)
    k, j = p[2]
    return app('h', min(k, j), max(k, j), *a)*p[0]


class _PE(K.PauliElPhStub):
    def eval(self, Ebbp, l):
        self.val = _phonon(Ebbp, self.tlst[l], self.dlst[l, 0], self.dlst[l, 1])


class _NE(K.NeuElPhStub):
    def eval(self, Ebbp, l):
        a = (self.tlst[l], self.dlst[l, 0], self.dlst[l, 1])
        self.val0 = C(app('w0r', Ebbp, *a), -_phonon(Ebbp, *a)/2)
        self.val1 = C(app('w1r', Ebbp, *a), _phonon(-Ebbp, *a)/2)


def stubs(case):
    if 'lemma' in case:
        return {}
    e = {'FuncPauliElPh': _PE, 'Func1vNElPh': _NE}
    return {'qmeq.specfunc.specfunc': {'func_pauli': _fp_py, 'func_1vN': _f1_py},
            'qmeq.specfunc.c_specfunc': {'func_pauli': _fp_cy, 'func_1vN': _f1_cy},
            'qmeq.specfunc.specfunc_elph': e, 'qmeq.specfunc.c_specfunc_elph': e}


def run(W, V, case):
    if 'lemma' in case:
        return lemma(W, V, case)
    kt, nl, nb = case['kt'], case['nl'], case['nb']
    m = K.MB(W, V, case['Na'], nl, nbaths=nb)
    mu, T = V.real('mu', -1, 1), V.real('T', 0.25, 1)
    m.mu, m.tl, m.tph = [mu]*nl, [T]*nl, [T]*nb
    n = len(m.Na)
    if V.symbolic:
        w = [V.real('w%d' % i, 0.001, 1) for i in range(n)]
        PAIR.clear()
        for x in range(n):
            for y in range(n):
                if x != y:
                    PAIR[pkey(m.Ea[x]-m.Ea[y])] = (w[x], w[y], (x, y))
        if nb:      # both ends of a phonon rate at the same state never occur with different weights
            PAIR.pop(pkey(toR(0)), None)
    else:
        w = [W.np.exp(-(m.Ea[i]-mu*m.Na[i])/T) for i in range(n)]
    b = m.build(W, kt)
    if case['rem'] == 1:
        b.remove_states(V.real('dE', 0, 1))
    if case['rem'] == 2:        # degenerate states keep their coherence at any threshold
        for x in range(n):
            for y in range(x):
                if m.Na[x] == m.Na[y]:
                    V.assume(V.lor(m.Ea[x]-m.Ea[y] > 0.001, m.Ea[x]-m.Ea[y] < -0.001))
        b.remove_coherences(0.0)
    k = K.arr(K.kern_of(b))
    si = b.si
    kept = [s for c in range(si.ncharge) for s in si.statesdm[c]]
    phi = [0.0]*b.appr.get_kern_size()
    for ch in range(si.ncharge):
        for s in si.statesdm[ch]:
            phi[si.get_ind_dm0(s, s, ch)] = w[s]
    V.holds('one slot per state', len(phi) == len(kept))
    for i, r in enumerate(K.matvec(k, phi)):
        V.eq('stationary[%d]' % i, r, 0)
    K.set_phi0(b, phi)
    a = b.appr
    for x in ('current', 'energy_current', 'heat_current'):
        getattr(b, x)[:] = 0
    a.generate_current()
    for l in range(nl):
        V.eq('current[%d]' % l, b.current[l], 0)
        V.eq('energy_current[%d]' % l, b.energy_current[l], 0)
        V.eq('heat_current[%d]' % l, b.heat_current[l], 0)


# ------------------------------------------------------------------ detailed balance of the rate functions
def contracts(case):
    from engine.sym import z3
    if 'lemma' not in case:
        return {}

    F = z3.Function('EXP', z3.RealSort(), z3.RealSort())

    def ex(v, x):
        return [v == F(x), v > 0, z3.Implies(x > 0, v > 1), z3.Implies(x < 0, v < 1), z3.Implies(x == 0, v == 1)]
    return {'exp': ex}


def lemma(W, V, case):
    py = case['py']
    E, T = V.real('E', -300, 300), V.real('T', 0.5, 300)
    if case['lemma'] == 'pauli':
        mu, Dm, Dp = V.real('mu', -40, 40), V.real('Dm', -400, 100), V.real('Dp', -100, 400)
        V.assume(E-mu <= 700*T)
        V.assume(mu-E <= 700*T)
        itype = V.pick('itype', 4)
        f = W.mod('specfunc.specfunc').func_pauli if py else W.mod('specfunc.c_specfunc').c_func_pauli
        r = f(E, mu, T, Dm, Dp, itype)
        V.eq('F0*exp(alpha) = F1', r[0]*W.np.exp((E-mu)/T), r[1])
        return
    np_ = W.np
    eps = 1e-6
    tl, dl = np_.zeros(1), np_.zeros((1, 2))
    tl[0] = T
    dl[0, 0], dl[0, 1] = V.real('Dm', 0, 20), V.real('Dp', 0, 400)
    V.assume(E > eps*T)
    V.assume(E <= 700*T)
    mod = W.mod('specfunc.specfunc_elph' if py else 'specfunc.c_specfunc_elph')
    P = mod.FuncPauliElPh(tl, dl, None, eps)
    P.eval(E, 0)
    absorb = P.val
    P.eval(-E, 0)
    emit = P.val
    V.eq('P(E)*exp(E/T) = P(-E)', absorb*np_.exp(E/T), emit)
