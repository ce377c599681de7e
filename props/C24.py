"""Many-body builders describe the same physics as the standard ones."""
import copy
import itertools

from . import common as K
from . import ref

BOUNDS = ('systems of 2, 4 and 8 many-body states; every approach; states listed in 24 orders of 4 states (6 per approach in '
          'the quick tier) and 2 of 8, charge offsets -2, 0, 1, 5; models with gaps between the charges; all states, '
          'removed states and coherences; with and without phonon baths; 2vN in the given order only, first iteration; all '
          'energies, amplitudes, lead and bath parameters and density matrices symbolic; non-default values of every '
          'option')
OUTSIDE = ('larger systems; the barrier part of the RTD energy currents, which needs single-particle amplitudes that a '
           'many-body builder does not have; 2vN with permuted states (C22 compares those with the equations)')
ASSUMPTIONS = ['rate functions, RTD integrals, np.linalg.inv and hilbert_fredriksen are uninterpreted functions of all '
               'their arguments']
EXPLAIN = ('Both builders get the same model under different labels; the claims compare d rho/dt element by element, the '
           'currents and the read-out elements for one arbitrary density matrix.')
NA = {2: [0, 1], 4: [0, 1, 1, 2], 8: [0, 1, 1, 1, 2, 2, 2, 3]}
RTD = ('RTD', 'pyRTD')
NEU = ('2vN', 'py2vN')
OFFS = (0, 1, 5, -2)
CASE_TIMEOUT = 700


def cases(tier):
    th = tier == 'thorough'
    out = []
    perms = list(itertools.permutations(range(4)))
    for k, kt in enumerate(K.BASE+RTD):
        for i, p in enumerate(perms):
            if th or (i+k) % (12 if kt in RTD else 4) == 0 or i in (1, 23) and kt in ('1vN', 'Pauli'):
                seq = ['', 'rs', 'rc', 'rsrc'][(i//4+k) % 4]
                if kt in RTD and 'rc' in seq:
                    seq = 'rs'
                out.append(dict(what='rtd' if kt in RTD else 'std', kt=kt, p=list(p), off=OFFS[(i+k//2) % 4], seq=seq, nb=0,
                                nl=1 if kt in RTD else 2, ix='charge'))
                if kt in K.BASE:
                    out.append(dict(what='std', kt=kt, p=list(p), off=OFFS[(i+k) % 4], seq=seq, nb=1, nl=1, ix='charge'))
                    if i % 2 or th:
                        out.append(dict(what='std', kt=kt, p=list(p), off=OFFS[(i+k) % 4], seq='', nb=0, nl=1,
                                        ix=('Lin', 'sz')[i//2 % 2]))
        if kt in K.BASE:
            out.append(dict(what='std', kt=kt, p=[7, 2, 0, 1, 4, 6, 3, 5], off=1, seq='', nb=0, nl=1, ix='charge'))
            for g in range(len(GAPS)):
                out.append(dict(what='gap', kt=kt, g=g, nl=2, nb=0))
                out.append(dict(what='gap', kt=kt, g=g, nl=1, nb=1))
    for kt in NEU:
        for off in OFFS:
            for n in (2, 4):
                out.append(dict(what='neu', kt=kt, off=off, n=n, nl=1))
    for kt in K.BASE+RTD+NEU:
        for nb in (0, 1) if kt in K.BASE else (0,):
            out.append(dict(what='opt', kt=kt, nb=nb))
    return out


def weight(c):
    return len(c.get('p', [1, 1, 1]))**3*(3 if c.get('nb') else 1)*(5 if c['kt'] in RTD else 1)


GAPS = [[0, 2], [3, 5, 4, 5], [0, 0, 2, 3, 2], [1, 4, 5], [2, 2]]


def stubs(case):
    s = K.stubs_elph() if case.get('nb') else K.stubs_base()
    from . import C21, C22
    for k, v in C21.stubs(case).items():
        s[k] = dict(s.get(k, {}), **{x: y for x, y in v.items() if x not in ('func_pauli', 'func_1vN')})
    for k, v in C22.stubs(case).items():
        s[k] = dict(s.get(k, {}), **v)
    return s


# ------------------------------------------------------------------ builders
def standard(W, m, kt, ix, **kw):
    """the standard builder carrying the model (given in the order of charges) -> builder, labels"""
    q = W.mod('builder.builder')
    n = {2: 1, 4: 2, 8: 3}[len(m.Na)]
    nl = m.nleads*(2 if ix == 'sz' else 1)
    r = nl//m.nleads
    args = dict(nsingle=n, nleads=nl, mulst=list(m.mu)*r, tlst=list(m.tl)*r, dband=[list(d) for d in m.D]*r, kerntype=kt,
                itype=1, indexing=ix)
    if m.nbaths:
        args.update(nbaths=m.nbaths, tlst_ph=list(m.tph), dband_ph=[list(d) for d in m.Dph], itype_ph=2)
    args.update(kw)
    b = (q.BuilderElPh if m.nbaths else q.Builder)(**args)
    lab = {}
    for c in range(n+1):
        for s in b.si.chargelst[c]:
            lab[len(lab)] = s
    N = len(m.Na)
    Ea, T, Vb = m.arrays(W)
    for i in range(N):
        b.qd.Ea[lab[i]] = Ea[i]
        for j in range(N):
            for l in range(nl):
                b.leads.Tba[l, lab[i], lab[j]] = T[l, i, j] if l < m.nleads else 0
            for l in range(m.nbaths):
                b.baths.Vbbp[l, lab[i], lab[j]] = Vb[l, i, j]
    return b, lab


def manybody(W, m, kt, p, off, **kw):
    """state k of the builder is state p[k] of the model -> builder, labels"""
    q = W.mod('builder.builder')
    N, np_ = len(m.Na), W.np
    Ea0, T0, V0 = m.arrays(W)
    Ea, T, Vb = np_.zeros(N), np_.zeros(T0.shape, dtype=complex), np_.zeros(V0.shape, dtype=complex)
    for i in range(N):
        Ea[i] = Ea0[p[i]]
        for j in range(N):
            T[:, i, j] = T0[:, p[i], p[j]]
            Vb[:, i, j] = V0[:, p[i], p[j]]
    args = dict(mulst=list(m.mu), tlst=list(m.tl), dband=[list(d) for d in m.D], kerntype=kt, itype=1)
    if m.nbaths:
        args.update(tlst_ph=list(m.tph), dband_ph=[list(d) for d in m.Dph], itype_ph=2, Vbbp=Vb)
    args.update(kw)
    b = (q.BuilderManyBodyElPh if m.nbaths else q.BuilderManyBody)(Ea=Ea, Na=[m.Na[x]+off for x in p], Tba=T, **args)
    return b, {p[k]: k for k in range(N)}


# ------------------------------------------------------------------ observations
class Obs:
    def __init__(self, W, V, b, lab, kt, kept, co, rho):
        self.b, self.lab = b, lab
        si, inv = b.si, {v: k for k, v in lab.items()}
        pauli = 'auli' in kt or kt in RTD
        self.kt = kt
        # labels of the charges used by the indexing
        self.states = sorted(inv[s] for c in range(si.ncharge) for s in si.statesdm[c])
        V.holds('kept states', self.states == sorted(kept))
        if kt in RTD:
            from . import C21
            C21.kernels(W, V, b, kt)
            kern = K.arr(b.appr.kern)
        else:
            kern = K.arr(K.kern_of(b)).copy()
        N = kern.shape[1]
        r = {(lab[i], lab[j]): v for (i, j), v in rho.items() if i in kept and j in kept and (i == j or (i, j) in co)}
        vec = [0.0]*N
        fill = ref.vec_of(si, Cx(r), pauli)
        V.holds('elements', sorted(fill) == list(range(N)))
        for k, v in fill.items():
            vec[k] = v
        K.set_phi0(b, vec)
        d = ref.rho_of(si, K.matvec(kern, vec), pauli)
        self.drho = {(inv[x], inv[y]): v for (x, y), v in d.items()}
        for x in ('current', 'energy_current', 'heat_current'):
            getattr(b, x)[:] = 0
        b.appr.generate_current()
        self.cur = {x: list(K.arr(getattr(b, x))) for x in ('current', 'energy_current', 'heat_current')}
        self.read = {(i, j): b.get_phi0(lab[i], lab[j]) for i in lab for j in lab}


class Cx(dict):
    """complex view of real populations"""

    def get(self, k, d=0):
        v = dict.get(self, k, d)
        return v


def compare(V, x, y, nl):
    V.holds('same elements', sorted(x.drho) == sorted(y.drho))
    for e in x.drho:
        V.eq('d rho[%d,%d]/dt' % e, y.drho[e], x.drho[e])
    for nm in x.cur:
        if x.kt in RTD and nm != 'current':
            continue
        for l in range(nl):
            V.eq('%s[%d]' % (nm, l), y.cur[nm][l], x.cur[nm][l])
    for e in x.read:
        V.eq('get_phi0(%d,%d)' % e, y.read[e], x.read[e])


def density(V, n, pauli):
    rho = {}
    for i in range(n):
        rho[i, i] = V.real('r%d' % i, 0, 1)
        if not V.symbolic:
            rho[i, i] = complex(rho[i, i])
    if not pauli:
        for i, j in itertools.combinations(range(n), 2):
            rho[i, j] = V.cplx('r%d_%d' % (i, j), -1, 1)
            rho[j, i] = V.conj(rho[i, j])
    return rho


def run(W, V, case):
    from . import C22
    C22.install(W)
    globals()['h_'+case['what']](W, V, case)


def energies(W, V, case, Na, m):
    m.Ea = [V.real('e%d' % i, 0.5*i, 0.5*i+0.1) for i in range(len(Na))]


def select(V, b, n, seq):
    if seq.startswith('rs'):
        b.remove_states(V.real('dE', 0.5*(n-2)+0.15, 0.5*(n-1)-0.15))
    if seq.endswith('rc'):
        b.remove_coherences(V.real('dC', 0.15, 0.35))


def h_std(W, V, case):
    kt, p = case['kt'], case['p']
    n = len(p)
    m = K.MB(W, V, NA[n], case['nl'], nbaths=case['nb'])
    energies(W, V, case, NA[n], m)
    kept = range(n-1) if case['seq'].startswith('rs') else range(n)
    pauli = 'auli' in kt or kt in RTD
    co = set() if pauli or case['seq'].endswith('rc') else \
        {(i, j) for i in kept for j in kept if i != j and m.Na[i] == m.Na[j]}
    rho = density(V, n, pauli)
    obs = []
    for b, lab in (standard(W, m, kt, case['ix']), manybody(W, m, kt, p, case['off'])):
        if case['ix'] == 'sz' and not pauli:
            # coherences of states with different spin are not part of the 'sz' equations
            co = {(i, j) for i, j in co if i != j} if False else set()
            rho = {e: v for e, v in rho.items() if e[0] == e[1]}
        select(V, b, n, case['seq'] if case['ix'] != 'sz' else 'rc')
        obs.append(Obs(W, V, b, lab, kt, kept, co, rho))
    compare(V, obs[0], obs[1], case['nl'])
    V.holds('charges', [int(x) for x in K.arr(obs[1].b.Na)] == [m.Na[x]+case['off'] for x in p])


def h_rtd(W, V, case):
    """the RTD kernels and currents, slot by slot"""
    from . import C21
    kt, p, nl = case['kt'], case['p'], case['nl']
    n = len(p)
    m = C21.model(W, V, dict(p='4', nl=nl, ph=0))
    kept = range(n-1) if case['seq'] else range(n)
    off = (sum(p[:2])+case['off']) % 2
    obs = []
    for b, lab in (standard(W, m, kt, 'charge'), manybody(W, m, kt, p, case['off'])):
        b.off_diag_corrections = bool(off)
        select(V, b, n, case['seq'])
        si, inv = b.si, {v: k for k, v in lab.items()}
        V.holds('kept states', sorted(inv[s] for c in range(si.ncharge) for s in si.statesdm[c]) == sorted(kept))
        C21.kernels(W, V, b, kt)
        kern = K.arr(b.appr.kern)
        fill = ref.vec_of(si, {(lab[i], lab[i]): i+1 for i in kept}, True)
        V.holds('elements', sorted(fill) == list(range(kern.shape[1])))
        slot = {int(toi(v))-1: k for k, v in fill.items()}
        r = {}
        for i, j in itertools.product(kept, kept):
            r['kern[%d,%d]' % (i, j)] = kern[slot[i], slot[j]]
        for j in kept:
            K.set_phi0(b, [1.0 if s == slot[j] else 0.0 for s in range(kern.shape[1])])
            for x in ('current', 'energy_current', 'heat_current'):
                getattr(b, x)[:] = 0
            b.appr.generate_current()
            for l in range(nl):
                r['current[%d] of %d' % (l, j)] = K.arr(b.current)[l]
            for i in range(n):
                r['get_phi0(%d,%d) of %d' % (i, i, j)] = b.get_phi0(lab[i], lab[i])
        obs.append(r)
    for k in obs[0]:
        V.eq(k, obs[1][k], obs[0][k])


def toi(v):
    v = complex(v) if not K._z(v) and not hasattr(v, 're') else v
    return v.real if isinstance(v, complex) else v


def h_gap(W, V, case):
    """charges with gaps, against the reference equations"""
    kt, Na = case['kt'], GAPS[case['g']]
    n = len(Na)
    m = K.MB(W, V, Na, case['nl'], nbaths=case['nb'])
    energies(W, V, case, Na, m)
    b, lab = manybody(W, m, kt, list(range(n)), 0)
    pauli = 'auli' in kt
    co = set() if pauli else {(i, j) for i in range(n) for j in range(n) if i != j and m.Na[i] == m.Na[j]}
    rho = density(V, n, pauli)
    o = Obs(W, V, b, lab, kt, range(n), co, rho)
    states = [[i for i in range(n) if Na[i] == c] for c in range(min(Na), max(Na)+1)]
    M = ref.Model(W, V, kt, m, states, 1, itype_ph=2)
    r = {e: v for e, v in rho.items() if e[0] == e[1] or e in co}
    want = M.generator(r)
    for e, v in o.drho.items():
        V.eq('d rho[%d,%d]/dt' % e, v, want.get(e, 0.0))
    V.holds('elements', sorted(o.drho) == sorted(r))
    for i, j in itertools.product(range(n), range(n)):
        V.eq('get_phi0(%d,%d)' % (i, j), o.read[i, j], r.get((i, j), 0.0))


def h_neu(W, V, case):
    from . import C22
    kt, n, nl = case['kt'], case['n'], case['nl']
    m = K.MB(W, V, NA[n], nl)
    energies(W, V, case, NA[n], m)
    m.D = [[-4.0, 4.0]]*nl
    res = []
    for b, lab in (standard(W, m, kt, 'charge', kpnt=3), manybody(W, m, kt, list(range(n)), case['off'], kpnt=3)):
        a = b.appr
        a.prepare_kern()
        L = len(K.arr(a.Ek_grid_ext))
        fp = [[V.real('fp%d_%d' % (l, k), 0, 1) for k in range(L)] for l in range(nl)]
        a.fkp, a.fkm = W.array(fp, dtype=float), W.array([[1-x for x in r] for r in fp], dtype=float)
        for nm in ('hfkp', 'hfkm'):
            setattr(a, nm, W.array([[V.cplx('%s%d_%d' % (nm, l, k), -1, 1) for k in range(L)] for l in range(nl)], dtype=complex))
        a.iterate()
        r = dict(grid=K.arr(a.Ek_grid_ext), amp=K.arr(a.phi1k_delta).copy(), inv=K.arr(a.kern1k_inv).copy())
        X = C22.symbolic_phi(W, V, None, 'X', 3, (nl, b.si.ndm1, b.si.ndm0))
        a.phi1k[:] = X
        a.determine_phi1_phi0()
        a.generate_kern()
        r['kern'] = K.arr(a.kern).copy()
        K.set_phi0(b, [V.cplx('phi%d' % i, -1, 1) for i in range(b.si.ndm0)])
        a.generate_current()
        for x in ('current', 'energy_current', 'heat_current', 'phi1'):
            r[x] = K.arr(getattr(b, x)).copy()
        r['norm'] = K.arr(a.norm_vec).copy()
        res.append(r)
    for x in res[0]:
        V.eqs(x, res[1][x], res[0][x])


def h_opt(W, V, case):
    """every option reaches the same place in both kinds of builder"""
    kt, nb = case['kt'], case['nb']
    m = K.MB(W, V, NA[4], 1, nbaths=nb)
    x = [V.real('x%d' % i, 0, 1) for i in range(6)]
    kw = dict(symq=False, norm_row=2, solmethod='lsqr', itype=2, dqawc_limit=77, mfreeq=False, phi0_init=W.array(x),
              kpnt=5)
    if nb:
        f = [lambda x: x]
        kw.update(eps_elph=V.real('eps', 0.001, 0.002), itype_ph=1, bath_func=f)
    s, _ = standard(W, m, kt, 'charge', **kw)
    b, _ = manybody(W, m, kt, [0, 1, 2, 3], 0, **kw)
    for k in ('symq', 'norm_row', 'solmethod', 'itype', 'dqawc_limit', 'mfreeq', 'kpnt', 'phi0_init', 'eps_elph', 'itype_ph'):
        if k in kw:
            u, v = getattr(s.funcp, k), getattr(b.funcp, k)
            if k == 'phi0_init':
                V.eqs(k, v, u)
                V.eqs(k+' as given', v, W.array(x))
            elif k == 'eps_elph':
                V.eq(k, v, u)
            else:
                V.holds(k, u == v)
                if k not in ('itype', 'itype_ph'):
                    V.holds(k+' as given', v == kw[k])
    for k in ('mulst', 'tlst', 'dlst'):
        V.eqs(k, getattr(b.leads, k), getattr(s.leads, k))
    if nb:
        for k in ('tlst_ph', 'dlst_ph'):
            V.eqs(k, getattr(b.baths, k), getattr(s.baths, k))
        V.holds('bath_func', b.baths.bath_func == f and s.baths.bath_func == f)
    V.holds('approach', type(b.appr).__name__ == type(s.appr).__name__ and b.appr.kerntype == s.appr.kerntype)
    V.holds('states', [list(q) for q in b.si.statesdm] == [list(q) for q in s.si.statesdm])
    V.holds('sizes', all(getattr(b.si, q, None) == getattr(s.si, q, None) for q in ('ncharge', 'nmany', 'nleads', 'npauli', 'ndm0', 'ndm1', 'ndm0r')))
