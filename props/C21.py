"""RTD: the real-time diagrammatic kernels, their conservation laws and both implementations."""
import itertools

from engine.sym import app, C, toR
from . import common as K

BOUNDS = ('many-body models of 2..6 states, 8 in the thorough tier (charge patterns also with states not ordered by charge), 1-3 leads, '
          'off-diagonal corrections on and off, kept subsets of states and coherences, leads of equal and different '
          'temperature; all energies, amplitudes (real, and complex with fixed phases), lead parameters, integral values '
          'and occupation vectors symbolic; histories of up to 3 option/parameter changes')
OUTSIDE = ('amplitudes so small that products fall below the cut-offs 1e-10 T and 1e-20 T^2; exactly degenerate states '
           'with the off-diagonal corrections (only the agreement of the implementations is claimed there); the '
           'energy-current kernels for complex amplitudes, which the code declares unsupported (nan)')
ASSUMPTIONS = ['func_pauli, phi, fermi_func, integralD, integralX and BW_Ozaki are uninterpreted functions of all their '
               'arguments; delta_phi is the difference of two phi (established by C16)',
               'Tba is Hermitian and connects neighbouring charges only (established by C04)']
EXPLAIN = ('The reference enumerates the fourth-order diagrams as paths of |a><b| through four vertices (branch, electron-'
           'hole index, lead), and the off-diagonal corrections from the second-order generator on all matrix elements.')
CASE_TIMEOUT = 800
THREADS = 8
PI = 3.141592653589793

PATTERNS = {'2': [0, 1], '3': [0, 1, 2], 'v': [0, 1, 1], '4': [0, 1, 1, 2], 'p': [1, 2, 0, 1], '5': [0, 0, 1, 1, 2],
            'q': [2, 1, 1, 1, 0],
            '6': [0, 1, 1, 2, 2, 3], '8': [0, 1, 1, 1, 2, 2, 2, 3]}
SEQ = {'': [], 'rs': ['rs'], 'rc': ['rc'], 'rsrc': ['rs', 'rc']}


def cases(tier):
    out = []
    for kt in ('RTD', 'pyRTD'):
        for pat in ('2', '3', 'v', '4', 'p', '5', 'q', '6') + (('8',) if tier == 'thorough' else ()):
            for nl in (1, 2, 3):
                if nl == 3 and pat not in ('v', '4') or pat == '6' and nl == 2 and tier != 'thorough':
                    continue
                for off in (0, 1):
                    out.append(dict(what='kern', kt=kt, p=pat, nl=nl, off=off, ph=0, seq='', eqT=0))
        for pat in ('v', '4', 'p'):
            for nl in (1, 2):
                if nl == 2 and pat == 'p':
                    continue
                out.append(dict(what='kern', kt=kt, p=pat, nl=nl, off=1, ph=1, seq='', eqT=0))
        for seq in ('rs', 'rc', 'rsrc'):
            for pat in ('4', 'p', '5') if seq == 'rs' else ('4', 'q'):
                out.append(dict(what='kern', kt=kt, p=pat, nl=2 if pat != 'q' and seq == 'rs' and pat != '5' else 1,
                                off=int(seq != 'rs' or pat == 'p'), ph=0, seq=seq, eqT=0))
        out.append(dict(what='kern', kt=kt, p='v', nl=2, off=0, ph=0, seq='', eqT=2))
        for h in HIST:
            out.append(dict(what='hist', kt=kt, h=h))
    for pat in ('v', '4', 'p'):
        for off in (0, 1):
            out.append(dict(what='both', p=pat, nl=2 if off or pat != 'p' else 1, off=off, ph=0, seq='', eqT=1))
    out.append(dict(what='both', p='v', nl=1, off=1, ph=1, seq='', eqT=0))
    out.append(dict(what='both', p='4', nl=1, off=1, ph=0, seq='rc', eqT=0))
    out.append(dict(what='both', p='4', nl=2, off=1, ph=0, seq='', eqT=0, deg=1))
    return out


def weight(c):
    if c['what'] == 'hist':
        return 500
    return len(PATTERNS[c['p']])**4*c['nl']**2*(2 if c['off'] else 1)*(2 if c['what'] == 'both' else 1)


# ------------------------------------------------------------------ uninterpreted integrals
def _int(name):
    def f(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D, bR, flag):
        # the Ozaki expansion is used for different temperatures only (C16)
        a = (p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D)+(marks(bR) if T1 != T2 else ())
        return C(app(name+'r', *a), app(name+'i', *a))
    return f


def marks(bR):
    """the Ozaki table enters by its band-width mark"""
    if bR is None:
        return ()
    a = K.arr(bR)
    return (a[0, 0],) if not K._z(a[0, 0]) else ()


def _phi(x, Dp, Dm, sign=1):
    return sign*app('phi', x, Dp, Dm)


def _dphi(x1, x2, Dp, Dm, sign=1):
    return sign*(app('phi', x1, Dp, Dm)-app('phi', x2, Dp, Dm))


def _fermi(x):
    return app('fermi', x)


def stubs(case):
    from engine.npshim import array

    def oz_py(BW):
        return array([[app('ozaki', BW), 1.0], [1.0, 1.0]])
    s = {}
    for k, v in K.stubs_base().items():
        s[k] = dict(v, integralD=_int('D'), integralX=_int('X'), phi=_phi, delta_phi=_dphi, fermi_func=_fermi,
                    BW_Ozaki=oz_py)
    return s


# ------------------------------------------------------------------ models
PHASE = [complex(1, .5), complex(1, -.25), complex(.5, 1), complex(-.5, 1), complex(1, 1.5), complex(-1, .25)]


def model(W, V, case, pre=''):
    Na = PATTERNS[case['p']]
    n, nl = len(Na), case['nl']
    m = K.MB(W, V, Na, nl, pre=pre, real=True)
    m.Ea = [V.real('%se%d' % (pre, i), 0.5*i, 0.5*i+0.1) for i in range(n)]
    if case.get('deg'):
        m.Ea[2] = m.Ea[1]
    if case.get('eqT') == 2:
        m.tl = [V.real('%sT%d' % (pre, l), 1, 5) for l in range(nl)]
    elif case.get('eqT'):
        m.tl = [m.tl[0]]*nl
    else:
        m.tl = [V.real('%sT%d' % (pre, l), 0.2+.2*l, 0.3+.2*l) for l in range(nl)]
    k = 0
    for l, b, a in itertools.product(range(nl), range(n), range(n)):
        if Na[b] == Na[a]+1:
            t = V.real('%sT%d_%d_%d' % (pre, l, b, a), 0.5, 1)
            if case['ph']:
                t = t*PHASE[k % 6]
                k += 1
            m.T[l][b][a], m.T[l][a][b] = t, V.conj(t) if case['ph'] else t
    m.single = [[V.real('%stl%d_%d' % (pre, l, i), 0.5, 1) for i in range(2)] for l in range(nl)] if not case['ph'] else None
    return m


def build(W, V, case, m, kt):
    b = m.build(W, kt)
    if m.single is not None:
        b.si.nsingle = 2
        b.leads.tleads_array = W.array(m.single, dtype=complex)
    b.off_diag_corrections = bool(case['off'])
    return b


def select(V, b, m, case):
    """remove the highest state(s), or the coherences over more than 0.9"""
    n = len(m.Na)
    st = list(range(n))
    co = {(i, j) for i in st for j in st if i != j and m.Na[i] == m.Na[j]}
    for o in SEQ[case['seq']]:
        if o == 'rs':
            b.remove_states(DE(V, n))
            st = st[:-1]
            co = {(i, j) for i in st for j in st if i != j and m.Na[i] == m.Na[j]}
        else:
            b.remove_coherences(V.real('dC', 0.65, 0.85))
            co = {(i, j) for i, j in co if abs(i-j) < 2}
    return st, co


def DE(V, n):
    return V.real('dE', 0.5*(n-2)+0.15, 0.5*(n-1)-0.15)


def kernels(W, V, b, kt):
    a = b.appr
    a.prepare_kern()
    a.generate_fct()
    a.generate_kern()
    kh = a.kernel_handler
    if kt == 'RTD':
        Wdd = K.arr(a.Wdd2)[0]
    else:
        Wdd = K.arr(a.Wdd)
    return dict(kern=K.arr(a.kern).copy(), Wdd=Wdd.copy(), WE1=K.arr(a.WE1).copy(), WE2=K.arr(a.WE2).copy())


# ------------------------------------------------------------------ reference
def cc(x):
    return x.conjugate() if not isinstance(x, (int, float)) else x


def re(x):
    return x.real if not isinstance(x, (int, float)) else x


def im(x):
    return x.imag if not isinstance(x, (int, float)) else 0


class Ref:
    def __init__(self, W, V, m, st, co, kt):
        self.W, self.V, self.m, self.st, self.co, self.kt = W, V, m, st, co, kt
        # the special functions of the implementation under test (stubs, or the real ones in a replay)
        self.f = W.mod('specfunc.specfunc')
        self.n = len(m.Na)

    def first(self):
        """golden rule rates, per lead"""
        m, st = self.m, self.st
        out = [dict() for _ in range(m.nleads)]
        for c, b in itertools.product(st, st):
            if m.Na[c] != m.Na[b]+1:
                continue
            for l in range(m.nleads):
                t = m.T[l][c][b]
                x = re(t*cc(t))
                r = self.f.func_pauli(m.Ea[c]-m.Ea[b], m.mu[l], m.tl[l], m.D[l][0], m.D[l][1], 1)
                add(out[l], (c, b), x*r[0])
                add(out[l], (b, b), -x*r[0])
                add(out[l], (b, c), x*r[1])
                add(out[l], (c, c), -x*r[1])
        return out

    def vertex(self, u, w, br, eta):
        """states reached from |u><w| when an operator (eta=+1: creation) acts on branch br; with the lead-dependent
        amplitude as a pair of states (T[l][x][y])"""
        Na, st = self.m.Na, self.st
        if br > 0:
            return [((v, w), (v, u)) for v in st if Na[v] == Na[u]+eta]
        return [((u, v), (w, v)) for v in st if Na[v] == Na[w]-eta]

    def second(self, bR, same):
        """sum over the fourth-order diagrams, per lead of the last vertex"""
        m, st, E = self.m, self.st, self.m.Ea
        out = [dict() for _ in range(m.nleads)]
        for r0, r1, a0 in itertools.product(range(m.nleads), range(m.nleads), st):
            T1, T2, mu1, mu2 = m.tl[r0], m.tl[r1], m.mu[r0], m.mu[r1]
            D = abs(m.D[r0][0])+abs(m.D[r0][1])
            # the first vertex creates an electron on the upper branch of |a0><a0|
            for (u1, w1), k1 in self.vertex(a0, a0, 1, 1):
                for br2, eta2 in itertools.product((1, -1), (1, -1)):
                    for (u2, w2), k2 in self.vertex(u1, w1, br2, eta2):
                        for kind in 'DX':
                            # the lead and the electron-hole index of the contracted partner
                            eta3, eta4 = (-eta2, -1) if kind == 'D' else (-1, -eta2)
                            l3, l4 = (r1, r0) if kind == 'D' else (r0, r1)
                            for br3 in (1, -1):
                                for (u3, w3), k3 in self.vertex(u2, w2, br3, eta3):
                                    # the last vertex on the upper branch closes to |w3><w3|
                                    if m.Na[w3] != m.Na[u3]+eta4:
                                        continue
                                    amp = 1
                                    for l, (x, y) in ((r0, k1), (r1, k2), (l3, k3), (l4, (w3, u3))):
                                        amp = amp*m.T[l][x][y]
                                    F = self.f.integralD if kind == 'D' else self.f.integralX
                                    v = F(br2, eta2, E[u1]-E[w1], E[u2]-E[w2], E[u3]-E[w3], T1, T2, mu1, mu2, D, bR,
                                          self.flag(amp))
                                    v = 2*re(amp*v)*(1 if kind == 'D' else -1)
                                    # both branches for the first and the last vertex
                                    for col in (a0, u1):
                                        add(out[l4], (w3, col), v)
                                        add(out[l4], (u3, col), -v)
        return out

    def flag(self, amp):
        if self.V.symbolic:
            return True
        return abs(im(amp)) > 1e-20*max(self.m.tl)**2

    def corrections(self):
        """Im W_dn W_nd / (E_a - E_b), per lead of W_dn"""
        m, E, st = self.m, self.m.Ea, self.st
        G = [self.generator(l) for l in range(m.nleads)]
        nd = {}
        for l in range(m.nleads):
            for (x, y), v in G[l].items():
                if y[0] == y[1] and x in self.co:
                    add(nd, (x, y[0]), v)
        out = [dict() for _ in range(m.nleads)]
        for l in range(m.nleads):
            for (x, y), v in G[l].items():
                if x[0] == x[1] and y in self.co:
                    for a in st:
                        w = nd.get((y, a))
                        if w is not None:
                            add(out[l], (x[0], a), im(v*w)/(E[y[0]]-E[y[1]]))
        return out

    def generator(self, l):
        """second-order (in the amplitudes) generator on matrix elements: {((a2,b2),(a1,b1)): value}"""
        m, st, E, Na = self.m, self.st, self.m.Ea, self.m.Na
        T, mu, t = m.T[l], m.mu[l], m.tl[l]
        d0, d1 = m.D[l][0]/t, m.D[l][1]/t
        f = self.f

        def ph(x):
            return f.phi((x-mu)/t, d0, d1)*1j

        def occ(x, s):
            return PI*f.fermi_func((x-mu)/t if s > 0 else -(x-mu)/t)
        G = {}
        el = [(a, b) for a in st for b in st if Na[a] == Na[b]]
        for a1, b1 in el:
            y = (a1, b1)
            for a2, b2 in el:
                if Na[a2] == Na[a1]+1:
                    x1, x2 = E[b2]-E[a1], E[a2]-E[b1]
                    add(G, ((a2, b2), y), T[a2][a1]*cc(T[b2][b1])*(occ(x1, 1)+ph(x1)+occ(x2, 1)-ph(x2)))
                elif Na[a2] == Na[a1]-1:
                    x1, x2 = E[b1]-E[a2], E[a1]-E[b2]
                    add(G, ((a2, b2), y), T[b1][b2]*cc(T[a1][a2])*(occ(x1, -1)-ph(x1)+occ(x2, -1)+ph(x2)))
                elif Na[a2] == Na[a1]:
                    for c in st:
                        if Na[c] == Na[a1]+1:
                            if b2 == b1:
                                x = E[c]-E[b1]
                                add(G, ((a2, b2), y), T[c][a1]*cc(T[c][a2])*(-occ(x, 1)+ph(x)))
                            if a2 == a1:
                                x = E[c]-E[a1]
                                add(G, ((a2, b2), y), T[c][b2]*cc(T[c][b1])*(-occ(x, 1)-ph(x)))
                        if Na[c] == Na[a1]-1:
                            if b2 == b1:
                                x = E[b1]-E[c]
                                add(G, ((a2, b2), y), T[a2][c]*cc(T[a1][c])*(-occ(x, -1)+ph(x)))
                            if a2 == a1:
                                x = E[a1]-E[c]
                                add(G, ((a2, b2), y), T[b1][c]*cc(T[b2][c])*(-occ(x, -1)-ph(x)))
        return G

    def barrier(self):
        """kernels of the barrier part of the energy current: W_E1 and W_E2"""
        m, st, E = self.m, self.st, self.m.Ea
        o1, o2 = [dict() for _ in range(m.nleads)], [dict() for _ in range(m.nleads)]
        if m.single is None:
            return o1, o2
        for c, b in itertools.product(st, st):
            if m.Na[c] != m.Na[b]+1:
                continue

            def gam(l, k):
                return m.T[l][b][c]*m.T[k][b][c]*K.ssum(x*y for x, y in zip(m.single[l], m.single[k]))

            def ph(l):
                x, d = (E[c]-E[b]-m.mu[l])/m.tl[l], [y/m.tl[l] for y in m.D[l]]
                return PI*(self.f.phi(x, *d)+self.f.phi(-x, *d))
            for l, k in itertools.permutations(range(m.nleads), 2):
                for o, v in ((o1[l], gam(l, k)*ph(l)), (o2[l], gam(l, k)*ph(k))):
                    for x in ((b, b), (c, c), (b, c), (c, b)):
                        add(o, x, v)
        return o1, o2


def add(d, k, v):
    d[k] = d[k]+v if k in d else v


def run(W, V, case):
    if case['what'] == 'kern':
        kern(W, V, case)
    elif case['what'] == 'both':
        both(W, V, case)
    else:
        hist(W, V, case)


def kern(W, V, case):
    kt = case['kt']
    m = model(W, V, case)
    b = build(W, V, case, m, kt)
    st, co = select(V, b, m, case)
    Na, off = m.Na, case['off']
    got = sorted(s for c in range(b.si.ncharge) for s in b.si.statesdm[c])
    V.holds('kept states', got == st)
    if got != st:
        return
    k = kernels(W, V, b, kt)
    slot = {s: int(b.si.get_ind_dm0(s, s, Na[s]-min(Na))) for s in st}
    N = len(st)
    V.holds('slots', sorted(slot.values()) == list(range(N)) and k['kern'].shape == (N, N))
    for c in range(N):
        V.eq('total column sum[%d]' % c, K.ssum(k['kern'][r, c] for r in range(N)), 0.0)
        for l in range(m.nleads):
            V.eq('column sum of lead %d[%d]' % (l, c), K.ssum(k['Wdd'][l][r, c] for r in range(N)), 0.0)
    R = Ref(W, V, m, st, co, kt)
    bR = W.mod('specfunc.specfunc').BW_Ozaki((abs(m.D[0][0])+abs(m.D[0][1]))/2/min(m.tl))
    sec = R.second(bR, False)
    fir = R.first()
    cor = R.corrections() if off else [{}]*m.nleads
    e1, e2 = R.barrier()
    phi = [V.real('phi%d' % i, 0, 1) for i in range(N)]
    K.set_phi0(b, phi)
    b.appr.generate_current()
    cur, ecur, heat = (K.arr(x) for x in (b.current, b.energy_current, b.heat_current))
    tot = {}
    for l in range(m.nleads):
        ref = {}
        for d in (sec[l], fir[l], cor[l]):
            for x, v in d.items():
                add(ref, x, v)
                add(tot, x, v)
        for x, y in itertools.product(st, st):
            V.eq('kernel of lead %d[%d,%d]' % (l, x, y), k['Wdd'][l][slot[x], slot[y]], ref.get((x, y), 0.0))
            V.eq('W_E1 of lead %d[%d,%d]' % (l, x, y), k['WE1'][l][slot[x], slot[y]], e1[l].get((x, y), 0.0))
            V.eq('W_E2 of lead %d[%d,%d]' % (l, x, y), k['WE2'][l][slot[x], slot[y]], e2[l].get((x, y), 0.0))
        # currents of an arbitrary vector of occupations
        d = {x: K.ssum(k['Wdd'][l][slot[x], slot[y]]*phi[slot[y]] for y in st) for x in st}
        V.eq('current[%d] = d<N>/dt by the lead' % l, cur[l], K.ssum(Na[x]*d[x] for x in st))
        I = K.ssum(m.Ea[x]*d[x] for x in st)
        I = I+0.5*K.ssum((k['WE2'][l][i, j]-k['WE1'][l][i, j])*phi[j] for i in range(N) for j in range(N))
        V.eq('energy_current[%d]' % l, ecur[l], I)
        V.eq('heat_current[%d]' % l, heat[l], ecur[l]-m.mu[l]*cur[l])
    for x, y in itertools.product(st, st):
        V.eq('kern[%d,%d]' % (x, y), k['kern'][slot[x], slot[y]], tot.get((x, y), 0.0))
    d = {x: K.ssum(k['kern'][slot[x], slot[y]]*phi[slot[y]] for y in st) for x in st}
    V.eq('sum of the particle currents', K.ssum(cur), K.ssum(Na[x]*d[x] for x in st))
    V.eq('sum of the energy currents', K.ssum(ecur), K.ssum(m.Ea[x]*d[x] for x in st))


def both(W, V, case):
    m = model(W, V, case)
    res = []
    for kt in ('RTD', 'pyRTD'):
        b = build(W, V, case, m, kt)
        select(V, b, m, case)
        k = kernels(W, V, b, kt)
        N = k['kern'].shape[0]
        K.set_phi0(b, [V.real('phi%d' % i, 0, 1) for i in range(N)])
        b.appr.generate_current()
        for x in ('current', 'energy_current', 'heat_current'):
            k[x] = K.arr(getattr(b, x)).copy()
        if case['off']:
            k['ReWdn'], k['ImWdn'] = K.arr(b.appr.ReWdn).copy(), K.arr(b.appr.ImWdn).copy()
        res.append(k)
    for x in res[0]:
        V.eqs(x, res[0][x], res[1][x])


# ------------------------------------------------------------------ histories
HIST = ['on', 'off', 'onoff', 'mfree', 'narrow', 'wide', 'cool', 'heat', 'heatcool', 'energy', 'tun', 'rs', 'rsall']


def hist(W, V, case):
    """options and parameters changed after a first generation of the kernel, against a fresh system"""
    h, kt = case['h'], case['kt']
    c = dict(p='4', nl=2, off=int(h in ('off',)), ph=0, seq='', eqT=0)
    if h in ('rs', 'rsall', 'energy', 'tun'):
        c['nl'] = 1
        c['off'] = 1
    m = model(W, V, c)
    m.D = [[V.real('Dm', -60, -50), V.real('Dp', 50, 60)]]*c['nl']
    if c['nl'] == 2:
        m.tl = [V.real('T0', 0.2, 0.25), V.real('T1', 0.3, 0.4)]
    b = build(W, V, c, m, kt)
    kernels(W, V, b, kt)

    def set_off(v):
        b.off_diag_corrections = v
        c['off'] = int(v)
    if h == 'on':
        set_off(True)
    elif h == 'off':
        set_off(False)
    elif h == 'onoff':
        set_off(True)
        kernels(W, V, b, kt)
        set_off(False)
    elif h == 'mfree':
        b.mfreeq = True
    elif h in ('narrow', 'wide'):
        r = (10, 20) if h == 'narrow' else (100, 120)
        d = [V.real('Dm2', -r[1], -r[0]), V.real('Dp2', *r)]
        b.change(dlst={0: d, 1: d})
        m.D = [d, d]
    elif h in ('cool', 'heat', 'heatcool'):
        seq = {'cool': ['c'], 'heat': ['h'], 'heatcool': ['h', 'c']}[h]
        for i, x in enumerate(seq):
            t = [V.real('T%d%d' % (j, i+5), *((0.05+.05*j, 0.08+.05*j) if x == 'c' else (0.6+.2*j, 0.7+.2*j))) for j in (0, 1)]
            b.change(tlst={0: t[0], 1: t[1]})
            m.tl = t
            if i+1 < len(seq):
                kernels(W, V, b, kt)
    elif h == 'energy':
        m.Ea = [V.real('ee%d' % i, 0.5*i, 0.5*i+0.1) for i in range(4)]
        for i in range(4):
            b.qd.Ea[i] = m.Ea[i]
    elif h == 'tun':
        for l, i, j in itertools.product(range(c['nl']), range(4), range(4)):
            if m.Na[i] == m.Na[j]+1:
                t = V.real('TT%d_%d_%d' % (l, i, j), 0.5, 1)
                m.T[l][i][j] = m.T[l][j][i] = t
                b.leads.Tba[l, i, j] = b.leads.Tba[l, j, i] = t
    elif h in ('rs', 'rsall'):
        b.remove_states(DE(V, 4))
        if h == 'rsall':
            kernels(W, V, b, kt)
            b.use_all_states()
    got = kernels(W, V, b, kt)
    f = build(W, V, c, m, kt)
    if h == 'rs':
        f.remove_states(DE(V, 4))
    want = kernels(W, V, f, kt)
    V.holds('mfreeq stays off', not b.funcp.mfreeq)
    for x in want:
        V.eqs(x, got[x], want[x])
    N = want['kern'].shape[0]
    for q in (b, f):
        K.set_phi0(q, [V.real('phi%d' % i, 0, 1) for i in range(N)])
        q.appr.generate_current()
    for x in ('current', 'energy_current', 'heat_current'):
        V.eqs(x, K.arr(getattr(b, x)), K.arr(getattr(f, x)))
