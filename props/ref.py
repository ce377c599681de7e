"""Independent reference equations (written from the physics, not from the code's loops).

A density matrix is a dict {(b, b'): value}; energies, tunnelling matrices and rate functions are
plain nested lists.  The generators return d rho / dt as a dict."""
import itertools

from engine.sym import is_sym


def z(x):
    return not is_sym(x) and x == 0


def pairs(states):
    for st in states:
        for b in st:
            for bp in st:
                yield b, bp


class Leads:
    """f(l, c, b) -> (in-amplitude, out-amplitude, energy in, energy out) of E_c - E_b at lead l"""

    def __init__(self, states, T, nl, f):
        self.states, self.T, self.nl, self.f = states, T, nl, f
        self.cache = {}

    def fct(self, l, c, b):
        k = (l, c, b)
        if k not in self.cache:
            self.cache[k] = self.f(l, c, b)
        return self.cache[k]

    def phi1(self, V, rho, redfield, which=0, leads=None):
        """{(l, c, b): phi} between neighbouring charges.  1vN: amplitude at E_c - E_b, Redfield: at
        the energy difference of the jump that took place."""
        out = {}
        S = self.states
        for ch in range(len(S)-1):
            for c, b in itertools.product(S[ch+1], S[ch]):
                for l in (range(self.nl) if leads is None else leads):
                    s = 0
                    for bp in S[ch]:
                        r = rho.get((bp, b), 0)
                        if z(r) or z(self.T[l][c][bp]):
                            continue
                        f = self.fct(l, c, bp if redfield else b)[which]
                        s = s + self.T[l][c][bp]*r*f
                    for cp in S[ch+1]:
                        r = rho.get((c, cp), 0)
                        if z(r) or z(self.T[l][cp][b]):
                            continue
                        f = self.fct(l, cp if redfield else c, b)[which+1]
                        s = s + self.T[l][cp][b]*r*f
                    out[l, c, b] = s
        return out


def commutator(E, rho, states):
    """-i [H, rho]"""
    return {(b, bp): -1j*((E[b]-E[bp])*rho[b, bp]) for b, bp in pairs(states) if (b, bp) in rho and b != bp}


def add(x, y):
    for k, v in y.items():
        x[k] = x.get(k, 0) + v
    return x


def neumann(V, rho, L, redfield=False, leads=None):
    """i d rho_bb' = sum_a (T_ba phi_ab' - phi_ba T_ab') + sum_c (T_bc phi_cb' - phi_bc T_cb')"""
    S, T = L.states, L.T
    phi = L.phi1(V, rho, redfield, 0, leads)
    ls = range(L.nl) if leads is None else leads
    out = {}
    for ch in range(len(S)):
        for b, bp in itertools.product(S[ch], S[ch]):
            s = 0
            for l in ls:
                if ch > 0:
                    for a in S[ch-1]:
                        s = s + T[l][b][a]*V.conj(phi[l, bp, a]) - phi[l, b, a]*T[l][a][bp]
                if ch < len(S)-1:
                    for c in S[ch+1]:
                        s = s + T[l][b][c]*phi[l, c, bp] - V.conj(phi[l, c, b])*T[l][c][bp]
            out[b, bp] = -1j*s
    return out


def dissipator(V, rho, jumps, n, states):
    """sum_k  J rho J+ - (J+ J rho + rho J+ J)/2, with J a dict {(to, from): amplitude}"""
    out = {}
    for J in jumps:
        Jr = {}
        for (x, b), j in J.items():
            for bp in range(n):
                r = rho.get((b, bp), 0)
                if not z(r):
                    Jr[x, bp] = Jr.get((x, bp), 0) + j*r
        for (x, bp), v in Jr.items():
            for (y, bq), j in J.items():
                if bq == bp:
                    out[x, y] = out.get((x, y), 0) + v*V.conj(j)
        JJ = {}
        for (x, b), j in J.items():
            for (y, bp), jp in J.items():
                if x == y:
                    JJ[b, bp] = JJ.get((b, bp), 0) + V.conj(j)*jp
        for (b, c), v in JJ.items():
            for bp in range(n):
                r = rho.get((c, bp), 0)
                if not z(r):
                    out[b, bp] = out.get((b, bp), 0) - v*r/2
                r = rho.get((bp, b), 0)
                if not z(r):
                    out[bp, c] = out.get((bp, c), 0) - r*v/2
    return out


def lead_jumps(L, sq, leads=None):
    """Lindblad jump operators: for each lead one for tunnelling in and one for tunnelling out.
    sq(l, c, b) -> (sqrt rate in, sqrt rate out)"""
    out = []
    S = L.states
    for l in (range(L.nl) if leads is None else leads):
        up, dn = {}, {}
        for ch in range(len(S)-1):
            for c, b in itertools.product(S[ch+1], S[ch]):
                i, o = sq(l, c, b)
                if not z(L.T[l][c][b]):
                    up[c, b] = i*L.T[l][c][b]
                    dn[b, c] = o*L.T[l][b][c]
        out += [up, dn]
    return out


def pauli(rho, L, leads=None):
    """golden rule: |T_cb|^2 times the rate functions"""
    out = {}
    S = L.states
    for ch in range(len(S)-1):
        for c, b in itertools.product(S[ch+1], S[ch]):
            for l in (range(L.nl) if leads is None else leads):
                t = L.T[l][c][b]
                if z(t):
                    continue
                x = t.real*t.real + t.imag*t.imag
                i, o = L.fct(l, c, b)[:2]
                flow = x*i*rho.get((b, b), 0) - x*o*rho.get((c, c), 0)
                out[c, c] = out.get((c, c), 0) + flow
                out[b, b] = out.get((b, b), 0) - flow
    return out


def pauli_ph(rho, states, Vb, rate):
    """golden rule for baths: 1/2 (|V_ba|^2 + |V_ab|^2) P(E_b - E_a) from a to b"""
    out = {}
    for st in states:
        for b, a in itertools.permutations(st, 2):
            for l in range(len(Vb)):
                x = (_abs2(Vb[l][b][a]) + _abs2(Vb[l][a][b]))/2
                flow = x*rate(l, b, a)*rho.get((a, a), 0)
                out[b, b] = out.get((b, b), 0) + flow
                out[a, a] = out.get((a, a), 0) - flow
    return out


def _abs2(t):
    return t.real*t.real + t.imag*t.imag


def neumann_ph(V, rho, states, Vb, w, redfield=False):
    """Phonon part.  For X in {V, V+} with weight 1/2:
    phi_cb = sum X_cb' rho_b'b w0 + sum rho_cc' X_c'b w1,
    i d rho_bb' = sum_a [X_ba phi*_b'a - phi_ba X*_b'a] + sum_c [X*_cb phi_cb' - phi*_cb X_cb']"""
    out = {}
    for l in range(len(Vb)):
        for herm in (0, 1):
            def X(i, j):
                return Vb[l][i][j] if not herm else V.conj(Vb[l][j][i])
            for st in states:
                phi = {}
                for c, b in itertools.product(st, st):
                    s = 0
                    for bp in st:
                        r = rho.get((bp, b), 0)
                        if not z(r):
                            s = s + X(c, bp)*r*w(l, c, bp if redfield else b)[0]
                    for cp in st:
                        r = rho.get((c, cp), 0)
                        if not z(r):
                            s = s + r*X(cp, b)*w(l, cp if redfield else c, b)[1]
                    phi[c, b] = s
                for b, bp in itertools.product(st, st):
                    s = 0
                    for a in st:
                        s = s + X(b, a)*V.conj(phi[bp, a]) - phi[b, a]*V.conj(X(bp, a))
                        s = s + V.conj(X(a, b))*phi[a, bp] - V.conj(phi[a, b])*X(a, bp)
                    out[b, bp] = out.get((b, bp), 0) + (-1j/2)*s
    return out


def ph_jumps(V, states, Vb, sq):
    """sq(l, b, bp) -> sqrt(P(E_b - E_bp)/2); one operator per bath for V and one for V+"""
    out = []
    for l in range(len(Vb)):
        for herm in (0, 1):
            J = {}
            for b, bp in pairs(states):
                x = Vb[l][b][bp] if not herm else V.conj(Vb[l][bp][b])
                if not z(x):
                    J[b, bp] = sq(l, b, bp)*x
            out.append(J)
    return out


# ------------------------------------------------------------------ vectors <-> matrices
def elements(si, pauli_only=False):
    """[(b, b', charge)] of the unique matrix elements the indexing keeps, and the vector layout."""
    out = []
    for ch in range(si.ncharge):
        st = si.statesdm[ch]
        for b, bp in itertools.product(st, st):
            if pauli_only and b != bp:
                continue
            out.append((b, bp, ch))
    return out


def basis_rho(si, j, pauli_only=False):
    """the density matrix whose j-th real parameter is one"""
    rho = {}
    if pauli_only:
        for b, bp, ch in elements(si, True):
            if si.get_ind_dm0(b, b, ch) == j:
                rho[b, b] = 1
        return rho
    nd, np_ = si.ndm0, si.npauli
    for b, bp, ch in elements(si):
        i = si.get_ind_dm0(b, bp, ch)
        if i == -1:
            continue
        if i == j:
            rho[b, bp] = 1
        elif i >= np_ and nd+i-np_ == j:
            rho[b, bp] = 1j if si.get_ind_dm0(b, bp, ch, maptype=3) else -1j
    return rho


def vec_of(si, drho, pauli_only=False):
    """{row: value} of the real vector form of a matrix (unique elements only)"""
    out = {}
    nd, np_ = si.ndm0, si.npauli
    for b, bp, ch in elements(si, pauli_only):
        i = si.get_ind_dm0(b, bp, ch)
        if i == -1 or not si.get_ind_dm0(b, bp, ch, maptype=2):
            continue
        v = drho.get((b, bp), 0)
        out[i] = v.real
        if not pauli_only and i >= np_:
            out[nd+i-np_] = v.imag
    return out


def rho_of(si, phi, pauli_only=False):
    """density matrix of a real parameter vector"""
    rho = {}
    nd, np_ = si.ndm0 if not pauli_only else 0, si.npauli
    for b, bp, ch in elements(si, pauli_only):
        i = si.get_ind_dm0(b, bp, ch)
        if i == -1:
            continue
        v = phi[i]
        if not pauli_only and i >= np_:
            y = phi[nd+i-np_]
            v = v + (1j*y if si.get_ind_dm0(b, bp, ch, maptype=3) else -1j*y)
        rho[b, bp] = v
    return rho


# ------------------------------------------------------------------ the generator of an approach
class Model:
    """reference model of a builder: everything read from the harness' own symbols"""

    def __init__(self, W, V, kt, m, states, itype, limit=10000, itype_ph=0, eps=1e-6, bath_func=None):
        self.W, self.V, self.kt, self.m, self.states = W, V, kt[2:] if kt.startswith('py') else kt, m, states
        self.pauli_only = self.kt == 'Pauli'
        cy = not kt.startswith('py')
        self.E, n = m.Ea, len(m.Na)
        sf = W.mod('specfunc.specfunc')
        if self.kt in ('Pauli', 'Lindblad'):
            def f(l, c, b):
                r = sf.func_pauli(self.E[c]-self.E[b], m.mu[l], m.tl[l], m.D[l][0], m.D[l][1], itype)
                return r[0], r[1]
        else:
            def f(l, c, b):
                r = sf.func_1vN(self.E[c]-self.E[b], m.mu[l], m.tl[l], m.D[l][0], m.D[l][1], itype, limit)
                return r[0], r[1], r[2], r[3]
        self.L = Leads(states, m.T, m.nleads, f)
        self.n = n
        if m.nbaths:
            se = W.mod('specfunc.specfunc_elph')
            t, d = W.array(m.tph), W.array(m.Dph)
            if self.kt in ('Pauli', 'Lindblad'):
                self.fp = se.FuncPauliElPh(t, d, bath_func, eps)
            else:
                self.fn = se.Func1vNElPh(t, d, itype_ph, limit, bath_func, eps)

    def sqrt(self, x):
        return self.W.np.sqrt(x)

    def rate(self, l, b, a):
        self.fp.eval(self.E[b]-self.E[a] if b != a else 0., l)
        return self.fp.val

    def w(self, l, c, b):
        if c == b:
            self.fn.eval(0., l)
            return tuple(v - 0.5j*v.imag for v in (self.fn.val0, self.fn.val1))
        self.fn.eval(self.E[c]-self.E[b], l)
        return self.fn.val0, self.fn.val1

    def leads_part(self, rho, leads=None):
        V, L = self.V, self.L
        if self.kt == 'Pauli':
            return pauli(rho, L, leads)
        if self.kt == 'Lindblad':
            def sq(l, c, b):
                i, o = L.fct(l, c, b)
                return self.sqrt(i), self.sqrt(o)
            return dissipator(V, rho, lead_jumps(L, sq, leads), self.n, self.states)
        return neumann(V, rho, L, self.kt == 'Redfield', leads)

    def baths_part(self, rho):
        V, m = self.V, self.m
        if not m.nbaths:
            return {}
        if self.kt == 'Pauli':
            return pauli_ph(rho, self.states, m.V, self.rate)
        if self.kt == 'Lindblad':
            return dissipator(V, rho, ph_jumps(V, self.states, m.V,
                                               lambda l, b, bp: self.sqrt(self.rate(l, b, bp)/2)),
                              self.n, self.states)
        return neumann_ph(V, rho, self.states, m.V, self.w, self.kt == 'Redfield')

    def generator(self, rho):
        out = {}
        if not self.pauli_only:
            add(out, commutator(self.E, rho, self.states))
        add(out, self.leads_part(rho))
        add(out, self.baths_part(rho))
        return out
