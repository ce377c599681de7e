"""2vN: the integral equations, their iteration, the master equation and the currents, in both implementations."""
import itertools

from engine.sym import app, C
from . import common as K

BOUNDS = ('many-body models of 2..4 states (5 and 6 in the thorough tier; also with states not ordered by charge), 1-2 leads '
          '(3 for the currents), energy grids of 3-4 points (5 for the interpolation), kept subsets of states and '
          'coherences, 1-3 iterations for the histories; energies, complex amplitudes, occupation functions, their '
          'transforms, energy-resolved amplitudes and density matrices symbolic')
OUTSIDE = ('larger grids and systems; convergence of the iteration; the discretisation error of the energy integrals')
ASSUMPTIONS = ['np.linalg.inv and the solver of the master equation are uninterpreted functions of all matrix entries',
               'hilbert_fredriksen is an uninterpreted function of all grid values (its definition: C16)',
               'Tba is Hermitian and connects neighbouring charges only (C04)']
EXPLAIN = ('The reference enumerates the paths of |u><w| through two vertices (branch, lead) for the local and for the '
           'integral kernel.')
CASE_TIMEOUT = 800
PI = 3.14159265358979323846

PATTERNS = {'2': [0, 1], '3': [0, 1, 2], 'v': [0, 1, 1], 'h': [0, 0, 1], '4': [0, 1, 1, 2], 'p': [2, 1, 0, 1],
            '5': [0, 0, 1, 1, 2], '6': [0, 1, 2, 3]}
KTS = ('2vN', 'py2vN')
HIST = ['twice', 'cont', 'count', 'mu', 'kpnt', 'band', 'energy', 'tun', 'rs', 'func']


def cases(tier):
    th = tier == 'thorough'
    out = []
    for kt in KTS:
        for pat in ('2', '3', 'v', 'h', '4', 'p', '6') + (('5',) if th else ()):
            for nl in (1, 2):
                if pat in ('4', 'p', '5') and nl == 2 and not th:
                    continue
                out.append(dict(what='local', kt=kt, p=pat, nl=nl, seq=''))
                if nl == 1 or pat not in ('p', '5'):
                    out.append(dict(what='iter', kt=kt, p=pat, nl=nl, seq=''))
            for nl in (1, 2, 3):
                out.append(dict(what='phi0', kt=kt, p=pat, nl=nl, seq=''))
        for seq in ('rs', 'rc', 'rsrc'):
            pat = {'rs': 'p', 'rc': '4', 'rsrc': '5'}[seq]
            for what in ('local', 'iter', 'phi0'):
                if what == 'iter' and pat == '5' and not th:
                    pat = 'v'
                out.append(dict(what=what, kt=kt, p=pat, nl=1 if what != 'phi0' else 2, seq=seq))
        out.append(dict(what='conj', kt=kt, p='v', nl=1, seq=''))
        for side in range(4):
            out.append(dict(what='local', kt=kt, p='h' if side < 2 else 'v', nl=1, seq='', far=1+side % 2))
        for pat in ('2', 'v', '4', 'p'):
            out.append(dict(what='grid', kt=kt, p=pat, nl=2, seq=''))
        for h in HIST:
            out.append(dict(what='hist', kt=kt, h=h))
    return out


def weight(c):
    if c['what'] == 'hist':
        return 3000
    return len(PATTERNS[c['p']])**4*c['nl']**2*{'local': 2, 'iter': 4}.get(c['what'], 1)


# ------------------------------------------------------------------ stand-ins
def parts(x):
    return [x.real, x.imag] if not isinstance(x, (int, float)) else [x, 0]


def inverse(W):
    def inv(a):
        a = K.arr(a)
        n = a.shape[0]
        args = [p for i in range(n) for j in range(n) for p in parts(a[i, j])]
        r = W.np.zeros((n, n), dtype=complex)
        for i, j in itertools.product(range(n), range(n)):
            r[i, j] = C(app('invr%d_%d' % (i, j), *args), app('invi%d_%d' % (i, j), *args))
        return r
    return inv


def solver(W):
    def solve(a, b):
        a, b = K.arr(a), K.arr(b)
        n = a.shape[0]
        args = [p for i in range(n) for j in range(n) for p in parts(a[i, j])]+[p for i in range(n) for p in parts(b[i])]
        r = W.np.zeros(n, dtype=complex)
        for i in range(n):
            r[i] = C(app('solr%d' % i, *args), app('soli%d' % i, *args))
        return r
    return solve


def hilbert(f, ker=None):
    from engine.npshim import zeros
    f = [f[i] for i in range(len(f))]
    args = [p for x in f for p in parts(x)]
    r = zeros(len(f), dtype=complex)
    if all(K._z(x) for x in args):
        return r
    if ker is not None and len(ker) < 2*len(f):
        # too short a kernel: a longer one gives the same transform, a shorter one folds back
        args.append(len(ker))
    for i in range(len(f)):
        r[i] = C(app('hr%d' % i, *args), app('hi%d' % i, *args))
    return r


def stubs(case):
    d = {'hilbert_fredriksen': hilbert, 'kernel_fredriksen': lambda n: [0.0]*(2*n)}
    return {'qmeq.specfunc.specfunc': d}


def install(W):
    if W.symbolic:
        W.np.linalg.inv.fn = inverse(W)
        W.np.linalg.solve.fn = solver(W)


# ------------------------------------------------------------------ models
class Sys:
    def __init__(self, W, V, case, kpnt=3, D=(-4.0, 4.0), pre=''):
        Na = PATTERNS[case['p']]
        self.Na, n, nl = Na, len(Na), case['nl']
        m = self.m = K.MB(W, V, Na, nl, pre=pre)
        m.Ea = [V.real('%se%d' % (pre, i), 0.5*i, 0.5*i+0.1) for i in range(n)]
        if case.get('far'):
            # energy differences anywhere on the grid and up to its extension
            i, j = (0, 1) if case['p'] == 'h' else (1, 2)
            m.Ea[i] = 0.0
            m.Ea[j] = V.real('%sx' % pre, *((0.1, 5.0) if case['far'] == 1 else (-5.0, -0.1)))
        m.D = [list(D)]*nl
        self.b = b = m.build(W, case['kt'], kpnt=kpnt)
        self.st = list(range(n))
        self.co = {(i, j) for i in self.st for j in self.st if i != j and Na[i] == Na[j]}
        for o in {'': [], 'rs': ['rs'], 'rc': ['rc'], 'rsrc': ['rs', 'rc']}[case['seq']]:
            if o == 'rs':
                b.remove_states(V.real('dE', 0.5*(n-2)+0.15, 0.5*(n-1)-0.15))
                self.st = self.st[:-1]
                self.co = {(i, j) for i, j in self.co if max(i, j) < n-1}
            else:
                far = max((abs(i-j) for i, j in self.co), default=1)
                b.remove_coherences(V.real('dC', 0.5*far-0.35, 0.5*far-0.15))
                self.co = {(i, j) for i, j in self.co if abs(i-j) < far}
        lo = min(Na)
        self.el0 = {(i, j): int(b.si.get_ind_dm0(i, j, Na[i]-lo)) for i in self.st for j in self.st if Na[i] == Na[j]
                    if i == j or (i, j) in self.co}
        self.el1 = {(c, d): int(b.si.get_ind_dm1(c, d, Na[d]-lo)) for c in self.st for d in self.st if Na[c] == Na[d]+1}

    def slots(self, V):
        V.holds('slots of the density matrix', sorted(self.el0.values()) == list(range(self.b.si.ndm0)))
        V.holds('slots of the amplitudes', sorted(self.el1.values()) == list(range(self.b.si.ndm1)))

    def ready(self, W, V):
        """zeroth iteration prepared, with arbitrary occupations on the grid"""
        a = self.b.appr
        a.prepare_kern()
        self.grid = [float(x) for x in K.arr(a.Ek_grid)]
        self.ext = [float(x) for x in K.arr(a.Ek_grid_ext)]
        n, nl = len(self.ext), self.m.nleads
        self.left = self.b.funcp.kpnt_left
        V.holds('grid within its extension', self.ext[self.left:self.left+len(self.grid)] == self.grid)
        self.fp = [[V.real('fp%d_%d' % (l, k), 0, 1) for k in range(n)] for l in range(nl)]
        self.hp = [[V.cplx('hp%d_%d' % (l, k), -1, 1) for k in range(n)] for l in range(nl)]
        self.hm = [[V.cplx('hm%d_%d' % (l, k), -1, 1) for k in range(n)] for l in range(nl)]
        for name, v in (('fkp', self.fp), ('fkm', [[1-x for x in r] for r in self.fp])):
            setattr(a, name, W.array(v, dtype=float))
        for name, v in (('hfkp', self.hp), ('hfkm', self.hm)):
            setattr(a, name, W.array(v, dtype=complex))
        return a


def interp(V, grid, vals, x):
    """linear interpolation of grid values, zero outside of the grid"""
    if x < grid[0] or x > grid[-1]:
        return 0
    for i in range(len(grid)-1):
        if i == len(grid)-2 or x < grid[i+1]:
            a, b = grid[i], grid[i+1]
            return vals[i]+(vals[i+1]-vals[i])*((x-a)/(b-a))


# ------------------------------------------------------------------ reference
def moves(S, u, w):
    """second vertices |u><w| -> |c><b|: (c, b, amplitude indices)"""
    for v in S.st:
        if abs(S.Na[v]-S.Na[u]) == 1:
            yield v, w, (v, u), S.Na[v] > S.Na[u], 1
        if abs(S.Na[v]-S.Na[w]) == 1:
            yield u, v, (w, v), S.Na[v] > S.Na[w], -1


def local(V, S, l, k):
    """kern1 and kern0 of energy point k and lead l"""
    m, E, T = S.m, S.m.Ea, S.m.T
    Ek = S.grid[k]
    fp = S.fp[l][S.left+k]
    L1, L0 = {}, {}
    for (c, b) in S.el1:
        add(L1, ((c, b), (c, b)), Ek-E[c]+E[b])
        for x in S.st:
            if (x, b) in S.el0:
                add(L0, ((c, b), (x, b)), T[l][c][x]*fp)
            if (c, x) in S.el0:
                add(L0, ((c, b), (c, x)), -1*T[l][x][b]*(1-fp))
    memo = {}

    def func(u, w, d, l1, h):
        key = (u, w, d, l1, h)
        if key not in memo:
            vals = (S.hp if h else S.hm)[l1]
            x = Ek-(E[u]-E[w]) if d == 0 else -(Ek-(E[u]-E[w]))
            f = interp(V, S.ext, vals, x)
            memo[key] = PI*(f if d == 0 or isinstance(f, int) else V.conj(f))
        return memo[key]
    for (u0, w0) in S.el1:
        for u, w, t1, up, br in moves(S, u0, w0):
            d = S.Na[u]-S.Na[w]
            if d not in (0, 2):
                continue
            for c, b, t2, up2, br2 in moves(S, u, w):
                if (c, b) not in S.el1:
                    continue
                for l1 in range(m.nleads):
                    v = T[l1][t1[0]][t1[1]]*T[l1][t2[0]][t2[1]]*func(u, w, d, l1, up)
                    add(L1, ((c, b), (u0, w0)), -1*v if d == 0 else v)
    return L1, L0


def integral(V, S, l, k, X, HX, conj0):
    """source of the correction of lead l at point k due to the amplitudes X (and transforms HX) on the extended grid"""
    m, E, T = S.m, S.m.Ea, S.m.T
    Ek = S.grid[k]
    fp = S.fp[l][S.left+k]
    out, memo = {}, {}

    def at(u, w, d, l1, cb, y):
        key = (u, w, d, l1, cb, y)
        if key not in memo:
            x = Ek-(E[u]-E[w]) if d == 0 else -(Ek-(E[u]-E[w]))
            p = interp(V, S.ext, [X[g][l1][cb][y] for g in range(len(S.ext))], x)
            h = interp(V, S.ext, [HX[g][l1][cb][y] for g in range(len(S.ext))], x)
            if d == 0:
                p, h = conj(V, p), conj(V, h)
                memo[key] = -PI*(h-1j*p)
            else:
                memo[key] = PI*(h+1j*p)
        return memo[key]
    src = [((c, b), (c, b), 2) for c, b in S.el1]+[((b, c), (c, b), 0) for c, b in S.el1]
    for (u0, w0), cb, d in src:
        for u, w, t1, up, br in moves(S, u0, w0):
            # the vertex at the energy of the amplitude itself creates with f or destroys with 1-f on the ket, and so on
            if S.Na[u]-S.Na[w] != d:
                continue
            f = fp if up else 1-fp
            for c, b, t2, up2, br2 in moves(S, u, w):
                if (c, b) not in S.el1:
                    continue
                for l1 in range(m.nleads):
                    a = T[l][t1[0]][t1[1]]*T[l1][t2[0]][t2[1]]*f
                    for e, y in S.el0.items():
                        # the conjugated amplitude refers to the conjugate density-matrix element
                        col = S.el0[e[1], e[0]] if d == 0 and conj0 else y
                        add(out, ((c, b), col), a*at(u, w, d, l1, S.el1[cb], y))
    return out


def conj(V, x):
    return x if isinstance(x, int) else V.conj(x)


def add(d, k, v):
    d[k] = d[k]+v if k in d else v


def inv(W, a):
    return K.arr(W.np.linalg.inv(a))


def run(W, V, case):
    install(W)
    globals()['h_'+case['what']](W, V, case)


def h_local(W, V, case):
    S = Sys(W, V, case, **(dict(D=(-2.0, 2.0)) if case.get('far') else {}))
    S.slots(V)
    a = S.ready(W, V)
    a.iterate()
    V.holds('zeroth iteration done', not a.is_zeroth_iteration)
    n0, n1 = len(S.el0), len(S.el1)
    got, inverse_ = K.arr(a.phi1k_delta), K.arr(a.kern1k_inv)
    for l, k in itertools.product(range(case['nl']), range(len(S.grid))):
        L1, L0 = local(V, S, l, k)
        M = W.np.zeros((n1, n1), dtype=complex)
        for (x, y), v in L1.items():
            M[S.el1[x], S.el1[y]] = M[S.el1[x], S.el1[y]]+v
        I = inv(W, M)
        V.eqs('inverse of the local kernel(%d,%d)' % (l, k), inverse_[k, l], I)
        for (x, i), (y, j) in itertools.product(S.el1.items(), S.el0.items()):
            r = K.ssum(I[i, S.el1[z]]*v for (z, q), v in L0.items() if q == y)
            V.eq('amplitude(%d,%d)[%d,%d]' % (l, k, i, j), got[k, l, i, j], r)


def symbolic_phi(W, V, S, name, n, shape):
    a = W.np.zeros((n,)+shape, dtype=complex)
    for ix in itertools.product(range(n), *[range(s) for s in shape]):
        a[ix] = V.cplx('%s%s' % (name, '_'.join(map(str, ix))), -1, 1)
    return a


def prepared_iteration(W, V, case):
    """the step from arbitrary amplitudes and an arbitrary local kernel"""
    S = Sys(W, V, case)
    a = S.ready(W, V)
    n0, n1, nl, nk = len(S.el0), len(S.el1), case['nl'], len(S.grid)
    a.is_zeroth_iteration = False
    d = symbolic_phi(W, V, S, 'x', nk, (nl, n1, n0))
    I = symbolic_phi(W, V, S, 'I', nk, (nl, n1, n1))
    a.phi1k_delta[:] = d
    a.kern1k_inv[:] = I
    X = W.np.zeros((len(S.ext), nl, n1, n0), dtype=complex)
    for k in range(nk):
        X[S.left+k] = d[k]
    sf = W.mod('specfunc.specfunc')
    HX = W.np.zeros(X.shape, dtype=complex)
    for l, i, j in itertools.product(range(nl), range(n1), range(n0)):
        HX[:, l, i, j] = sf.hilbert_fredriksen(X[:, l, i, j])
    a.iterate()
    return S, a, K.arr(X), K.arr(HX), K.arr(I)


def h_iter(W, V, case):
    S, a, X, HX, I = prepared_iteration(W, V, case)
    nl, nk = case['nl'], len(S.grid)
    got = K.arr(a.phi1k_delta)
    V.eqs('local kernel kept', a.kern1k_inv, I)
    for l, k in itertools.product(range(nl), range(nk)):
        alts = []
        for c0 in (1, 0) if S.co else (1,):
            L0 = integral(V, S, l, k, X, HX, c0)
            r = {}
            for i, j in itertools.product(S.el1.values(), S.el0.values()):
                r[i, j] = K.ssum(I[k, l, i, S.el1[z]]*v for (z, q), v in L0.items() if q == j)
            alts.append(r)
        for (i, j), v in alts[0].items():
            if len(alts) == 1:
                V.eq('correction(%d,%d)[%d,%d]' % (l, k, i, j), got[k, l, i, j], v)
            else:
                # which density-matrix element a conjugated amplitude refers to is decided by the case 'conj'
                if V.symbolic:
                    ok = V.same(got[k, l, i, j], alts[1][i, j])
                    V.holds('correction(%d,%d)[%d,%d]' % (l, k, i, j),
                            ok if ok is True else V.lor(ok, V.same(got[k, l, i, j], v)))
                else:
                    near = min(abs(got[k, l, i, j]-w[i, j]) for w in alts)
                    V.holds('correction(%d,%d)[%d,%d]' % (l, k, i, j), near <= 1e-9+1e-7*abs(v))


def h_conj(W, V, case):
    """columns of the coherences in the correction: the conjugate of Phi_cb refers to the conjugate element"""
    S, a, X, HX, I = prepared_iteration(W, V, case)
    got = K.arr(a.phi1k_delta)
    l, k = 0, 1
    L0 = integral(V, S, l, k, X, HX, 1)
    for e in sorted(S.el0):
        j = S.el0[e]
        for i in S.el1.values():
            r = K.ssum(I[k, l, i, S.el1[z]]*v for (z, q), v in L0.items() if q == j)
            V.eq('conjugated amplitudes, %s[%d,%d]' % ('coherence' if e[0] != e[1] else 'population', i, j),
                 got[k, l, i, j], r)


def h_phi0(W, V, case):
    S = Sys(W, V, case, kpnt=4, D=(-3.0, 3.0))
    S.slots(V)
    a = S.ready(W, V)
    m, E, T, nl, nk = S.m, S.m.Ea, S.m.T, case['nl'], len(S.grid)
    n0, n1 = len(S.el0), len(S.el1)
    X = symbolic_phi(W, V, S, 'X', nk, (nl, n1, n0))
    a.phi1k[:] = X
    X = K.arr(X)
    a.determine_phi1_phi0()
    g = S.grid
    w = [(g[1]-g[0])/2]+[(g[k+1]-g[k-1])/2 for k in range(1, nk-1)]+[(g[-1]-g[-2])/2]
    P, Q = {}, {}
    for l, i, j in itertools.product(range(nl), range(n1), range(n0)):
        P[l, i, j] = K.ssum(w[k]*X[k, l, i, j] for k in range(nk))
        Q[l, i, j] = K.ssum(w[k]*g[k]*X[k, l, i, j] for k in range(nk))
        V.eq('integral[%d,%d,%d]' % (l, i, j), K.arr(a.phi1_phi0)[l, i, j], P[l, i, j])
        V.eq('energy integral[%d,%d,%d]' % (l, i, j), K.arr(a.e_phi1_phi0)[l, i, j], Q[l, i, j])
    a.generate_kern()
    kern = K.arr(a.kern)
    V.holds('kernel size', kern.shape == (n0, n0))
    # an arbitrary Hermitian density matrix
    rho = {}
    for (i, j), s in S.el0.items():
        if i == j:
            rho[i, j] = V.real('r%d' % i, 0, 1)
        elif i < j:
            rho[i, j] = V.cplx('r%d_%d' % (i, j), -1, 1)
            rho[j, i] = V.conj(rho[i, j])
    vec = [None]*n0
    for e, s in S.el0.items():
        vec[s] = rho[e]
    K.set_phi0(S.b, vec)
    ph = {(l, cb): K.ssum(P[l, i, j]*vec[j] for j in range(n0)) for l in range(nl) for cb, i in S.el1.items()}
    eph = {(l, cb): K.ssum(Q[l, i, j]*vec[j] for j in range(n0)) for l in range(nl) for cb, i in S.el1.items()}
    row = {}
    for (b, bp), s in S.el0.items():
        r = (E[b]-E[bp])*rho[b, bp]
        for l in range(nl):
            for x in S.st:
                if (b, x) in S.el1:
                    r = r+T[l][b][x]*V.conj(ph[l, (bp, x)])-ph[l, (b, x)]*T[l][x][bp]
                if (x, b) in S.el1:
                    r = r+T[l][b][x]*ph[l, (x, bp)]-V.conj(ph[l, (x, b)])*T[l][x][bp]
        got = K.ssum(kern[s, j]*vec[j] for j in range(n0))
        row[b, bp] = got
        V.eq('equation of rho[%d,%d]' % (b, bp), got, r)
    V.eq('trace is conserved', K.ssum(row[b, b] for b in S.st), 0.0)
    for b, bp in S.el0:
        V.eq('Hermiticity is conserved[%d,%d]' % (b, bp), row[bp, b], -1*V.conj(row[b, bp]))
    V.eqs('normalisation', a.norm_vec, [1.0 if any(S.el0[b, b] == s for b in S.st) else 0.0 for s in range(n0)])
    a.generate_current()
    b = S.b
    for l in range(nl):
        I = K.ssum(-2*(ph[l, (c, d)]*T[l][d][c]).imag for c, d in S.el1)
        J = K.ssum(-2*(eph[l, (c, d)]*T[l][d][c]).imag for c, d in S.el1)
        V.eq('current[%d]' % l, K.arr(b.current)[l], I)
        V.eq('energy_current[%d]' % l, K.arr(b.energy_current)[l], J)
        V.eq('heat_current[%d]' % l, K.arr(b.heat_current)[l], J-m.mu[l]*I)
        for cb, i in S.el1.items():
            V.eq('phi1[%d,%d]' % (l, i), K.arr(b.phi1)[l, i], ph[l, cb])
    V.eq('sum of the currents = d<N>/dt', K.ssum(K.arr(b.current)[l] for l in range(nl)),
         K.ssum(S.Na[i]*(-1j*row[i, i]) for i in S.st))


def h_grid(W, V, case):
    """the energy grid, its extension and the occupations on it"""
    S0 = case
    Na = PATTERNS[case['p']]
    m = K.MB(W, V, Na, 2)
    m.Ea = [V.real('e%d' % i, 0.5*i, 0.5*i+0.1) for i in range(len(Na))]
    m.D = [[V.real('a0', -4, -3.5), V.real('b0', 4.5, 5)], [V.real('a1', -3.4, -3), V.real('b1', 5.5, 6)]]
    b = m.build(W, case['kt'], kpnt=4)
    a = b.appr
    a.prepare_kern()
    g, x = list(K.arr(a.Ek_grid)), list(K.arr(a.Ek_grid_ext))
    lo, hi = m.D[0][0], m.D[1][1]
    s = (hi-lo)/3
    V.holds('points', len(g) == 4)
    for i in range(4):
        V.eq('grid[%d]' % i, g[i], lo+i*s)
    L, Rr = b.funcp.kpnt_left, b.funcp.kpnt_right
    V.holds('points of the extension', len(x) == L+4+Rr)
    for i in range(len(x)):
        V.eq('extended grid[%d]' % i, x[i], lo+(i-L)*s)
    # every energy at which the equations are evaluated
    n = len(Na)
    for i, j in itertools.product(range(n), range(n)):
        if Na[i] == Na[j]:
            d = m.Ea[i]-m.Ea[j]
            V.le('covered below[%d,%d]' % (i, j), x[0], lo-d)
            V.le('covered above[%d,%d]' % (i, j), hi-d, x[-1])
        if Na[i] == Na[j]+2:
            d = m.Ea[i]-m.Ea[j]
            V.le('covered below[%d,%d]' % (i, j), x[0], d-hi)
            V.le('covered above[%d,%d]' % (i, j), d-lo, x[-1])
    f, h, f2, h2 = K.arr(a.fkp), K.arr(a.hfkp), K.arr(a.fkm), K.arr(a.hfkm)
    sf = W.mod('specfunc.specfunc')
    for l in range(2):
        rp, rm = W.np.zeros(len(x)), W.np.zeros(len(x))
        for i in range(4):
            rp[L+i] = 1/(W.np.exp((g[i]-m.mu[l])/m.tl[l])+1)
            rm[L+i] = 1-rp[L+i]
        for nm, r, F, H in (('f', rp, f, h), ('1-f', rm, f2, h2)):
            hr = sf.hilbert_fredriksen(r)
            for i in range(len(x)):
                V.eq('%s[%d,%d]' % (nm, l, i), F[l, i], r[i])
                V.eq('transform of %s[%d,%d]' % (nm, l, i), H[l, i], hr[i].real-1j*r[i])


# ------------------------------------------------------------------ histories
def h_hist(W, V, case):
    h, kt = case['h'], case['kt']
    c = dict(p='v' if h == 'rs' else '2', nl=1, kt=kt, seq='')
    nit = 1 if h == 'rs' else 2
    if h in ('count', 'func'):
        c.update(nl=2, p='v' if h == 'func' else '2')
    FIELDS = ('phi0', 'phi1', 'current', 'energy_current', 'heat_current')

    def make(pre='', change=None, kpnt=3):
        Na = PATTERNS[c['p']]
        m = K.MB(W, V, Na, c['nl'])
        m.Ea = [V.real('e%d' % i, 0.5*i, 0.5*i+0.1) for i in range(len(Na))]
        m.D = [[-4.0, 4.0]]*c['nl']
        if change:
            change(m)
        return m, m.build(W, kt, kpnt=kpnt)

    def result(b):
        r = {x: K.arr(getattr(b, x)).copy() for x in ('phi0', 'phi1', 'current', 'energy_current', 'heat_current', 'kern')}
        r['phi1k'] = K.arr(b.appr.phi1k).copy()
        return r

    def same(tag, x, y):
        for k in y:
            V.eqs('%s: %s' % (tag, k), x[k], y[k])
    kw = dict(qdq=False, rotateq=False)
    m, b = make()
    seen = []
    b.solve(niter=nit, func_iter=lambda a: seen.append(dict({x: K.arr(getattr(a, x)).copy() for x in FIELDS},
                                                            d=K.arr(a.phi1k_delta).copy(), n=a.niter)), **kw)
    if h in ('count', 'func'):
        V.holds('iterations', b.appr.niter == nit-1 and len(b.appr.iters) == nit and len(seen) == nit)
        V.holds('numbers', [s['n'] for s in seen] == list(range(nit)) and [i.niter for i in b.appr.iters] == list(range(nit)))
        for i in range(nit):
            for x in FIELDS:
                V.eqs('record of iteration %d: %s' % (i, x), getattr(b.appr.iters[i], x), seen[i][x])
        if h == 'func':
            m2, f = make()
            f.solve(niter=1, **kw)
            for x in FIELDS:
                V.eqs('first record: '+x, getattr(b.appr.iters[0], x), getattr(f, x))
            return
        # the amplitudes are the sum of the corrections, the integrals are those of the sum
        X = K.arr(b.appr.phi1k)
        V.eqs('sum of the corrections', X, sum(s['d'] for s in seen))
        g = [float(x) for x in K.arr(b.appr.Ek_grid)]
        w = [(g[1]-g[0])/2]+[(g[k+1]-g[k-1])/2 for k in range(1, len(g)-1)]+[(g[-1]-g[-2])/2]
        V.eqs('integral', b.appr.phi1_phi0, K.ssum(w[k]*X[k] for k in range(len(g))))
        V.eqs('energy integral', b.appr.e_phi1_phi0, K.ssum(w[k]*g[k]*X[k] for k in range(len(g))))
        return
    if h == 'twice':
        want = result(b)
        b.solve(niter=nit, **kw)
        same('second solution', result(b), want)
        return
    if h == 'cont':
        m2, f = make()
        f.solve(niter=1, **kw)
        f.solve(niter=nit-1, restartq=False, **kw)
        same('continued', result(f), result(b))
        V.holds('iterations', f.appr.niter == nit-1 and len(f.appr.iters) == nit)
        return
    ch, kpnt = None, 3
    if h == 'mu':
        v, t = V.real('mu_new', -1, 1), V.real('T_new', 0.25, 1)
        b.change(mulst={0: v}, tlst={0: t})

        def ch(m):
            m.mu, m.tl = [v], [t]
    elif h == 'kpnt':
        b.kpnt = kpnt = 4
    elif h == 'band':
        b.change(dlst={0: [-8.0, 8.0]})

        def ch(m):
            m.D = [[-8.0, 8.0]]
    elif h == 'energy':
        e = V.real('e_new', 1.0, 1.1)
        b.qd.Ea[1] = e

        def ch(m):
            m.Ea[1] = e
    elif h == 'tun':
        t = V.cplx('t_new', -1, 1)
        b.leads.Tba[0, 1, 0], b.leads.Tba[0, 0, 1] = t, V.conj(t)

        def ch(m):
            m.T[0][1][0], m.T[0][0][1] = t, V.conj(t)
    dE = V.real('dE', 0.65, 0.85)
    if h == 'rs':
        b.remove_states(dE)
    b.solve(niter=nit, **kw)
    m2, f = make(change=ch, kpnt=kpnt)
    if h == 'rs':
        f.remove_states(dE)
    f.solve(niter=nit, **kw)
    same('after the change', result(b), result(f))
