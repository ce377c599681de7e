"""Diagonalisation rotates every operator into one common eigenbasis."""
import itertools
from . import common as K, fock
from .C03 import blocks

BOUNDS = ('1..4 orbitals, 1..2 leads, 0..1 phonon bath; all Hamiltonian elements, amplitudes, returned eigenvalues and '
          'returned eigenvector matrices symbolic; Lin/charge/sz/ssq; with removed Fock states; one or two '
          'diagonalisations with a parameter change in between; all qdq/rotateq combinations of solve')
OUTSIDE = 'more orbitals'
ASSUMPTIONS = ['np.linalg.eigh is replaced by an arbitrary answer: any real eigenvalues and any complex matrix (only its '
               'argument and the use of its answer are examined; see C27)',
               'for ssq the S^2 eigenvalues are the true ones', 'double arithmetic is treated as exact real arithmetic']
MAX_PATHS = 200


def cases(tier):
    out = []

    def add(**kw):
        d = dict(ix='Lin', ns=2, nl=1, nb=0, rm=[], hist='once', via='solve')
        d.update(kw)
        out.append(d)
    for ix in ('Lin', 'charge', 'sz', 'ssq'):
        for ns in (1, 2, 3):
            if ix in ('sz', 'ssq') and ns % 2:
                continue
            add(ix=ix, ns=ns, nl=2, nb=1 if ns < 3 else 0)
            add(ix=ix, ns=ns, nl=2 if ix in ('sz', 'ssq') else 1, nb=1, hist='again')
        add(ix=ix, ns=2, nl=2, nb=1, via='parts')
        add(ix=ix, ns=2, nl=2, nb=1, via='norotate')
        add(ix=ix, ns=2, nl=2, nb=1, via='noqd')
        add(ix=ix, ns=4, nl=2, nb=0)
        if ix != 'ssq':
            add(ix=ix, ns=4, nl=2, nb=0, rm=[0, 3, 5, 9, 12, 15] if ix != 'sz' else [1, 3, 7, 12, 11])
            add(ix=ix, ns=2, nl=2, nb=1, rm=[1])
            add(ix=ix, ns=2, nl=2, nb=1, rm=[3])
            add(ix=ix, ns=2, nl=2, nb=1, rm=[0, 3] if ix != 'sz' else [0])
        if tier == 'thorough' or ix in ('charge', 'sz'):
            add(ix=ix, ns=4, nl=2, nb=1, hist='again')
    return out


def weight(c):
    return 8**c['ns']*(1+c['nb'])*(2 if c['hist'] == 'again' else 1)*(0.5 if c['rm'] else 1)


def Vsp(case, i):
    return 0 if case['ix'] not in ('sz', 'ssq') or i < case['ns']//2 else 1


def params(V, case, tag):
    ns, ix, nl, nb = case['ns'], case['ix'], case['nl'], case['nb']
    hs = {(i, j): V.real(tag+'h%d_%d' % (i, j), -1, 1) if i == j else V.cplx(tag+'h%d_%d' % (i, j), -1, 1)
          for i in range(ns) for j in range(i, ns) if Vsp(case, i) == Vsp(case, j)}
    cou = {(0, 1, 1, 0): V.real(tag+'U', -1, 1)} if ns > 1 else {}
    t = {(l, i): V.cplx(tag+'t%d_%d' % (l, i), -1, 1) for l in range(nl) for i in range(ns)
         if ix not in ('sz', 'ssq') or (l >= nl//2) == (i >= ns//2)}
    v = {}
    for b, i, j in itertools.product(range(nb), range(ns), range(ns)):
        if Vsp(case, i) == Vsp(case, j) and (ns < 3 or i <= j):
            v[b, i, j] = V.cplx(tag+'v%d_%d_%d' % (b, i, j), -1, 1)
    return hs, cou, t, v


class Eig:
    """arbitrary answers of the eigensolver, remembered with the matrix it was asked about"""

    def __init__(self, W, V):
        self.W, self.V, self.calls, self.n = W, V, [], 0
        self.real = None if W.symbolic else W.np.linalg.eigh
        self.spin = []
        if W.symbolic:
            W.np.linalg.eigh.fn = self
        else:
            W.np.linalg.eigh = self

    def __call__(self, a):
        V, W = self.V, self.W
        n = a.shape[0]
        A = K.arr(a).copy()
        tag = 'e%d_' % self.n
        self.n += 1
        if self.case['ix'] == 'ssq' and self.is_int(a):
            import numpy as np
            val, vec = np.linalg.eigh(np.array([[float(x) for x in r] for r in A])) if W.symbolic else self.real(a)
            vals = W.np.zeros(n)
            vecs = W.np.zeros((n, n))
            for i in range(n):
                vals[i] = round(float(val[i]))
                for j in range(n):
                    vecs[i, j] = V.real(tag+'s%d_%d' % (i, j), -1, 1)
            self.spin.append((A, K.arr(vecs).copy()))
            return vals, vecs
        vals = W.np.zeros(n)
        vecs = W.np.zeros((n, n), dtype=complex)
        for i in range(n):
            vals[i] = V.real(tag+'w%d' % i, -1, 1)
            for j in range(n):
                vecs[i, j] = V.cplx(tag+'v%d_%d' % (i, j), -1, 1)
        self.calls.append((A, K.arr(vals).copy(), K.arr(vecs).copy()))
        return vals, vecs

    def is_int(self, a):
        """the S^2 matrix: integers"""
        return a.dtype.kind == 'i'

    def close(self):
        if not self.W.symbolic:
            self.W.np.linalg.eigh = self.real


def run(W, V, case):
    eig = Eig(W, V)
    eig.case = case
    try:
        go(W, V, case, eig)
    finally:
        eig.close()


def go(W, V, case, eig):
    ns, ix = case['ns'], case['ix']
    hs, cou, t, v = params(V, case, '')
    q = W.mod('builder.builder')
    kw = dict(nsingle=ns, hsingle=dict(hs), coulomb=dict(cou), nleads=case['nl'], tleads=dict(t), mulst=0.0, tlst=1.0,
              dband=60.0, indexing=ix, kerntype='pyPauli', mtype_qd=complex, itype=1)
    if case['nb']:
        b = q.BuilderElPh(nbaths=case['nb'], velph=dict(v), tlst_ph=1.0, dband_ph=50.0, itype_ph=2, **kw)
    else:
        b = q.Builder(**kw)
    if case['rm']:
        b.remove_fock_states(list(case['rm']))
    act(W, V, case, b, eig, hs, cou, t, v, '')
    if case['hist'] == 'again':
        # change() decides on "!= 0": assume the values really change
        hs2, cou2, t2, v2 = params(V, case, 'n')
        b.add(hsingle=dict(hs2), coulomb=dict(cou2), tleads=dict(t2), **(dict(velph=dict(v2)) if case['nb'] else {}))
        for x, y in ((hs, hs2), (cou, cou2), (t, t2), (v, v2)):
            for k in x:
                x[k] = x[k]+y[k]
        act(W, V, case, b, eig, hs, cou, t, v, 'second ')


def act(W, V, case, b, eig, hs, cou, t, v, tag):
    ns, ix, nl, nb, via = case['ns'], case['ix'], case['nl'], case['nb'], case['via']
    si, qd = b.si, b.qd
    eig.calls.clear()
    eig.spin.clear()
    if via == 'solve' or via == 'norotate':
        b.solve(masterq=False, rotateq=via == 'solve')
    elif via == 'parts':
        qd.diagonalise()
        b.leads.rotate(qd.vecslst)
        if nb:
            b.baths.rotate(qd.vecslst, None)
    else:
        b.solve(qdq=False, masterq=False)
    st = [tuple(si.get_state(x)) for x in range(si.nmany)]
    H = fock.hamiltonian(V, ns, hs, cou)
    T = fock.tunnelling(V, ns, nl, t)
    P = fock.phonon(V, ns, nb, v)
    n = si.nmany
    T0 = [[[op.el(s, u) for u in st] for s in st] for op in T]
    P0 = [[[op.el(s, u) for u in st] for s in st] for op in P]
    if via == 'noqd':
        V.holds(tag+'no diagonalisation', not eig.calls)
        return mats(V, tag, K.arr(b.leads.Tba), T0, K.arr(b.baths.Vbbp) if nb else None, P0)
    blk = blocks(ix, si)
    U = [[0]*n for _ in range(n)]
    E = [None]*n
    if ix != 'ssq':
        V.holds(tag+'one eigenproblem per block', len(eig.calls) == len(blk))
        for bl, (A, vals, vecs) in zip(blk, eig.calls):
            V.holds(tag+'block size', A.shape == (len(bl), len(bl)))
            for i, x in enumerate(bl):
                E[x] = vals[i]
                for j, y in enumerate(bl):
                    V.eq(tag+'block[%d,%d]' % (x, y), A[i, j], H.el(st[x], st[y]))
                    U[x][y] = vecs[i, j]
    else:
        ssq(V, tag, case, b, eig, H, st, U, E)
    for x in range(n):
        V.eq(tag+'Ea[%d]' % x, K.arr(qd.Ea)[x], E[x])
    # the stored Hamiltonian is still the Fock one
    if ix in ('Lin', 'charge'):
        for c in range(si.ncharge):
            for i, x in enumerate(si.chargelst[c]):
                for j, y in enumerate(si.chargelst[c]):
                    V.eq(tag+'hamlst[%d,%d]' % (x, y), K.arr(qd.hamlst[c])[i, j], H.el(st[x], st[y]))
    if via == 'norotate':
        return mats(V, tag, K.arr(b.leads.Tba), T0, K.arr(b.baths.Vbbp) if nb else None, P0)
    mats(V, tag, K.arr(b.leads.Tba), [rot(V, U, M) for M in T0],
         K.arr(b.baths.Vbbp) if nb else None, [rot(V, U, M) for M in P0])
    mats(V, tag+'stored ', K.arr(b.leads.Tba0), T0, K.arr(b.baths.Vbbp0) if nb else None, P0)
    b.leads.use_Tba0()
    if nb:
        b.baths.use_Vbbp0()
    mats(V, tag+'back ', K.arr(b.leads.Tba), T0, K.arr(b.baths.Vbbp) if nb else None, P0)


def rot(V, U, M):
    n = len(M)
    nz = lambda x: K.is_sym(x) or x != 0
    MU = [[K.ssum(M[a][c]*U[c][b] for c in range(n) if nz(M[a][c]) and nz(U[c][b])) for b in range(n)] for a in range(n)]
    return [[K.ssum(V.conj(U[c][a])*MU[c][b] for c in range(n) if nz(U[c][a]) and nz(MU[c][b])) for b in range(n)]
            for a in range(n)]


def mats(V, tag, T, Tr, P, Pr):
    for nm, M, R_ in (('Tba', T, Tr), ('Vbbp', P, Pr)):
        if M is None:
            continue
        V.holds(tag+nm+' count', len(M) == len(R_))
        for l in range(len(R_)):
            for a in range(len(R_[l])):
                for b in range(len(R_[l])):
                    V.eq(tag+nm+'[%d,%d,%d]' % (l, a, b), M[l, a, b], R_[l][a][b], tol=1e-9)


def ssq(V, tag, case, b, eig, H, st, U, E):
    """one S^2 problem per charge, one eigenproblem per multiplet; the other spin projections by raising/lowering"""
    si, ns = b.si, case['ns']
    m = b.qd
    V.holds(tag+'one S^2 problem per charge', len(eig.spin) == si.ncharge)
    n = 0
    o = ns//2
    for c in range(si.ncharge):
        szs = sorted({k[1] for k in si.ind_qn.values() if k[0] == c})
        low = -(c % 2)
        blk = {sz: si.szlst[c][szs.index(sz)] for sz in szs}
        A, S = eig.spin[c]
        S2 = spin_square(ns)
        for i, x in enumerate(blk[low]):
            for j, y in enumerate(blk[low]):
                V.eq(tag+'S^2[%d,%d]' % (x, y), A[i, j], S2.get((st[x], st[y]), 0))
        done = 0
        for ssq_ in sorted({k[2] for k in si.ind_qn.values() if k[:2] == (c, low)}):
            dim = len([k for k in si.ind_qn.values() if k[:3] == (c, low, ssq_)])
            cols = range(done, done+dim)        # eigenvalues are returned in ascending order
            done += dim
            Am, vals, vecs = eig.calls[n]
            n += 1
            V.holds(tag+'block size', Am.shape == (dim, dim))
            for i, ci in enumerate(cols):
                for j, cj in enumerate(cols):
                    V.eq(tag+'multiplet block[%d,%d,%d,%d]' % (c, ssq_, i, j), Am[i, j],
                         K.ssum(S[k, ci]*H.el(st[x], st[y])*S[l, cj] for k, x in enumerate(blk[low])
                                for l, y in enumerate(blk[low])), tol=1e-9)
            cur = {}
            for a in range(dim):
                cur[a] = {st[x]: K.ssum(S[k, ci]*vecs[i, a] for i, ci in enumerate(cols)) for k, x in
                          enumerate(blk[low])}
            for sg in (+1, -1):
                v = dict(cur)
                sz = low
                while True:
                    for a in range(dim):
                        col = si.ssqlst[c][szs.index(sz)][(ssq_-abs(sz))//2][a]
                        E[col] = vals[a]
                        for x in blk[sz]:
                            U[x][col] = v[a].get(st[x], 0)
                    if abs(sz+2*sg) > ssq_:
                        break
                    f = (ssq_*(ssq_+2)-sz*(sz+2*sg))**0.5
                    v = {a: ladder(w, sg, o, f) for a, w in v.items()}
                    sz += 2*sg
        V.holds(tag+'all states', done == len(blk[low]))


def ladder(w, sg, o, f):
    """2 S^+- / f applied to a state {occupation: amplitude}"""
    out = {}
    for s, a in w.items():
        for i in range(o):
            src, dst = (i+o, i) if sg > 0 else (i, i+o)
            r = fock.create(dst, fock.annih(src, (1, s)))
            if r:
                out[r[1]] = out.get(r[1], 0)+a*r[0]*2/f
    return out


def spin_square(ns):
    """4 S^2 = 2(S+S- + S-S+) + (2Sz)^2 with S+- in units where S^+ = sum d_up^+ d_dn"""
    o = ns//2
    d = {}
    for s in fock.states(ns):
        sz = sum(s[:o])-sum(s[o:])
        d[s, s] = d.get((s, s), 0)+sz*sz
        for sg in (1, -1):
            w = ladder(ladder({s: 1.0}, sg, o, 1), -sg, o, 1)
            for t, a in w.items():
                d[t, s] = d.get((t, s), 0)+a/2
    return d
