"""Spin-multiplet eigenstates are eigenstates of S^2, orthonormal, and related by S+/S-."""
import itertools
from . import common as K, fock
from .C07 import ladder

BOUNDS = ('2, 4 and 6 spin orbitals (8 thorough for the operators and the S^2 eigenvectors); every charge, spin '
          'projection and total spin; symbolic state vectors, symbolic Hamiltonian elements (spin-symmetric) and '
          'arbitrary symbolic eigenvectors inside each multiplet block')
OUTSIDE = 'more orbitals'
ASSUMPTIONS = ['the eigenvectors of the constant S^2 matrices are those numpy returns, claims about them hold to 1e-9 '
               'for coefficients in [-1, 1]', 'double arithmetic is treated as exact real arithmetic']
TOL = 1e-9


def cases(tier):
    out = []
    for ns in (2, 4, 6) + ((8,) if tier == 'thorough' else ()):
        for c in range(ns+1):
            out.append(dict(what='ops', ns=ns, c=c))
    for ns in (2, 4, 6):
        for c in range(ns+1):
            if ns < 6 or c in (0, 1, 2, 5, 6) or tier == 'thorough':
                out.append(dict(what='all', ns=ns, c=c, herm=0))
                out.append(dict(what='all', ns=ns, c=c, herm=1))
    return out


def weight(c):
    return 6**c['ns']*(2 if c['what'] == 'ops' else 6)


def szs(c, ns):
    m = min(c, ns-c)
    return list(range(-m, m+1, 2))


def run(W, V, case):
    qdot, ind = W.mod('qdot'), W.mod('indexing')
    ns, c = case['ns'], case['c']
    si = ind.StateIndexingDM(ns, 'ssq')
    if W.symbolic:
        W.np.linalg.eigh.fn = lambda a: concrete(W, a)
    if case['what'] == 'ops':
        return ops(W, V, qdot, si, ns, c)
    return mult(W, V, qdot, si, ns, c, case)


def concrete(W, a):
    import numpy as np
    return tuple(W.array(x) for x in np.linalg.eigh(np.array(a, dtype=float)))


def basis(si, c, sz):
    return [tuple(si.get_state(x)) for x in si.get_lst(c, sz)]


def vec(V, st, name):
    return {s: V.real('%s%s' % (name, ''.join(map(str, s))), -1, 1) for s in st}


def mul(M, st_in, v):
    M = K.arr(M)
    return [K.ssum(int(M[i, j])*v[s] for j, s in enumerate(st_in) if M[i, j] != 0) for i in range(M.shape[0])]


def s2(w, ns):
    """4 S^2 |w> in units where spin 1/2 has 3"""
    o = ns//2
    out = {}
    for s, a in w.items():
        sz = sum(s[:o])-sum(s[o:])
        out[s] = out.get(s, 0)+a*sz*sz
    for sg in (1, -1):
        for s, a in ladder(ladder(w, sg, o, 1), -sg, o, 1).items():
            out[s] = out.get(s, 0)+a*0.5
    return out


def ops(W, V, qdot, si, ns, c):
    o = ns//2
    tot = 0
    for sz in szs(c, ns):
        st = basis(si, c, sz)
        tot += len(st)
        V.holds('projection of every state', all(sum(s[:o])-sum(s[o:]) == sz and sum(s) == c for s in st))
        v = vec(V, st, 'x')
        for nm, sg in (('operator_sm', -1), ('operator_sp', +1)):
            M = getattr(qdot, nm)(c, sz, si)
            if sz+2*sg not in szs(c, ns):
                V.holds('%s edge %d' % (nm, sz), not hasattr(M, 'shape') and M == 0)
                continue
            st2 = basis(si, c, sz+2*sg)
            ref = ladder(v, sg, o, 1)
            for s, x in zip(st2, mul(M, st, v)):
                V.eq('%s[%d,%s]' % (nm, sz, s), x, ref.get(s, 0))
        ref = s2(v, ns)
        for s, x in zip(st, mul(qdot.operator_ssquare(c, sz, si), st, v)):
            V.eq('operator_ssquare[%d,%s]' % (sz, s), x, ref.get(s, 0))
        if ns == 8 and abs(sz) < 4:
            continue
        ev = qdot.ssquare_eigenstates(c, sz, si)
        cols = []
        for k, ss in enumerate(range(abs(sz), min(c, ns-c)+1, 2)):
            B = K.arr(ev[k])
            V.holds('dimension of multiplet', B.shape == (len(st), mdim(ns, c, ss)))
            x = [V.real('c%d_%d_%d' % (sz, ss, a), -1, 1) for a in range(B.shape[1])]
            w = {s: K.ssum(float(B[i, a])*x[a] for a in range(B.shape[1])) for i, s in enumerate(st)}
            cols.append((w, x))
            ref = s2(w, ns)
            for s in st:
                V.eq('eigenvector of S^2[%d,%d,%s]' % (sz, ss, s), ref.get(s, 0), w[s]*(ss*(ss+2)), tol=TOL)
        for (w, x), (w2, x2) in itertools.combinations_with_replacement(cols, 2):
            V.eq('orthonormal[%d]' % sz, K.ssum(w[s]*w2[s] for s in st),
                 K.ssum(a*a for a in x) if w is w2 else 0, tol=TOL)
    V.holds('all states of this charge', tot == len(si.chargelst[c]))


def mdim(ns, c, ss):
    """number of multiplets of total spin ss/2 with c electrons in ns/2 spatial orbitals"""
    return cnt(ns, c, ss)-cnt(ns, c, ss+2)


def cnt(ns, c, sz):
    o = ns//2
    return len([s for s in fock.states(ns) if sum(s) == c and sum(s[:o])-sum(s[o:]) == sz])


def mult(W, V, qdot, si, ns, c, case):
    o = ns//2
    hs = {(i, j): V.real('h%d%d' % (i, j), -1, 1) if i == j or not case['herm'] else V.cplx('h%d%d' % (i, j), -1, 1)
          for i in range(o) for j in range(i, o)}
    cou = {}
    for i in range(min(o, 2)):
        for j in range(i, min(o, 2)):
            cou[i, j] = V.real('U%d%d' % (i, j), -1, 1)
    J = V.real('J', -1, 1)
    full, cf = {}, {}
    for (i, j), x in hs.items():
        full[i, j] = full[i+o, j+o] = x
    for (i, j), u in cou.items():       # density-density and exchange
        if i == j:
            cf[i, i+o, i+o, i] = u
        else:
            for s, t in itertools.product((0, o), repeat=2):
                cf[i+s, j+t, j+t, i+s] = u
                cf[i+s, j+t, i+t, j+s] = J
    m_less_n = False
    H = fock.hamiltonian(V, ns, full, cf, True, False, m_less_n)
    calls = []
    import numpy as np
    real = None if W.symbolic else W.np.linalg.eigh

    def eigh(a):
        if a.dtype.kind == 'i':
            return concrete(W, a) if W.symbolic else real(a)
        n = a.shape[0]
        vals, vecs = W.np.zeros(n), W.np.zeros((n, n), dtype=complex if case['herm'] else float)
        tag = 'e%d_' % len(calls)
        for i in range(n):
            vals[i] = V.real(tag+'w%d' % i, -1, 1)
            for j in range(n):
                vecs[i, j] = (V.cplx if case['herm'] else V.real)(tag+'v%d_%d' % (i, j), -1, 1)
        calls.append((K.arr(a).copy(), K.arr(vals).copy(), K.arr(vecs).copy()))
        return vals, vecs
    if W.symbolic:
        W.np.linalg.eigh.fn = eigh
    else:
        W.np.linalg.eigh = eigh
    try:
        qd = qdot.QuantumDot(dict(full), dict(cf), si, True, False, m_less_n, complex if case['herm'] else float, True)
        low = -(c % 2)
        zs = szs(c, ns)
        vals, vecs = qdot.construct_manybody_eigenstates_ssq_all(qd, c, qd.hsingle, qd.coulomb, qd.hamlst[c][zs.index(low)])
    finally:
        if not W.symbolic:
            W.np.linalg.eigh = real
    # a spin-symmetric Hamiltonian commutes with the ladder operators, as built by the code
    for sz in zs[:-1] if ns < 6 else [z for z in zs[:-1] if abs(z) < 3]:
        st, st2 = basis(si, c, sz), basis(si, c, sz+2)
        M = K.arr(qdot.operator_sp(c, sz, si))
        A, B = K.arr(qd.hamlst[c][zs.index(sz)]), K.arr(qd.hamlst[c][zs.index(sz+2)])
        for i in range(len(st2)):
            for j in range(len(st)):
                V.eq('H S+ = S+ H[%d,%d,%d]' % (sz, i, j),
                     K.ssum(B[i, k]*int(M[k, j]) for k in range(len(st2)) if M[k, j]),
                     K.ssum(int(M[i, k])*A[k, j] for k in range(len(st)) if M[i, k]))
    V.holds('one eigenproblem per multiplet', len(calls) == len(zs_low(c, ns)))
    for n, ss in enumerate(zs_low(c, ns)):
        A, w, P = calls[n]
        dim = mdim(ns, c, ss)
        V.holds('block size', A.shape == (dim, dim))
        if A.shape != (dim, dim):
            return
        base = None
        for sz in zs:
            if abs(sz) > ss:
                continue
            B = K.arr(vecs[zs.index(sz)][(ss-abs(sz))//2])
            E = K.arr(vals[zs.index(sz)][(ss-abs(sz))//2])
            st = basis(si, c, sz)
            V.holds('shape', B.shape == (len(st), dim) and len(E) == dim)
            for a in range(dim):
                V.eq('energy of every projection[%d,%d,%d]' % (ss, sz, a), E[a], w[a])
            for a in range(dim):
                v = {s: B[i, a] for i, s in enumerate(st)}
                ref = s2(v, ns)
                for s in st:
                    V.eq('S^2[%d,%d,%d,%s]' % (ss, sz, a, s), ref.get(s, 0), v[s]*(ss*(ss+2)), tol=TOL)
            if ns == 6 and dim > 3:
                continue
            for a, b in itertools.combinations_with_replacement(range(dim), 2):
                V.eq('norms[%d,%d,%d,%d]' % (ss, sz, a, b),
                     K.ssum(V.conj(B[i, a])*B[i, b] for i in range(len(st))),
                     K.ssum(V.conj(P[i, a])*P[i, b] for i in range(dim)), tol=TOL)
            for a in range(dim):
                # the residual of the eigenvalue equation equals the one in the block handed to the solver
                r1 = [K.ssum(H.el(s, t)*B[j, a] for j, t in enumerate(st) if K.is_sym(H.el(s, t)))-B[i, a]*w[a]
                      for i, s in enumerate(st)]
                r0 = [K.ssum(A[i, k]*P[k, a] for k in range(dim))-P[i, a]*w[a] for i in range(dim)]
                if not W.symbolic:
                    r1 = [K.ssum(H.el(s, t)*B[j, a] for j, t in enumerate(st))-B[i, a]*w[a] for i, s in enumerate(st)]
                n1 = {s: x for s, x in zip(st, r1)}
                proj = [K.ssum(unit(W, qdot, si, ns, c, ss, sz, k)[i]*r1[i] for i in range(len(st)))
                        for k in range(dim)]
                for k in range(dim):
                    V.eq('eigenvalue equation[%d,%d,%d,%d]' % (ss, sz, a, k), proj[k], r0[k], tol=1e-8)


def zs_low(c, ns):
    return list(range(c % 2, min(c, ns-c)+1, 2))


_CACHE = {}


def unit(W, qdot, si, ns, c, ss, sz, k):
    """k-th basis vector of the multiplet space at projection sz: the one at the lowest projection, raised or lowered"""
    key = (id(W), ns, c, ss, sz, k)
    if key in _CACHE:
        return _CACHE[key]
    import numpy as np
    low = -(c % 2)
    if W.symbolic:
        W.np.linalg.eigh.fn = lambda a: concrete(W, a)
    S = K.arr(qdot.ssquare_eigenstates(c, low, si)[(ss-abs(low))//2])
    o = ns//2
    st = basis(si, c, low)
    v = {s: float(S[i, k]) for i, s in enumerate(st)}
    z = low
    sg = 1 if sz > low else -1
    while z != sz:
        v = ladder(v, sg, o, (ss*(ss+2)-z*(z+2*sg))**0.5/2*1.0*2/2)
        z += 2*sg
    n = sum(x*x for x in v.values())**0.5
    r = [v.get(s, 0.0)/n for s in basis(si, c, sz)]
    _CACHE[key] = r
    return r
