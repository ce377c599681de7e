"""The many-body Hamiltonian is the second-quantised operator of its input."""
import itertools
from . import common as K, fock

BOUNDS = ('1..4 orbitals (5 thorough); every hopping element (both orders) and every Coulomb element with a symbolic '
          'complex value at once; all combinations of the conjugation options; Lin/charge/sz/ssq; dict, list and array '
          'input; with up to two removed Fock states, symbolic; the spin symmetry option with 1..2 spatial orbitals')
OUTSIDE = 'more orbitals (every matrix element involves at most four orbitals plus the sign of those in between)'
ASSUMPTIONS = ['orbital energies are real', 'double arithmetic is treated as exact real arithmetic']
MAX_PATHS = 2000


def cases(tier):
    out = []
    for ix in ('Lin', 'charge', 'sz', 'ssq'):
        for ns in (1, 2, 3, 4) + ((5,) if tier == 'thorough' and ix in ('Lin', 'charge') else ()):
            if ix in ('sz', 'ssq') and ns % 2:
                continue
            for opt in ((1, 0, 1), (1, 1, 1), (0, 0, 0), (1, 1, 0)):
                out.append(dict(ix=ix, ns=ns, opt=opt, fmt='dict', rm=0, mt='c', spin=0))
        for fmt in ('list', 'array'):
            out.append(dict(ix=ix, ns=2 if ix in ('sz', 'ssq') else 3, opt=(1, 0, 1), fmt=fmt, rm=0, mt='c', spin=0))
        out.append(dict(ix=ix, ns=2, opt=(0, 0, 1), fmt='array', rm=0, mt='c', spin=0))
        out.append(dict(ix=ix, ns=2, opt=(1, 1, 1), fmt='dict', rm=0, mt='r', spin=0))
        if ix != 'ssq':
            out.append(dict(ix=ix, ns=2, opt=(1, 0, 1), fmt='dict', rm=2, mt='c', spin=0))
            out.append(dict(ix=ix, ns=4, opt=(1, 0, 1), fmt='dict', rm=1, mt='c', spin=0))
            if ix != 'sz':
                out.append(dict(ix=ix, ns=3, opt=(1, 1, 1), fmt='dict', rm=1, mt='c', spin=0))
        for opt in ((1, 0, 1), (1, 1, 1), (1, 1, 0), (1, 0, 0)):
            for ns in (2, 4):
                for order in (0, 1):
                    for thin_ in (0, 1, 2) if ns == 4 else (0,):
                        out.append(dict(ix=ix, ns=ns, opt=opt, fmt='list' if order else 'dict', rm=0, mt='c', spin=1,
                                        order=order, thin=thin_))
    return out


def weight(c):
    return c['ns']**4*(1+c['rm']*10)


def keys(case):
    ns, ix = case['ns'], case['ix']
    sp = (lambda i: 0 if i < ns//2 else 1) if ix in ('sz', 'ssq') else (lambda i: 0)
    hk = [(i, j) for i in range(ns) for j in range(ns) if sp(i) == sp(j)]
    ck = [k for k in itertools.product(range(ns), repeat=4)
          if sp(k[0])+sp(k[1]) == sp(k[2])+sp(k[3])]
    if case['fmt'] != 'dict' and case['opt'][0]:
        hk = [k for k in hk if k[0] <= k[1]]
    if case['opt'][2]:
        ck = [k for k in ck if k[0] < k[1]]
    return hk, thin(case, ck)


def thin(case, ck):
    """with automatic conjugation an element and its conjugate are not both given"""
    if not case['opt'][1]:
        return ck
    out = []
    for k in ck:
        if (k[3], k[2], k[1], k[0]) not in out:
            out.append(k)
    return out


def run(W, V, case):
    ns, opt, cx = case['ns'], case['opt'], case['mt'] == 'c'
    if case['spin']:
        return run_spin(W, V, case)
    hk, ck = keys(case)
    hs, cou = {}, {}
    # list and array input is filtered for zeros: whether an element is zero is left open for two orbitals only
    lo = -1 if case['fmt'] == 'dict' or ns == 2 else 0.1
    cplx = lambda name: V.real(name+'.r', lo, 1)+1j*V.real(name+'.i', -1, 1)
    for k in hk:
        hs[k] = V.real('h%d_%d' % k, lo, 1) if k[0] == k[1] or not cx else cplx('h%d_%d' % k)
    for k in ck:
        cou[k] = cplx('U%d_%d_%d_%d' % k) if cx else V.real('U%d_%d_%d_%d' % k, lo, 1)
    mod = W.mod('qdot')
    si = W.mod('indexing').StateIndexingDM(ns, case['ix'])
    a1, a2 = fmt(W, case, hs, cou, ns)
    qd = mod.QuantumDot(a1, a2, si, herm_hs=bool(opt[0]), herm_c=bool(opt[1]), m_less_n=bool(opt[2]),
                        mtype=complex if cx else float, **({'ham_ssq_q': True} if case['ix'] == 'ssq' else {}))
    if case['rm']:
        rm = sorted({V.pick('r%d' % i, 2**ns) for i in range(case['rm'])})
        si.remove_fock_states(rm)
        qd._init_hamiltonian()
    H = fock.hamiltonian(V, ns, hs, cou, *map(bool, opt))
    compare(V, case['ix'], si, qd, H, '')
    # the function that builds a block from scratch is used when no stored matrix is given
    got = W_capture(W, lambda: mod.construct_manybody_eigenstates(qd, qd.hsingle, qd.coulomb, blocks(case['ix'], si)[len(
        blocks(case['ix'], si))//2])) if W.symbolic and not case['rm'] else None
    if got is not None:
        cmp_block(V, si, blocks(case['ix'], si)[len(blocks(case['ix'], si))//2], got, H, 'direct')


def W_capture(W, fn):
    seen = []

    def eigh(a):
        seen.append(K.arr(a).copy())
        n = a.shape[0]
        return W.np.zeros(n), W.np.zeros((n, n), dtype=complex)
    W.np.linalg.eigh.fn = eigh
    fn()
    return seen[0]


def fmt(W, case, hs, cou, ns):
    if case['fmt'] == 'dict':
        return dict(hs), dict(cou)
    if case['fmt'] == 'list':
        return [[i, j, v] for (i, j), v in hs.items()], [list(k)+[v] for k, v in cou.items()]
    a = W.np.zeros((ns, ns), dtype=complex)
    for (i, j), v in hs.items():
        a[i, j] = v
    return a, [list(k)+[v] for k, v in cou.items()]


def blocks(ix, si):
    if ix in ('sz', 'ssq'):
        return [b for c in si.szlst for b in c]
    return list(si.chargelst)


def compare(V, ix, si, qd, H, tag):
    if ix in ('sz', 'ssq'):
        for c in range(si.ncharge):
            for j, b in enumerate(si.szlst[c]):
                cmp_block(V, si, b, qd.hamlst[c][j], H, tag+'H[%d,%d]' % (c, j))
    else:
        for c in range(si.ncharge):
            cmp_block(V, si, si.chargelst[c], qd.hamlst[c], H, tag+'H[%d]' % c)
    V.holds(tag+'every state in one block', sorted(x for b in blocks(ix, si) for x in b) == list(range(si.nmany)))


def cmp_block(V, si, blk, ham, H, tag):
    ham = K.arr(ham)
    V.holds(tag+' size', ham.shape == (len(blk), len(blk)))
    st = [tuple(si.get_state(x)) for x in blk]
    for a, s in enumerate(st):
        for b, t in enumerate(st):
            V.eq(tag+'[%d,%d]' % (a, b), ham[a, b], H.el(s, t))


def run_spin(W, V, case):
    """H = sum_s h_ij d_js^+ d_is + 1/2 sum_ss' U_mnkl d_ms^+ d_ns'^+ d_ks' d_ls with a physical U (symmetric under
    exchange of the two particles, Hermitian), handed over in the form the options ask for"""
    ns, opt = case['ns'], case['opt']
    o = ns//2
    U = {}
    for k in itertools.product(range(o), repeat=4):
        m, n, p, q = k
        sw, cj, cs = (n, m, q, p), (q, p, n, m), (p, q, m, n)
        rep = min(k, sw, cj, cs)
        if rep != k:
            continue
        u = V.real('U%d%d%d%d' % k, -1, 1) if k in (cj, cs) else V.cplx('U%d%d%d%d' % k, -1, 1)
        U[cj] = U[cs] = V.conj(u)
        U[k] = U[sw] = u
    ks = list(itertools.product(range(o), repeat=4))
    if case['order']:
        ks = ks[::-1]
    if case['thin']:        # some interactions absent
        drop = {k for i, k in enumerate(sorted(U)) if i % 3 == case['thin']-1}
        drop |= {x for m, n, p, q in drop for x in ((n, m, q, p), (q, p, n, m), (p, q, m, n))}
        U = {k: v for k, v in U.items() if k not in drop}
    give = {}
    for k in ks:
        m, n, p, q = k
        if k not in U or (opt[2] and m > n) or (opt[1] and (q, p, n, m) != k and (q, p, n, m) in give):
            continue
        give[k] = U[k] if opt[2] else U[k]*0.5
    hs = {(i, j): (V.real if i == j else V.cplx)('h%d_%d' % (i, j), -1, 1) for i in range(o) for j in range(i, o)}
    si = W.mod('indexing').StateIndexingDM(ns, case['ix'], symmetry=''.join(['sp', 'in']))
    arg = [list(k)+[v] for k, v in give.items()] if case['fmt'] == 'list' else dict(give)
    qd = W.mod('qdot').QuantumDot(dict(hs), arg, si, herm_hs=True, herm_c=bool(opt[1]), m_less_n=bool(opt[2]),
                                  mtype=complex, **({'ham_ssq_q': True} if case['ix'] == 'ssq' else {}))
    full = {}
    for (i, j), v in hs.items():
        full[i, j] = v
        full[i+o, j+o] = v
    H = fock.hamiltonian(V, ns, full, {}, True)
    for (m, n, p, q), u in U.items():
        for s, t in itertools.product((0, o), repeat=2):
            H.term(u*0.5, [('+', m+s), ('+', n+t), ('-', p+t), ('-', q+s)])
    compare(V, case['ix'], si, qd, H, 'spin ')
