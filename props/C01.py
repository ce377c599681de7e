"""Fock-state indexing is a bijection that respects the quantum numbers."""
import math

BOUNDS = ('0..6 orbitals (0..8 thorough) for every indexing scheme with a symbolic state; up to three removed Fock '
          'states, symbolic, split over up to two calls, for 2..4 orbitals')
OUTSIDE = 'more orbitals'
ASSUMPTIONS = []
MAX_PATHS = 3000


def cases(tier):
    out = []
    for ix in ('Lin', 'charge', 'sz', 'ssq'):
        for ns in range(0, 7 if tier == 'quick' else 9):
            out.append(dict(ix=ix, ns=ns, rm=[], cls='StateIndexing'))
        if ix != 'ssq':
            for cls in ('StateIndexingDM', 'StateIndexingDMc', 'StateIndexingPauli'):
                out.append(dict(ix=ix, ns=2, rm=[1, 1], cls=cls))
            out.append(dict(ix=ix, ns=2, rm=[2, 1], cls='StateIndexingDM'))
            out.append(dict(ix=ix, ns=2, rm=[1, 0, 1], cls='StateIndexingDM'))
            out.append(dict(ix=ix, ns=3 if ix != 'sz' else 4, rm=[1, 1], cls='StateIndexingDM'))
            out.append(dict(ix=ix, ns=4, rm=[1], cls='StateIndexingDM'))
            if tier == 'thorough':
                out.append(dict(ix=ix, ns=4, rm=[2, 1], cls='StateIndexingDM'))
                out.append(dict(ix=ix, ns=4, rm=[1, 1], cls='StateIndexingDMc'))
                out.append(dict(ix=ix, ns=6, rm=[1], cls='StateIndexingDM'))
    return out


def weight(c):
    return (2**c['ns'])**(1+sum(c['rm']))


def bits(k, n):
    return [(k >> (n-1-i)) & 1 for i in range(n)]


def run(W, V, case):
    ix, ns = case['ix'], case['ns']
    m = W.mod('indexing')
    si = getattr(m, case['cls'])(ns, ix)
    n0 = 2**ns
    real_ix = ix if not (ix in ('sz', 'ssq') and ns % 2) else 'Lin'
    V.holds('indexing name', si.indexing == real_ix)
    removed = set()
    k = 0
    for step, cnt in enumerate(case['rm']):
        lst = []
        for _ in range(cnt):
            r = V.pick('r%d' % k, n0)
            k += 1
            lst.append(r)
        si.remove_fock_states(list(lst))
        removed |= set(lst)
        check(V, si, real_ix, ns, removed, 'after %d: ' % (step+1))
    if not case['rm']:
        check(V, si, real_ix, ns, removed, '')


def check(V, si, ix, ns, removed, tag):
    n0 = 2**ns
    nm = n0-len(removed)
    V.holds(tag+'number of states', si.nmany == nm)
    V.holds(tag+'number of charges', si.ncharge == ns+1)
    # read the tables through the public calls
    G = []
    for lin in range(n0):
        g = si.get_ind(bits(lin, ns)) if ns else 0
        G.append(-1 if g is None else int(g))
    S = [list(si.get_state(i)) if ns else [] for i in range(nm)]
    Sl = [list(si.get_state(i, linq=True)) if ns else [] for i in range(n0)]
    Ss = [si.get_state(i, strq=True) if ns else '' for i in range(nm)]
    V.holds(tag+'length of occupation lists', all(len(s) == ns for s in S))
    V.holds(tag+'string form', all(Ss[i] == ''.join(map(str, S[i])) for i in range(nm)))
    # a symbolic Fock state
    lin = V.index('lin'+tag, n0)
    occ = [V.index('n%d%s' % (i, tag), 2) for i in range(ns)]
    tot = 0
    for i in range(ns):
        tot = tot + occ[i]*2**(ns-1-i)
    if V.symbolic:
        V.assume(V.same(lin, tot))
    else:
        occ = bits(lin, ns)
    gone = V.lor(*[V.same(lin, r) for r in sorted(removed)]) if removed else False
    ind = V.sel(G, lin)
    V.holds(tag+'removed state is unknown', V.lor(V.lnot(gone), V.same(ind, -1)))
    inr = V.land(ind >= 0, ind <= nm-1)
    V.holds(tag+'kept state has an index', V.lor(gone, inr))
    for i in range(ns):
        V.holds(tag+'state of index of state [%d]' % i, V.lor(gone, V.same(V.sel([s[i] for s in S] or [0], clip(V, ind)), occ[i])))
        V.holds(tag+'lin state [%d]' % i, V.same(V.sel([s[i] for s in Sl], lin), occ[i]))
    # a symbolic index
    if nm:
        k = V.index('k'+tag, nm)
        lk = 0
        for i in range(ns):
            lk = lk + V.sel([s[i] for s in S], k)*2**(ns-1-i)
        V.holds(tag+'index of state of index', V.same(V.sel(G, lk) if V.symbolic else G[int(lk)], k))
        k2 = V.index('k2'+tag, nm)
        lin1 = [int(''.join(map(str, s)), 2) if s else 0 for s in S]
        V.holds(tag+'distinct indices are distinct states',
                V.lor(V.same(k, k2), V.lnot(V.same(V.sel(lin1, k), V.sel(lin1, k2)))))
    # quantum numbers
    nocc = 0
    for x in occ:
        nocc = nocc + x
    lab = label(si.chargelst, nm)
    V.holds(tag+'charge lists partition the states', lab is not None and len(si.chargelst) == ns+1)
    if lab is None:
        return
    if nm:
        V.holds(tag+'charge', V.lor(gone, V.same(V.sel(lab, clip(V, ind)), nocc)))
    if ix in ('sz', 'ssq'):
        h = ns//2
        sz = 0
        for i in range(ns):
            sz = sz + (occ[i] if i < h else -occ[i])
        ok = all(len(x) == min(c, ns-c)+1 for c, x in enumerate(si.szlst))
        V.holds(tag+'spin blocks per charge', ok and len(si.szlst) == ns+1)
        if not ok:
            return
        flat, szl = [], [None]*nm
        for c in range(ns+1):
            mx = min(c, ns-c)
            cat = []
            for j, blk in enumerate(si.szlst[c]):
                V.holds(tag+'get_lst sz', list(si.get_lst(charge=c, sz=-mx+2*j)) == list(blk))
                cat += list(blk)
                for s in blk:
                    if 0 <= s < nm:
                        szl[s] = -mx+2*j
            V.holds(tag+'spin blocks make up the charge', sorted(cat) == sorted(si.chargelst[c]))
            V.holds(tag+'get_lst', list(si.get_lst(charge=c)) == list(si.chargelst[c]))
            flat += cat
        V.holds(tag+'spin lists partition', sorted(flat) == list(range(nm)) and None not in szl)
        if nm and None not in szl:
            V.holds(tag+'spin projection', V.lor(gone, V.same(V.sel(szl, clip(V, ind)), sz)))
    if ix == 'ssq':
        for c in range(ns+1):
            mx = min(c, ns-c)
            for j, blk in enumerate(si.ssqlst[c]):
                sz_ = -mx+2*j
                V.holds(tag+'multiplets make up the spin block',
                        sorted(x for b in blk for x in b) == sorted(si.szlst[c][j]))
                V.holds(tag+'number of S^2 values', len(blk) == (mx-abs(sz_))//2+1)
                for a, b in enumerate(blk):
                    ssq_ = abs(sz_)+2*a
                    V.holds(tag+'multiplicity', len(b) == multiplicity(c, ssq_, ns))
                    V.holds(tag+'get_lst ssq', list(si.get_lst(charge=c, sz=sz_, ssq=ssq_)) == list(b))
    # quantum number dictionaries
    V.holds(tag+'quantum number maps are inverse', all(si.qn_ind[si.ind_qn[i]] == i for i in range(nm)) and
            len(si.qn_ind) == nm and len(si.ind_qn) == nm)
    V.holds(tag+'quantum number of charge', all(si.ind_qn[i][0] == lab[i] for i in range(nm)))
    if ix in ('sz', 'ssq'):
        V.holds(tag+'quantum number of spin', all(si.ind_qn[i][1] == szl[i] for i in range(nm)))
    if ix == 'ssq':
        V.holds(tag+'quantum number of multiplet',
                all(i in si.get_lst(charge=q[0], sz=q[1], ssq=q[2]) for i, q in si.ind_qn.items()))
    V.holds(tag+'printing order', sorted(si.states_order) == list(range(nm)))
    if hasattr(si, 'statesdm') and removed:
        V.holds(tag+'density-matrix states', [sorted(x) for x in si.statesdm[:ns+1]] ==
                [sorted(x) for x in si.chargelst])


def clip(V, ind):
    return ind if V.symbolic else max(ind, 0)


def label(lsts, n):
    lab = [None]*n
    for c, l in enumerate(lsts):
        for s in l:
            if not 0 <= s < n or lab[s] is not None:
                return None
            lab[s] = c
    return lab if None not in lab else None


def multiplicity(charge, ssq, ns):
    """number of multiplets with total spin ssq/2 of `charge` electrons in ns/2 spatial orbitals"""
    M = ns//2

    def nsz(sz):
        up, dn = (charge+sz)//2, (charge-sz)//2
        return math.comb(M, up)*math.comb(M, dn) if 0 <= up <= M and 0 <= dn <= M else 0
    return nsz(ssq)-nsz(ssq+2)
