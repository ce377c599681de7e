"""Independent second-quantisation reference: operators act on occupation tuples."""
import itertools


def create(i, st):
    """d_i^+ |st>: (sign, state) or None"""
    if st is None or st[1][i]:
        return None
    sg, s = st
    n = sum(s[:i])
    return (sg*(-1)**n, s[:i]+(1,)+s[i+1:])


def annih(i, st):
    if st is None or not st[1][i]:
        return None
    sg, s = st
    n = sum(s[:i])
    return (sg*(-1)**n, s[:i]+(0,)+s[i+1:])


def states(ns):
    return [tuple(s) for s in itertools.product((0, 1), repeat=ns)]


class Op:
    """sparse operator: {(bra, ket): value}"""

    def __init__(self, ns):
        self.ns, self.d = ns, {}

    def term(self, val, ops, conj=None):
        """val * ops[0] ops[1] ... (rightmost acts first); with conj: plus the Hermitian conjugate of value conj"""
        for s in states(self.ns):
            st = (1, s)
            for kind, i in reversed(ops):
                st = create(i, st) if kind == '+' else annih(i, st)
                if st is None:
                    break
            if st is None:
                continue
            sg, t = st
            self.add((t, s), val*sg)
            if conj is not None:
                self.add((s, t), conj*sg)

    def add(self, k, v):
        self.d[k] = self.d[k]+v if k in self.d else v

    def el(self, t, s):
        return self.d.get((t, s), 0)


def hamiltonian(V, ns, hs, cou, herm_hs=True, herm_c=False, m_less_n=True):
    H = Op(ns)
    for (i, j), h in hs.items():
        if i == j:
            H.term(h, [('+', i), ('-', i)])
        else:
            # the particle is moved from orbital i to orbital j
            H.term(h, [('+', j), ('-', i)], V.conj(h) if herm_hs else None)
    for (m, n, k, l), U in cou.items():
        add = herm_c and (m, n, k, l) != (l, k, n, m) and not (m_less_n and l > k)
        if m != n and k != l:
            H.term(U, [('+', m), ('+', n), ('-', k), ('-', l)], V.conj(U) if add else None)
    return H


def tunnelling(V, ns, nl, t):
    T = [Op(ns) for _ in range(nl)]
    for (l, i), a in t.items():
        T[l].term(a, [('+', i)])
        T[l].term(V.conj(a), [('-', i)])
    return T


def phonon(V, ns, nb, v):
    T = [Op(ns) for _ in range(nb)]
    for (l, i, j), a in v.items():
        T[l].term(a, [('+', i), ('-', j)])
    return T
