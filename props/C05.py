"""The phonon coupling matrix holds the matrix elements of the coupling operator."""
from . import common as K, fock

BOUNDS = ('1..4 orbitals (5 thorough) and 1..3 baths, every coupling symbolic and complex at once; Lin/charge/sz/ssq; '
          'dict, list and array input with symbolic zeros; real matrices; up to two removed Fock states, symbolic; the '
          'spin symmetry option')
OUTSIDE = 'more orbitals and baths (every coupling contributes independently)'
ASSUMPTIONS = ['double arithmetic is treated as exact real arithmetic']
MAX_PATHS = 2000


def cases(tier):
    out = []

    def add(**kw):
        d = dict(ix='Lin', ns=2, nb=1, fmt='dict', mt='c', rm=0, spin=0, part=0)
        d.update(kw)
        out.append(d)
    for ix in ('Lin', 'charge', 'sz', 'ssq'):
        for ns in (1, 2, 3, 4) + ((5,) if tier == 'thorough' else ()):
            if ix in ('sz', 'ssq') and ns % 2:
                continue
            add(ix=ix, ns=ns, nb=1)
            add(ix=ix, ns=ns, nb=3 if ns < 4 else 2, part=1)
        add(ix=ix, ns=2, nb=2, mt='r')
        for fmt in ('list', 'array'):
            add(ix=ix, ns=2, nb=2, fmt=fmt)
            add(ix=ix, ns=2, nb=2, fmt=fmt, spin=1)
        for ns in (2, 4):
            for nb in (1, 2):
                add(ix=ix, ns=ns, nb=nb, spin=1)
        if ix != 'ssq':
            add(ix=ix, ns=2, nb=2, rm=2)
            add(ix=ix, ns=4, nb=1, rm=1)
            if ix != 'sz':
                add(ix=ix, ns=3, nb=1, rm=1)
    return out


def weight(c):
    return 4**c['ns']*c['nb']*(2**c['ns'] if c['rm'] else 1)


def give(W, case, v, nb, ns):
    if case['fmt'] == 'dict':
        return dict(v)
    if case['fmt'] == 'list':
        return [list(k)+[x] for k, x in v.items()]
    a = W.np.zeros((nb, ns, ns), dtype=complex)
    for k, x in v.items():
        a[k] = x
    return a


def run(W, V, case):
    ns, nb, spin, ix = case['ns'], case['nb'], case['spin'], case['ix']
    o = ns//2 if spin else ns
    ks = [(l, i, j) for l in range(nb) for i in range(o) for j in range(o)]
    if ix in ('sz', 'ssq') and not spin:        # couplings that conserve the spin projection
        ks = [k for k in ks if (k[1] < ns//2) == (k[2] < ns//2)]
    if case['part']:
        ks = [k for n, k in enumerate(ks) if n % 3 != 1][::-1]
    mk = V.cplx if case['mt'] == 'c' else V.real
    if case['fmt'] == 'array':
        mk = lambda n, a, b: V.real(n+'.r', 0.1, b)+1j*V.real(n+'.i', a, b) if not n.endswith('0_0') else V.cplx(n, a, b)
    v = {k: mk('v%d_%d_%d' % k, -1, 1) for k in ks}
    si = W.mod('indexing').StateIndexingDM(ns, ix, **(dict(symmetry=''.join(['sp', 'in'])) if spin else {}))
    ba = W.mod('baths').PhononBaths(nb, give(W, case, v, nb, o), si, 1.0, 60.0, None,
                                    complex if case['mt'] == 'c' else float)
    full = dict(v)
    if spin:
        full.update({(l, i+o, j+o): x for (l, i, j), x in v.items()})
    T = fock.phonon(V, ns, nb, full)
    if case['rm']:
        si.remove_fock_states(sorted({V.pick('r%d' % i, 2**ns) for i in range(case['rm'])}))
        ba._init_coupling()
    check(V, si, ba, T, '')
    if not case['rm']:
        ba.update_Vbbp0(nb, give(W, case, v, nb, o), complex)
        check(V, si, ba, T, 'rebuilt ', ('Vbbp0',))


def check(V, si, ba, T, tag, names=('Vbbp', 'Vbbp0')):
    st = [tuple(si.get_state(x)) for x in range(si.nmany)]
    for nm in names:
        M = K.arr(getattr(ba, nm))
        V.holds(tag+nm+' shape', M.shape == (si.nbaths, si.nmany, si.nmany))
        for l in range(si.nbaths):
            for a, s in enumerate(st):
                for b, t in enumerate(st):
                    V.eq(tag+nm+'[%d,%d,%d]' % (l, a, b), M[l, a, b], T[l].el(s, t))
                    if sum(s) != sum(t):
                        V.eq(tag+nm+' charge[%d,%d,%d]' % (l, a, b), M[l, a, b], 0)
