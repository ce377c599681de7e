"""The tunnelling matrix holds the matrix elements of the coupling operator."""
from . import common as K, fock

BOUNDS = ('1..4 orbitals (5 thorough) and 1..4 leads, every amplitude symbolic and complex at once; '
          'Lin/charge/sz/ssq; dict, list and array input with symbolic zeros; real matrices; up to two removed Fock '
          'states, symbolic; the spin symmetry option; re-initialised couplings')
OUTSIDE = 'more orbitals and leads (every amplitude contributes independently)'
ASSUMPTIONS = ['double arithmetic is treated as exact real arithmetic']
MAX_PATHS = 2000


def cases(tier):
    out = []

    def add(**kw):
        d = dict(ix='Lin', ns=2, nl=1, fmt='dict', mt='c', rm=0, spin=0, part=0)
        d.update(kw)
        out.append(d)
    for ix in ('Lin', 'charge', 'sz', 'ssq'):
        for ns in (1, 2, 3, 4) + ((5,) if tier == 'thorough' else ()):
            if ix in ('sz', 'ssq') and ns % 2:
                continue
            add(ix=ix, ns=ns, nl=2)
            if ns < 4:
                add(ix=ix, ns=ns, nl=4)
                add(ix=ix, ns=ns, nl=3, part=1)
        add(ix=ix, ns=2, nl=1)
        add(ix=ix, ns=2, nl=2, mt='r')
        for fmt in ('list', 'array'):
            add(ix=ix, ns=2, nl=2, fmt=fmt)
            add(ix=ix, ns=2, nl=2, fmt=fmt, spin=1)
        for ns in (2, 4):
            for nl in (2, 4):
                add(ix=ix, ns=ns, nl=nl, spin=1)
        add(ix=ix, ns=4, nl=4, spin=1, part=1)
        if ix != 'ssq':
            add(ix=ix, ns=2, nl=2, rm=2)
            add(ix=ix, ns=4, nl=1, rm=1)
            if ix != 'sz':
                add(ix=ix, ns=3, nl=2, rm=1)
    return out


def weight(c):
    return 4**c['ns']*c['nl']*(2**c['ns'] if c['rm'] else 1)


def give(W, case, t, nl, ns):
    if case['fmt'] == 'dict':
        return dict(t)
    if case['fmt'] == 'list':
        return [[l, i, v] for (l, i), v in t.items()]
    a = W.np.zeros((nl, ns), dtype=complex)
    for (l, i), v in t.items():
        a[l, i] = v
    return a


def run(W, V, case):
    ns, nl, spin = case['ns'], case['nl'], case['spin']
    o, nlo = (ns//2, nl//2) if spin else (ns, nl)
    ks = [(l, i) for l in range(nlo) for i in range(o)]
    if case['part']:    # only some amplitudes given, in another order
        ks = [k for n, k in enumerate(ks) if n % 2 == 0][::-1]
    mk = V.cplx if case['mt'] == 'c' else V.real
    t = {k: mk('t%d_%d' % k, -1, 1) for k in ks}
    si = W.mod('indexing').StateIndexingDM(ns, case['ix'], **(dict(symmetry=''.join(['sp', 'in'])) if spin else {}))
    lt = W.mod('leadstun').LeadsTunneling(nl, give(W, case, t, nlo, o), si, 0.0, 1.0, 60.0,
                                          complex if case['mt'] == 'c' else float)
    full = dict(t)
    if spin:
        full.update({(l+nlo, i+o): v for (l, i), v in t.items()})
    T = fock.tunnelling(V, ns, nl, full)
    if case['rm']:
        si.remove_fock_states(sorted({V.pick('r%d' % i, 2**ns) for i in range(case['rm'])}))
        lt._init_coupling()
    check(V, si, lt, T, '')
    for l in range(nl):
        for i in range(ns):
            V.eq('tleads_array[%d,%d]' % (l, i), K.arr(lt.tleads_array)[l, i], full.get((l, i), 0))
    if not case['rm']:
        lt.update_Tba0(nl, give(W, case, t, nlo, o), complex)
        check(V, si, lt, T, 'rebuilt ', ('Tba0',))


def check(V, si, lt, T, tag, names=('Tba', 'Tba0')):
    st = [tuple(si.get_state(x)) for x in range(si.nmany)]
    for nm in names:
        M = K.arr(getattr(lt, nm))
        V.holds(tag+nm+' shape', M.shape == (si.nleads, si.nmany, si.nmany))
        for l in range(si.nleads):
            for a, s in enumerate(st):
                for b, t in enumerate(st):
                    V.eq(tag+nm+'[%d,%d,%d]' % (l, a, b), M[l, a, b], T[l].el(s, t))
                    if a <= b:
                        V.eq(tag+nm+' Hermitian[%d,%d,%d]' % (l, a, b), M[l, a, b], V.conj(M[l, b, a]))
                    if abs(sum(s)-sum(t)) != 1:
                        V.eq(tag+nm+' charge[%d,%d,%d]' % (l, a, b), M[l, a, b], 0)
