"""Reading density-matrix elements returns the Hermitian matrix the equations refer to."""
import itertools

from . import common as K
from . import ref
from .C19 import MODELS, RNG, DE, chosen, allowed

BOUNDS = ('2..6 many-body states (four charge patterns), standard builders of 2 orbitals with every indexing and many-body '
          'builders; all states, reduced states, reduced coherences and both; all pairs of labels; the zeroth-order '
          'vector an arbitrary vector; 8 first-order approaches, RTD/pyRTD, 2vN/py2vN; sorting by every ordered choice of '
          'up to 2 keys with free energies of 4 states')
OUTSIDE = 'larger systems'
ASSUMPTIONS = ['rate functions are uninterpreted functions of all their arguments',
               'Tba is Hermitian and connects neighbouring charges only (established by C04)']
MAX_PATHS = 4000

SEQ = [(), ('rs0',), ('rs1',), ('rc0',), ('rc1',), ('rs1', 'rc0')]
SECOND = ('RTD', 'pyRTD', '2vN', 'py2vN')


def cases(tier):
    out = []
    for k, kt in enumerate(K.BASE+SECOND):
        for i, s in enumerate(SEQ):
            for mdl in 'abcd' if tier == 'thorough' or not s else ('abcd'[(i+k) % 4],):
                if 'RTD' in kt and any(x.startswith('rc') for x in s):
                    continue
                out.append(dict(what='read', b='mb', kt=kt, seq=list(s), m=mdl))
            for bd in ('charge', 'Lin', 'sz', 'ssq'):
                if ('RTD' in kt and bd != 'charge') or ('2vN' in kt and bd not in ('charge', 'Lin')):
                    continue
                if bd == 'ssq' and s:
                    continue
                if bd != 'charge' and tier != 'thorough' and (i+k) % 2:
                    continue
                if 'RTD' in kt and any(x.startswith('rc') for x in s):
                    continue
                out.append(dict(what='read', b=bd, kt=kt, seq=list(s), m='ad'[(i+k) % 2]))
    for bd in ('mb', 'charge', 'Lin', 'sz', 'ssq'):
        nk = {'sz': 3, 'ssq': 4}.get(bd, 2)
        for srt in [(i,) for i in range(nk)]+list(itertools.permutations(range(nk), 2)):
            kts = ('1vN', 'pyPauli') if bd in ('mb', 'charge') else ('py1vN',)
            for kt in kts:
                out.append(dict(what='sort', b=bd, kt=kt, srt=list(srt)))
    for bd in ('ssq', 'sz'):
        out.append(dict(what='sort', b=bd, kt='pyRedfield', srt=[1, 2, 3, 0] if bd == 'ssq' else [1, 2, 0]))
    return out


def weight(c):
    return 2000 if c['what'] == 'sort' else 10*len(MODELS[c['m']][0])


def stubs(case):
    return K.stubs_base()


def build(W, V, case, m):
    """-> builder, label of each state of the model"""
    bd, kt = case['b'], case['kt']
    if bd == 'mb':
        if '2vN' in kt:
            b = m.build(W, kt, kpnt=4)
        else:
            b = m.build(W, kt)
        return b, {i: i for i in range(len(m.Na))}
    q = W.mod('builder.builder')
    n = 2 if bd in ('sz', 'ssq') else 1
    kw = dict(kpnt=4) if '2vN' in kt else {}
    b = q.Builder(nsingle=2, nleads=n, mulst=list(m.mu)*n, tlst=list(m.tl)*n, dband=[list(d) for d in m.D]*n, kerntype=kt,
                  itype=1, indexing=bd, **kw)
    lab, k = {}, 0
    for c in range(3):
        for s in b.si.chargelst[c]:
            lab[k] = s
            k += 1
    Ea, T, _ = m.arrays(W)
    for i in range(4):
        b.qd.Ea[lab[i]] = Ea[i]
        for j in range(4):
            for l in range(n):
                b.leads.Tba[l, lab[i], lab[j]] = T[0, i, j] if l == 0 else 0
    return b, lab


def run(W, V, case):
    (read if case['what'] == 'read' else sort)(W, V, case)


def read(W, V, case):
    kt = case['kt']
    Na, cls = MODELS[case['m']]
    m = K.MB(W, V, Na, 1)
    m.Ea = [V.real('e%d' % i, *RNG[c]) for i, c in enumerate(cls)]
    b, lab = build(W, V, case, m)
    n = len(Na)
    for k, o in enumerate(case['seq']):
        d = V.real('d%d' % k, *DE[o])
        b.remove_states(d) if o.startswith('rs') else b.remove_coherences(d)
    st, co = chosen(Na, cls, case['seq'])
    diag = 'auli' in kt or 'RTD' in kt
    if diag:
        co = set()
    co = {(i, j) for i, j in co if allowed(b, lab[i], lab[j], case['b'])}
    a, si = b.appr, b.si
    first = kt in K.BASE
    if first:
        K.kern_of(b)
        N = a.get_kern_size()
        phi = K.density(V, b)
        K.set_phi0(b, phi)
        rho = ref.rho_of(si, phi, 'auli' in kt)
    else:
        if '2vN' in kt:
            N = si.ndm0
            phi = [V.cplx('phi%d' % i, -1, 1) for i in range(N)]
            b.appr.phi0 = W.array(phi)
        else:
            N = si.npauli
            phi = [V.real('phi%d' % i, -1, 1) for i in range(N)]
            b.appr.phi0 = W.array(phi)
    # every element is either zero or one of the unknowns; each unknown is read exactly where it belongs
    got = {}
    for i, j in itertools.product(range(n), range(n)):
        g = b.get_phi0(lab[i], lab[j])
        got[i, j] = g
        kept = (i == j and i in st) or (i, j) in co
        if not kept:
            V.eq('phi0[%d,%d] is zero' % (i, j), g, 0.0)
        elif first:
            V.eq('phi0[%d,%d]' % (i, j), g, rho[lab[i], lab[j]])
    if '2vN' not in kt:
        for i in range(n):
            for j in range(i+1):
                V.eq('hermitian[%d,%d]' % (i, j), got[i, j], V.conj(got[j, i]))
    if not first:
        # the unknowns themselves: distinct elements are distinct unknowns
        where = {}
        for i, j in [(i, i) for i in st]+sorted(co):
            k = int(si.get_ind_dm0(lab[i], lab[j], Na[i]-min(Na)))
            V.holds('slot of %d,%d' % (i, j), 0 <= k < N and k not in where and (k < si.npauli) == (i == j))
            where[k] = 1
            if 0 <= k < N:
                V.eq('phi0[%d,%d]' % (i, j), got[i, j], phi[k])
        V.holds('all slots used', len(where) == N)
        return
    # first order
    if kt in ('Pauli', 'pyPauli', 'Lindblad', 'pyLindblad'):
        return
    a.generate_current()
    states = K.states_of(si)
    mm = relabelled(m, lab)
    R = ref.Model(W, V, kt, mm, states, 1)
    want = R.L.phi1(V, rho, R.kt == 'Redfield', 0)
    f = b.get_phi1
    I = K.arr(b.current)
    for l in range(len(I)):
        if l >= 1:      # spin-doubled leads that are switched off
            for i, j in itertools.product(range(n), range(n)):
                V.eq('phi1 of an empty lead[%d,%d,%d]' % (l, i, j), f(l, lab[i], lab[j]), 0.0)
            continue
        s = 0
        for i, j in itertools.product(range(n), range(n)):
            g = f(l, lab[i], lab[j])
            x, y = lab[i], lab[j]
            if i in st and j in st and Na[i] == Na[j]+1:
                V.eq('phi1[%d,%d,%d]' % (l, i, j), g, want[l, x, y])
                s = s + m.T[l][j][i]*g
            elif i in st and j in st and Na[j] == Na[i]+1:
                V.eq('phi1[%d,%d,%d]' % (l, i, j), g, V.conj(want[l, y, x]))
            else:
                V.eq('phi1[%d,%d,%d] is zero' % (l, i, j), g, 0.0)
        V.eq('current from the read-outs[%d]' % l, I[l], -2*s.imag if not isinstance(s, (int, float)) else 0.0)


def relabelled(m, lab):
    import copy
    r = copy.copy(m)
    n = len(m.Na)
    inv = {v: k for k, v in lab.items()}
    r.Na = [m.Na[inv[s]] for s in range(n)]
    r.Ea = [m.Ea[inv[s]] for s in range(n)]
    r.T = [[[t[inv[i]][inv[j]] for j in range(n)] for i in range(n)] for t in m.T]
    return r


def sort(W, V, case):
    """after sort_eigenstates the labels follow the requested keys and the read-outs use these labels"""
    kt, bd, srt = case['kt'], case['b'], case['srt']
    Na = [0, 1, 1, 2]
    m = K.MB(W, V, Na if bd != 'mb' else [1, 0, 2, 1], 1)
    b, lab = build(W, V, case, m)
    si = b.si
    K.kern_of(b)
    phi = K.density(V, b)
    K.set_phi0(b, phi)
    n = 4
    before = [[b.get_phi0(i, j) for j in range(n)] for i in range(n)]
    amp = 'vN' in kt or 'Redfield' in kt
    if amp:
        b.appr.generate_current()
        before1 = [[b.get_phi1(0, i, j) for j in range(n)] for i in range(n)]
    keys = list(srt)
    b.sort_eigenstates(keys)
    order = [int(x) for x in si.states_order]
    V.holds('a reordering of all states', sorted(order) == list(range(n)))
    if sorted(order) != list(range(n)):
        return
    q = si.ind_qn

    def key(s, k):
        if k == 0:
            return b.qd.Ea[s]
        if bd in ('sz', 'ssq'):
            return q[s][k-1]
        return (m.Na if bd == 'mb' else [len([c for c in si.get_state(x) if c]) for x in range(n)])[s]
    for p in range(n-1):
        x, y = order[p], order[p+1]
        ok, eqs = [], []
        for k in srt:
            ok.append(V.land(*(eqs+[key(x, k) < key(y, k)])))
            eqs.append(V.land(key(x, k) <= key(y, k), key(y, k) <= key(x, k)))
        ok.append(V.land(*eqs))
        V.holds('labels %d, %d in the requested order' % (p, p+1), V.lor(*ok))
    for i, j in itertools.product(range(n), range(n)):
        V.eq('phi0 of sorted labels[%d,%d]' % (i, j), b.get_phi0(i, j), before[order[i]][order[j]])
        if amp:
            V.eq('phi1 of sorted labels[%d,%d]' % (i, j), b.get_phi1(0, i, j), before1[order[i]][order[j]])
    b.sort_eigenstates()
    for i, j in itertools.product(range(n), range(n)):
        V.eq('phi0 of the original labels[%d,%d]' % (i, j), b.get_phi0(i, j), before[i][j])
        if amp:
            V.eq('phi1 of the original labels[%d,%d]' % (i, j), b.get_phi1(0, i, j), before1[i][j])
