"""State and coherence removal keeps exactly the stated ones."""
import itertools
from . import common as K

BOUNDS = ('selection: 2..5 states with completely free energies and thresholds, every indexing; equations: models of 4..6 '
          'states, 1-2 leads, 0-1 phonon bath, all sequences up to 2 (thorough 3) of remove_states, remove_coherences, '
          'use_all_states with free thresholds in ranges that fix the outcome; amplitudes, lead parameters, density '
          'matrices symbolic; all first-order approaches, standard and many-body builders')
OUTSIDE = ('larger systems; energies exactly at a threshold of remove_states; RTD and 2vN kernels of reduced systems are '
           'in C21 and C22')
ASSUMPTIONS = ['rate functions are uninterpreted functions of all their arguments',
               'Tba is Hermitian and connects neighbouring charges only (established by C04)']
MAX_PATHS = 4000

SEQ = [('rs0',), ('rs1',), ('rc0',), ('rc1',), ('rs0', 'all'), ('rs1', 'rc0'), ('rs0', 'rs1'), ('rs1', 'rs0'), ('rc0', 'all'),
       ('rc1', 'rc0'), ('rc0', 'rc1'), ('rc0', 'rs1'), ('rs1', 'rc1'), ('all', 'rc1')]
#  energy class of each state: 0 low, 1 middle, 2 high
MODELS = {'a': ([0, 1, 1, 2], [0, 0, 1, 1]), 'b': ([0, 1, 1, 1, 2, 2], [0, 0, 0, 1, 0, 2]),
          'c': ([0, 0, 1, 1, 2], [1, 0, 2, 0, 0]), 'd': ([0, 1, 1, 2], [2, 0, 0, 2])}
RNG = [(0, 0.3), (1.2, 1.5), (2.2, 2.5)]
DE = {'rs0': (0.6, 0.8), 'rs1': (1.6, 1.8), 'rc0': (0.4, 0.6), 'rc1': (1.55, 1.7)}


def cases(tier):
    out = []
    out.append(dict(what='coh', b='ssq', n=16))
    for bd in ('mb', 'charge', 'Lin', 'sz', 'ssq', 'ph'):
        for n in (2, 3, 4) if bd == 'mb' else (4,):
            out.append(dict(what='select', b=bd, n=n))
            out.append(dict(what='coh', b=bd, n=n))
    out.append(dict(what='coh', b='mb', n=5))
    if tier == 'thorough':
        out.append(dict(what='select', b='mb', n=5))
    for k, kt in enumerate(K.BASE):
        for i, s in enumerate(SEQ):
            for mdl in (('a', 'b', 'c', 'd') if tier == 'thorough' or len(s) == 1 else ('abcd'[(i+k) % 4], 'abcd'[(i+k+1) % 4])):
                out.append(dict(what='eq', b='mb', kt=kt, seq=list(s), m=mdl, nl=1 if mdl == 'b' else 2, first=0))
            out.append(dict(what='eq', b=('charge', 'Lin', 'sz')[(i+k) % 3], kt=kt, seq=list(s), m='ad'[i % 2], nl=1,
                            first=1))
            out.append(dict(what='eq', b='ph', kt=kt, seq=list(s), m='ad'[(i+k) % 2], nl=1, first=i % 2))
        if tier == 'thorough':
            for s in itertools.product(('rs0', 'rs1', 'rc0', 'rc1', 'all'), repeat=3):
                out.append(dict(what='eq', b='mb', kt=kt, seq=list(s), m='b', nl=1, first=1))
    return out


def weight(c):
    if c['what'] != 'eq':
        return 8**c['n']
    return 30*len(MODELS[c['m']][0])*(4 if c['b'] == 'ph' else 1)


def stubs(case):
    return K.stubs_elph() if case['b'] == 'ph' else K.stubs_base()


def empty(W, bd, n, V):
    """a builder with n states whose energies are free"""
    q = W.mod('builder.builder')
    if bd == 'mb':
        Na = {2: [0, 1], 3: [1, 0, 1], 4: [0, 1, 1, 2], 5: [1, 1, 0, 1, 2]}[n]
        E = [V.real('E%d' % i, -1, 1) for i in range(n)]
        Ea = W.np.zeros(n)
        for i in range(n):
            Ea[i] = E[i]
        return q.BuilderManyBody(Ea=Ea, Na=Na, Tba=W.np.zeros((1, n, n), dtype=complex), mulst=[0.], tlst=[1.],
                                 dband=60., kerntype='py1vN', itype=1), E, Na
    kw = dict(nsingle=4 if n == 16 else 2, nleads=2 if bd in ('sz', 'ssq') else 1, mulst=[0., 0.], tlst=[1., 1.], dband=60., itype=1, kerntype='py1vN',
              indexing='charge' if bd == 'ph' else bd)
    if bd != 'sz' and bd != 'ssq':
        kw['mulst'], kw['tlst'] = [0.], [1.]
    b = q.BuilderElPh(nbaths=1, tlst_ph=[1.], dband_ph=[[.1, 1.]], itype_ph=2, **kw) if bd == 'ph' else q.Builder(**kw)
    E = [V.real('E%d' % i, -1, 1) if n < 16 else 0.1*i*i for i in range(n)]
    if bd == 'ssq':     # the members of a multiplet have the same energy
        for x, y in partners(b.si).items():
            E[x] = E[y]
        if n == 16:
            for c in (1, 2):
                for y in first(b.si, c)[:2]:
                    E[y] = V.real('E%d' % y, -1, 1)
            for x, y in partners(b.si).items():
                E[x] = E[y]
    for i in range(n):
        b.qd.Ea[i] = E[i]
    Na = [0]*n
    for c in range(b.si.ncharge):
        for s in b.si.chargelst[c]:
            Na[s] = c
    return b, E, Na


def partners(si):
    """member of a multiplet -> its first member"""
    d = {}
    for m in multiplets(si):
        for s in m[1:]:
            d[s] = m[0]
    return d


def multiplets(si):
    g = {}
    for s, (c, sz, ssq, al) in si.ind_qn.items():
        g.setdefault((c, ssq, al), []).append(s)
    return [sorted(x) for x in g.values()]


def first(si, c):
    return sorted(m[0] for m in multiplets(si) if si.ind_qn[m[0]][0] == c and len(m) == (2 if c == 1 else 1))


def allowed(b, i, j, bd):
    """coherences that the symmetry of the indexing leaves"""
    q = b.si.ind_qn
    if bd == 'sz':
        return q[i][1] == q[j][1]
    if bd == 'ssq':
        return q[i][1:3] == q[j][1:3]
    return True


def run(W, V, case):
    if case['what'] == 'select':
        return select(W, V, case)
    if case['what'] == 'coh':
        return coh(W, V, case)
    equations(W, V, case)


def select(W, V, case):
    b, E, Na = empty(W, case['b'], case['n'], V)
    dE = V.real('dE', 0, 2)
    n = len(E)
    b.remove_states(dE)
    got = [s for c in range(b.si.ncharge) for s in b.si.statesdm[c]]
    V.holds('no state twice', len(got) == len(set(got)))
    for c in range(b.si.ncharge):
        V.holds('charge %d' % c, all(Na[s] == c+min(Na) for s in b.si.statesdm[c]))
    for i in range(n):
        # strictly within dE of the lowest energy, i.e. below E_k + dE for every k
        inside = V.land(*[E[i] < E[k]+dE for k in range(n)])
        outside = V.lor(*[E[i] > E[k]+dE for k in range(n)])
        V.holds('state %d kept iff within dE of the lowest' % i, V.lnot(outside) if i in got else V.lnot(inside))
    V.holds('marked as changed', b.si.states_changed)
    ref = [list(x) for x in b.si.statesdm]
    red = len(got) if case['b'] != 'ssq' else len({partners(b.si).get(s, s) for s in got})
    V.holds('npauli', b.si.npauli == red)
    if case['b'] == 'ph':
        V.holds('phonon indexing', [list(x) for x in b.si_elph.statesdm][:len(ref)] == ref)
    b.use_all_states()
    V.holds('all states again', sorted(s for c in range(b.si.ncharge) for s in b.si.statesdm[c]) == list(range(n)))
    if case['b'] == 'ph':
        V.holds('all states again in the phonon indexing',
                sorted(s for c in range(b.si.ncharge) for s in b.si_elph.statesdm[c]) == list(range(n)))


def coh(W, V, case):
    b, E, Na = empty(W, case['b'], case['n'], V)
    dE = V.real('dE', 0, 2)
    n = len(E)
    si = b.si
    b.remove_coherences(dE)
    slots = set()
    for i, j in itertools.product(range(n), range(n)):
        if Na[i] != Na[j]:
            continue
        k = si.get_ind_dm0(i, j, Na[i]-min(Na))
        d = E[i]-E[j]
        # off the boundary |d| == dE the element is kept exactly when |d| <= dE
        inside = V.land(d <= dE, -d <= dE)
        if allowed(b, i, j, case['b']):
            V.holds('element %d,%d kept iff closer than dE' % (i, j), inside if k != -1 else V.lnot(inside))
        else:
            V.holds('element %d,%d not kept' % (i, j), k == -1)
        if k != -1:
            slots.add(int(k))
            V.holds('population first %d,%d' % (i, j), (k < si.npauli) == (i == j))
    V.holds('slots', slots == set(range(si.ndm0)))
    V.holds('sizes', si.npauli == (n if case['b'] != 'ssq' else len(multiplets(si))) and si.ndm0r == 2*si.ndm0-si.npauli)
    V.holds('marked as changed', si.states_changed)


def model(W, V, case):
    Na, cls = MODELS[case['m']]
    m = K.MB(W, V, Na, case['nl'], nbaths=1 if case['b'] == 'ph' else 0)
    m.Ea = [V.real('e%d' % i, *RNG[c]) for i, c in enumerate(cls)]
    return m, cls


def make(W, V, case, m, kt):
    bd = case['b']
    if bd in ('mb', 'ph'):
        b = m.build(W, kt)
        return b, {i: i for i in range(len(m.Na))}
    q = W.mod('builder.builder')
    b = q.Builder(nsingle=2, nleads=2 if bd in ('sz', 'ssq') else 1, mulst=list(m.mu)*2, tlst=list(m.tl)*2, dband=[list(d) for d in m.D]*2,
                  kerntype=kt, itype=1, indexing=bd) if bd in ('sz', 'ssq') else \
        q.Builder(nsingle=2, nleads=1, mulst=list(m.mu), tlst=list(m.tl), dband=[list(d) for d in m.D],
                  kerntype=kt, itype=1, indexing=bd)
    lab, n = {}, 0
    for c in range(3):
        for s in b.si.chargelst[c]:
            lab[n] = s
            n += 1
    Ea, T, _ = m.arrays(W)
    for i in range(4):
        b.qd.Ea[lab[i]] = Ea[i]
        for j in range(4):
            for l in range(b.si.nleads):
                b.leads.Tba[l, lab[i], lab[j]] = T[0, i, j] if l == 0 else 0
    return b, lab


def chosen(Na, cls, seq):
    """kept states and coherences according to the statement"""
    low = min(cls)
    st = list(range(len(Na)))
    co = None
    for o in seq:
        if o == 'all':
            st, co = list(range(len(Na))), None
        elif o.startswith('rs'):
            lim = low+int(o[2])
            st, co = [i for i in range(len(Na)) if cls[i] <= lim], None
        else:
            if co is None:
                co = {(i, j) for i in st for j in st if Na[i] == Na[j] and i != j}
            co = {(i, j) for i, j in co if abs(cls[i]-cls[j]) <= int(o[2])}
    if co is None:
        co = {(i, j) for i in st for j in st if Na[i] == Na[j] and i != j}
    return st, co


def sub(m, st, with_baths):
    """the system that has only the states st"""
    import copy
    r = copy.copy(m)
    r.Na = [m.Na[i] for i in st]
    r.Ea = [m.Ea[i] for i in st]
    r.T = [[[t[i][j] for j in st] for i in st] for t in m.T]
    r.V = [[[t[i][j] for j in st] for i in st] for t in m.V]
    return r


def small(W, r, kt):
    """a many-body builder of the reduced system"""
    Ea, T, Vb = r.arrays(W)
    q = W.mod('builder.builder')
    args = dict(mulst=list(r.mu), tlst=list(r.tl), dband=[list(d) for d in r.D], kerntype=kt, itype=1)
    if not r.nbaths:
        return q.BuilderManyBody(Ea=Ea, Na=list(r.Na), Tba=T, **args)
    return q.BuilderManyBodyElPh(Ea=Ea, Na=list(r.Na), Tba=T, Vbbp=Vb, tlst_ph=list(r.tph),
                                 dband_ph=[list(d) for d in r.Dph], itype_ph=2, **args)


def equations(W, V, case):
    kt = case['kt']
    m, cls = model(W, V, case)
    b, lab = make(W, V, case, m, kt)
    if case['first']:
        K.kern_of(b)        # arrays of the full system exist
    for k, o in enumerate(case['seq']):
        d = V.real('d%d' % k, *DE[o]) if o != 'all' else None
        if o == 'all':
            b.use_all_states()
        elif o.startswith('rs'):
            b.remove_states(d)
        else:
            b.remove_coherences(d)
    st, co = chosen(m.Na, cls, case['seq'])
    co = {(i, j) for i, j in co if allowed(b, lab[i], lab[j], case['b'])}
    inv = {v: k for k, v in lab.items()}
    c0 = min(m.Na)
    got = [[inv[s] for s in b.si.statesdm[c]] for c in range(b.si.ncharge)]
    V.holds('kept states', got == [[i for i in st if m.Na[i] == c+c0] for c in range(b.si.ncharge)])
    pairs = [(i, j) for i in st for j in st if m.Na[i] == m.Na[j] and i != j]
    for i, j in pairs:
        k = b.si.get_ind_dm0(lab[i], lab[j], m.Na[i]-c0)
        V.holds('coherence %d,%d' % (i, j), (k != -1) == ((i, j) in co))
    r = small(W, sub(m, st, None), kt)
    kr = K.arr(K.kern_of(r)).copy()
    kb = K.arr(K.kern_of(b)).copy()
    pauli = 'auli' in kt
    pos = {s: n for n, s in enumerate(st)}
    c1 = min(m.Na[i] for i in st)
    n = r.appr.get_kern_size()
    npl, nd, ndb = r.si.npauli, r.si.ndm0, b.si.ndm0
    # element of the reduced system -> element of b
    rows = {}
    for i, j in [(i, i) for i in st]+([] if pauli else sorted(co)):
        x = r.si.get_ind_dm0(pos[i], pos[j], m.Na[i]-c1)
        y = b.si.get_ind_dm0(lab[i], lab[j], m.Na[i]-c0)
        V.holds('mapped %d,%d' % (i, j), x != -1 and y != -1)
        if x == -1 or y == -1:
            return
        rows[int(x)] = int(y)
        if i != j:
            rows[int(x)+nd-npl] = int(y)+ndb-npl
    V.holds('size', b.appr.get_kern_size() == len(rows) and len(set(rows.values())) == len(rows) and
            kb.shape == (len(rows), len(rows)))
    if b.appr.get_kern_size() != len(rows):
        return
    sgn = orient(r, b, m, st, lab, pos, c0, c1, co, pauli)
    for x, y in rows.items():
        for x2, y2 in rows.items():
            V.eq('kern[%d,%d]' % (y, y2), kb[y, y2], kr[x, x2]*(sgn.get(x, 1)*sgn.get(x2, 1)))
    # currents of an arbitrary density matrix: the removed coherences are zero
    phi = [V.real('phi%d' % i, -1, 1) for i in range(len(rows))]
    K.set_phi0(b, phi)
    b.appr.generate_current()
    full = [0.0]*n
    for x, y in rows.items():
        full[x] = phi[y]*sgn.get(x, 1)
    K.set_phi0(r, full)
    r.appr.generate_current()
    for nm in ('current', 'energy_current', 'heat_current'):
        u, v = K.arr(getattr(b, nm)), K.arr(getattr(r, nm))
        for l in range(len(v)):
            V.eq('%s[%d]' % (nm, l), u[l], v[l])


def orient(r, b, m, st, lab, pos, c0, c1, co, pauli):
    """the imaginary slot may belong to the element or to its conjugate, depending on the order of the labels"""
    s = {}
    if pauli:
        return s
    nd, npl = r.si.ndm0, r.si.npauli
    for i, j in co:
        x = int(r.si.get_ind_dm0(pos[i], pos[j], m.Na[i]-c1))
        cr = r.si.get_ind_dm0(pos[i], pos[j], m.Na[i]-c1, maptype=3)
        cb = b.si.get_ind_dm0(lab[i], lab[j], m.Na[i]-c0, maptype=3)
        s[x+nd-npl] = 1 if bool(cr) == bool(cb) else -1
    return s
