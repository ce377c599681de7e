"""Solving again gives what a fresh system would give."""
import itertools
from . import common as K

BOUNDS = ('2 orbitals, 2 leads, 0..1 phonon bath; histories solve, op, solve and solve, op, solve, op, solve (thorough: '
          'three ops) with every operation: change/add of each parameter in the call, direct assignment and in-place '
          'writing of lead and bath arrays, every option setter, switch to every other first-order approach, removal '
          'and restoring of states, coherences and Fock states, partial solves; many-body builders with replaced '
          'energies and amplitudes; all values symbolic')
OUTSIDE = 'longer histories; RTD and 2vN (see C21, C22)'
ASSUMPTIONS = ['the linear solver, the root finder and the eigensolver are arbitrary functions of what they are given',
               'rate functions are uninterpreted functions of all their arguments',
               'energies lie in ranges that fix which states the removal keeps (C19 decides the removal itself)']
CASE_TIMEOUT = 600

PAR = ('hs', 'hs+', 'cou', 'tl', 'tl+', 'mu', 'mu+', 'T', 'D', 'D+', 'dband', 'amu', 'aT', 'aD', 'imu', 'iT', 'iD', 'iTba')
OPT = ('symq', 'mf', 'lsqr', 'row', 'it0', 'it2', 'copy')
SEL = ('rs', 'all', 'rc', 'fock')
PART = ('nomaster', 'nocur', 'noqd', 'norot')
PH = ('v', 'v+', 'Tp', 'Dp', 'aTp', 'iTp', 'iDp', 'itp')
MBO = ('aEa', 'iEa', 'aTba', 'iTba', 'amu', 'imu', 'kern', 'symq', 'rc')


def cases(tier):
    out = []
    for n, kt in enumerate(K.BASE):
        sw = ['k:'+k for k in K.BASE if k != kt]
        one = list(PAR)+list(OPT)+list(SEL)+list(PART)+sw
        for o in one:
            out.append(dict(kt=kt, ops=[o], b='std'))
        two = [('hs', 'all'), ('symq', 'symq'), ('mf', 'mf'), ('mf', 'hs'), ('rs', 'all'), ('rs', 'tl'), ('rs', 'hs'),
               ('rc', 'mu'), ('rc', 'rs'), ('rs', 'rc'), ('rc', 'all'), ('fock', 'hs'), ('fock', 'rs'), ('lsqr', 'symq'),
               ('mf', 'rs'), ('rs', 'mf'), ('symq', 'rs'), ('row', 'symq'), ('nocur', 'mu'), ('copy', 'tl'), ('copy', 'symq'),
               ('amu', 'mu'), ('aT', 'iT'), ('it2', 'D'), ('tl', 'symq'), ('noqd', 'hs')]
        two += [(sw[(n+i) % len(sw)], o) for i, o in enumerate(('hs', 'rs', 'rc', 'fock', 'amu', 'mf', 'symq'))]
        two += [(o, sw[(n+i+3) % len(sw)]) for i, o in enumerate(('hs', 'rs', 'rc', 'fock', 'amu', 'mf', 'symq', 'row'))]
        two += [(s, 'k:'+kt) for s in sw]
        for p in two:
            out.append(dict(kt=kt, ops=list(p), b='std'))
        for o in ('Tp', 'v+', 'Dp', 'aTp', 'iTp', 'iDp', 'itp', 'v', 'hs', 'rs', 'all', 'rc', 'fock', 'mf', 'symq', 'imu')+tuple(sw):
            out.append(dict(kt=kt, ops=[o], b='ph'))
        for p in (('rs', 'all'), ('rs', 'v'), ('fock', 'Tp'), ('mf', 'mf'), (sw[n % 7], 'rs'), ('rs', sw[n % 7]),
                  (sw[(n+2) % 7], 'Tp'), ('rc', 'rs'), ('rs', 'rc'), ('rc', sw[(n+4) % 7]), ('fock', sw[(n+5) % 7])):
            out.append(dict(kt=kt, ops=list(p), b='ph'))
        for o in MBO:
            out.append(dict(kt=kt, ops=[o if o != 'kern' else sw[n % 7]], b='mb'))
        if tier == 'thorough':
            every = list(PAR)+list(OPT)+list(SEL)+list(PART)+sw
            for i, p in enumerate(itertools.product(every, repeat=2)):
                if p not in two:
                    out.append(dict(kt=kt, ops=list(p), b='std'))
            for i, p in enumerate(itertools.product(('hs', 'amu', 'symq', 'mf', 'rs', 'all', 'rc', sw[n % 7], 'k:'+kt),
                                                    repeat=3)):
                if len(set(p)) > 1 and (i+n) % 3 == 0:
                    out.append(dict(kt=kt, ops=list(p), b='std'))
            for p in itertools.product(('Tp', 'v', 'rs', 'all', 'rc', 'mf', 'symq', 'fock')+tuple(sw), repeat=2):
                out.append(dict(kt=kt, ops=list(p), b='ph'))
    return [c for c in out if ok(c['ops'])]


def ok(ops):
    seen = set()
    for i, o in enumerate(ops):
        if o == 'fock' and ('fock' in ops[:i] or 'rs' in ops[:i]):
            return False
        if o in ('rs', 'rc') and 'fock' in ops[:i] and o == 'rc':
            return False
        if o == 'rc' and 'rc' in ops[:i]:
            return False
        seen.add(o)
    return True


def weight(c):
    return len(c['ops'])*(3 if c['b'] == 'ph' else 1)*(1 if 'auli' in c['kt'] else 2)


def stubs(case):
    return K.stubs_elph() if case['b'] == 'ph' else K.stubs_base()


class Eig:
    """one arbitrary answer per distinct matrix"""

    def __init__(self, W, V):
        self.W, self.V, self.memo = W, V, []
        if W.symbolic:
            W.np.linalg.eigh.fn = self
        else:
            W.np.linalg.eigh = self

    def __call__(self, a):
        W, V = self.W, self.V
        A = K.arr(a)
        n = A.shape[0]
        for B, vals, vecs in self.memo:
            if B.shape == A.shape and all(same(A[i, j], B[i, j]) for i in range(n) for j in range(n)):
                return vals.copy(), vecs.copy()
        k = len(self.memo)
        vals, vecs = W.np.zeros(n), W.np.zeros((n, n), dtype=complex)
        rng = [(-1, -0.9) if K._z(A[0, 0]) else (0, 0.25)] if n == 1 else [(-0.2, 0.2), (0.6, 1)]
        for i in range(n):
            vals[i] = V.real('e%d_%d' % (k, i), *rng[i])
            for j in range(n):
                vecs[i, j] = V.cplx('u%d_%d%d' % (k, i, j), -1, 1)
        self.memo.append((A.copy(), vals, vecs))
        return vals.copy(), vecs.copy()


def same(x, y):
    from engine.sym import poly, C, R
    if not K.is_sym(x) and not K.is_sym(y):
        return abs(complex(x)-complex(y)) < 1e-12
    d = x-y
    if not isinstance(d, (R, C)):
        return d == 0
    return all(z_(p) for p in ((d.real, d.imag) if isinstance(d, C) else (d,)))


def z_(p):
    from engine.sym import poly
    if not K.is_sym(p):
        return p == 0
    q = poly(p)
    return not q if isinstance(q, dict) else q == 0


class Lin:
    """stand-ins for the linear solvers and the root finder: an arbitrary vector per phase"""

    def __init__(self, W, V):
        self.W, self.V, self.phase, self.log = W, V, 'x', []
        if W.symbolic:
            from engine import world
            world.LapackStub.on_solve = self.lapack
            W.np.linalg.solve.fn = lambda a, b: self.dense(a, b)
            W.np.linalg.lstsq.fn = lambda a, b, **k: (self.dense(a, b), None, None, None)
            W.ext['scipy'].optimize.root.fn = self.root
        else:
            import scipy.optimize
            self.old, scipy.optimize.root = scipy.optimize.root, self.root

    def close(self):
        if not self.W.symbolic:
            import scipy.optimize
            scipy.optimize.root = self.old

    def vec(self, n, nm='x'):
        x = self.W.np.zeros(n)
        for i in range(n):
            x[i] = self.V.real('%s_%s_%d' % (nm, self.phase, i), -1, 1)
        return x

    def dense(self, a, b):
        self.log.append((self.phase, K.arr(a).copy(), K.arr(b).copy()))
        return self.vec(a.shape[1])

    def lapack(self, s):
        a = K.arr(s.a)
        self.log.append((self.phase, a.copy(), K.arr(s.b).copy()))
        s.info = 0
        for i, v in enumerate(self.vec(a.shape[1])):
            s.b[i] = v
        for i, j in itertools.product(range(a.shape[0]), range(a.shape[1])):
            a[i, j] = self.V.real('lu_%s%d_%d' % (self.phase, i, j))

    def root(self, fun, x0, *a, method=None, **k):
        n = len(x0)
        f = K.arr(fun(self.vec(n, 'trial'))).copy()
        self.log.append((self.phase, f, K.arr(x0).copy()))

        class Sol:
            pass
        s = Sol()
        s.x, s.success = self.vec(n), True
        return s


def cx(V, nm, lo=.1):
    """a complex number that is not zero or unchanged (C06 decides those)"""
    return V.real(nm+'.r', lo, lo+.9)+1j*V.real(nm+'.i', -1, 1)


def start(V, case):
    P = dict(hs={(0, 0): V.real('h0', .1, 1), (1, 1): V.real('h1', .1, 1), (0, 1): cx(V, 'h01')},
             cou={(0, 1, 1, 0): V.real('U', .1, 1)},
             tl={(l, i): cx(V, 't%d%d' % (l, i)) for l in range(2) for i in range(2)},
             mu=[V.real('mu%d' % l, -1, 1) for l in range(2)], T=[V.real('T%d' % l, 0.25, 1) for l in range(2)],
             D=[[V.real('Dm%d' % l, -60, -40), V.real('Dp%d' % l, 40, 60)] for l in range(2)], sel=[], copy=0,
             kw=dict(kerntype=case['kt'], symq=True, mfreeq=False, norm_row=0, itype=1), itp=2)
    if case['b'] == 'ph':
        P.update(v={(0, 0, 0): V.real('v00', .1, 1), (0, 1, 1): V.real('v11', .1, 1), (0, 0, 1): cx(V, 'v01')},
                 Tp=[V.real('Tp', 0.25, 1)], Dp=[[V.real('Dpm', 0.001, 0.002), V.real('Dpp', 40, 60)]])
    return P


def make(W, V, case, P):
    import copy
    q = W.mod('builder.builder')
    kw = dict(P['kw'])
    if case['b'] == 'mb':
        n = 4
        Ea, T = W.np.zeros(n), W.np.zeros((2, n, n), dtype=complex)
        for i in range(n):
            Ea[i] = P['Ea'][i]
        for (l, i, j), v in P['Tba'].items():
            T[l, i, j] = v
        return q.BuilderManyBody(Ea=Ea, Na=[0, 1, 1, 2], Tba=T, mulst=list(P['mu']), tlst=list(P['T']),
                                 dband=[list(d) for d in P['D']], **kw)
    kw.update(nsingle=2, hsingle=dict(P['hs']), coulomb=dict(P['cou']), nleads=2, tleads=dict(P['tl']),
              mulst=list(P['mu']), tlst=list(P['T']), dband=[list(d) for d in P['D']], indexing='charge')
    if case['b'] == 'ph':
        kw.update(nbaths=1, velph=dict(P['v']), tlst_ph=list(P['Tp']), dband_ph=[list(d) for d in P['Dp']],
                  itype_ph=P['itp'])
        b = q.BuilderElPh(**kw)
    else:
        b = q.Builder(**kw)
    if P['copy'] and not P['kw']['kerntype'].startswith('py'):
        b.make_kern_copy = True
    return b


def arrof(W, xs):
    if xs and isinstance(xs[0], (list, tuple)):
        a = W.np.zeros((len(xs), len(xs[0])))
        for i, r in enumerate(xs):
            for j, v in enumerate(r):
                a[i, j] = v
        return a
    a = W.np.zeros(len(xs))
    for i, v in enumerate(xs):
        a[i] = v
    return a


def apply(W, V, case, b, P, o, n):
    """operation o on builder b; P becomes the parameters a fresh system would be given"""
    g = 'o%d' % n
    kw = P['kw']
    mb = case['b'] == 'mb'
    if o in ('hs', 'hs+'):
        v = {(0, 0): V.real(g+'a', 1.1, 2), (0, 1): cx(V, g+'b', 1.1)}
        (b.change if o == 'hs' else b.add)(hsingle=dict(v))
        for k, x in v.items():
            P['hs'][k] = x if o == 'hs' else P['hs'][k]+x
    elif o == 'cou':
        P['cou'][0, 1, 1, 0] = V.real(g, 1.1, 2)
        b.change(coulomb={(0, 1, 1, 0): P['cou'][0, 1, 1, 0]})
    elif o in ('tl', 'tl+'):
        v = {(0, 1): cx(V, g+'a', 1.1), (1, 0): cx(V, g+'b', 1.1)}
        (b.change if o == 'tl' else b.add)(tleads=dict(v))
        for k, x in v.items():
            P['tl'][k] = x if o == 'tl' else P['tl'][k]+x
    elif o in ('mu', 'mu+'):
        v = V.real(g, -1, 1)
        (b.change if o == 'mu' else b.add)(mulst={1: v})
        P['mu'][1] = v if o == 'mu' else P['mu'][1]+v
    elif o == 'T':
        P['T'][0] = V.real(g, 0.25, 1)
        b.change(tlst={0: P['T'][0]})
    elif o == 'D':
        P['D'][1] = [V.real(g+'m', -60, -40), V.real(g+'p', 40, 60)]
        b.change(dlst={1: list(P['D'][1])})
    elif o == 'D+':
        d = [V.real(g+'m', -60, -40), V.real(g+'p', 40, 60)]
        b.add(dlst={1: list(d)})
        P['D'][1] = [P['D'][1][0]+d[0], P['D'][1][1]+d[1]]
    elif o == 'dband':
        P['D'] = [[V.real(g+'m%d' % l, -60, -40), V.real(g+'p%d' % l, 40, 60)] for l in range(2)]
        b.dband = {l: list(P['D'][l]) for l in range(2)}
    elif o == 'amu':
        P['mu'] = [V.real(g+'_%d' % l, -1, 1) for l in range(2)]
        b.mulst = arrof(W, P['mu'])
    elif o == 'aT':
        P['T'] = [V.real(g+'_%d' % l, 0.25, 1) for l in range(2)]
        b.tlst = arrof(W, P['T'])
    elif o == 'aD':
        P['D'] = [[V.real(g+'m%d' % l, -60, -40), V.real(g+'p%d' % l, 40, 60)] for l in range(2)]
        b.dlst = arrof(W, P['D'])
    elif o == 'imu':
        P['mu'][0] = b.mulst[0] = V.real(g, -1, 1)
    elif o == 'iT':
        P['T'][1] = b.tlst[1] = V.real(g, 0.25, 1)
    elif o == 'iD':
        P['D'][0][1] = b.dlst[0, 1] = V.real(g, 40, 60)
    elif o == 'iTba' and not mb:      # the rotated amplitudes are an output of the next solve
        b.Tba[0, 1, 0] = V.cplx(g, -1, 1)
    elif o == 'symq':
        kw['symq'] = b.symq = not kw['symq']
    elif o == 'mf':
        kw['mfreeq'] = b.mfreeq = not kw['mfreeq']
    elif o == 'lsqr':
        kw['solmethod'] = b.solmethod = 'lsqr'
    elif o == 'row':
        kw['norm_row'] = b.norm_row = 2
    elif o in ('it0', 'it2'):
        kw['itype'] = b.itype = int(o[2])
    elif o == 'copy':
        if not kw['kerntype'].startswith('py'):
            b.make_kern_copy = True
        P['copy'] = 1
    elif o.startswith('k:'):
        b.kerntype = kw['kerntype'] = o[2:]
        P['copy'] = 0       # an attribute of the approach object
    elif o == 'rs':
        b.remove_states(V.real(g, 1.3, 1.4))
    elif o == 'rc':
        b.remove_coherences(V.real(g, 0.1, 0.3))
    elif o == 'all':
        b.use_all_states()
    elif o == 'fock':
        b.remove_fock_states([1])
    elif o in ('v', 'v+'):
        v = {(0, 0, 0): V.real(g+'a', 1.1, 2), (0, 0, 1): cx(V, g+'b', 1.1)}
        (b.change if o == 'v' else b.add)(velph=dict(v))
        for k, x in v.items():
            P['v'][k] = x if o == 'v' else P['v'][k]+x
    elif o == 'Tp':
        P['Tp'] = [V.real(g, 0.25, 1)]
        b.change(tlst_ph={0: P['Tp'][0]})
    elif o == 'Dp':
        P['Dp'] = [[V.real(g+'m', 0.001, 0.002), V.real(g+'p', 40, 60)]]
        b.change(dlst_ph={0: list(P['Dp'][0])})
    elif o == 'aTp':
        P['Tp'] = [V.real(g, 0.25, 1)]
        b.baths.tlst_ph = arrof(W, P['Tp'])
    elif o == 'iTp':
        P['Tp'] = [V.real(g, 0.25, 1)]
        b.baths.tlst_ph[0] = P['Tp'][0]
    elif o == 'iDp':
        P['Dp'][0][1] = b.baths.dlst_ph[0, 1] = V.real(g, 40, 60)
    elif o == 'itp':
        P['itp'] = b.funcp.itype_ph = 0
    elif o in ('aEa', 'iEa'):
        E = [V.real(g+'_%d' % i, *r) for i, r in enumerate(ERNG)]
        P['Ea'] = E
        if o == 'aEa':
            b.Ea = arrof(W, E)
        else:
            for i in range(4):
                b.Ea[i] = E[i]
    elif mb and o in ('aTba', 'iTba'):
        P['Tba'] = tba(V, g)
        if o == 'aTba':
            T = W.np.zeros((2, 4, 4), dtype=complex)
            for k, v in P['Tba'].items():
                T[k] = v
            b.Tba = T
        else:
            for k, v in P['Tba'].items():
                b.Tba[k] = v
    elif o == 'nomaster':
        b.solve(masterq=False)
    elif o == 'nocur':
        b.solve(currentq=False)
    elif o == 'noqd':
        b.solve(qdq=False)
    elif o == 'norot':
        b.solve(rotateq=False)
    else:
        raise ValueError(o)


ERNG = [(-1, -0.9), (-0.2, 0.2), (0.6, 1), (0, 0.25)]


def tba(V, g):
    d = {}
    for l in range(2):
        for b, a in ((1, 0), (2, 0), (3, 1), (3, 2)):
            d[l, b, a] = V.cplx('%stb%d%d%d' % (g, l, b, a), -1, 1)
            d[l, a, b] = V.conj(d[l, b, a])
    return d


def run(W, V, case):
    e = Eig(W, V) if case['b'] != 'mb' else None
    S = Lin(W, V)
    try:
        history(W, V, case, S)
    finally:
        S.close()
        if e and not W.symbolic:
            import importlib
            W.np.linalg.eigh = REAL_EIGH


import numpy as _np
REAL_EIGH = _np.linalg.eigh


def history(W, V, case, S):
    mb = case['b'] == 'mb'
    kw = dict(qdq=False) if mb else {}
    P, Q = start(V, case), start(V, case)
    if mb:
        for X in (P, Q):
            X['Ea'] = [V.real('E%d' % i, *r) for i, r in enumerate(ERNG)]
            X['Tba'] = tba(V, 'i')
    a = make(W, V, case, P)
    S.phase = 'p0'
    a.solve(**kw)
    for n, o in enumerate(case['ops']):
        apply(W, V, case, a, P, o, n)
        S.phase = 'p%d' % (n+1) if n+1 < len(case['ops']) else 'end'
        S.log = []
        a.solve(**kw)
    la = S.log
    # a system that has not been solved before
    if any(o in SEL for o in case['ops']):
        b = make(W, V, case, Q)
        for n, o in enumerate(case['ops']):
            if not mb:
                b.qd.diagonalise()
            if o not in PART:
                apply(W, V, case, b, Q, o, n)
    else:
        b = make(W, V, case, P)
    S.phase, S.log = 'end', []
    b.solve(**kw)
    V.holds('approach', a.kerntype == b.kerntype and type(a.appr).__name__ == type(b.appr).__name__)
    V.holds('solver called equally often', len(la) == len(S.log))
    for (_, k1, v1), (_, k2, v2) in zip(la, S.log):
        V.eqs('matrix handed to the solver', k1, k2)
        V.eqs('right hand side handed to the solver', v1, v2)
    compare(W, V, case, a, b, '')
    if P['copy'] and P['kw']['kerntype'] == Q['kw']['kerntype'] and a.kern is not None:
        V.eqs('kern kept by the solver', a.kern, b.kern)
    mf = P['kw']['mfreeq'] if not any(o in SEL for o in case['ops']) else Q['kw']['mfreeq']
    if not mf:
        V.eqs('kern built once more', K.arr(K.kern_of(a)).copy(), K.arr(K.kern_of(b)).copy())
    n = 4
    for i, j in itertools.product(range(n), range(n)):
        if 'fock' in case['ops'] and max(i, j) >= len(a.qd.Ea):
            continue
        V.eq('get_phi0[%d,%d]' % (i, j), a.get_phi0(i, j), b.get_phi0(i, j))


def compare(W, V, case, a, b, tag):
    for nm in ('current', 'energy_current', 'heat_current', 'phi0'):
        V.eqs(tag+nm, getattr(a, nm), getattr(b, nm))
    V.holds(tag+'success', bool(a.success) == bool(b.success))
    V.holds(tag+'phi1 present', (a.phi1 is None) == (b.phi1 is None))
    if a.phi1 is not None:
        V.eqs(tag+'phi1', a.phi1, b.phi1)
    V.eqs(tag+'Ea', a.Ea, b.Ea)
    V.eqs(tag+'Tba', a.Tba, b.Tba)
