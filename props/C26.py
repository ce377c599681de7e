"""Parallel loops: no two iterations conflict, and the result is that of the sequential loop."""
import itertools

from . import common as K
from . import C21 as R

BOUNDS = ('every parallel loop of the compiled approaches (first-order kernels; RTD second-order, first-order and '
          'off-diagonal loops) on models of 2..6 states (thorough 8), 1-2 leads, 0-1 phonon baths, all indexings, '
          'full and reduced state and coherence sets; one thread per iteration, and 1, 2, 3 threads with contiguous '
          'chunks; a first and a repeated generation; all parameters symbolic')
OUTSIDE = 'a change of the number of threads between the preparation of an approach and its solution'
ASSUMPTIONS = ['special functions are uninterpreted (pure) functions',
               'double arithmetic is treated as exact real arithmetic (the order of the sums over thread copies is immaterial)']
EXPLAIN = ('Every element read or written in an iteration is recorded; a race is two iterations that meet in an element, '
           'one of them writing.  Variables assigned in the loop are private and undefined at the start of an iteration.')
RACES = True
THREADS = 8
CY = ('Pauli', 'Lindblad', 'Redfield', '1vN')
CASE_TIMEOUT = 800


def cases(tier):
    out = []
    for kt in CY:
        for Na in ([0, 1], [0, 1, 1, 2], [1, 0, 2, 1, 1], [0, 1, 1, 1, 2, 2]) + (([0, 1, 1, 1, 2, 2, 2, 3],) if tier == 'thorough' else ()):
            out.append(dict(kt=kt, Na=Na, nl=2, b='mb', seq=''))
        for ix in ('Lin', 'charge', 'sz', 'ssq', 'ph'):
            out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=2 if ix != 'ph' else 1, b=ix, seq=''))
        for seq in ('rs', 'rc', 'rsrc'):
            out.append(dict(kt=kt, Na=[0, 1, 1, 1, 2], nl=1, b='mb', seq=seq))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=1, b='ph', seq='rs'))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=1, b='ph', seq='rc'))
    for pat in ('2', 'v', '4', 'p', '5', 'q', '6'):
        for off in (0, 1):
            out.append(dict(kt='RTD', p=pat, nl=2 if pat in '24vp' else 1, off=off, ph=0, seq='', eqT=0))
    for seq in ('rs', 'rc', 'rsrc'):
        for pat in ('4', 'q', '5'):
            out.append(dict(kt='RTD', p=pat, nl=1, off=1, ph=0, seq=seq, eqT=0))
    out.append(dict(kt='RTD', p='4', nl=1, off=1, ph=1, seq='', eqT=0))
    return out


def weight(c):
    return len(c.get('Na') or R.PATTERNS[c['p']])**3*(4 if c['kt'] == 'RTD' else 1)


def stubs(case):
    return R.stubs(case) if case['kt'] == 'RTD' else K.stubs_elph() if case['b'] == 'ph' else K.stubs_base()


def threads(V, n):
    if V.symbolic:
        from engine import cyrt
        cyrt.PR.nt = n
    else:
        import ctypes
        ctypes.CDLL('libgomp.so.1').omp_set_num_threads(n or THREADS)


def build(W, V, case, m):
    if case['kt'] == 'RTD':
        b = R.build(W, V, case, m, 'RTD')
        R.select(V, b, m, case)
        return b
    bd, n = case['b'], len(case['Na'])
    if bd in ('mb', 'ph'):
        b = m.build(W, case['kt'])
    else:
        nl = case['nl']
        b = W.mod('builder.builder').Builder(nsingle=2, nleads=nl, mulst=m.mu, tlst=m.tl, dband=m.D, itype=1,
                                             kerntype=case['kt'], indexing=bd)
        Ea, T, _ = m.arrays(W)
        st = [s for c in range(b.si.ncharge) for s in b.si.chargelst[c]]
        for i, x in enumerate(st):
            b.qd.Ea[x] = Ea[i]
            for l, (j, y) in itertools.product(range(nl), enumerate(st)):
                b.leads.Tba[l, x, y] = T[l, i, j]
    for o in R.SEQ[case['seq']]:
        if o == 'rs':
            b.remove_states(R.DE(V, n))
        else:
            b.remove_coherences(V.real('dC', 0.65, 0.85))
    return b


def gen(b, case):
    if case['kt'] == 'RTD':
        return R.kernels(None, None, b, 'RTD')
    a = b.appr
    a.prepare_kern()
    a.generate_fct()
    a.generate_kern()
    return dict(kern=K.arr(a.kern).copy(), bvec=K.arr(a.bvec).copy())


def run(W, V, case):
    if case['kt'] == 'RTD':
        m = R.model(W, V, case)
    else:
        m = K.MB(W, V, case['Na'], case['nl'], nbaths=int(case['b'] == 'ph'))
        if case['seq']:
            m.Ea = [V.real('e%d' % i, 0.5*i, 0.5*i+0.1) for i in range(len(case['Na']))]
    try:
        threads(V, 1)
        ref = gen(build(W, V, case, m), case)
        if ref['kern'].shape[0] == 0:
            V.skip = True
            return
        for n in (2, 3, None):
            threads(V, n)
            b = build(W, V, case, m)
            for again in (0, 1):
                k = gen(b, case)
                for x in ref:
                    V.eqs('%s with %s threads%s' % (x, n or 'many', ', repeated' if again else ''), k[x], ref[x])
        if not V.symbolic:
            V.holds('race-free', stress(W, V, case))
    finally:
        threads(V, None)


def stress(W, V, case):
    """many parallel generations of a larger system with the loops of this case, against the sequential one"""
    import time
    import numpy as np
    rs = np.random.RandomState(3)
    n = 4
    h = {(i, j): rs.uniform(-1, 1) for i in range(n) for j in range(i, n)}
    t = {(l, i): rs.uniform(.3, 1) for l in range(2) for i in range(n)}
    q = W.mod('builder.builder')
    kw = dict(nsingle=n, hsingle=h, coulomb={(0, 1, 1, 0): 1.3}, nleads=2, tleads=t, mulst=[.3, -.3], tlst=[.3, .5],
              dband=60., itype=1, kerntype=case['kt'])

    def mk():
        if case.get('b') == 'ph':
            b = q.BuilderElPh(nbaths=1, velph={(0, i, i): rs.uniform(.3, 1) for i in range(1)}, tlst_ph=[1.],
                              dband_ph=[[.1, 50.]], itype_ph=2, **kw)
        else:
            b = q.Builder(**kw)
            b.off_diag_corrections = bool(case.get('off'))
        b.qd.diagonalise()
        b.leads.rotate(b.qd.vecslst) if case.get('b') != 'ph' else (b.leads.rotate(b.qd.vecslst), b.baths.rotate(b.qd.vecslst))
        return b
    threads(V, 1)
    rs = np.random.RandomState(5)
    b = mk()
    ref = gen(b, case)
    threads(V, None)
    rs = np.random.RandomState(5)
    b = mk()
    end = time.time()+4
    for _ in range(400):
        k = gen(b, case)
        for x in ref:
            s = np.max(np.abs(ref[x])) if ref[x].size else 0
            if ref[x].size and not np.max(np.abs(k[x]-ref[x])) <= 1e-9*max(s, 1e-30):
                return False
        if time.time() > end:
            break
    return True
