"""Equations and currents do not depend on how leads and baths are labelled, split or phased."""
import copy
import itertools

from . import common as K

BOUNDS = ('many-body models of 2..5 states (patterns 01, 0112, 00112; with phonon baths 01, 0112), 2-3 leads and 1-2 '
          'baths; all permutations of them; splitting any lead into two with amplitudes c*t, s*t and multiplying one '
          'by u=c+is for arbitrary real c, s (the equations then scale with c^2+s^2, which is 1 in the statement); all '
          'energies, amplitudes, lead parameters and density matrices symbolic; all first-order approaches')
OUTSIDE = 'larger systems; RTD and 2vN (C21, C22)'
ASSUMPTIONS = ['func_pauli, func_1vN, FuncPauliElPh, Func1vNElPh are uninterpreted functions of all their arguments',
               'Tba is Hermitian and connects neighbouring charges only (established by C04)']


def cases(tier):
    out = []
    for kt in K.BASE:
        for Na in ([0, 1], [0, 1, 1, 2], [0, 0, 1, 1, 2]):
            for what in ('perm', 'split', 'phase'):
                out.append(dict(kt=kt, Na=Na, nl=2, nb=0, what=what))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=3, nb=0, what='perm'))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=1, nb=2, what='bperm'))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=1, nb=1, what='bsplit'))
        out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=1, nb=1, what='phase'))
        if tier == 'thorough':
            out.append(dict(kt=kt, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=2, nb=0, what='perm'))
            out.append(dict(kt=kt, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=2, nb=0, what='split'))
    return out


def weight(c):
    return len(c['Na'])**3*(c['nl']+c['nb'])


def stubs(case):
    return K.stubs_elph() if case['nb'] else K.stubs_base()


def scaled(T, f, V):
    """amplitudes t -> f t of one lead: matrix elements raising the charge by f, lowering by conj f"""
    n = len(T)
    up, dn = f
    return lambda b, a, Na: T[b][a]*(up if Na[b] == Na[a]+1 else dn) if not _zero(T[b][a]) else 0.0


def _zero(x):
    return not K.is_sym(x) and x == 0


def with_lead(m, l, new):
    """replace lead l by a list of (factor up, factor down) copies"""
    m = copy.copy(m)
    n = len(m.Na)
    T, mu, tl, D = [], [], [], []
    for k in range(m.nleads):
        for f in (new if k == l else [None]):
            if f is None:
                T.append(m.T[k])
            else:
                g = scaled(m.T[k], f, None)
                T.append([[g(b, a, m.Na) for a in range(n)] for b in range(n)])
            mu.append(m.mu[k])
            tl.append(m.tl[k])
            D.append(m.D[k])
    m.T, m.mu, m.tl, m.D, m.nleads = T, mu, tl, D, len(T)
    return m


def with_bath(m, factors):
    m = copy.copy(m)
    n = len(m.Na)
    m.V = [[[m.V[0][b][a]*f if not _zero(m.V[0][b][a]) else 0.0 for a in range(n)] for b in range(n)] for f in factors]
    m.tph, m.Dph, m.nbaths = [m.tph[0]]*len(factors), [m.Dph[0]]*len(factors), len(factors)
    return m


def permuted(m, p, baths=False):
    m = copy.copy(m)
    if baths:
        m.V, m.tph, m.Dph = [[x[i] for i in p] for x in (m.V, m.tph, m.Dph)]
    else:
        m.T, m.mu, m.tl, m.D = [[x[i] for i in p] for x in (m.T, m.mu, m.tl, m.D)]
    return m


def equations(W, V, m, kt, phi=None):
    b = m.build(W, kt)
    k = K.arr(K.kern_of(b)).copy()
    phi = density(V, b) if phi is None else phi
    K.set_phi0(b, phi)
    cur = []
    for x in ('current', 'energy_current', 'heat_current'):
        getattr(b, x)[:] = 0
    b.appr.generate_current()
    for x in ('current', 'energy_current', 'heat_current'):
        cur.append([getattr(b, x)[l] for l in range(m.nleads)])
    return k, cur, phi


def density(V, b):
    return K.density(V, b)


NAMES = ('current', 'energy_current', 'heat_current')


def run(W, V, case):
    kt, nl, nb, what = case['kt'], case['nl'], case['nb'], case['what']
    m = K.MB(W, V, case['Na'], nl, nbaths=nb)
    k, cur, phi = equations(W, V, m, kt)
    if what in ('perm', 'bperm'):
        for p in list(itertools.permutations(range(nl if what == 'perm' else nb)))[1:]:
            k2, cur2, _ = equations(W, V, permuted(m, p, what == 'bperm'), kt, phi)
            tag = ''.join(map(str, p))
            V.eqs('kern of permutation '+tag, k2, k)
            for nm, x, y in zip(NAMES, cur2, cur):
                for i in range(nl):
                    V.eq('%s of permutation %s[%d]' % (nm, tag, i), x[i], y[p[i] if what == 'perm' else i])
        return
    c, s = V.real('c', -1, 1), V.real('s', -1, 1)
    q = c*c+s*s
    if what == 'bsplit':
        k0, cur0, _ = equations(W, V, with_bath(m, [0.0]), kt, phi)
        k2, cur2, _ = equations(W, V, with_bath(m, [c, s]), kt, phi)
        lin(V, 'kern of two baths', k2, k, k0, q)
        for nm, x, y in zip(NAMES, cur2, cur):
            V.eqs(nm+' of two baths', x, y)
        return
    for l in range(nl):
        k0, cur0, _ = equations(W, V, with_lead(m, l, [(0.0, 0.0)]), kt, phi)
        if what == 'split':
            k2, cur2, _ = equations(W, V, with_lead(m, l, [(c, c), (s, s)]), kt, phi)
            for nm, x in zip(NAMES, range(3)):
                cur2[x] = cur2[x][:l]+[cur2[x][l]+cur2[x][l+1]]+cur2[x][l+2:]
        else:
            u = c+s*V_i(V)
            k2, cur2, _ = equations(W, V, with_lead(m, l, [(u, V.conj(u))]), kt, phi)
        lin(V, 'kern %s %d' % (what, l), k2, k, k0, q)
        for nm, x, y in zip(NAMES, cur2, cur):
            for i in range(nl):
                V.eq('%s %s %d[%d]' % (nm, what, l, i), x[i], y[i]*(q if i == l else 1))


def V_i(V):
    from engine.sym import C
    return C(0.0, 1.0) if V.symbolic else 1j


def lin(V, name, k2, k, k0, q):
    V.holds(name+' same shape', k2.shape == k.shape)
    n, r = k.shape
    for i in range(n):
        for j in range(r):
            V.eq('%s[%d,%d]' % (name, i, j), k2[i, j]-k0[i, j], q*(k[i, j]-k0[i, j]))
