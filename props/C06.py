"""A history of add/change calls equals building with the final parameters."""
import itertools
from . import common as K, fock

BOUNDS = ('all pairs (thorough: also all triples) of add/change calls on each of the Hamiltonian, the leads and the '
          'baths, selected triples across them, every input format, all values symbolic (including zero and equal '
          'ones); 3 orbitals, or 2 spatial orbitals with the spin option; 2 leads, 2 baths; charge/Lin/sz/ssq indexing')
OUTSIDE = 'longer histories (each call only depends on the accumulated state, which the pairs reach)'
ASSUMPTIONS = ['double arithmetic is treated as exact real arithmetic',
               'with automatic conjugation an element and its conjugate are not both given']
MAX_PATHS = 3000

OPS = {
    'qd': [(a, p, f) for a in ('add', 'change') for p in ('hsingle', 'coulomb') for f in ('dict', 'list', 'array')],
    'leads': [(a, p, f) for a in ('add', 'change') for p, fs in (
        ('tleads', ('dict', 'list', 'array')), ('mulst', ('num', 'list', 'dict', 'array')), ('tlst', ('num', 'dict')),
        ('dlst', ('num', 'list', 'dict', 'pairs', 'dpairs', 'array'))) for f in fs],
    'baths': [(a, p, f) for a in ('add', 'change') for p, fs in (
        ('velph', ('dict', 'list', 'array')), ('tlst_ph', ('num', 'list', 'dict', 'array')),
        ('dlst_ph', ('num', 'list', 'dict', 'pairs', 'dpairs'))) for f in fs]}
REL = {'hsingle': 'H', 'coulomb': 'H', 'tleads': 't', 'velph': 'v'}


def cases(tier):
    out = []

    def add(ops, ix='charge', spin=0, herm_c=0, ini='dict', swap=0):
        out.append(dict(ops=[list(o) for o in ops], ix=ix, spin=spin, herm_c=herm_c, ini=ini, swap=swap))
    for comp, ops in OPS.items():
        for o in ops:
            for spin in (0, 1):
                for ini in ('dict', 'list', 'array'):
                    if spin or ini != 'dict':
                        add([o], spin=spin, ini=ini)
        for a, b in itertools.product(ops, repeat=2):
            # different parameters do not share state, except that both kinds make up the Hamiltonian
            if REL.get(a[1], a[1]) != REL.get(b[1], b[1]):
                continue
            add([a, b], ix='Lin' if len(out) % 3 == 0 else 'charge')
            if a[0] != b[0] or tier == 'thorough':
                add([a, b], spin=1, ix=('charge', 'sz', 'ssq')[len(out) % 3])
        if tier == 'thorough':
            for a, b, c in itertools.product(ops, repeat=3):
                if len({REL.get(x[1], x[1]) for x in (a, b, c)}) == 1 and (hash_(a, b, c) % 4 == 0):
                    add([a, b, c], spin=len(out) % 2, ix='charge')
    for o in OPS['qd']:
        if o[1] == 'coulomb':
            for swap in (0, 1):
                add([o], spin=1, herm_c=1, swap=swap)
                add([o, ('change', 'coulomb', 'dict')], spin=1, herm_c=1, swap=swap)
    mixed = [[('change', 'hsingle', 'dict'), ('add', 'coulomb', 'dict'), ('change', 'hsingle', 'list')],
             [('change', 'tleads', 'dict'), ('change', 'mulst', 'dict'), ('add', 'tleads', 'list')],
             [('add', 'velph', 'dict'), ('change', 'hsingle', 'list'), ('change', 'velph', 'list')],
             [('add', 'dlst', 'num'), ('change', 'dlst', 'dpairs'), ('add', 'dlst', 'dict')],
             [('rmfock', 'x', 'x'), ('change', 'hsingle', 'dict'), ('change', 'tleads', 'dict')],
             [('change', 'tleads', 'dict'), ('change', 'velph', 'dict'), ('rmfock', 'x', 'x')],
             [('add', 'hsingle', 'dict'), ('rmfock', 'x', 'x'), ('change', 'coulomb', 'list')],
             [('change', 'velph', 'list'), ('rmfock', 'x', 'x'), ('add', 'velph', 'dict')],
             [('change', 'dband', 'dict'), ('change', 'mulst', 'num'), ('change', 'dband', 'num')]]
    for m in mixed:
        add(m)
        if not any(o[0] == 'rmfock' for o in m):
            add(m, spin=1, ix='sz')
    return out


def hash_(*a):
    import hashlib
    return int(hashlib.md5(repr(a).encode()).hexdigest(), 16)


def weight(c):
    return 4**len(c['ops'])*(4 if any(o[2] == 'array' for o in c['ops']) else 1)*(3 if c['spin'] else 1)


def keyset(p, fmt, o, swap, step):
    """which elements a call touches"""
    if p == 'hsingle':
        if fmt == 'array':
            return [(0, 0), (0, 1), (1, 1)]
        return [(0, 0), (0, 1)] if fmt == 'dict' else [(0, 1), (1, 1)]
    if p == 'coulomb':
        if o == 2:
            ks = [(0, 1, 1, 0), (0, 0, 0, 1)] if fmt == 'dict' else [(0, 1, 1, 0), (0, 1, 0, 1)]
        else:
            ks = [(0, 1, 1, 0), (0, 1, 2, 0)] if fmt == 'dict' else [(0, 1, 2, 0), (0, 2, 2, 0)]
        return ks
    if p == 'tleads':
        return {'array': None, 'dict': [(0, 0), (1, 1)], 'list': [(0, 0), (0, 1)]}[fmt]
    if p == 'velph':
        return {'array': None, 'dict': [(0, 0, 0), (1, 0, 1)], 'list': [(0, 0, 0), (0, 1, 0)]}[fmt]


class Model:
    """accumulated single-particle parameters (before the spin expansion)"""

    def __init__(self):
        self.d = {'hsingle': {}, 'coulomb': {}, 'tleads': {}, 'velph': {}}
        self.a = {}

    def apply(self, act, p, vals):
        for k, v in vals.items():
            self.d[p][k] = self.d[p][k]+v if act == 'add' and k in self.d[p] else v


PARS = ('mulst', 'tlst', 'dlst', 'tlst_ph', 'dlst_ph')


def run(W, V, case):
    spin, hc, swap = case['spin'], case['herm_c'], case['swap']
    ns = 4 if spin else 3
    o = 2 if spin else 3
    nl, nlo, nb = (4, 2, 2) if spin else (2, 2, 2)
    m = Model()
    used = {x[1] for x in case['ops']}
    Hq = bool(used & {'hsingle', 'coulomb'}) or 'x' in used
    Tq = 'tleads' in used or 'x' in used
    Vq = 'velph' in used or 'x' in used
    ini = case['ini']
    base = {'hsingle': {(0, 0): V.real('h00', -1, 1), (0, 1): mkc(V, 'h01', ini), (o-1, o-1): V.real('h11', 0.1, 1)},
            'coulomb': {(0, 1, 1, 0): V.real('U0', 0.1 if ini == 'list' else -1, 1), (0, 1, 0, 1) if o == 2 else (0, 1, 2, 0): V.real('U1', 0.1, 1)},
            'tleads': {(0, 0): mkc(V, 't00', ini), (1, 0): mkc(V, 't10', ini), (1, 1): mkc(V, 't11', ini)},
            'velph': {(0, 0, 0): V.real('v0', 0.1, 1), (0, 0, 1): mkc(V, 'v1', ini), (1, 0, 1): mkc(V, 'v2', ini)}}
    if hc:      # the physical partners of one another in the order that the options allow
        u = V.cplx('Uc', -1, 1)
        prs = [((0, 0, 0, 1), u), ((0, 1, 0, 0), V.conj(u))]
        base['coulomb'] = dict(prs)
    if not (Hq):
        base['hsingle'], base['coulomb'] = {}, {}
    if not Tq:
        base['tleads'] = {}
    if not Vq:
        base['velph'] = {}
    for p, d in base.items():
        m.apply('change', p, d)
    m.a = {'mulst': [V.real('mu%d' % l, -1, 1) for l in range(nlo)], 'tlst': [V.real('T%d' % l, 0.25, 1) for l in range(nlo)],
           'dlst': [[V.real('Dm%d' % l, -60, -40), V.real('Dp%d' % l, 40, 60)] for l in range(nlo)],
           'tlst_ph': [V.real('Tp%d' % l, 0.25, 1) for l in range(nb)],
           'dlst_ph': [[V.real('Dpm%d' % l, 0.001, 0.002), V.real('Dpp%d' % l, 40, 60)] for l in range(nb)]}
    si = dict(symmetry=''.join(['sp', 'in'])) if spin else {}
    q = W.mod('builder.builder')
    arg = {p: cont(W, ini, p, d, o, nlo, nb) for p, d in m.d.items()}
    if spin:
        args = direct(W, case, arg, m, ns, nl, nb, si)
    else:
        args = builder(W, case, arg, m, ns, nl, nb, q)
    tgt, watch0 = args
    removed = []
    for n, (act, p, fmt) in enumerate(case['ops']):
        if act == 'rmfock':
            removed = sorted(set(removed) | {1, 6})
            tgt['rm']([1, 6])
            continue
        val, vals = make(W, V, n, p, fmt, o, nlo, nb, hc, swap, act)
        snap = snapshot(val)
        tgt[act](**{p: val}) if p != 'dband' else tgt['dband'](val)
        V.holds('argument of call %d untouched' % n, same(snap, snapshot(val)))
        if p in m.d:
            m.apply(act, p, vals)
        else:
            pp = 'dlst' if p == 'dband' else p
            for l, v in vals.items():
                if pp.startswith('dlst'):
                    m.a[pp][l] = [m.a[pp][l][0]+v[0], m.a[pp][l][1]+v[1]] if act == 'add' else list(v)
                else:
                    m.a[pp][l] = m.a[pp][l]+v if act == 'add' else v
    for nm, (obj, snap) in watch0.items():
        V.holds('constructor argument %s untouched' % nm, same(snap, snapshot(obj)))
    check(W, V, case, tgt, m, ns, nl, nb, o, nlo, Hq, Tq, Vq)


def mkc(V, n, ini):
    return V.cplx(n, -1, 1) if ini == 'dict' else V.real(n+'.r', 0.1, 1)+1j*V.real(n+'.i', -1, 1)


def cont(W, fmt, p, d, o, nl, nb):
    if fmt == 'dict':
        return dict(d)
    if fmt == 'list' or p == 'coulomb' and fmt == 'list':
        return [list(k)+[v] for k, v in d.items()]
    if p == 'coulomb':
        a = W.np.zeros((len(d), 5), dtype=complex)
        for i, (k, v) in enumerate(d.items()):
            for j in range(4):
                a[i, j] = k[j]
            a[i, 4] = v
        return a
    a = W.np.zeros({'hsingle': (o, o), 'tleads': (nl, o), 'velph': (nb, o, o)}[p], dtype=complex)
    for k, v in d.items():
        a[k] = v
        if p == 'hsingle' and k[0] != k[1]:
            a[k[1], k[0]] = v.conjugate()
    return a


def make(W, V, n, p, fmt, o, nlo, nb, hc, swap, act):
    """the argument of call n and what it means"""
    tag = 'x%d_' % n
    if p in ('hsingle', 'coulomb', 'tleads', 'velph'):
        if hc:
            u = V.cplx(tag+'u', -1, 1)
            prs = [((0, 0, 0, 1), u), ((0, 1, 0, 0), V.conj(u))]
            vals = dict(prs[::-1] if swap else prs)
        else:
            ks = keyset(p, fmt, o, swap, n)
            if ks is None:
                ks = [(0, 0), (1, 1)] if p == 'tleads' else [(0, 0, 1), (1, 1, 1)]
            vals = {}
            for k in ks:
                nm = tag+''.join(map(str, k))
                vals[k] = V.real(nm, -1, 1) if (p == 'hsingle' and k[0] == k[1]) or (
                    p in ('coulomb', 'velph')) else V.cplx(nm, -1, 1)
        if fmt == 'array' and p != 'coulomb':
            a = cont(W, 'array', p, vals, o, nlo, nb)
            if act == 'change':     # every element of the array counts
                import numpy as np
                for ix in np.ndindex(*a.shape):
                    if p == 'hsingle' and ix[0] > ix[1]:
                        continue
                    vals.setdefault(tuple(ix), 0)
            return a, vals
        return cont(W, fmt, p, vals, o, nlo, nb), vals
    cnt = nlo if not p.endswith('_ph') else nb
    if p in ('mulst', 'tlst', 'tlst_ph'):
        v = [V.real(tag+'%d' % l, -1, 1) for l in range(cnt)]
        if fmt == 'num':
            return v[0], {l: v[0] for l in range(cnt)}
        if fmt == 'dict':
            return {1: v[1]}, {1: v[1]}
        if fmt == 'list':
            return list(v), dict(enumerate(v))
        a = W.np.zeros(cnt)
        for l in range(cnt):
            a[l] = v[l]
        return a, dict(enumerate(v))
    v = [V.real(tag+'%d' % l, 1, 2) for l in range(cnt)]
    w = [[V.real(tag+'m%d' % l, -2, -1), V.real(tag+'p%d' % l, 1, 2)] for l in range(cnt)]
    if fmt == 'num':
        return v[0], {l: [-v[0], v[0]] for l in range(cnt)}
    if fmt == 'list':
        return list(v), {l: [-v[l], v[l]] for l in range(cnt)}
    if fmt == 'dict':
        return {1: v[1]}, {1: [-v[1], v[1]]}
    if fmt == 'dpairs':
        return {0: list(w[0])}, {0: w[0]}
    if fmt == 'pairs':
        return [list(x) for x in w], dict(enumerate(w))
    a = W.np.zeros((cnt, 2))
    for l in range(cnt):
        a[l, 0], a[l, 1] = w[l]
    return a, dict(enumerate(w))


def snapshot(x):
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snapshot(v) for v in x]
    if hasattr(x, 'shape') and getattr(x, 'shape', ()) != ():
        return [snapshot(v) for v in K.arr(x).tolist()]
    return x


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is b:
        return True
    return not K.is_sym(a) and not K.is_sym(b) and a == b


def direct(W, case, arg, m, ns, nl, nb, kw):
    """the three parts of a system with the spin option"""
    si = W.mod('indexing').StateIndexingDM(ns, case['ix'], **kw)
    mu, tl, dl, tp, dp = [[list(x) if isinstance(x, list) else x for x in m.a[k]] for k in PARS]
    watch = {k: (v, snapshot(v)) for k, v in dict(arg, mulst=mu, tlst=tl, dlst=dl, tlst_ph=tp, dlst_ph=dp).items()}
    qd = W.mod('qdot').QuantumDot(arg['hsingle'], arg['coulomb'], si, True, bool(case['herm_c']), True, complex, True)
    lt = W.mod('leadstun').LeadsTunneling(nl, arg['tleads'], si, mu, tl, dl, complex)
    ba = W.mod('baths').PhononBaths(nb, arg['velph'], si, tp, dp, None, complex)

    def fan(act):
        def f(**k):
            for n in k:
                getattr(qd if n in ('hsingle', 'coulomb') else lt if n in ('tleads', 'mulst', 'tlst', 'dlst') else ba,
                        act)(**k)
        return f

    def dband(v):
        lt.change(dlst=v)
    return dict(add=fan('add'), change=fan('change'), dband=dband, qd=qd, lt=lt, ba=ba, si=si), watch


def builder(W, case, arg, m, ns, nl, nb, q):
    mu, tl, dl, tp, dp = [[list(x) if isinstance(x, list) else x for x in m.a[k]] for k in PARS]
    kw = dict(arg, mulst=mu, tlst=tl, dband=dl, tlst_ph=tp, dband_ph=dp)
    watch = {k: (v, snapshot(v)) for k, v in kw.items()}
    b = q.BuilderElPh(nsingle=ns, nleads=nl, nbaths=nb, indexing=case['ix'], kerntype='pyPauli', itype=1, itype_ph=2,
                      mtype_qd=complex, **kw)

    def dband(v):
        b.dband = v
    return dict(add=b.add, change=b.change, rm=b.remove_fock_states, dband=dband, qd=b.qd, lt=b.leads, ba=b.baths,
                si=b.si), watch


def check(W, V, case, tgt, m, ns, nl, nb, o, nlo, Hq, Tq, Vq):
    spin = case['spin']
    qd, lt, ba, si = tgt['qd'], tgt['lt'], tgt['ba'], tgt['si']
    if 'rm' in tgt and any(x[0] == 'rmfock' for x in case['ops']):
        V.holds('states removed', si.nmany == 6)

    def exp(p, shift):
        d = dict(m.d[p])
        if spin:
            for k, v in m.d[p].items():
                d[tuple(i+s for i, s in zip(k, shift))] = v
        return d
    st = [tuple(si.get_state(x)) for x in range(si.nmany)]
    if Hq:
        hs = exp('hsingle', (o, o))
        H = fock.hamiltonian(V, ns, hs, {} if spin else m.d['coulomb'], True, bool(case['herm_c']), True)
        if spin:
            put_coulomb(V, H, m.d['coulomb'], o, case['herm_c'])
        hk = {k: v for k, v in qd.hsingle.items()}
        for k, v in hs.items():
            V.eq('hsingle%s' % (k,), hk.get(k, 0), v)
        V.holds('no other hsingle', all(k in hs for k in hk))
        if not spin:
            for k, v in m.d['coulomb'].items():
                V.eq('coulomb%s' % (k,), qd.coulomb.get(k, 0), v)
        from .C03 import compare
        compare(V, case['ix'], si, qd, H, '')
    if Tq:
        t = exp('tleads', (nlo, o))
        T = fock.tunnelling(V, ns, nl, t)
        for l in range(nl):
            for i in range(ns):
                V.eq('tleads[%d,%d]' % (l, i), lt.tleads.get((l, i), 0), t.get((l, i), 0))
                V.eq('tleads_array[%d,%d]' % (l, i), K.arr(lt.tleads_array)[l, i], t.get((l, i), 0))
        mats(V, 'Tba0', K.arr(lt.Tba0), T, st)
        lt.use_Tba0()
        mats(V, 'Tba', K.arr(lt.Tba), T, st)
    if Vq:
        v = exp('velph', (0, o, o))
        T = fock.phonon(V, ns, nb, v)
        for k in v:
            V.eq('velph%s' % (k,), ba.velph.get(k, 0), v[k])
        mats(V, 'Vbbp0', K.arr(ba.Vbbp0), T, st)
        ba.use_Vbbp0()
        mats(V, 'Vbbp', K.arr(ba.Vbbp), T, st)
    for p in PARS:
        obj = ba if p.endswith('_ph') else lt
        a = K.arr(getattr(obj, p))
        want = m.a[p]
        if spin and not p.endswith('_ph'):
            want = want+want
        V.holds(p+' size', len(a) == len(want))
        for l, x in enumerate(want):
            if isinstance(x, list):
                for s in (0, 1):
                    V.eq('%s[%d,%d]' % (p, l, s), a[l, s], x[s])
            else:
                V.eq('%s[%d]' % (p, l), a[l], x)


def put_coulomb(V, H, cou, o, hc):
    """both orders of an m<n element, or the two orders of an m=n one, are one number; conjugates as well"""
    seen = {}
    for (m, n, k, l), u in cou.items():
        ks = [((m, n, k, l), u), ((n, m, l, k), u)]
        if hc:
            ks += [((l, k, n, m), V.conj(u)), ((k, l, m, n), V.conj(u))]
        for k_, v in ks:
            seen[k_] = v
        # spin-parallel part: exactly as for any element
        if m != n and k != l:
            for s in (0, o):
                cj = V.conj(u) if hc and (m, n, k, l) != (l, k, n, m) and not l > k else None
                H.term(u, [('+', m+s), ('+', n+s), ('-', k+s), ('-', l+s)], cj)
    for (m, n, k, l), u in seen.items():
        H.term(u, [('+', m), ('+', n+o), ('-', k+o), ('-', l)])


def mats(V, nm, M, T, st):
    V.holds(nm+' shape', M.shape == (len(T), len(st), len(st)))
    for l in range(len(T)):
        for a, s in enumerate(st):
            for b, t in enumerate(st):
                V.eq(nm+'[%d,%d,%d]' % (l, a, b), M[l, a, b], T[l].el(s, t))
