"""Density-matrix element indexing is a consistent bijection."""
import itertools
from . import common as K

BOUNDS = ('1..4 orbitals for Lin/charge/sz/ssq and both density-matrix index classes plus the population-only one; any '
          'subset of up to 8 kept states, symbolic; any set of kept coherences selected by symbolic energies and a '
          'symbolic threshold for 3..6 states; one or two selections in a row; symbolic pairs of elements')
OUTSIDE = 'more states; for ssq only multiplet-complete selections (the ones energies can select)'
ASSUMPTIONS = []
MAX_PATHS = 3000
CLS = ('StateIndexingDM', 'StateIndexingDMc', 'StateIndexingPauli')


def cases(tier):
    out = []
    for cls in CLS:
        for ix in ('Lin', 'charge', 'sz', 'ssq'):
            for ns in (1, 2, 3, 4) + ((5, 6) if tier == 'thorough' and cls != 'StateIndexingDMc' else ()):
                if ix in ('sz', 'ssq') and ns % 2:
                    continue
                out.append(dict(cls=cls, ix=ix, ns=ns, mode='full', n=0))
            out.append(dict(cls=cls, ix=ix, ns=2, mode='twice', n=4))
        for ix in ('Lin', 'charge', 'sz'):
            if ix != 'sz':
                out.append(dict(cls=cls, ix=ix, ns=3, mode='sub', n=8))
            out.append(dict(cls=cls, ix=ix, ns=4, mode='sub', n=6 if tier == 'quick' else 9))
        out.append(dict(cls=cls, ix='ssq', ns=4, mode='sub', n=6 if tier == 'quick' else 10))
    for kt in ('py1vN', 'py2vN'):
        for Na in ([0, 1, 1], [0, 1, 1, 2], [1, 1, 1], [0, 0, 1, 1], [0, 1, 1, 1]):
            out.append(dict(cls=kt, ix='mb', ns=len(Na), mode='coh', n=1, Na=Na))
            if tier == 'thorough' or kt == 'py1vN':
                out.append(dict(cls=kt, ix='mb', ns=len(Na), mode='coh', n=2, Na=Na))
        out.append(dict(cls=kt, ix='mb', ns=3, mode='subcoh', n=1, Na=[0, 1, 1]))
        if tier == 'thorough':
            out.append(dict(cls=kt, ix='mb', ns=4, mode='subcoh', n=1, Na=[0, 1, 1, 1]))
    for ix in ('charge', 'sz', 'ssq'):
        for kt in ('py1vN', 'py2vN'):
            if kt == 'py1vN' or ix == 'charge':     # 2vN only allows Lin and charge
                out.append(dict(cls=kt, ix=ix, ns=2, mode='ixcoh', n=1, Na=[]))
    if tier == 'thorough':
        out.append(dict(cls='py1vN', ix='ssq', ns=4, mode='ixcoh', n=1, Na=[]))
        out.append(dict(cls='py1vN', ix='sz', ns=4, mode='ixcoh', n=1, Na=[]))
    return out


def weight(c):
    return 2**c['n'] if c['mode'] == 'sub' else 50*c['n'] + c['ns']


def units(si, ix):
    """sets of states that can only be kept or dropped together"""
    if ix != 'ssq':
        return [[s] for c in range(si.ncharge) for s in si.chargelst[c]]
    d = {}
    for s, q in si.ind_qn.items():
        d.setdefault((q[0], q[2], q[3]), []).append(s)
    return [sorted(d[k]) for k in sorted(d)]


def run(W, V, case):
    if case['mode'] in ('coh', 'subcoh', 'ixcoh'):
        return run_coh(W, V, case)
    si = getattr(W.mod('indexing'), case['cls'])(case['ns'], case['ix'])
    if case['mode'] == 'full':
        return check(V, si, case['ix'], None, '')
    un = units(si, case['ix'])
    for step in range(2 if case['mode'] == 'twice' else 1):
        drop = set()
        n = case['n']
        # spread the symbolic choices over the list of units
        for i in range(min(n, len(un))):
            u = un[(i*len(un))//min(n, len(un))]
            if V.pick('drop%d_%d' % (step, i), 2):
                drop |= set(u)
        keep = [[s for s in si.chargelst[c] if s not in drop] for c in range(si.ncharge)]
        arg = [list(x) for x in keep]
        si.set_statesdm(arg)
        V.holds('argument untouched %d' % step, arg == keep)
        check(V, si, case['ix'], None, 'step %d ' % step, keep)


def run_coh(W, V, case):
    if case['mode'] == 'ixcoh':
        q = W.mod('builder.builder')
        b = q.BuilderBase(nsingle=case['ns'], indexing=case['ix'], kerntype=case['cls'], itype=1,
                          **(dict(kpnt=4) if '2vN' in case['cls'] else {}))
        n = 2**case['ns']
        en = {}
        for s in range(n):      # members of a multiplet have one energy
            key = ('E', s) if case['ix'] != 'ssq' else (b.si.ind_qn[s][0], b.si.ind_qn[s][2], b.si.ind_qn[s][3])
            if key not in en:
                en[key] = V.real('E%d' % len(en), -1, 1)
            b.qd.Ea[s] = en[key]
        Ea = b.qd.Ea
    else:
        m = K.MB(W, V, case['Na'], 1)
        b = m.build(W, case['cls'], **(dict(kpnt=4) if '2vN' in case['cls'] else {}))
        Ea = b.qd.Ea
        if case['mode'] == 'subcoh':
            b.remove_states(V.real('dEs', 0.01, 2))
    kept = None
    for step in range(case['n']):
        dE = V.real('dE%d' % step, 0, 2)
        before = kept
        b.remove_coherences(dE)
        kept = {}
        for c in range(b.si.ncharge):
            for x, y in itertools.permutations(b.si.statesdm[c], 2):
                if not sym_ok(b.si, case['ix'], x, y):
                    continue
                close = abs(Ea[x]-Ea[y]) <= dE
                if before is not None:
                    close = V.land(close, before[x, y])
                kept[x, y] = close
        check(V, b.si, case['ix'], kept, 'step %d ' % step)


def sym_ok(si, ix, x, y):
    if ix == 'sz':
        return si.ind_qn[x][1] == si.ind_qn[y][1]
    if ix == 'ssq':
        return si.ind_qn[x][1:3] == si.ind_qn[y][1:3]
    return True


def canon(si, ix, x, y):
    """representative of the element: for ssq all members of a multiplet share one value"""
    if ix == 'ssq' and sym_ok(si, ix, x, y):
        qx, qy = si.ind_qn[x], si.ind_qn[y]
        return ('m', qx[0], qx[2], qx[3], qy[3])
    return ('p', x, y)


def check(V, si, ix, kept, tag, want=None):
    """kept: None (all allowed elements) or dict of conditions for the coherences"""
    cls = type(si).__name__
    pauli = cls == 'StateIndexingPauli'
    dmc = cls == 'StateIndexingDMc'
    if want is not None:
        V.holds(tag+'kept states', [sorted(x) for x in si.statesdm[:si.ncharge]] == [sorted(x) for x in want])
    el = []     # (charge, b, bp, slot, bool, conj)
    for c in range(si.ncharge):
        for b in si.statesdm[c]:
            for bp in si.statesdm[c]:
                if pauli and b != bp:
                    continue
                slot = int(si.get_ind_dm0(b, bp, c, maptype=1))
                bl = bool(si.get_ind_dm0(b, bp, c, maptype=2))
                cj = bool(si.get_ind_dm0(b, bp, c, maptype=3)) if cls == 'StateIndexingDM' else True
                el.append((c, b, bp, slot, bl, cj))
    diag = [e for e in el if e[1] == e[2]]
    npop = len({canon(si, ix, e[1], e[1]) for e in diag})
    V.holds(tag+'number of populations', int(si.npauli) == npop)
    if not pauli:
        ndm0 = int(si.ndm0)
    else:
        ndm0 = int(si.npauli)
    if not el:
        return
    # which elements ought to exist
    want_ = [True if e[1] == e[2] else (sym_ok(si, ix, e[1], e[2]) and (True if kept is None else kept[e[1], e[2]]))
             for e in el]
    p = V.index('p'+tag, len(el))
    q = V.index('q'+tag, len(el))
    slot = [e[3] for e in el]
    sp, sq = V.sel(slot, p), V.sel(slot, q)
    wp = V.sel([num(V, w) for w in want_], p)
    V.holds(tag+'kept elements have a slot', V.lor(V.same(wp, 0), V.land(sp >= 0, sp <= ndm0-1)))
    V.holds(tag+'dropped elements have none', V.lor(V.same(wp, 1), V.same(sp, -1)))
    # sharing
    ids = {}
    for e in el:
        k = canon(si, ix, e[1], e[2])
        if not dmc and e[1] != e[2]:
            k2 = canon(si, ix, e[2], e[1])
            k = min(k, k2)
        ids.setdefault(k, len(ids))
    cid = []
    for e in el:
        k = canon(si, ix, e[1], e[2])
        if not dmc and e[1] != e[2]:
            k = min(k, canon(si, ix, e[2], e[1]))
        cid.append(ids[k])
    same = V.same(V.sel(cid, p), V.sel(cid, q))
    V.holds(tag+'one element has one slot', V.lor(V.lnot(same), V.same(sp, sq)))
    V.holds(tag+'distinct elements have distinct slots', V.lor(V.same(sp, -1), V.lnot(V.same(sp, sq)), same))
    # surjective, populations first
    s = V.index('s'+tag, max(ndm0, 1))
    V.holds(tag+'every slot is used', V.lor(*[V.same(s, x) for x in sorted(set(slot))]))
    dg = [1 if e[1] == e[2] else 0 for e in el]
    V.holds(tag+'populations first', V.lor(V.same(sp, -1), V.lor(
        V.land(V.same(V.sel(dg, p), 1), sp <= int(si.npauli)-1),
        V.land(V.same(V.sel(dg, p), 0), sp >= int(si.npauli)))))
    # representatives
    reps = {}
    for e in el:
        if e[4]:
            reps.setdefault(e[3], []).append(e)
    V.holds(tag+'one representative per slot', all(len(reps.get(i, ())) == 1 for i in range(ndm0)) and
            set(reps) == set(range(ndm0)))
    if not pauli:
        V.holds(tag+'inverse map', all(i in si.inddm0 and tuple(si.inddm0[i]) == reps[i][0][1:3]
                                       for i in range(ndm0) if i in reps) and len(si.inddm0) == ndm0)
        V.holds(tag+'number of real unknowns', int(si.ndm0r) == 2*ndm0-int(si.npauli))
    if cls == 'StateIndexingDM':
        cj = {(e[1], e[2]): e[5] for e in el if e[3] != -1}
        V.holds(tag+'conjugation flags', all(cj[x, y] != cj[y, x] if x != y else cj[x, y]
                                             for (x, y) in cj if (y, x) in cj))
        V.holds(tag+'representative is not conjugated', all(reps[i][0][5] for i in reps))
        if ix == 'ssq':
            V.holds(tag+'multiplet members agree on conjugation', all(
                cj[x, y] == cj[reps[e[3]][0][1:3]] if canon(si, ix, x, y) == canon(si, ix, *reps[e[3]][0][1:3]) else
                cj[x, y] != cj[reps[e[3]][0][1:3]]
                for e in el if e[3] != -1 for x, y in [e[1:3]]))
    # first-order elements
    if not pauli:
        d1 = [(c, b, int(si.get_ind_dm1(c, b, ch))) for ch in range(si.ncharge-1)
              for c in si.statesdm[ch+1] for b in si.statesdm[ch]]
        V.holds(tag+'number of first-order elements', len(d1) == int(si.ndm1))
        if d1:
            i = V.index('i'+tag, len(d1))
            j = V.index('j'+tag, len(d1))
            t = [x[2] for x in d1]
            V.holds(tag+'first-order slots in range', V.land(V.sel(t, i) >= 0, V.sel(t, i) <= int(si.ndm1)-1))
            V.holds(tag+'first-order slots distinct', V.lor(V.same(i, j), V.lnot(V.same(V.sel(t, i), V.sel(t, j)))))


def num(V, w):
    return V.ite(w, 1, 0) if V.symbolic else (1 if w else 0)
