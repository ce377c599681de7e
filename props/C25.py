"""Compiled code stays inside its arrays."""
import itertools

from . import C24
from . import common as K

BOUNDS = ('every compiled approach; many-body models of 1..5 states (6 in the thorough tier; charges in and out of order, with '
          'offsets and gaps), standard builders of 2 and 3 orbitals with every indexing, 0-2 leads, 0-1 phonon baths; any set of kept '
          'states that contains a lowest state and any energy threshold for the coherences; all solution methods, '
          'normalisation rows and option values; histories of up to four selections, solutions, option changes, changes of the approach '
          'and read-outs; all energies, amplitudes, parameters symbolic')
OUTSIDE = ('the number of threads other than one per iteration; itype outside 0..3; work arrays inside LAPACK; larger systems '
           '(the arrays are sized by the same expressions)')
ASSUMPTIONS = ['rate functions, RTD integrals, linear solvers, matrix inverses and Hilbert transforms return arrays of the right '
               'size with arbitrary values']
EXPLAIN = ('Every access of translated compiled code to a memoryview, C array or pointer is compared with the extents of '
           'the array at that moment; an access outside, a None memoryview or unset memory ends the path as a violation.  The '
           'claims recorded are the sizes of the results.')
CASE_TIMEOUT = 600
FIRST = ('Pauli', 'Lindblad', 'Redfield', '1vN')
PATTERNS = {'1': [0], '2': [0, 1], 'g': [0, 2], '3': [0, 1, 2], 'v': [0, 1, 1], '4': [0, 1, 1, 2], 'p': [1, 2, 0, 1], 'o': [3, 5, 4, 4],
            '5': [0, 0, 1, 1, 2], 'q': [2, 1, 1, 1, 0], 'e': [1, 1, 1], '6': [0, 1, 1, 2, 2, 3]}
HIST = ['solve', 'rs,solve', 'rc,solve', 'rs,rc,solve', 'rc,rs,solve', 'solve,rs,solve', 'solve,rc,solve', 'rs,solve,all,solve',
        'rc,solve,all,rs,solve', 'solve,rs,rc,solve']
OPTS = [dict(solmethod='lsqr'), dict(symq=False), dict(mfreeq=True), dict(norm_row=1), dict(symq=False, norm_row=1), dict(norm_row=-1), dict(norm_row=9)]


def cases(tier):
    th = tier == 'thorough'
    out = []
    for k, kt in enumerate(FIRST):
        for pat in PATTERNS:
            for nb in (0, 1):
                n = len(PATTERNS[pat])
                if n == 6 and not th:
                    continue
                for h, ops in enumerate(HIST):
                    if not th and (n > 3 and (h+k+nb+len(out)) % 3 and pat != '4' or n < 3 and h > 3 or nb and h % 2):
                        continue
                    out.append(dict(kt=kt, p=pat, nb=nb, nl=1 if nb or n > 4 else 2, ops=ops, opt={}, b='mb'))
        for o, nb, ops in itertools.product(OPTS, (0, 1), ('solve', 'rs,rc,solve', 'solve,rs,solve,all,solve')):
            out.append(dict(kt=kt, p='4', nb=nb, nl=1, ops=ops, opt=o, b='mb'))
        for o in OPTS+[dict(make_kern_copy=True)]:
            out.append(dict(kt=kt, p='4', nb=0, nl=1, ops='solve,opt,solve,rs,solve', opt=o, b='mb'))
        for ix in ('Lin', 'charge', 'sz', 'ssq'):
            for ops in ('solve', 'rc,solve', 'rs1,solve', 'rs1,rc,solve,all,solve'):
                out.append(dict(kt=kt, p='4', nb=0, nl=2, ops=ops, opt={}, b=ix))
                if ix != 'ssq':
                    out.append(dict(kt=kt, p='4', nb=1, nl=1 if ix != 'sz' else 2, ops=ops, opt={}, b=ix))
        out.append(dict(kt=kt, p='4', nb=0, nl=0, ops='solve', opt={}, b='mb'))
        out.append(dict(kt=kt, p='4', nb=1, nl=0, ops='rs,solve', opt={}, b='mb'))
    for kt in ('RTD', '2vN'):
        for pat in PATTERNS:
            n = len(PATTERNS[pat])
            if n == 6 and not th or pat == 'g' and kt == 'RTD' and 0:
                continue
            for h, ops in enumerate(HIST):
                if not th and (n > 3 and h not in (0, 3, 7) or n <= 3 and h > 3):
                    continue
                for off in (0, 1) if kt == 'RTD' else (0,):
                    if n > 4 and off and not th and h:
                        continue
                    out.append(dict(kt=kt, p=pat, nb=0, nl=1, ops=ops, opt={}, b='mb', off=off))
        out.append(dict(kt=kt, p='v', nb=0, nl=2, ops='solve', opt={}, b='mb', off=1))
    sw = [a for a in FIRST+('RTD', '2vN')]
    for a, b in itertools.permutations(sw, 2):
        for ops in ('solve,kt:%s,solve', 'rs,solve,kt:%s,solve', 'rc,solve,kt:%s,all,solve'):
            if th or ops[:5] != 'rc,so' or a in FIRST and b in FIRST:
                out.append(dict(kt=a, p='v' if {'RTD', '2vN'} & {a, b} else '4', nb=0, nl=1, ops=ops % b, opt={}, b='mb', off=1))
    return out


def weight(c):
    return len(PATTERNS[c['p']])**3*(4 if c['kt'] in ('RTD', '2vN') else 1)*len(c['ops'].split(','))


def stubs(case):
    s = K.stubs_elph() if case.get('nb') else K.stubs_base()
    from . import C21, C22
    for k, v in C21.stubs(case).items():
        s[k] = dict(s.get(k, {}), **{x: y for x, y in v.items() if x not in ('func_pauli', 'func_1vN')})
    for k, v in C22.stubs(case).items():
        s[k] = dict(s.get(k, {}), **v)
    return s


class Solvers:
    """arbitrary answers of the right size"""

    def __init__(self, W, V):
        self.W, self.V, self.k = W, V, 0
        if W.symbolic:
            from engine import world
            world.LapackStub.on_solve = self.lapack
            W.np.linalg.solve.fn = lambda a, b: self.vec(K.arr(a).shape[1])
            W.np.linalg.inv.fn = self.inv
            W.ext['scipy'].optimize.root.fn = self.root
        else:
            import scipy.optimize
            self.old, scipy.optimize.root = scipy.optimize.root, self.root

    def close(self):
        if not self.W.symbolic:
            import scipy.optimize
            scipy.optimize.root = self.old

    def vec(self, n):
        self.k += 1
        x = self.W.np.zeros(n)
        for i in range(n):
            x[i] = self.V.real('x%d_%d' % (self.k, i), -1, 1)
        return x

    def inv(self, a):
        self.k += 1
        n = K.arr(a).shape[0]
        x = self.W.np.zeros((n, n), dtype=complex)
        for i, j in itertools.product(range(n), range(n)):
            x[i, j] = self.V.cplx('i%d_%d_%d' % (self.k, i, j), -1, 1)
        return x

    def lapack(self, c):
        for i, v in enumerate(self.vec(c.a.shape[1])):
            c.b[i] = v

    def root(self, fun, x0, *a, method=None, **k):
        class Sol:
            pass
        fun(x0)
        s = Sol()
        s.x, s.success = self.vec(len(x0)), True
        fun(s.x)
        return s


class Sel:
    """energies that let remove_states keep any set of states"""

    def __init__(self, V, n, one=False):
        if one:       # only the highest state
            self.mask = [1]*(n-1)+[0]
        else:
            sets = [m for m in itertools.product((1, 0), repeat=n) if any(m) and not all(m)] or [(1,)*n]
            self.mask = sets[V.pick('kept states', len(sets))]
        self.Ea = [V.real('e%d' % i, 0.5*i, 0.5*i+0.1) if k else V.real('e%d' % i, 6+.5*i, 6.1+.5*i)
                   for i, k in enumerate(self.mask)]


def build(W, V, case):
    Na = PATTERNS[case['p']]
    n, nl, nb = len(Na), case['nl'], case['nb']
    m = K.MB(W, V, Na, nl, nbaths=nb, real=case['kt'] == 'RTD' or 'RTD' in case['ops'])
    ops = case['ops'].split(',')
    if 'rs' in ops or 'rs1' in ops:
        m.Ea = Sel(V, n, 'rs1' in ops).Ea
    else:
        m.Ea = [V.real('e%d' % i, 0.5*i, 0.5*i+0.1) for i in range(n)]
    m.tl = [V.real('T%d' % l, 0.2+.2*l, 0.3+.2*l) for l in range(nl)]
    if case['kt'] == 'RTD' or 'RTD' in case['ops']:
        for l, i, j in itertools.product(range(nl), range(n), range(n)):
            if Na[i] == Na[j]+1:
                m.T[l][i][j] = m.T[l][j][i] = V.real('t%d_%d_%d' % (l, i, j), 0.5, 1)
    if case['kt'] == '2vN' or '2vN' in case['ops']:
        m.D = [[-4.0, 4.0]]*nl
        m.mu = [V.real('mu%d' % l, -.1, .1) for l in range(nl)]
    kw = {k: v for k, v in case['opt'].items() if k != 'make_kern_copy'} if 'opt' not in ops else {}
    if case['kt'] == '2vN' or '2vN' in case['ops']:
        kw['kpnt'] = 3
    if not nl:
        kw.update(mulst={}, tlst={}, dband={})
    if case['b'] == 'mb':
        b, _ = C24.manybody(W, m, case['kt'], list(range(n)), 0, **kw)
    else:
        if case['b'] == 'sz':
            m.nleads, m.mu, m.tl, m.D = 1, m.mu[:1], m.tl[:1], m.D[:1]
        b, _ = C24.standard(W, m, case['kt'], case['b'], **kw)
    if case.get('off') is not None and hasattr(b, 'off_diag_corrections'):
        b.off_diag_corrections = bool(case['off'])
    b.si.nsingle = max(b.si.nsingle or 0, 2)
    if b.leads.tleads_array is None or case['kt'] == 'RTD' or 'RTD' in case['ops']:
        b.leads.tleads_array = W.array([[V.real('tl%d_%d' % (l, i), 0.5, 1) for i in range(2)] for l in range(nl)], dtype=complex)
    return b, m


def run(W, V, case):
    S = Solvers(W, V)
    try:
        b, m = build(W, V, case)
        nl = b.si.nleads
        for k, o in enumerate(case['ops'].split(',')):
            if o in ('rs', 'rs1'):
                b.remove_states(V.real('dE', 2.5, 2.9))
            elif o == 'rc':
                b.remove_coherences(V.real('dC%d' % k, 0, 3))
            elif o == 'all':
                b.use_all_states()
            elif o.startswith('kt:'):
                b.kerntype = o[3:]
            elif o == 'opt':
                for x, v in case['opt'].items():
                    setattr(b, x, v)
            elif o == 'solve':
                solve(W, V, b, k, nl)
    finally:
        S.close()


def solve(W, V, b, k, nl):
    kt = b.kerntype
    if kt == '2vN':
        b.solve(qdq=False, rotateq=False, niter=2)
    else:
        b.solve(qdq=False, rotateq=False)
    si = b.si
    if kt != '2vN' and b.symq and not b.mfreeq and not -b.appr.get_kern_size() <= b.norm_row < b.appr.get_kern_size():
        V.holds('%d a norm_row outside of the kernel is reported' % k, not b.success)
    V.holds('%d size of phi0' % k, len(K.arr(b.phi0)) == b.appr.get_kern_size() if kt != '2vN' else len(K.arr(b.phi0)) == si.ndm0)
    for x in ('current', 'energy_current', 'heat_current'):
        V.holds('%d size of %s' % (k, x), K.arr(getattr(b, x)).shape[0] == nl)
    for i, j in itertools.product(range(int(si.nmany)), range(int(si.nmany))):
        b.get_phi0(i, j)
        if b.phi1 is not None:
            for l in range(nl):
                b.get_phi1(l, i, j)
