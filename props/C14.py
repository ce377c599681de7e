"""solve() returns the normalised stationary solution of the equations, or reports failure with zeros."""
import itertools
from . import common as K

BOUNDS = ('1..5 many-body states, 1..2 leads, 0..1 baths; every choice of the replaced equation among the populations, '
          'symq on/off, solve/lsqr/matrix-free, make_kern_copy on/off (the compiled LAPACK wrapper included: pointers, leading dimensions, work arrays, copies); solver result arbitrary (symbolic) or failing; '
          'all parameters symbolic; second solve on the same object after changed parameters')
OUTSIDE = ('the numerical linear algebra inside LAPACK / numpy.linalg / scipy.optimize, which is replaced by a stub '
           'returning an arbitrary vector: the claims are about what is handed to it and what is done with its answer')
ASSUMPTIONS = ['a linear solver that reports success returns a vector x; nothing else is assumed about it',
               'rate functions are uninterpreted functions of all their arguments',
               'double arithmetic is treated as exact real arithmetic']


def cases(tier):
    out = []
    for kt in K.BASE:
        for Na, nl, nb in (([0, 1], 2, 0), ([0, 1, 1, 2], 2, 0), ([0, 0, 1], 1, 0), ([0, 1, 1, 2], 1, 1)):
            out.append(dict(kt=kt, Na=Na, nl=nl, nb=nb, how='solve', fail=0))
        for how in ('lsqr', 'nosym', 'copy', 'mf', 'copylsqr', 'copynosym'):
            out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=2, nb=0, how=how, fail=0))
        for how in ('solve', 'mf', 'mfx'):
            out.append(dict(kt=kt, Na=[0, 1, 1], nl=2, nb=0, how=how, fail=1))
        out.append(dict(kt=kt, Na=[0, 1, 1], nl=2, nb=0, how='solve', fail=2))
        out.append(dict(kt=kt, Na=[0, 1, 2], nl=1, nb=0, how='lsqr', fail=0, weak=1))
        for how in ('solve', 'mf', 'lsqr'):     # states not listed by charge
            out.append(dict(kt=kt, Na=[1, 0, 2, 1], nl=1, nb=0, how=how, fail=0))
        if tier == 'thorough':
            out.append(dict(kt=kt, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=2, nb=0, how='solve', fail=0))
            out.append(dict(kt=kt, Na=[0, 1, 1, 1, 2, 2, 2, 3], nl=1, nb=1, how='nosym', fail=0))
            out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=1, nb=1, how='copy', fail=0))
            out.append(dict(kt=kt, Na=[0, 1, 1, 2], nl=1, nb=1, how='mf', fail=0))
            out.append(dict(kt=kt, Na=[0, 0, 1, 1, 2], nl=2, nb=0, how='lsqr', fail=0))
    return out


def weight(c):
    return len(c['Na'])**3*(c['nl']+c['nb'])


def stubs(case):
    return K.stubs_elph() if case['nb'] else K.stubs_base()


class Solvers:
    """stand-ins for the numerical solvers in the symbolic world; the real ones are used in replays"""

    def __init__(self, W, V, fail):
        self.W, self.V, self.fail, self.log, self.x = W, V, fail, [], None
        if not W.symbolic:
            return
        from engine import world
        world.LapackStub.on_solve = self.lapack
        W.np.linalg.solve.fn = lambda a, b: self.dense('solve', a, b)
        W.np.linalg.lstsq.fn = lambda a, b, **k: (self.dense('lsqr', a, b), None, None, None)

    def vec(self, n):
        k = len(self.log)
        self.x = [self.V.real('x%d_%d' % (k, i), -1, 1) for i in range(n)]
        return self.x

    def failing(self):
        return self.fail if not isinstance(self.fail, (list, tuple)) else self.fail[len(self.log)-1]

    def dense(self, how, a, b):
        a, b = K.arr(a).copy(), K.arr(b).copy()
        self.log.append((how, a, b))
        if self.failing():
            raise self.W.np.linalg.LinAlgError('Singular matrix')
        x = self.W.np.zeros(a.shape[1])
        for i, v in enumerate(self.vec(a.shape[1])):
            x[i] = v
        return x

    def lapack(self, s):
        a, b = K.arr(s.a), K.arr(s.b)
        self.log.append((s.kind, a.copy(), b.copy()))
        if s.rcond is not None:
            self.V.holds('singular values are cut at rounding level', s.rcond < 1e-12)
        s.info = 0
        if self.failing():
            s.info = 1
            return
        for i, v in enumerate(self.vec(a.shape[1])):
            s.b[i] = v
        for i, j in itertools.product(range(a.shape[0]), range(a.shape[1])):
            a[i, j] = self.V.real('lu%d_%d_%d' % (len(self.log), i, j))


def setroot(W, fn):
    if W.symbolic:
        W.ext['scipy'].optimize.root.fn = fn
    else:
        import scipy.optimize
        old = scipy.optimize.root
        scipy.optimize.root = fn
        return old


class Sol:
    def __init__(self, x, success):
        self.x, self.success = x, success


def run(W, V, case):
    kt, how = case['kt'], case['how']
    m = K.MB(W, V, case['Na'], case['nl'], nbaths=case['nb'])
    if case.get('weak'):        # one transition is much slower than the others
        for l in range(case['nl']):
            m.T[l][2][1] = m.T[l][2][1]*0.001
            m.T[l][1][2] = m.T[l][1][2]*0.001
    if how.startswith('mf'):
        return run_mf(W, V, case, m)
    if case['fail'] == 2:
        return run_history(W, V, case, m)
    if case['fail'] and not W.symbolic:     # a really singular system: nothing couples to the leads
        for l, i, j in itertools.product(range(case['nl']), range(len(m.Na)), range(len(m.Na))):
            m.T[l][i][j] = 0.0
    kw = dict(symq='nosym' not in how)
    if 'lsqr' in how:
        kw['solmethod'] = 'lsqr'
    r = m.build(W, kt, **kw)
    raw = K.arr(K.kern_of(r)).copy()
    n = r.appr.get_kern_size()
    npauli = r.si.npauli
    b = m.build(W, kt, **kw)
    if how.startswith('copy'):
        b.make_kern_copy = True
    S = Solvers(W, V, case['fail'])
    for row in range(npauli) if 'nosym' not in how else (0,):
        if W.symbolic:
            S.log = []
        b.norm_row = row
        b.solve(qdq=False)
        one_solve(W, V, case, m, b, r, raw, n, npauli, S, row, '%s row=%d ' % (how, row))


def one_solve(W, V, case, m, b, r, raw, n, npauli, S, row, tag):
    how, kt = case['how'], case['kt']
    phi0 = list(K.arr(b.phi0))
    V.holds(tag+'size', len(phi0) == n)
    if W.symbolic:
        V.holds(tag+'one linear system solved', len(S.log) == 1)
        kind, a, rhs = S.log[0]
        V.holds(tag+'method', ('ls' in kind) == ('lsqr' in how or 'nosym' in how))
        last = raw.shape[0]-1
        V.holds(tag+'shape', a.shape == raw.shape and len(rhs) == raw.shape[0] and
                raw.shape[0] == (n if 'nosym' not in how else n+1))
        nr = row if 'nosym' not in how else last
        for i in range(raw.shape[0]):
            for j in range(n):
                want = (1 if j < npauli else 0) if i == nr else raw[i, j]
                V.eq(tag+'matrix[%d,%d]' % (i, j), a[i, j], want)
            V.eq(tag+'rhs[%d]' % i, rhs[i], 1 if i == nr else 0)
    if case['fail']:
        V.holds(tag+'failure reported', not b.success)
        for i in range(n):
            V.eq(tag+'phi0 zero[%d]' % i, phi0[i], 0)
        for nm in ('current', 'energy_current', 'heat_current'):
            for l in range(case['nl']):
                V.eq(tag+'%s zero[%d]' % (nm, l), K.arr(getattr(b, nm))[l], 0)
    else:
        if not W.symbolic:
            import numpy
            A = raw.astype(float).copy()
            nr = row if 'nosym' not in how else A.shape[0]-1
            A[nr] = [1]*npauli+[0]*(n-npauli)
            rhs = numpy.zeros(A.shape[0])
            rhs[nr] = 1
            x, _, _, sv = numpy.linalg.lstsq(A, rhs, rcond=0)
            if sv[-1] < 1e-9*sv[0]:
                from engine.core import Skip
                raise Skip('singular instance')
            for i in range(n):
                V.eq(tag+'phi0[%d] is the solution' % i, phi0[i], float(x[i]), tol=1e-10*sv[0]/sv[-1]*max(1, abs(x).max()))
        V.holds(tag+'success reported', bool(b.success))
        if W.symbolic:
            for i in range(n):
                V.eq(tag+'phi0[%d] is the solution' % i, phi0[i], S.x[i])
        else:
            V.eq(tag+'normalised', K.ssum(phi0[:npauli]), 1)
            big = max([1]+[abs(x) for x in phi0])*abs(raw).max()
            for i, v in enumerate(K.matvec(raw, phi0)):
                V.eq(tag+'stationary[%d]' % i, v, 0, tol=1e-7*big)
        K.set_phi0(r, phi0)
        for nm in ('current', 'energy_current', 'heat_current'):
            K.arr(getattr(r, nm))[:] = 0.
        if r.appr.phi1 is not None:
            K.arr(r.appr.phi1)[...] = 0.
        r.appr.generate_current()
        for nm in ('current', 'energy_current', 'heat_current'):
            V.eqs(tag+nm, getattr(b, nm), getattr(r, nm))
    if kt.startswith('py'):
        V.eqs(tag+'kern kept', K.arr(b.kern)[:n], raw[:n])
    if how.startswith('copy') and not kt.startswith('py'):
        k = K.arr(b.kern)
        for i in range(n):
            if i != row or 'nosym' in how:
                for j in range(n):
                    V.eq(tag+'kern kept[%d,%d]' % (i, j), k[i, j], raw[i, j])


def run_history(W, V, case, m):
    """a failed solution leaves nothing behind that the next one could pick up"""
    kt = case['kt']
    S = Solvers(W, V, [1, 0, 1])
    b = m.build(W, kt)
    T = [[[m.T[l][i][j] for j in range(len(m.Na))] for i in range(len(m.Na))] for l in range(case['nl'])]
    keep = K.arr(b.leads.Tba).copy()
    r = m.build(W, kt)
    raw = K.arr(K.kern_of(r)).copy()
    n, npauli = r.appr.get_kern_size(), r.si.npauli
    for k, fail in enumerate((1, 0, 1)):
        if not W.symbolic:
            b.leads.Tba[...] = 0 if fail else keep
        b.solve(qdq=False)
        c = dict(case, fail=fail)
        if W.symbolic:
            log = S.log
            S.log = log[-1:]
            one_solve(W, V, c, m, b, r, raw, n, npauli, S, 0, 'step %d ' % k)
            S.log = log
        else:
            one_solve(W, V, c, m, b, r, raw if not fail else K.arr(b.kern), n, npauli, S, 0, 'step %d ' % k)


def run_mf(W, V, case, m):
    kt = case['kt']
    r = m.build(W, kt, mfreeq=True)
    r.appr.prepare_kern()
    n = r.appr.get_kern_size()
    init = [V.real('init%d' % i, -1, 1) for i in range(n)]
    for given in (0, 1):
        kw = dict(phi0_init=W.array(init)) if given else {}
        b = m.build(W, kt, mfreeq=True, **kw)
        tag = 'given ' if given else 'default '
        x = [V.real('x%d_%d' % (given, i), -1, 1) for i in range(n)]
        tr = [V.real('trial%d_%d' % (given, i), -1, 1) for i in range(n)]
        seen = {}

        def root(fun, x0, *a, method=None, **k):
            seen['x0'] = list(K.arr(x0))
            seen['method'] = method
            t = W.np.zeros(n)
            for i in range(n):
                t[i] = tr[i]
            f = fun(t)
            seen['f'] = K.arr(f).copy()
            if case['how'] == 'mfx':
                raise ValueError('no convergence')
            y = W.np.zeros(n)
            for i in range(n):
                y[i] = x[i]
            return Sol(y, not case['fail'])
        old = setroot(W, root)
        try:
            b.solve(qdq=False)
        finally:
            if not W.symbolic:
                setroot(W, old)
        V.holds(tag+'root finder called', 'x0' in seen)
        V.holds(tag+'method', seen['method'] == 'krylov')
        for i in range(n):
            V.eq(tag+'start[%d]' % i, seen['x0'][i], init[i] if given else (1 if i == 0 else 0))
        phi0 = K.arr(b.phi0)
        want = x if case['how'] != 'mfx' else [0]*n
        V.holds(tag+'success', bool(b.success) == (not case['fail']))
        for i in range(n):
            V.eq(tag+'phi0[%d]' % i, phi0[i], want[i])
        q = m.build(W, kt)
        K.kern_of(q)
        K.set_phi0(q, want)
        q.appr.generate_current()
        for nm in ('current', 'energy_current', 'heat_current'):
            V.eqs(tag+nm, getattr(b, nm), getattr(q, nm))
        # what the root finder is asked to make zero
        r.appr.clean_arrays() if kt.startswith('py') else None
        r.appr.generate_fct()
        t = W.np.zeros(n)
        for i in range(n):
            t[i] = tr[i]
        V.eqs(tag+'residual', seen['f'], K.arr(r.appr.generate_vec(t)).copy())
