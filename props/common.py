"""Shared pieces of the harnesses: stubs for the special functions, symbolic systems, references."""
import itertools

import numpy as np

from engine.sym import R, C, app, toR, is_sym, eq as seq, poly, pkey

BASE = ('Pauli', 'pyPauli', 'Lindblad', 'pyLindblad', 'Redfield', 'pyRedfield', '1vN', 'py1vN')
KT_PY = ('pyPauli', 'pyLindblad', 'pyRedfield', 'py1vN')
KT_CY = ('Pauli', 'Lindblad', 'Redfield', '1vN')


# ---------------------------------------------------------------- stubs (uninterpreted special functions)
def _fp(*a):
    return [app('F0', *a), app('F1', *a)]


def _f1(Ecb, mu, T, Dm, Dp, itype):
    """Contract used everywhere: the energy amplitudes are independent of the particle amplitudes."""
    a = (Ecb, mu, T, Dm, Dp, itype)
    return [C(app('c0r', *a), app('c0i', *a)), C(app('c1r', *a), app('c1i', *a)),
            C(app('e0r', *a), app('e0i', *a)), C(app('e1r', *a), app('e1i', *a))]


def fp_py(Ecb, mu, T, Dm, Dp, itype):
    from engine.npshim import array
    return array(_fp(Ecb, mu, T, Dm, Dp, itype))


def fp_cy(Ecb, mu, T, Dm, Dp, itype, rez):
    for i, v in enumerate(_fp(Ecb, mu, T, Dm, Dp, itype)):
        rez[i] = v
    return 0


def f1_py(Ecb, mu, T, Dm, Dp, itype, limit=0):
    from engine.npshim import array
    return array(_f1(Ecb, mu, T, Dm, Dp, itype))


def f1_cy(Ecb, mu, T, Dm, Dp, itype, limit, rez):
    for i, v in enumerate(_f1(Ecb, mu, T, Dm, Dp, itype)):
        rez[i] = v
    return 0


def stubs_base():
    return {'qmeq.specfunc.specfunc': {'func_pauli': fp_py, 'func_1vN': f1_py},
            'qmeq.specfunc.c_specfunc': {'func_pauli': fp_cy, 'func_1vN': f1_cy}}


class PauliElPhStub:
    def __init__(self, tlst, dlst, bath_func, eps):
        self.tlst, self.dlst, self.bath_func, self.eps = tlst, dlst, bath_func, eps
        self.val = 0.0

    def eval(self, Ebbp, l):
        tag = '' if self.bath_func is None else '@%s' % getattr(self.bath_func[l], 'tag', 'f')
        self.val = app('P' + tag, Ebbp, self.tlst[l], self.dlst[l, 0], self.dlst[l, 1], self.eps)


class NeuElPhStub:
    def __init__(self, tlst, dlst, itype, limit, bath_func, eps):
        self.tlst, self.dlst, self.itype, self.bath_func, self.eps = tlst, dlst, itype, bath_func, eps
        self.val0 = self.val1 = 0.0

    def eval(self, Ebbp, l):
        tag = '' if self.bath_func is None else '@%s' % getattr(self.bath_func[l], 'tag', 'f')
        a = (Ebbp, self.tlst[l], self.dlst[l, 0], self.dlst[l, 1], self.eps, self.itype)
        self.val0 = C(app('w0r' + tag, *a), app('w0i' + tag, *a))
        self.val1 = C(app('w1r' + tag, *a), app('w1i' + tag, *a))


def stubs_elph():
    s = stubs_base()
    d = {'FuncPauliElPh': PauliElPhStub, 'Func1vNElPh': NeuElPhStub}
    s['qmeq.specfunc.specfunc_elph'] = d
    s['qmeq.specfunc.c_specfunc_elph'] = d
    return s


# ---------------------------------------------------------------- symbolic systems in the eigenbasis
class MB:
    """A many-body model given directly in the eigenbasis: energies, charges, tunnelling matrices.

    Tba[l] is Hermitian with entries only between states whose charge differs by one (this is what
    LeadsTunneling guarantees: C04)."""

    def __init__(self, W, V, Na, nleads, pre='', real=False, nbaths=0, zeros=()):
        n = len(Na)
        self.Na, self.nleads, self.nbaths = list(Na), nleads, nbaths
        self.Ea = [V.real('%sE%d' % (pre, i), -1, 1) for i in range(n)]
        self.T = [[[0.0] * n for _ in range(n)] for _ in range(nleads)]
        for l in range(nleads):
            for b in range(n):
                for a in range(n):
                    if Na[b] == Na[a] + 1:
                        t = V.real('%st%d_%d_%d' % (pre, l, b, a), -1, 1) if real else \
                            V.cplx('%st%d_%d_%d' % (pre, l, b, a), -1, 1)
                        self.T[l][b][a] = t
                        self.T[l][a][b] = V.conj(t)
        self.V = [[[0.0] * n for _ in range(n)] for _ in range(nbaths)]
        for l in range(nbaths):
            for b in range(n):
                for a in range(n):
                    if Na[b] == Na[a]:
                        self.V[l][b][a] = V.cplx('%sv%d_%d_%d' % (pre, l, b, a), -1, 1)
        self.mu = [V.real('%smu%d' % (pre, l), -1, 1) for l in range(nleads)]
        self.tl = [V.real('%sT%d' % (pre, l), 0.25, 1) for l in range(nleads)]
        self.D = [[V.real('%sDm%d' % (pre, l), -60, -40), V.real('%sDp%d' % (pre, l), 40, 60)] for l in range(nleads)]
        self.tph = [V.real('%sTph%d' % (pre, l), 0.25, 1) for l in range(nbaths)]
        self.Dph = [[V.real('%sDphm%d' % (pre, l), 0.001, 0.002), V.real('%sDphp%d' % (pre, l), 40, 60)]
                    for l in range(nbaths)]

    def arrays(self, W):
        np_ = W.np
        n, nl = len(self.Na), self.nleads
        Ea = np_.zeros(n)
        for i in range(n):
            Ea[i] = self.Ea[i]
        T = np_.zeros((nl, n, n), dtype=complex)
        for l, b, a in itertools.product(range(nl), range(n), range(n)):
            T[l, b, a] = self.T[l][b][a]
        Vb = np_.zeros((self.nbaths, n, n), dtype=complex)
        for l, b, a in itertools.product(range(self.nbaths), range(n), range(n)):
            Vb[l, b, a] = self.V[l][b][a]
        return Ea, T, Vb

    def build(self, W, kerntype, **kw):
        """a builder of this model; with baths a BuilderElPh of log2(len(Na)) orbitals (charge order)"""
        Ea, T, Vb = self.arrays(W)
        q = W.mod('builder.builder')
        args = dict(mulst=list(self.mu), tlst=list(self.tl), dband=[list(d) for d in self.D], kerntype=kerntype,
                    itype=1)
        args.update(kw)
        if self.nbaths:
            ns = {2: 1, 4: 2, 8: 3}[len(self.Na)]
            assert self.Na == [x for x in sorted(bin(i).count('1') for i in range(2**ns))]
            args.update(nsingle=ns, nleads=self.nleads, nbaths=self.nbaths, tlst_ph=list(self.tph),
                        dband_ph=[list(d) for d in self.Dph], indexing=args.get('indexing', 'charge'), itype_ph=2)
            b = q.BuilderElPh(**args)
            b.qd.Ea, b.leads.Tba, b.baths.Vbbp = Ea, T, Vb
            return b
        return q.BuilderManyBody(Ea=Ea, Na=list(self.Na), Tba=T, **args)


def fock(Na):
    return Na in ([0, 1], [0, 1, 1, 2], [0, 1, 1, 1, 2, 2, 2, 3])


def kern_of(b):
    """The kernel the approach builds, before one equation is replaced by the normalisation."""
    a = b.appr
    a.prepare_kern()
    a.generate_fct()
    a.generate_kern()
    return a.kern


def arr(k):
    """plain object/float ndarray of an array or memoryview"""
    if hasattr(k, '__mv__'):
        k = k.a
    return np.asarray(k).view(np.ndarray)


def ssum(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


def density(V, b, name='phi'):
    """an arbitrary density-matrix vector of the approach's size: list of solver reals"""
    n = b.appr.get_kern_size()
    return [V.real('%s%d' % (name, i), -1, 1) for i in range(n)]


def set_phi0(b, phi):
    a = b.appr
    for i, v in enumerate(phi):
        a.phi0[i] = v


def matvec(k, x):
    k = arr(k)
    return [ssum(k[i, j] * x[j] for j in range(k.shape[1]) if not _z(k[i, j])) for i in range(k.shape[0])]


def _z(x):
    return not is_sym(x) and x == 0


def states_of(si):
    return [list(si.statesdm[c]) for c in range(si.ncharge)]
