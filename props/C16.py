"""Exact identities of the special functions, and agreement of the compiled with the Python versions."""
import math
from fractions import Fraction

from engine.sym import C, app, toR
from . import common as K

BOUNDS = ('all real arguments within |energy|, |potential|, |band edge| <= 1000 and temperatures 0.01..100 (overflow '
          'guards included), all integral types; digamma for real part in (0, 100]; polygamma orders 0..4 at real parts '
          '1/2, 5/4, 3, 15/2, 29/2, 20 and every imaginary part; integralD/integralX for every energy, temperature, '
          'potential, both signs and two Ozaki poles; Ozaki(N) for N = 2..8 with arbitrary eigenpairs; Hilbert '
          'transform on 2 points')
OUTSIDE = ('accuracy of the asymptotic digamma/polygamma expansions and of QUADPACK, FFT, eigh_tridiagonal, SciPy psi '
           '(C27); BW_Ozaki\'s choice of the number of poles; arguments left of the imaginary axis; rounding')
ASSUMPTIONS = ['exp is positive, increasing, exp(x)exp(-x)=1, exp(0)=1, and beyond 1e300 for x > 700; log and atan are '
               'uninterpreted; digamma and polygamma are uninterpreted but conjugation-symmetric where they are '
               'called by other functions (their own cases use the real code)',
               'quad is an uninterpreted function of the integrand (probed at an arbitrary point) and its limits']

PI = math.pi


def cases(tier):
    out = []
    for py in (0, 1):
        for f in ('fermi', 'fermidef', 'mono', 'dfermi', 'bose', 'pauli', 'phpauli', 'phi', 'polygamma'):
            out.append(dict(f=f, py=py))
        for it in range(4):
            out.append(dict(f='1vN', py=py, itype=it))
        for it in (0, 2):
            for dos in (0, 1):
                out.append(dict(f='ph1vN', py=py, itype=it, dos=dos))
    for f in ('digamma', 'recur', 'agree', 'ozaki', 'ph', 'hilbert'):
        out.append(dict(f=f, py=2))
    for f in ('D', 'X'):
        for p in (0, 1):
            for e in (0, 1):
                for g in (0, 1):
                    out.append(dict(f=f, py=2, p=p, eta=e, im=g))
        out.append(dict(f=f+'eq', py=0))
        out.append(dict(f=f+'eq', py=1))
    for K_ in range(5):
        out.append(dict(f='polyagree', py=2, K=K_))
    return out


TIMEOUT_MS = 30000
MAX_PATHS = 3000


# ---------------------------------------------------------------- uninterpreted pieces
def _psi(z):
    """digamma as a function with psi(conj z) = conj psi(z)"""
    if not isinstance(z, C):
        z = C(z, 0)
    x, y = toR(z.real), toR(z.imag)
    return C(app('psi_r', x, y*y), y*app('psi_q', x, y*y))


def _pg(z, k):
    if not isinstance(z, C):
        z = C(z, 0)
    x, y = toR(z.real), toR(z.imag)
    return C(app('pg_r', x, y*y, int(k)), y*app('pg_q', x, y*y, int(k)))


def stubs(case):
    if case['f'] in ('digamma', 'recur', 'polygamma', 'polyagree'):
        return {}
    d = {'digamma': _psi, 'polygamma': _pg}
    return {'qmeq.specfunc.specfunc': dict(d), 'qmeq.specfunc.c_specfunc': dict(d)}


def contracts(case):
    from engine.sym import z3
    F = z3.Function('EXP', z3.RealSort(), z3.RealSort())
    L = z3.Function('LOG', z3.RealSort(), z3.RealSort())
    A = z3.Function('ATAN', z3.RealSort(), z3.RealSort())
    seen = []

    def ex(v, x):
        out = [v == F(x), v > 0, F(-x)*v == 1, z3.Implies(x > 0, v > 1), z3.Implies(x < 0, v < 1),
               z3.Implies(x == 0, v == 1), z3.Implies(x > 700, v > 10**300), z3.Implies(x < -700, v*10**300 < 1),
               z3.Implies(x > 350, v > 10**150), z3.Implies(x < -350, v*10**150 < 1)]
        for u, y in seen:
            out += [z3.Implies(x < y, v < u), z3.Implies(y < x, u < v)]
        seen.append((v, x))
        return out
    return {'exp': ex, 'log': lambda v, x: [v == L(x)], 'atan': lambda v, x: [v == A(x), A(-x) == -v]}


# ---------------------------------------------------------------- harnesses
class M:
    """the functions of one implementation under the Python names"""

    def __init__(self, W, py):
        self.m = W.mod('specfunc.specfunc' if py else 'specfunc.c_specfunc')
        self.pre = '' if py else 'c_'

    def __getattr__(self, n):
        return getattr(self.m, self.pre+n)


def run(W, V, case):
    globals()['h_'+case['f']](W, V, case)


def h_fermi(W, V, case):
    f = M(W, case['py']).fermi_func
    x = V.real('x', -1000, 1000)
    a, b = f(x), f(-x)
    V.le('f >= 0', 0, a)
    V.le('f <= 1', a, 1)
    V.eq('f(x)+f(-x) = 1', a+b, 1, tol=Fraction(1, 10**290))


def h_fermidef(W, V, case):
    f = M(W, case['py']).fermi_func
    x = V.real('x', -700, 700)
    V.eq('definition', f(x)*(W.np.exp(x)+1), 1)


def h_mono(W, V, case):
    f = M(W, case['py']).fermi_func
    x, y = V.real('x', -1000, 1000), V.real('y', -1000, 1000)
    V.assume(x < y)
    V.le('decreasing', f(y), f(x))


def h_dfermi(W, V, case):
    m = M(W, case['py'])
    x = V.real('x', -700, 700)
    a = m.diff_fermi(x)
    f = m.fermi_func(x)
    V.eq('f\' = -f(1-f)', a, -f*(1-f), tol=Fraction(1, 10**140))
    V.eq('odd in the sign', m.diff_fermi(x, -1), -m.diff_fermi(-x), tol=Fraction(1, 10**140))
    V.le('not positive', a, 0)


def h_bose(W, V, case):
    m = M(W, case['py'])
    x = V.real('x', -1000, 1000)
    V.assume(V.lor(x > 0.001, x < -0.001))
    a, b = m.bose(x), m.bose(-x)
    V.eq('n(x)+n(-x) = -1', a+b, -1, tol=Fraction(1, 10**290))
    V.eq('sign', m.bose(x, -1), b, tol=Fraction(1, 10**290))
    V.le('n(|x|) >= 0', 0, V.ite(x > 0, a, b))


def args(V):
    return (V.real('E', -1000, 1000), V.real('mu', -1000, 1000), V.real('T', 0.01, 100),
            V.real('Dm', -1000, 1000), V.real('Dp', -1000, 1000))


def fermi(W, V, x):
    """occupation at x, written independently"""
    if V.symbolic:
        return 1/(W.np.exp(x)+1)
    return 1/(math.exp(x)+1) if x < 700 else 0.0


def h_pauli(W, V, case):
    E, mu, T, Dm, Dp = args(V)
    V.assume(Dm < Dp)
    it = V.pick('itype', 4)
    r = M(W, case['py']).func_pauli(E, mu, T, Dm, Dp, it)
    inside = V.lor(it in (1, 3), V.land(Dm < E, E < Dp))
    V.le('F0 >= 0', 0, r[0])
    V.le('F1 >= 0', 0, r[1])
    V.eq('F0+F1', r[0]+r[1], V.ite(inside, 2*PI, 0.0), tol=Fraction(1, 10**12))
    V.eq('F0', r[0], V.ite(inside, 2*PI*fermi(W, V, (E-mu)/T), 0.0), tol=Fraction(1, 10**12))


class Quad:
    """records the integrals the code asks for; answers with an unknown function of them"""

    def __init__(self, V, tag='Q'):
        self.V, self.calls, self.tag = V, [], tag

    def __call__(self, f, a, b, weight=None, wvar=None, epsabs=None, epsrel=None, limit=None, **kw):
        n = len(self.calls)
        p = self.V.real('probe', 0.5, 3)
        self.calls.append((f(p), a, b, weight, wvar))
        if self.V.symbolic:
            return app('%s%d' % (self.tag, n), a, b, wvar), 0.0
        return 0.3*a+0.2*b+0.1*wvar+n, 0.0

    def value(self, n, a, b, wvar):
        if self.V.symbolic:
            return app('%s%d' % (self.tag, n), a, b, wvar)
        return 0.3*a+0.2*b+0.1*wvar+n


def with_quad(W, V, mod, fn):
    q = Quad(V)
    if W.symbolic:
        W.quad.fn = q
        return q, fn()
    old, mod.quad = mod.quad, q
    try:
        return q, fn()
    finally:
        mod.quad = old


def h_1vN(W, V, case):
    m, it = M(W, case['py']), case['itype']
    E, mu, T, Dm, Dp = args(V)
    V.assume(Dm < Dp)
    if it == 1:
        V.assume(V.land(Dm < -0.1, Dp > 0.1))
    if it == 0:         # the band edges are logarithmic singularities
        V.assume(V.land(V.lor(E-Dm > 0.01, E-Dm < -0.01), V.lor(E-Dp > 0.01, E-Dp < -0.01)))
    q, r = with_quad(W, V, m.m, lambda: m.func_1vN(E, mu, T, Dm, Dp, it, 100))
    F = m.func_pauli(E, mu, T, Dm, Dp, it)
    c0, c1, e0, e1 = [r[i] for i in range(4)]
    t = Fraction(1, 10**11)
    V.eq('Im cur0 = -F0/2', im(c0), -F[0]/2, tol=t)
    V.eq('Im cur1 = +F1/2', im(c1), F[1]/2, tol=t)
    V.eq('Im en0 = E*Im cur0', im(e0), E*im(c0))
    V.eq('Im en1 = E*Im cur1', im(e1), E*im(c1))
    n = W.np
    if it in (2, 3):
        V.eq('no principal part 0', re(c0), 0)
        V.eq('no principal part 1', re(c1), 0)
        V.eq('Re en0', re(e0), 0)
        V.eq('Re en1', re(e1), 0)
        return
    V.eq('en1-en0', re(e1)-re(e0)-E*(re(c1)-re(c0)), Dm-Dp, tol=Fraction(1, 10**9))
    if it == 1:
        V.eq('Re cur0', re(c0), psi(W, V, (E-mu)/T/(2*PI))-n.log(abs(Dm/T)/(2*PI)), tol=Fraction(1, 10**9))
        V.eq('Re cur1-cur0', re(c1)-re(c0), n.log(abs((Dm/T)/(Dp/T))))
        return
    a, b, w = (Dm-mu)/T, (Dp-mu)/T, (E-mu)/T
    V.holds('one principal-value integral', len(q.calls) == 1 and q.calls[0][3] == 'cauchy')
    f, qa, qb, _, qw = q.calls[0]
    V.eq('lower limit', qa, a)
    V.eq('upper limit', qb, b)
    V.eq('pole', qw, w)
    V.eq('integrand', f, fermi(W, V, V.real('probe', 0.5, 3)))
    V.eq('Re cur0', re(c0), q.value(0, a, b, w))
    V.eq('Re cur1-cur0', re(c1)-re(c0), n.log(abs((a-w)/(b-w))))
    V.eq('Re en0', re(e0)-E*re(c0), T*(soft(W, V, a)-soft(W, V, b)), tol=Fraction(1, 10**9))


def soft(W, V, x):
    """integral of the occupation from x to infinity"""
    if V.symbolic:
        return V.ite(x < -40, -x, W.np.log(1+W.np.exp(-x)))
    return -x if x < -40 else math.log1p(math.exp(-x))


def psi(W, V, y):
    if V.symbolic:
        return _psi(C(0.5, y)).real
    from scipy.special import psi as p
    return p(0.5+1j*y).real


def re(x):
    return x.real


def im(x):
    return x.imag


def phonon(W, V, case, P=True):
    py = case['py']
    mod = W.mod('specfunc.specfunc_elph' if py else 'specfunc.c_specfunc_elph')
    np_ = W.np
    n = 2
    tl, dl = np_.zeros(n), np_.zeros((n, 2))
    for l in range(n):
        tl[l] = V.real('T%d' % l, 0.01, 10)
        dl[l, 0], dl[l, 1] = V.real('Dm%d' % l, 0, 20), V.real('Dp%d' % l, 0, 400)
        V.assume(dl[l, 0] < dl[l, 1])
    dos = None
    g = (lambda l, x: 1.0)
    if case.get('dos'):
        class Dos(mod.Func):
            def __init__(self, c):
                self.c = c

            def eval(self, x):
                return 1.0+self.c*x*x
        dos = [Dos(1), Dos(2)]
        g = (lambda l, x: 1.0+(l+1)*x*x)
    return mod, tl, dl, dos, g


def nb(W, V, x):
    return 1/(W.np.exp(x)-1)


def h_phpauli(W, V, case):
    for dos in (0, 1):
        mod, tl, dl, bf, g = phonon(W, V, dict(case, dos=dos))
        P = mod.FuncPauliElPh(tl, dl, bf, 1e-6)
        for l in (1, 0):
            E, T = V.real('E', 0.02, 900), tl[l]
            V.assume(E < 600*T)
            inside = V.land(dl[l, 0] < E, E < dl[l, 1], E > 1e-4*T)
            V.assume(E > 1e-4*T)
            P.eval(E, l)
            a = P.val
            P.eval(-E, l)
            e = P.val
            V.eq('absorption[%d,%d]' % (dos, l), a, V.ite(inside, 2*PI*nb(W, V, E/T)*g(l, E), 0.0),
                 tol=Fraction(1, 10**9))
            V.eq('emission[%d,%d]' % (dos, l), e, V.ite(inside, 2*PI*(1+nb(W, V, E/T))*g(l, E), 0.0),
                 tol=Fraction(1, 10**9))
            V.le('not negative[%d,%d]' % (dos, l), 0, a)


def h_ph1vN(W, V, case):
    mod, tl, dl, bf, g = phonon(W, V, case)
    it = case['itype']
    l = V.pick('l', 2)
    E, T = V.real('E', -900, 900), tl[l]
    V.assume(V.land(E < 600*T, E > -600*T))
    V.assume(V.lor(E > 1e-4*T, E < -1e-4*T))
    N = mod.Func1vNElPh(tl, dl, it, 100, bf, 1e-6)
    P = mod.FuncPauliElPh(tl, dl, bf, 1e-6)
    q, _ = with_quad(W, V, mod, lambda: N.eval(E, l))
    P.eval(E, l)
    p = P.val
    P.eval(-E, l)
    pm = P.val
    V.eq('Im val0', im(N.val0), V.ite(E > 0, -p/2, 0.0), tol=Fraction(1, 10**9))
    V.eq('Im val1', im(N.val1), V.ite(E > 0, pm/2, 0.0), tol=Fraction(1, 10**9))
    if it == 2:
        V.eq('Re val0', re(N.val0), 0)
        V.eq('Re val1', re(N.val1), 0)
        return
    V.holds('two integrals', len(q.calls) == 2)
    p = V.real('probe', 0.5, 3)
    a, b = V.ite(dl[l, 0] > 0.9e-6*T, dl[l, 0]/T, 0.9e-6), dl[l, 1]/T
    for i in range(2):
        f, qa, qb, w, qw = q.calls[i]
        V.holds('weight[%d]' % i, w == 'cauchy')
        V.eq('lower limit[%d]' % i, qa, a, tol=Fraction(1, 10**12))
        V.eq('upper limit[%d]' % i, qb, b)
        V.eq('pole[%d]' % i, qw, E/T, tol=Fraction(1, 10**12))
        V.eq('integrand[%d]' % i, f, g(l, T*p)*(nb(W, V, p) if i == 0 else -(1+nb(W, V, p))), tol=Fraction(1, 10**9))
        V.eq('real part[%d]' % i, re((N.val0, N.val1)[i]), q.value(i, qa, qb, qw))


def h_ph(W, V, case):
    """compiled and Python phonon functions agree, also where the argument is regularised"""
    res = []
    x, eps = [V.real('x%d' % l, -600, 600) for l in (0, 1)], V.real('eps', 1e-7, 1e-5)
    for py in (0, 1):
        mod, tl, dl, bf, g = phonon(W, V, dict(py=py, dos=1))
        P = mod.FuncPauliElPh(tl, dl, bf, eps)
        N = mod.Func1vNElPh(tl, dl, 2, 100, bf, eps)
        out = []
        for l in (0, 1, 0):
            P.eval(x[l]*tl[l], l)
            N.eval(x[l]*tl[l], l)
            out += [P.val, N.val0, N.val1]
        res.append(out)
    for i, (a, b) in enumerate(zip(*res)):
        V.eq('agree[%d]' % i, a, b)


def h_phi(W, V, case):
    m = M(W, case['py'])
    x, y = V.real('x', -100, 100), V.real('y', -100, 100)
    Dp, Dm = V.real('Dp', -1000, 1000), V.real('Dm', -1000, 1000)
    V.assume(V.lor(Dp > 0.5, Dp < -0.5))
    a = m.phi(x, Dp, Dm)
    V.eq('phi', a, -psi(W, V, x/(2*PI))+W.np.log(0.5*(abs(Dp)+abs(Dm))/(2*PI)))
    V.eq('even', m.phi(-x, Dp, Dm), a)
    V.eq('band edges swap', m.phi(x, Dm, Dp), a)
    V.eq('sign', m.phi(x, Dp, Dm, -1), -a)
    V.eq('difference', m.delta_phi(x, y, Dp, Dm), a-m.phi(y, Dp, Dm))
    V.eq('difference sign', m.delta_phi(x, y, Dp, Dm, -1), m.phi(y, Dp, Dm)-a)
    V.eq('odd derivative', m.diff_phi(-x), -m.diff_phi(x))
    V.eq('even second derivative', m.diff2_phi(-x), m.diff2_phi(x))
    V.eq('derivative sign', m.diff_phi(x, -1), -m.diff_phi(x))
    V.eq('second derivative sign', m.diff2_phi(x, -1), -m.diff2_phi(x))


def h_agree(W, V, case):
    p, c = M(W, 1), M(W, 0)
    x, y = V.real('x', -700, 700), V.real('y', -100, 100)
    Dp, Dm = V.real('Dp', 1, 1000), V.real('Dm', -1000, -1)
    V.assume(V.lor(x > 0.001, x < -0.001))
    s = 1-2*V.pick('s', 2)
    for n, a in (('fermi_func', (x,)), ('diff_fermi', (x, s)), ('bose', (x, s)), ('phi', (y, Dp, Dm, s)),
                 ('diff_phi', (y, s)), ('diff2_phi', (y, s)), ('delta_phi', (y, x/7, Dp, Dm, s))):
        V.eq(n, getattr(p, n)(*a), getattr(c, n)(*a))


def h_digamma(W, V, case):
    """the compiled digamma right of 8: the asymptotic series, and conjugation symmetry"""
    m = M(W, 0)
    x, y = V.real('x', 8, 100), V.real('y', -100, 100)
    z = C(x, y) if V.symbolic else complex(x, y)
    r = m.digamma(z)
    zc = C(x, -y) if V.symbolic else complex(x, -y)
    V.eq('conjugate', m.digamma(zc), V.conj(r))
    bern = [Fraction(1, 6), Fraction(-1, 30), Fraction(1, 42), Fraction(-1, 30), Fraction(5, 66),
            Fraction(-691, 2730), Fraction(7, 6)]
    w = 1/(z*z)
    s, p = 0.0, 1.0
    for k, b in enumerate(bern):
        p = p*w
        s = s - p*float(b/(2*(k+1)))
    lg = C(W.np.log(x*x+y*y)*0.5, atan(V, y/x)) if V.symbolic else complex(math.log(abs(z)), math.atan2(y, x))
    d = r-(lg-0.5/z+s)
    # the factors are stored with 17 digits; |1/z^2| <= 1/64
    if V.symbolic:
        V.eq('series', d, C(0.0, 0.0))
    else:
        V.eq('series', r, lg-0.5/z+s)


def atan(V, x):
    return app('atan', x) if V.symbolic else math.atan(x)


def h_recur(W, V, case):
    m = M(W, 0)
    x, y = V.real('x', 0.001, 6.99), V.real('y', -100, 100)
    z = C(x, y) if V.symbolic else complex(x, y)
    V.eq('psi(z+1) = psi(z) + 1/z', m.digamma(z+1), m.digamma(z)+1/z)


RE = [0.5, 1.25, 3.0, 7.5, 14.5, 20.0]


def h_polygamma(W, V, case):
    m = M(W, case['py'])
    y = V.real('y', -100, 100)
    for k in range(1, 5):
        for i, x in enumerate(RE):
            mk = (lambda a, b: C(a, b)) if V.symbolic else complex
            a = m.polygamma(mk(x, y), k)
            V.eq('conjugate[%d,%d]' % (k, i), m.polygamma(mk(x, -y), k), V.conj(a))
            if x < 14:
                V.eq('recurrence[%d,%d]' % (k, i), m.polygamma(mk(x+1, y), k),
                     a-(-1)**(k+1)*math.factorial(k)/mk(x, y)**(k+1))


def h_polyagree(W, V, case):
    p, c = M(W, 1), M(W, 0)
    y = V.real('y', -100, 100)
    k = case['K']
    for i, x in enumerate(RE):
        z = C(x, y) if V.symbolic else complex(x, y)
        V.eq('agree[%d]' % i, p.polygamma(z, k), c.polygamma(z, k))
        V.eq('unsupported order[%d]' % i, p.polygamma(z, -1), 0)
        V.eq('unsupported order c[%d]' % i, c.polygamma(z, 5), 0)


def int_args(W, V, case):
    p1, eta = 1-2*case.get('p', 0), 1-2*(case['eta'] if 'eta' in case else V.pick('eta', 2))
    E = [V.real('E%d' % i, -100, 100) for i in range(3)]
    T = [V.real('T%d' % i, 0.5, 100) for i in range(2)]
    mu = [V.real('mu%d' % i, -100, 100) for i in range(2)]
    D = V.real('D', 1, 100000)
    br = W.np.zeros((2, 2))
    for i in range(2):
        br[i, 0], br[i, 1] = V.real('b%d' % i, 0.001, 1), V.real('R%d' % i, 0.1, 50)
    return p1, eta, E, T, mu, D, br


def _agree(W, V, name, case):
    p1, eta, E, T, mu, D, br = int_args(W, V, case)
    im_ = bool(case['im'])
    f, g = getattr(M(W, 1), name), getattr(M(W, 0), name)
    a = f(p1, eta, E[0], E[1], E[2], T[0], T[1], mu[0], mu[1], D, br, im_)
    b = g(p1, eta, E[0], E[1], E[2], T[0], T[1], mu[0], mu[1], D, br, im_)
    V.eq(name, a, b)


def h_D(W, V, case):
    _agree(W, V, 'integralD', case)


def h_X(W, V, case):
    _agree(W, V, 'integralX', case)


def h_Deq(W, V, case):
    """one temperature: the direct integral is symmetric in its outer energies"""
    p1, eta, E, T, mu, D, br = int_args(W, V, case)
    f = M(W, case['py']).integralD
    E = [x/50 for x in E]
    l0, l1 = (E[0]-mu[0])/T[0], (E[2]-mu[0])/T[0]
    V.assume(V.lor(l0-l1 > 0.01, l0-l1 < -0.01))
    l2 = (E[1]-mu[0]-eta*mu[1])/T[0]
    V.assume(V.lor(l2 > 0.01, l2 < -0.01))
    a = f(p1, eta, E[0], E[1], E[2], T[0], T[0], mu[0], mu[1], D, br, False)
    V.eq('symmetric', f(p1, eta, E[2], E[1], E[0], T[0], T[0], mu[0], mu[1], D, br, False), a)


def h_Xeq(W, V, case):
    """one temperature: the exchange integral is odd in p1 and symmetric under exchange of its two leads"""
    p1, eta, E, T, mu, D, br = int_args(W, V, case)
    f = M(W, case['py']).integralX
    E = [x/50 for x in E]
    l = [(E[0]-mu[0])/T[0], (E[2]-eta*mu[1])/T[0]]
    l2 = (E[1]-mu[0]-eta*mu[1])/T[0]
    V.assume(V.lor(l2 > 0.01, l2 < -0.01))
    V.assume(V.lor(l2-l[0]-l[1] > 0.01, l2-l[0]-l[1] < -0.01))
    a = f(p1, eta, E[0], E[1], E[2], T[0], T[0], mu[0], mu[1], D, br, False)
    V.eq('odd', f(-p1, eta, E[0], E[1], E[2], T[0], T[0], mu[0], mu[1], D, br, False), -a)
    if eta == 1:
        V.eq('leads exchanged', f(p1, eta, E[2], E[1], E[0], T[0], T[0], mu[1], mu[0], D, br, False), a)


def h_ozaki(W, V, case):
    """poles and residues from arbitrary eigenpairs (in pairs +-b); the matrix handed to the eigensolver"""
    np_ = W.np
    for N in (2, 4, 6, 8):
        out, seen = [], []
        b, v = np_.zeros(N), np_.zeros((N, N))
        for i in range(N//2):
            p = V.real('b%d' % i, 0.001, 1)
            b[i], b[N-1-i] = -p, p
            for j in (i, N-1-i):
                v[0, j] = V.real('v%d' % j, 0.01, 1)
                v[N-1, j] = V.real('w%d' % j, 0.01, 1)

        def eig(d, e, *a, **k):
            seen.append((d, e))
            return b.copy(), v.copy()
        for py in (1, 0):
            m = M(W, py)
            if W.symbolic:
                W.ext['scipy.linalg'].eigh_tridiagonal.fn = eig
                r = m.Ozaki(N)
            else:
                o = m.m.linalg if py else m.m
                old, o.eigh_tridiagonal = o.eigh_tridiagonal, eig
                try:
                    r = m.Ozaki(N)
                finally:
                    o.eigh_tridiagonal = old
            r = K.arr(r)
            V.holds('shape[%d,%d]' % (N, py), r.shape == (N//2, 2))
            for i in range(N//2):
                j = N//2+i
                V.eq('pole[%d,%d,%d]' % (N, py, i), r[i, 0], b[j])
                V.eq('residue[%d,%d,%d]' % (N, py, i), r[i, 1]*4*b[j]*b[j], v[0, j]*v[0, j])
            d, e = K.arr(seen[-1][0]), K.arr(seen[-1][1])
            V.holds('size[%d,%d]' % (N, py), d.shape == (N,) and e.shape == (N-1,))
            for i in range(N):
                V.eq('diagonal[%d,%d,%d]' % (N, py, i), d[i], 0)
            for i in range(N-1):
                n = i+1
                V.eq('off-diagonal[%d,%d,%d]' % (N, py, i), e[i], 0.5/math.sqrt((2*n-1.)*(2*n+1.)),
                     tol=Fraction(1, 10**15))


def h_hilbert(W, V, case):
    """on two points the transform is the convolution with the stated kernel"""
    m = W.mod('specfunc.specfunc')
    np_ = W.np

    def dft(x, s):
        x = [x[i] for i in range(4)]
        w = [1, -1j, -1, 1j] if s < 0 else [1, 1j, -1, -1j]
        out = np_.zeros(4, dtype=complex)
        for k in range(4):
            out[k] = K.ssum(x[j]*w[(j*k) % 4] for j in range(4))*(1.0 if s < 0 else 0.25)
        return out
    if W.symbolic:
        m.fft, m.ifft = (lambda x: dft(x, -1)), (lambda x: dft(x, 1))
    f = np_.zeros(2)
    f[0], f[1] = V.real('f0', -1, 1), V.real('f1', -1, 1)
    k1 = 2*math.log(2)/PI
    for i, r in enumerate((m.hilbert_fredriksen(f), m.hilbert_fredriksen(f, m.kernel_fredriksen(2)))):
        V.holds('length[%d]' % i, len(r) == 2)
        V.eq('transform[%d,0]' % i, r[0], -k1*f[1], tol=Fraction(1, 10**12))
        V.eq('transform[%d,1]' % i, r[1], k1*f[0], tol=Fraction(1, 10**12))


def weight(c):
    return {'Deq': 9, 'digamma': 8, 'phpauli': 7, 'polyagree': 6, 'X': 5, 'D': 5}.get(c['f'], 1)
