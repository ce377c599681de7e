"""Symbolic reals / complexes / booleans with path forking, lowered to z3.

Real expressions form a hash-consed DAG.  Arithmetic is over the mathematical reals
(floats read from the code under test are taken as the exact rationals they denote).
Symbolic conditions reached by the executed code fork the run: ``explore`` re-executes the
harness once per feasible path, feasibility being decided by the solver.
"""
import math
import numbers
import os
import sys
import time
from fractions import Fraction

import numpy as _np

try:
    import z3
except ImportError:                       # appended, never shadowing the interpreter's own packages
    sys.path.append(os.environ.get('VERIF_SOLVER_SITE',
                                   '/opt/veriftools/pyvenv/lib/python3.12/site-packages'))
    import z3


class Unsupported(Exception):
    """The executed code did something the encoding does not model."""


class PathLimit(Exception):
    pass


# ------------------------------------------------------------------------------------------
# Real expression DAG
# ------------------------------------------------------------------------------------------
_table = {}
_nid = [0]
INTS = (int, _np.integer)
NUMS = (int, float, Fraction, _np.integer, _np.floating, bool, _np.bool_)


def reset_table():
    _table.clear()
    _polycache.clear()
    _appkeys.clear()


def _frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, INTS):
        return Fraction(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported('inf/nan mixed with a symbolic value')
    return Fraction(x)


class R(numbers.Number):
    """A symbolic real."""
    __slots__ = ('op', 'args', 'id', '__weakref__')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __hash__(self):
        return self.id

    # -- construction
    @staticmethod
    def mk(op, args):
        key = (op,) + tuple(a.id if isinstance(a, (R, B)) else ('k', a) for a in args)
        n = _table.get(key)
        if n is None:
            n = object.__new__(R)
            n.op, n.args = op, args
            _nid[0] += 1
            n.id = _nid[0]
            _table[key] = n
        return n

    @staticmethod
    def const(x):
        return R.mk('c', (_frac(x),))

    @staticmethod
    def var(name):
        return R.mk('v', (name,))

    @property
    def value(self):
        return self.args[0] if self.op == 'c' else None

    # -- numpy-ish attributes
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    conj = conjugate

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, R):
            return _add(self, o)
        if isinstance(o, NUMS):
            return _add(self, R.const(o))
        return _mixed(self, o, 'add')

    __radd__ = __add__

    def __neg__(self):
        return _mul(R.const(-1), self)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, R):
            if o is self:
                return R.const(0)
            return _add(self, _mul(R.const(-1), o))
        if isinstance(o, NUMS):
            return _add(self, R.const(-_frac(o)))
        return _mixed(self, o, 'sub')

    def __rsub__(self, o):
        if isinstance(o, NUMS):
            return _add(R.const(o), _mul(R.const(-1), self))
        return _mixed(self, o, 'rsub')

    def __mul__(self, o):
        if isinstance(o, R):
            return _mul(self, o)
        if isinstance(o, NUMS):
            return _mul(self, R.const(o))
        return _mixed(self, o, 'mul')

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, R):
            return _mul(self, _inv(o))
        if isinstance(o, NUMS):
            return _mul(self, R.const(1 / _nz(o)))
        return _mixed(self, o, 'truediv')

    def __rtruediv__(self, o):
        if isinstance(o, NUMS):
            return _mul(R.const(o), _inv(self))
        return _mixed(self, o, 'rtruediv')

    def __pow__(self, k):
        if isinstance(k, R) and k.op == 'c':
            k = k.value
        if isinstance(k, NUMS) and float(k) == int(k):
            k = int(k)
            if k < 0:
                return _inv(self ** (-k))
            r = R.const(1)
            for _ in range(k):
                r = _mul(r, self)
            return r
        if isinstance(k, NUMS) and float(k) == 0.5:
            return rsqrt(self)
        raise Unsupported('power with symbolic or fractional exponent')

    def __abs__(self):
        return rabs(self)

    # -- comparison
    def __lt__(self, o):
        return _cmp('<', self, o)

    def __le__(self, o):
        return _cmp('<=', self, o)

    def __gt__(self, o):
        return _cmp('<', o, self)

    def __ge__(self, o):
        return _cmp('<=', o, self)

    def __eq__(self, o):
        if isinstance(o, (R,) + NUMS):
            return _cmp('==', self, o)
        if isinstance(o, (C, complex)):
            return o == self
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return bnot(r)

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.op == 'c':
            return float(self.args[0])
        raise Unsupported('symbolic real concretised by float()')

    def __int__(self):
        if self.op == 'c':
            return int(self.args[0])
        for k in range(41):                 # forks on the integer part
            for i in ((k, -k) if k else (0,)):
                hit = band(self > -1, self < 1) if i == 0 else band(self >= i, self < i+1) if i > 0 else band(self > i-1, self <= i)
                if hit:
                    return i
        raise Unsupported('symbolic real of unbounded size concretised by int()')

    def __complex__(self):
        return complex(float(self))

    def __repr__(self):
        return show(self, 200)

    # unary functions numpy calls on objects
    def sqrt(self):
        return rsqrt(self)

    def exp(self):
        return app('exp', self)

    def log(self):
        return app('log', self)

    def is_integer(self):
        return self.op == 'c' and self.args[0].denominator == 1


def _nz(o):
    f = _frac(o)
    if f == 0:
        raise Unsupported('division of a symbolic value by zero')
    return f


def _add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return R.const(a.args[0] + b.args[0])
        a, b = b, a
    if b.op == 'c' and b.args[0] == 0:
        return a
    return R.mk('+', (a, b))


def _mul(a, b):
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        v = a.args[0]
        if b.op == 'c':
            return R.const(v * b.args[0])
        if v == 0:
            return a
        if v == 1:
            return b
        if b.op == '*' and b.args[0].op == 'c':
            return _mul(R.const(v * b.args[0].args[0]), b.args[1])
    return R.mk('*', (a, b))


def _inv(a):
    if a.op == 'c':
        return R.const(1 / _nz(a.args[0]))
    if a.op == 'app' and a.args[0] == 'inv':
        return a.args[1]
    if a.op == '*' and a.args[0].op == 'c':
        return _mul(R.const(1 / a.args[0].args[0]), _inv(a.args[1]))
    p = poly(a)
    if len(p) > 1 and p[max(p)] < 0:            # 1/(y-x) = -1/(x-y): one atom for both
        return _mul(R.const(-1), app('inv', _mul(R.const(-1), a)))
    return app('inv', a)


def rsqrt(a):
    if isinstance(a, R):
        if a.op == 'c':
            return sqrt_const(a.args[0])
        return app('sqrt', a)
    return math.sqrt(a)


def sqrt_const(v):
    v = _frac(v)
    n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator:
        return R.const(Fraction(n, d))
    return app('sqrt', R.const(v))


def rabs(a):
    if a.op == 'c':
        return R.const(abs(a.args[0]))
    return ite(a >= 0, a, -a)


def ite(c, a, b):
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    if isinstance(a, (C, complex)) or isinstance(b, (C, complex)):
        return C(ite(c, re_(a), re_(b)), ite(c, im_(a), im_(b)))
    a, b = toR(a), toR(b)
    if a is b:
        return a
    d = CTX.quick(c)
    if d is not None:
        return a if d else b
    return R.mk('ite', (c, a, b))


def toR(x):
    if isinstance(x, R):
        return x
    if isinstance(x, NUMS):
        return R.const(x)
    if isinstance(x, C) or isinstance(x, complex):
        raise Unsupported('complex where a real is needed')
    raise Unsupported('cannot make a symbolic real from %r' % type(x))


def _mixed(a, o, op):
    if isinstance(o, (C, complex, _np.complexfloating)):
        return getattr(C(a, 0), {'add': '__add__', 'sub': '__sub__', 'rsub': '__rsub__', 'mul': '__mul__',
                                 'truediv': '__truediv__', 'rtruediv': '__rtruediv__'}[op])(o)
    if isinstance(o, _np.ndarray):
        return _witharray(a, o, op)
    return NotImplemented


def _witharray(a, o, op):
    f = {'add': lambda x: a + x, 'sub': lambda x: a - x, 'rsub': lambda x: x - a, 'mul': lambda x: a * x,
         'truediv': lambda x: a / x, 'rtruediv': lambda x: x / a}[op]
    out = _np.empty(o.shape, dtype=object)
    for ix in _np.ndindex(*o.shape):
        out[ix] = f(o[ix])
    from . import npshim
    return out.view(npshim.SymArray)


# ------------------------------------------------------------------------------------------
# canonical polynomials (used to key function applications and conditions)
# ------------------------------------------------------------------------------------------
_polycache = {}
_appkeys = {}


def poly(n):
    """Canonical polynomial of a real node over its atoms: {((atomid, exp), ...): coeff}."""
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in _polycache:
            stack.pop()
            continue
        if x.op in '+*':
            todo = [a for a in x.args if a.id not in _polycache]
            if todo:
                stack.extend(todo)
                continue
            p, q = _polycache[x.args[0].id], _polycache[x.args[1].id]
            if x.op == '+':
                r = dict(p)
                for m, c in q.items():
                    s = r.get(m, 0) + c
                    if s:
                        r[m] = s
                    else:
                        r.pop(m, None)
            else:
                r = {}
                for m1, c1 in p.items():
                    for m2, c2 in q.items():
                        m = _mmul(m1, m2)
                        s = r.get(m, 0) + c1 * c2
                        if s:
                            r[m] = s
                        else:
                            r.pop(m, None)
        elif x.op == 'c':
            r = {(): x.args[0]} if x.args[0] else {}
        else:
            r = {((x.id, 1),): Fraction(1)}
        _polycache[x.id] = r
        stack.pop()
    return _polycache[n.id]


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


def pkey(x):
    if isinstance(x, R):
        return tuple(sorted(poly(x).items()))
    return ('o', x)


def app(name, *args):
    """Application of an uninterpreted (or contract-constrained) real function."""
    rargs = tuple(toR(a) if isinstance(a, (R,) + NUMS) and not isinstance(a, str) else a for a in args)
    key = (name,) + tuple(pkey(a) for a in rargs)
    n = _appkeys.get(key)
    if n is None:
        n = R.mk('app', (name,) + rargs)
        _appkeys[key] = n
    return n


# ------------------------------------------------------------------------------------------
# complex
# ------------------------------------------------------------------------------------------
def re_(x):
    return x.real


def im_(x):
    return x.imag


def _n(x):
    """real scalar component (keep python numbers as they are)"""
    return x


CN = (complex, _np.complexfloating)


class C(numbers.Number):
    """A symbolic complex number (pair of reals)."""
    __slots__ = ('real', 'imag', 'fac')
    __array_ufunc__ = None
    __array_priority__ = 1001
    __hash__ = None

    def __init__(self, re, im=0, fac=None):
        self.real = re if not isinstance(re, _np.generic) else re.item()
        self.imag = im if not isinstance(im, _np.generic) else im.item()
        self.fac = fac          # factors of a product: |xy|^2 = |x|^2 |y|^2 without expanding

    def conjugate(self):
        return C(self.real, -self.imag, (self, 1))

    def abs2(self):
        if self.fac is not None:
            return _abs2(self.fac[0])*_abs2(self.fac[1])
        return _m(self.real, self.real) + _m(self.imag, self.imag)

    conj = conjugate

    @staticmethod
    def _co(o):
        if isinstance(o, (C,) + CN):
            return o.real, o.imag
        if isinstance(o, (R,) + NUMS):
            return o, 0
        return None

    def __add__(self, o):
        p = C._co(o)
        if p is None:
            return _mixedc(self, o, 'add')
        return C(self.real + p[0], self.imag + p[1])

    __radd__ = __add__

    def __sub__(self, o):
        p = C._co(o)
        if p is None:
            return _mixedc(self, o, 'sub')
        return C(self.real - p[0], self.imag - p[1])

    def __rsub__(self, o):
        p = C._co(o)
        if p is None:
            return _mixedc(self, o, 'rsub')
        return C(p[0] - self.real, p[1] - self.imag)

    def __neg__(self):
        return C(-self.real, -self.imag, (self, 1))

    def __pos__(self):
        return self

    def __mul__(self, o):
        p = C._co(o)
        if p is None:
            return _mixedc(self, o, 'mul')
        a, b = self.real, self.imag
        c, d = p
        return C(_m(a, c) - _m(b, d), _m(a, d) + _m(b, c), (self, o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        p = C._co(o)
        if p is None:
            return _mixedc(self, o, 'truediv')
        c, d = p
        if not isinstance(d, R) and d == 0:
            return C(self.real / c, self.imag / c)
        den = _m(c, c) + _m(d, d)
        return (self * C(c, -d)) / den

    def __rtruediv__(self, o):
        p = C._co(o)
        if p is None:
            return _mixedc(self, o, 'rtruediv')
        return C(p[0], p[1]) / self

    def __pow__(self, k):
        if isinstance(k, R) and k.op == 'c':
            k = k.value
        if isinstance(k, NUMS) and float(k) == int(k):
            k = int(k)
            if k < 0:
                return 1 / (self ** (-k))
            r = C(1, 0)
            for _ in range(k):
                r = r * self
            return r
        raise Unsupported('complex power')

    def __abs__(self):
        if not isinstance(self.imag, R) and self.imag == 0:
            return abs(self.real)
        return rsqrt(toR(self.abs2()))

    def __eq__(self, o):
        p = C._co(o)
        if p is None:
            return False
        return band(eq(self.real, p[0]), eq(self.imag, p[1]))

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def __bool__(self):
        return bool(self != 0)

    def __complex__(self):
        return complex(float(self.real), float(self.imag))

    def __float__(self):
        raise Unsupported('symbolic complex concretised by float()')

    def __repr__(self):
        return '(%r + %rj)' % (self.real, self.imag)

    def sqrt(self):
        raise Unsupported('complex sqrt')


def _abs2(x):
    if isinstance(x, C):
        return x.abs2()
    if isinstance(x, CN):
        return _frac(x.real)**2+_frac(x.imag)**2
    return _m(x, x)


def _m(a, b):
    if not isinstance(a, R) and not isinstance(a, float) and a == 0:
        return 0
    if not isinstance(b, R) and not isinstance(b, float) and b == 0:
        return 0
    return a * b


def _mixedc(a, o, op):
    if isinstance(o, _np.ndarray):
        return _witharray(a, o, op)
    return NotImplemented


numbers.Complex.register(C)
numbers.Real.register(R)


def is_sym(x):
    return isinstance(x, (R, C, B))


def eq(a, b):
    if isinstance(a, (R, C)) or isinstance(b, (R, C)):
        return a == b if isinstance(a, (R, C)) else b == a
    return bool(a == b)


# ------------------------------------------------------------------------------------------
# booleans
# ------------------------------------------------------------------------------------------
class B:
    """A symbolic boolean."""
    __slots__ = ('op', 'args', 'id')
    __array_ufunc__ = None

    def __hash__(self):
        return self.id

    @staticmethod
    def mk(op, args):
        key = ('B', op) + tuple(a.id if isinstance(a, (R, B)) else ('k', a) for a in args)
        n = _table.get(key)
        if n is None:
            n = object.__new__(B)
            n.op, n.args = op, args
            _nid[0] += 1
            n.id = _nid[0]
            _table[key] = n
        return n

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __repr__(self):
        return '%s%r' % (self.op, tuple(self.args))


def _cmp(op, a, b):
    if isinstance(a, C) or isinstance(b, C):
        raise Unsupported('ordering of complex numbers')
    if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
        # a finite real compared with an infinity
        if op == '==':
            return False
        if isinstance(a, float) and math.isinf(a):
            return a < 0
        return b > 0
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return False
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        return NotImplemented
    if not isinstance(a, (R,) + NUMS) or not isinstance(b, (R,) + NUMS):
        return NotImplemented
    a, b = toR(a), toR(b)
    if a.op == 'c' and b.op == 'c':
        x, y = a.args[0], b.args[0]
        return x < y if op == '<' else x <= y if op == '<=' else x == y
    d = poly(a - b) if a is not b else {}
    if not d or list(d) == [()]:
        v = d.get((), 0)
        return v < 0 if op == '<' else v <= 0 if op == '<=' else v == 0
    return B.mk(op, (a, b))


def bnot(x):
    if isinstance(x, (bool, _np.bool_)):
        return not x
    if x.op == 'not':
        return x.args[0]
    return B.mk('not', (x,))


def band(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, _np.bool_)):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return B.mk('and', tuple(out))


def bor(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, _np.bool_)):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return B.mk('or', tuple(out))


def implies(a, b):
    return bor(bnot(a), b)


# ------------------------------------------------------------------------------------------
# lowering to z3
# ------------------------------------------------------------------------------------------
class Lower:
    """Lowers DAG nodes to z3 terms; collects the definitional constraints of the atoms used."""

    def __init__(self, contracts=None):
        self.memo = {}
        self.atoms = {}        # name -> z3 var (for model extraction)
        self.defs = []         # z3 side constraints (definitions / contracts of atoms)
        self.contracts = contracts or {}
        self.nodes = 0
        self.apps = {}

    def term(self, n):
        memo = self.memo
        if n.id in memo:
            return memo[n.id]
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            kids = [a for a in x.args if isinstance(a, (R, B))]
            todo = [a for a in kids if a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x.id] = self._mk(x)
            self.nodes += 1
            stack.pop()
        return memo[n.id]

    def _mk(self, x):
        g = lambda a: self.memo[a.id]
        if isinstance(x, B):
            if x.op == '<':
                return g(x.args[0]) < g(x.args[1])
            if x.op == '<=':
                return g(x.args[0]) <= g(x.args[1])
            if x.op == '==':
                return g(x.args[0]) == g(x.args[1])
            if x.op == 'not':
                return z3.Not(g(x.args[0]))
            if x.op == 'and':
                return z3.And(*[g(a) for a in x.args])
            if x.op == 'or':
                return z3.Or(*[g(a) for a in x.args])
            if x.op == 'bv':
                v = z3.Bool(x.args[0])
                self.atoms[x.args[0]] = v
                return v
            raise AssertionError(x.op)
        if x.op == 'c':
            f = x.args[0]
            return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
        if x.op == 'v':
            v = z3.Real(x.args[0])
            self.atoms[x.args[0]] = v
            return v
        if x.op == '+':
            return g(x.args[0]) + g(x.args[1])
        if x.op == '*':
            return g(x.args[0]) * g(x.args[1])
        if x.op == 'ite':
            return z3.If(g(x.args[0]), g(x.args[1]), g(x.args[2]))
        if x.op == 'app':
            name = 'app!%s!%d' % (x.args[0], x.id)
            v = z3.Real(name)
            self.atoms[name] = v
            zargs = [g(a) if isinstance(a, R) else a for a in x.args[1:]]
            self.apps.setdefault((x.args[0], len(zargs)), []).append((v, zargs))
            if x.args[0] == 'inv':
                self.defs.append(v * zargs[0] == 1)
            elif x.args[0] == 'sqrt':
                self.defs.append(z3.And(v * v == zargs[0], v >= 0))
            elif x.args[0] in self.contracts:
                self.defs.extend(self.contracts[x.args[0]](v, *zargs))
            elif x.args[0] == 'exp':
                self.defs.append(v > 0)
            return v
        raise AssertionError(x.op)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.branch_queries = 0
        self.interval = 0
        self.paths = 0
        self.nodes = 0
        self.apps = {}


STATS = Stats()


class Ctx:
    """Path exploration state."""

    def __init__(self):
        self.reset()
        self.assume0 = []
        self.contracts = {}
        self.branch_timeout = 5000
        self.iv, self.ivm = {}, {}

    def reset(self):
        self.token = object()
        self.decisions = []
        self.pos = 0
        self.pc = []
        self.alts = []
        self.active = False
        self.solver = None
        self.lower = None
        self.assumes = []

    def start(self, decisions):
        self.token = object()
        self.iv, self.ivm = {}, {}
        self.decisions = list(decisions)
        self.pos = 0
        self.pc = []
        self.alts = []
        self.assumes = []
        self.active = True
        self.lower = Lower(self.contracts)
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_timeout)
        self._ndefs = 0

    def assume(self, b):
        """Add an assumption about the inputs (before the code it constrains runs)."""
        if isinstance(b, (bool, _np.bool_)):
            if not b:
                raise Unsupported('assumption is constantly false')
            return
        self.assumes.append(b)
        if self.solver is not None:
            self.solver.add(self.lower.term(b))

    def _flushdefs(self):
        d = self.lower.defs
        while self._ndefs < len(d):
            self.solver.add(d[self._ndefs])
            self._ndefs += 1

    def bound(self, name, lo, hi):
        self.iv[name] = (-math.inf if lo is None else float(lo), math.inf if hi is None else float(hi))

    def quick(self, b):
        """decide a condition by interval arithmetic over the stated variable ranges, else None"""
        if b.op == 'not':
            d = self.quick(b.args[0])
            return None if d is None else not d
        if b.op in ('and', 'or'):
            ds = [self.quick(x) if isinstance(x, B) else bool(x) for x in b.args]
            stop = b.op == 'or'
            if any(d is stop for d in ds):
                return stop
            return None if any(d is None for d in ds) else not stop
        if b.op not in ('<', '<=', '=='):
            return None
        (al, ah), (bl, bh) = self.interval(b.args[0]), self.interval(b.args[1])
        if b.op == '==':
            return False if ah < bl or bh < al else None
        if ah < bl:
            return True
        if (al >= bh if b.op == '<' else al > bh):
            return False
        return None

    def interval(self, r):
        if not isinstance(r, R):
            return (float(r), float(r))
        v = self.ivm.get(r.id)
        if v is None:
            lo, hi = self._interval(r)
            if math.isnan(lo) or math.isnan(hi):
                lo, hi = -math.inf, math.inf
            if r.op not in ('v', 'c'):      # outward rounding
                lo, hi = lo-abs(lo)*1e-13, hi+abs(hi)*1e-13
            v = self.ivm[r.id] = (lo, hi)
        return v

    def _interval(self, r):
        if r.op == 'c':
            x = float(r.args[0])
            return (x, x) if Fraction(x) == r.args[0] else (math.nextafter(x, -math.inf), math.nextafter(x, math.inf))
        if r.op == 'v':
            return self.iv.get(r.args[0], (-math.inf, math.inf))
        if r.op in ('+', '*'):
            (a, b), (c, d) = (self.interval(x) for x in r.args)
            if r.op == '+':
                return a+c, b+d
            p = [0.0 if x == 0 or y == 0 else x*y for x in (a, b) for y in (c, d)]
            if r.args[0] is r.args[1]:
                return (0.0 if a <= 0 <= b else min(a*a, b*b)), max(p)
            return min(p), max(p)
        if r.op == 'ite':
            d = self.quick(r.args[0])
            if d is not None:
                return self.interval(r.args[1 if d else 2])
            (a, b), (c, d) = self.interval(r.args[1]), self.interval(r.args[2])
            return min(a, c), max(b, d)
        if r.op == 'app' and r.args[0] == 'sqrt':
            a, b = self.interval(r.args[1])
            return math.sqrt(max(a, 0.0)), math.sqrt(b) if b >= 0 else math.inf
        if r.op == 'app' and r.args[0] == 'inv':
            a, b = self.interval(r.args[1])
            if a > 0 or b < 0:
                return 1/b, 1/a
        return -math.inf, math.inf

    def branch(self, b):
        if not self.active:
            raise Unsupported('symbolic condition outside exploration')
        if self.iv:
            d = self.quick(b)
            if d is not None:
                STATS.interval += 1
                return d
        t = self.lower.term(b)
        self._flushdefs()
        if self.pos < len(self.decisions):
            d, forced = self.decisions[self.pos]
            self.pos += 1
            self.solver.add(t if d else z3.Not(t))
            if not forced:
                self.pc.append(b if d else bnot(b))
            return d
        t0 = time.time()
        r1 = self.solver.check(t)
        r2 = self.solver.check(z3.Not(t)) if r1 != z3.unsat else z3.sat
        STATS.solver_s += time.time() - t0
        STATS.branch_queries += 2
        if r1 == z3.unsat:
            d, forced = False, True
        elif r2 == z3.unsat:
            d, forced = True, True
        else:
            d, forced = True, False
            self.alts.append(self.decisions[:self.pos] + [(False, False)])
        self.decisions.append((d, forced))
        self.pos += 1
        self.solver.add(t if d else z3.Not(t))
        if not forced:
            self.pc.append(b if d else bnot(b))
        return d


CTX = Ctx()


def explore(fn, max_paths=4096):
    """Run fn() once per feasible path; yields (path condition list, assumptions, result)."""
    work = [[]]
    n = 0
    while work:
        dec = work.pop()
        n += 1
        if n > max_paths:
            raise PathLimit('more than %d paths' % max_paths)
        CTX.start(dec)
        try:
            res = fn()
        finally:
            CTX.active = False
        STATS.paths += 1
        work.extend(CTX.alts)
        yield list(CTX.pc), list(CTX.assumes), res


def show(n, limit=400):
    def go(x, d):
        if not isinstance(x, (R, B)):
            return str(x)
        if isinstance(x, B):
            return '%s(%s)' % (x.op, ','.join(go(a, d + 1) for a in x.args))
        if x.op == 'c':
            f = x.args[0]
            return str(f) if f.denominator < 1000 else '%.6g' % float(f)
        if x.op == 'v':
            return x.args[0]
        if d > 6:
            return '..'
        if x.op in '+*':
            return '(%s%s%s)' % (go(x.args[0], d + 1), x.op, go(x.args[1], d + 1))
        if x.op == 'ite':
            return 'ite(%s)' % ','.join(go(a, d + 1) for a in x.args)
        return '%s(%s)' % (x.args[0], ','.join(go(a, d + 1) for a in x.args[1:]))
    s = go(n, 0)
    return s if len(s) <= limit else s[:limit] + '...'
