"""Run-time support for translated Cython code (see pyxtrans.py).

``MV`` models a typed memoryview compiled with boundscheck=False / wraparound=False: an index
outside the buffer is reported as an out-of-bounds access instead of silently touching other
memory.  ``prange`` runs its iterations one after the other while recording which buffer
elements every iteration reads and writes; two iterations touching the same element with at
least one write is reported as a race.
"""
import math
import types

import numpy as np

from . import npshim
from .npshim import SymArray, smax, smin, coerce1, kind_of
from .sym import R, C, B, NUMS, CN, Unsupported, app, ite, is_sym, rsqrt

__all__ = ['_t_d', '_t_c', '_t_i', '_t_u', '_t_b', '_mv_d', '_mv_c', '_mv_i', '_mv_u', '_mv_o', 'long', 'unicode',
           'float', 'int', 'max', 'min', 'bool', 'xrange']


class OutOfBounds(Exception):
    """An unchecked memoryview access left the buffer."""


class RaceFound(Exception):
    """Two iterations of a parallel loop conflict on one memory element."""


class ModelError(Exception):
    pass


xrange = range
bool = bool
long = int
unicode = str
max, min = smax, smin


class _Int(type):
    def __instancecheck__(cls, x):
        return isinstance(x, __builtins__['int'] if isinstance(__builtins__, dict) else __builtins__.int)

    def __call__(cls, x=0, *a):
        return trunc(x) if not a else _int(x, *a)


_int = int
_float = float
int = _int


def float(x=0.0):
    if isinstance(x, R):
        return x
    if isinstance(x, C):
        raise TypeError("can't convert complex to float")
    return _float(x)


def trunc(x):
    if isinstance(x, R):
        if x.op == 'c':
            return math.trunc(x.value)
        return int(x)               # forks on the integer part
    return _int(x)


def _t_d(x):
    if x.__class__ is _float or isinstance(x, R):
        return x
    if isinstance(x, (C,) + CN):
        raise TypeError("can't convert complex to float")
    if isinstance(x, np.ndarray) and x.size == 1:
        return _t_d(np.asarray(x).reshape(-1)[0])
    if isinstance(x, MV) and x.a.size == 1:
        return _t_d(x.a.reshape(-1)[0])
    if x is npshim.UNINIT:
        raise ModelError('read of uninitialised memory')
    return _float(x)


def _t_c(x):
    if isinstance(x, (C, R)) or x.__class__ is complex:
        return x
    if isinstance(x, np.ndarray) and x.size == 1:
        return _t_c(np.asarray(x).reshape(-1)[0])
    if x is npshim.UNINIT:
        raise ModelError('read of uninitialised memory')
    return complex(x)


def _t_i(x):
    if x.__class__ is _int:
        return x
    if isinstance(x, R):
        if x.op == 'c' and x.value.denominator == 1:
            return _int(x.value)
        raise Unsupported('symbolic value converted to a C integer')
    if isinstance(x, _float):
        raise TypeError('float converted to C integer')
    return _int(x)


def _t_u(x):
    if isinstance(x, B):
        return 1 if x else 0
    return _int(x) & 255


def _t_b(x):
    if isinstance(x, B):
        return x
    return True if x else False


class UndefinedPrivate(Exception):
    pass


class _Undef:
    """value of a private variable of a parallel loop before the iteration assigns it"""

    def _bad(self, *a, **k):
        raise UndefinedPrivate('variable of a parallel loop read before it is assigned in the iteration')

    def __getattr__(self, nm):
        self._bad()


for _n in ('add radd sub rsub mul rmul truediv rtruediv lt le gt ge eq ne bool float int index complex neg abs getitem '
           'setitem iter call len hash').split():
    setattr(_Undef, '__%s__' % _n, _Undef._bad)
UNDEF = _Undef()


class _Views:
    """prange bookkeeping"""

    def __init__(self):
        self.cur = None
        self.iter = None
        self.write = {}
        self.read = {}
        self.loops = 0
        self.iterations = 0
        self.elements = 0
        self.races = []
        self.nt = None
        self.num = self.count = 0

    def thread(self):
        if not self.cur:
            return 0
        if self.nt is None:
            return self.num
        n, k = divmod(self.count, self.nt)
        big = k*(n+1)
        return self.num//(n+1) if self.num < big else k+(self.num-big)//n

    def begin(self):
        self.cur = True
        self.write, self.read = {}, {}
        self.loops += 1
        self.keep = []

    def end(self):
        self.elements += len(self.write)
        self.cur = None

    def touch(self, key, wr, what):
        i = self.iter
        w = self.write.get(key)
        if wr:
            if w is not None and w != i:
                self.race(key, w, i, what)
            r = self.read.get(key)
            if r is not None and (len(r) > 1 or i not in r):
                self.race(key, sorted(r)[0], i, what)
            self.write[key] = i
        else:
            if w is not None and w != i:
                self.race(key, w, i, what)
            self.read.setdefault(key, set()).add(i)

    def race(self, key, a, b, what):
        self.races.append((a, b, what, key[1:]))


PR = _Views()


def prange(*args):
    if PR.cur:
        raise Unsupported('nested prange')
    PR.begin()
    try:
        PR.count = len(range(*args))
        for PR.num, i in enumerate(range(*args)):
            PR.iter = i if PR.nt is None else PR.thread()
            PR.iterations += 1
            yield i
    finally:
        PR.end()


class MV:
    """Typed memoryview."""
    __mv__ = True
    __slots__ = ('a', 'kind', 'base', 'wrap', '_flat0')

    def __init__(self, a, kind, base=None, wrap=False):
        self.a, self.kind, self.base, self.wrap = a, kind, base if base is not None else a, wrap

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def T(self):
        return MV(self.a.T, self.kind, self.base)

    @property
    def nbytes(self):
        return self.a.size * 8

    def copy(self):
        return MV(self.a.copy(), self.kind)

    def __array__(self, dtype=None, copy=None):
        return self.a

    def __len__(self):
        return self.a.shape[0]

    def __iter__(self):
        for i in range(self.a.shape[0]):
            yield self[i]

    def _fix(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix,)
        nd = self.a.ndim
        if any(i is Ellipsis for i in ix):
            k = [j for j, i in enumerate(ix) if i is Ellipsis][0]
            ix = ix[:k] + (slice(None),) * (nd - len(ix) + 1) + ix[k + 1:]
        if len(ix) > nd:
            raise ModelError('too many indices for memoryview')
        out = []
        for d, i in enumerate(ix):
            if isinstance(i, slice):
                out.append(i)
                continue
            if isinstance(i, R):
                i = _t_i(i)
            i = _int(i)
            n = self.a.shape[d]
            if i < 0 and self.wrap:
                i += n
            if i < 0 or i >= n:
                raise OutOfBounds('index %d outside axis %d of length %d' % (i, d, n))
            out.append(i)
        return tuple(out)

    def __getitem__(self, ix):
        ix = self._fix(ix)
        if len(ix) == self.a.ndim and not any(isinstance(i, slice) for i in ix):
            if PR.cur:
                PR.touch(self._key(ix), False, 'read')
            v = np.ndarray.__getitem__(self.a, ix)
            if v is npshim.UNINIT:
                raise ModelError('read of uninitialised memory')
            if self.kind in 'iu':
                return _int(v)
            return v
        return MV(self.a[ix], self.kind, self.base)

    def __setitem__(self, ix, v):
        ix = self._fix(ix)
        if len(ix) == self.a.ndim and not any(isinstance(i, slice) for i in ix):
            if PR.cur:
                PR.touch(self._key(ix), True, 'write')
            v = _CO[self.kind](v)
            if self.kind == 'c' and isinstance(v, NUMS):
                v = complex(v)
            np.ndarray.__setitem__(self.a, ix, v)
            return
        if isinstance(v, MV):
            v = v.a
        tgt = self.a[ix]
        if isinstance(v, np.ndarray) and v.shape != tgt.shape and v.ndim == tgt.ndim:
            raise ValueError('memoryview assignment: shapes %s and %s differ' % (tgt.shape, v.shape))
        if isinstance(v, np.ndarray):
            if self.kind == 'd' and any(isinstance(x, (C,) + CN) for x in v.flat):
                raise TypeError('complex data in a double memoryview')
            self.a[ix] = v
        else:
            self.a[ix] = _CO[self.kind](v)

    def _key(self, ix):
        return (self.a.__array_interface__['data'][0] + sum(i * s for i, s in zip(ix, self.a.strides)),) + ix

    def __eq__(self, o):
        return self is o or (isinstance(o, MV) and o.a is self.a)

    __hash__ = None


_CO = {'d': _t_d, 'c': _t_c, 'i': _t_i, 'u': _t_u, 'b': _t_b, 'o': lambda x: x}


def _mv(kind, x, nd):
    if x is None:
        return None
    if isinstance(x, MV):
        if x.kind != kind and not (x.kind in 'iu' and kind in 'iu'):
            raise ValueError('Buffer dtype mismatch')
        if x.ndim != nd:
            raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (nd, x.ndim))
        return MV(x.a, kind, x.base, False)
    if isinstance(x, np.ndarray):
        if x.ndim != nd:
            raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (nd, x.ndim))
        k = x.kind if isinstance(x, SymArray) else {'f': 'd', 'c': 'c', 'i': 'i', 'u': 'u', 'b': 'u'}.get(x.dtype.kind)
        if k is None and isinstance(x, SymArray):
            k = kind_by_content(x)
            if k == 'd' and kind == 'c':
                # result of arithmetic on complex arrays whose entries all happen to be real-valued
                k = 'c'
        if kind == 'i' and k == 'u' or kind == 'u' and k == 'i' or k != kind:
            raise ValueError('Buffer dtype mismatch, expected %r got %r' % (kind, k))
        return MV(x, kind, x)
    raise TypeError('a buffer is required, got %r' % type(x))


def kind_by_content(x):
    return 'c' if any(isinstance(v, (C,) + CN) for v in x.flat) else 'd'


def _mv_d(x, nd):
    return _mv('d', x, nd)


def _mv_c(x, nd):
    return _mv('c', x, nd)


def _mv_i(x, nd):
    return _mv('i', x, nd)


def _mv_u(x, nd):
    return _mv('u', x, nd)


def _mv_o(x, nd):
    return x


def wrap_ok(x):
    if isinstance(x, MV):
        return MV(x.a, x.kind, x.base, True)
    return x


def carray(kind, dims, init=None):
    a = np.empty(dims, dtype=object)
    a.fill(npshim.UNINIT)
    if init is not None:
        for i, v in enumerate(init):
            a[i] = _CO[kind](v)
    a = a.view(SymArray)
    a.kind = kind
    return MV(a, kind, a)


class CyObj:
    """Base of translated cdef classes: declared attributes are typed, undeclared ones live in __dict__."""
    _cy_own = {}
    _cy_ptr = ()

    def __init_subclass__(cls, **k):
        super().__init_subclass__(**k)
        at = {}
        for b in reversed(cls.__mro__):
            at.update(b.__dict__.get('_cy_own', {}))
        cls._cy_attrs = at

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        d = o.__dict__
        for b in cls.__mro__:
            for n in b.__dict__.get('_cy_ptr', ()):
                d[n] = NULL
        for n, (kind, mv) in cls._cy_attrs.items():
            if mv is None and kind in 'iub':
                d[n] = 0
            elif mv is None and kind == 'd':
                d[n] = 0.0
            elif mv is None and kind == 'c':
                d[n] = 0j
            else:
                d[n] = None
        return o

    def __setattr__(self, n, v):
        t = self._cy_attrs.get(n)
        if t is not None:
            kind, mv = t
            if mv is not None:
                v = _mv(kind, v, mv)
            elif kind in _CO:
                v = _CO[kind](v)
                if PR.cur:
                    old = self.__dict__.get(n)
                    PR.touch(('attr', id(self), n), True, 'attribute write') if old is not v and \
                        not (isinstance(v, (_int, bool)) and not is_sym(v)) else None
        object.__setattr__(self, n, v)


# ---- operators ---------------------------------------------------------------------------
def _isint(x):
    return isinstance(x, (_int, np.integer)) and not isinstance(x, bool)


def cdiv(a, b):
    if _isint(a) and _isint(b):
        if b == 0:
            raise ModelError('C integer division by zero')
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if is_sym(a) or is_sym(b):
        return a / b
    try:
        return a / b
    except ZeroDivisionError:
        if isinstance(a, complex) or isinstance(b, complex):
            return complex(np.complex128(a) / np.complex128(b))
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)


def pydiv(a, b):
    if _isint(a) and _isint(b):
        return a // b
    return a / b


def cmod(a, b):
    if _isint(a) and _isint(b):
        return a - b * cdiv(a, b)
    return math.fmod(a, b)


def pymod(a, b):
    return a % b


def cpow(a, b):
    if is_sym(a) or is_sym(b):
        return a ** b
    if isinstance(a, complex) and isinstance(b, _float) and b == _int(b) and abs(b) < 64:
        return a ** _int(b)
    return a ** b


def iop(op, a, b):
    if isinstance(a, np.ndarray):
        b = b.a if isinstance(b, MV) else b
        a[...] = a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b
        return a
    if op == '+':
        if isinstance(a, MV):
            raise TypeError('unsupported operand type(s) for +=: memoryview')
        return a + b if not isinstance(a, list) else a.__iadd__(b)
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return cdiv(a, b)
    if op == '|':
        return a | b
    if op == '&':
        return a & b
    if op in ('//', '%', '**', '^', '>>', '<<'):
        import operator as o
        return {'//': o.floordiv, '%': o.mod, '**': o.pow, '^': o.xor, '>>': o.rshift, '<<': o.lshift}[op](a, b)
    raise ModelError('in-place operator %s' % op)


def cabs_(x):
    return abs(x)


def _libm(name, f):
    def g(x):
        x = _t_d(x)
        if isinstance(x, R):
            if name == 'fabs':
                return abs(x)
            if name == 'sqrt':
                return rsqrt(x)
            if name == 'exp' and x.op == 'c' and x.value == 0:
                return 1.0
            return app(name, x)
        try:
            return f(x)
        except OverflowError:
            return math.inf
        except ValueError:
            if name == 'log' and x == 0:
                return -math.inf
            return math.nan
    return g


for _n in ('exp', 'log', 'sin', 'cos', 'tanh', 'atan', 'sqrt', 'tan', 'fabs', 'floor', 'ceil'):
    globals()['libc_' + _n] = _libm(_n, getattr(math, _n) if _n not in ('floor', 'ceil') else
                                    (lambda x, _f=getattr(math, _n): _float(_f(x))))


def libc_pow(a, b):
    return cpow(a, b)


# Threads: by default every iteration of a parallel loop runs on a thread of its own, so that any two
# iterations may conflict; with PR.nt set, the iterations are split into PR.nt contiguous chunks.
openmp = types.SimpleNamespace(omp_get_thread_num=PR.thread, omp_get_max_threads=lambda: PR.nt or 64,
                               omp_get_num_threads=lambda: (PR.nt or 64) if PR.cur else 1,
                               omp_set_num_threads=lambda n: None)


def parallel(*a):
    return None


def cyprint(*a):
    return None


# ---- pointers (c_lapack) -------------------------------------------------------------------
class Heap:
    """memory from malloc"""

    def __init__(self, n):
        if n < 0:
            raise ModelError('malloc of a negative size')
        self.n = n

    def __bool__(self):
        return True


class Ptr:
    """pointer to element ``off`` of a block of equal elements"""

    def __init__(self, flat, off, lo, hi):
        self.flat, self.off, self.lo, self.hi = flat, off, lo, hi

    def need(self, n, what):
        """elements 0..n-1 from here exist"""
        if n > 0 and (self.off < self.lo or self.off + n > self.hi):
            raise OutOfBounds('%s: %d elements needed, %d there' % (what, n, self.hi - self.off))

    def view(self, shape, lds, what):
        """strided view of the elements i + j*ld"""
        last = sum((n - 1) * l for n, l in zip(shape, lds)) + 1
        if all(n > 0 for n in shape):
            self.need(last, what)
        if self.flat is None:
            raise ModelError('%s: values of untracked memory' % what)
        base = self.flat[self.off:self.off + 1]
        return np.lib.stride_tricks.as_strided(base, shape=shape, strides=tuple(8 * l for l in lds))

    def set(self, v):
        self.need(1, 'write through a pointer')
        if self.flat is not None:
            self.flat[self.off] = v

    def __bool__(self):
        return True


class Ref:
    """address of a scalar variable"""

    def __init__(self, get, set):
        self.get, self.set = get, set

    def need(self, n, what):
        if n > 1:
            raise OutOfBounds('%s: %d elements needed, 1 there' % (what, n))


class Cell:
    """a local variable whose address is taken"""

    def __init__(self, get, co):
        try:
            self.v = get()
        except (NameError, UnboundLocalError):
            self.v = UNSET
        self.co = co

    def get(self):
        if self.v is UNSET:
            raise ModelError('read of an uninitialised variable')
        return self.v

    def set(self, v):
        self.v = self.co(v) if self.co else v

    need = Ref.need


UNSET = object()


def addr_attr(o, name):
    return Ref(lambda: getattr(o, name), lambda v: setattr(o, name, v))


def addr_item(base, ix):
    if not isinstance(base, MV):
        raise ModelError('address of an element of %r' % type(base))
    if base.a.size == 0:        # legal as long as nobody follows it
        return Ptr(None, 0, 0, 0)
    ix = base._fix(ix)
    if len(ix) != base.a.ndim or any(isinstance(i, slice) for i in ix):
        raise ModelError('address of a slice')
    a = base.a
    root = a
    while isinstance(root.base, np.ndarray):
        root = root.base
    root = root.view(np.ndarray)
    flat = root.reshape(-1, order='A')
    if not np.shares_memory(flat, root) or not (root.flags.c_contiguous or root.flags.f_contiguous):
        raise ModelError('address in memory that is not contiguous')
    pos = a.__array_interface__['data'][0] + sum(i * s for i, s in zip(ix, a.strides))
    off = pos - flat.__array_interface__['data'][0]
    if a.itemsize != 8 or off % 8:
        raise ModelError('address of an element that is not a double')
    return Ptr(flat, off // 8, 0, flat.size)


def forfrom(b1, r1, r2, b2, step):
    up = r2 in ('<', '<=')
    i = int(b1) + (0 if '=' in r1 else (1 if up else -1))
    while (i < b2 if r2 == '<' else i <= b2 if r2 == '<=' else i > b2 if r2 == '>' else i >= b2):
        yield i
        i += int(step) if up else -int(step)


def malloc(n):
    return Heap(n)


def free(p):
    pass


def ptrcast(x, size):
    if isinstance(x, Heap):
        return Ptr(None, 0, 0, x.n // size)
    return x


NULL = None


class Lapack:
    """dgesv and dgelsd: argument checks as in LAPACK, the answer comes from the harness."""
    on_solve = None

    class Call:
        """what the solver sees; a and b are the memory itself"""
        info = 0

    @staticmethod
    def _call(kind, A, B, x, info, rcond=None):
        c = Lapack.Call()
        c.kind, c.a, c.b, c.rcond = kind, A, B[:, 0] if B.shape[1] == 1 else B, rcond
        f = x or Lapack.on_solve
        if f is not None:
            f(c)
        elif A.dtype == np.float64:
            c.b[:A.shape[1]] = np.linalg.lstsq(A, c.b[:A.shape[0]], rcond=None)[0]
        else:
            raise Unsupported('LAPACK solve reached without a stub')
        info.set(c.info)

    @staticmethod
    def dgesv(n, nrhs, a, lda, ipiv, b, ldb, info):
        N, R_, LA, LB = (_int(q.get()) for q in (n, nrhs, lda, ldb))
        for k, bad in ((1, N < 0), (2, R_ < 0), (4, LA < max(1, N)), (7, LB < max(1, N))):
            if bad:
                info.set(-k)
                return
        ipiv.need(N, 'ipiv')
        A, B = a.view((N, N), (1, LA), 'matrix of dgesv'), b.view((N, R_), (1, LB), 'right-hand side of dgesv')
        Lapack._call('dgesv', A, B, None, info)

    @staticmethod
    def dgelsd(m, n, nrhs, a, lda, b, ldb, s, rcond, rank, work, lwork, iwork, info):
        M, N, R_, LA, LB, LW = (_int(q.get()) for q in (m, n, nrhs, lda, ldb, lwork))
        mn = min(M, N)
        for k, bad in ((1, M < 0), (2, N < 0), (3, R_ < 0), (5, LA < max(1, M)), (7, LB < max(1, M, N))):
            if bad:
                info.set(-k)
                return
        nl, q = 0, mn
        while q >= 26:
            nl, q = nl + 1, q // 2
        nl += 1
        need = 12 * mn + 2 * mn * 25 + 8 * mn * nl + mn * R_ + 26 ** 2
        ineed = max(1, 3 * mn * nl + 11 * mn)
        if LW == -1:
            work.set(float(need))
            iwork.set(ineed)
            info.set(0)
            return
        if LW < need:
            info.set(-12)
            return
        s.need(mn, 'singular values')
        work.need(LW, 'work')
        iwork.need(ineed, 'iwork')
        A = a.view((M, N), (1, LA), 'matrix of dgelsd')
        B = b.view((max(M, N), R_), (1, LB), 'right-hand side of dgelsd')
        Lapack._call('dgelsd', A, B, None, info, rcond.get())
        rank.set(mn)


class _Scipy:
    class linalg:
        cython_lapack = Lapack


scipy_cimport = _Scipy
