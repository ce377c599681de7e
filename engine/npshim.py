"""A numpy stand-in handed to the code under test.

Arrays of floating / complex dtype become object arrays (``SymArray``) whose elements may be
symbolic; integer and boolean arrays stay real numpy arrays.  ``kind`` remembers the declared
dtype, so that storing a complex value into a float array drops the imaginary part exactly as
numpy does.
"""
import builtins
import math
import types

import numpy as np

from .sym import (R, C, B, NUMS, CN, Unsupported, app, rsqrt, sqrt_const, ite, eq, band, bor, bnot, is_sym, toR)


class SymArray(np.ndarray):
    kind = None

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, 'kind', None)

    @property
    def real(self):
        return mapu(lambda x: x.real, self)

    @property
    def imag(self):
        return mapu(lambda x: x.imag, self)

    def conj(self):
        return mapu(lambda x: x.conjugate(), self)

    conjugate = conj

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0:
            return arr[()]
        r = arr.view(SymArray)
        r.kind = None
        return r

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [np.asarray(i).view(np.ndarray) if isinstance(i, np.ndarray) else i for i in inputs]
        if method == '__call__' and ufunc.__name__ in _UF:
            if out is None:
                return _wrapb(_UF[ufunc.__name__], ins)
        if out is not None:
            res = getattr(ufunc, method)(*ins, **kw)
            o = out[0]
            o[...] = res
            return o
        if ufunc.__name__ in ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal'):
            return _cmparr(ufunc, ins)
        res = getattr(ufunc, method)(*ins, **kw)
        if isinstance(res, np.ndarray):
            res = res.view(SymArray)
            res.kind = None
        return res

    def __setitem__(self, ix, val):
        val = coerce(self.kind, val)
        np.ndarray.__setitem__(self, ix, val)

    def astype(self, dtype, *a, **k):
        kd = kind_of(dtype)
        r = mapu(lambda x: coerce1(kd, x), self)
        if isinstance(r, SymArray):
            r.kind = kd
        return r

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, **kw):
        r = np.ndarray.sum(np.asarray(self).view(np.ndarray), axis=axis)
        return _sa(r)

    def copy(self, order='C'):
        r = np.ndarray.copy(self, order)
        r.kind = self.kind
        return r

    @property
    def dtype_kind(self):
        return self.kind


def _sa(r, kind=None):
    if isinstance(r, np.ndarray) and r.dtype == object:
        r = r.view(SymArray)
        r.kind = kind
    return r


def coerce1(kind, x):
    if kind == 'd':
        if isinstance(x, (C,) + CN):
            return x.real if not isinstance(x.real, np.generic) else x.real.item()
        if isinstance(x, (bool, int, np.integer, np.bool_)):
            return float(x)
    elif kind == 'i':
        if isinstance(x, (C,) + CN):
            x = x.real
        if isinstance(x, R) and x.op != 'c':
            raise Unsupported('symbolic value stored in an integer array')
        return int(x)
    return x


def coerce(kind, val):
    if kind is None:
        return val
    if isinstance(val, np.ndarray):
        if val.dtype == object:
            out = np.empty(val.shape, dtype=object)
            for ix in np.ndindex(*val.shape):
                out[ix] = coerce1(kind, np.ndarray.__getitem__(val, ix))
            return out
        if kind == 'd' and val.dtype.kind == 'c':
            return val.real.astype(object)
        if kind == 'd' and val.dtype.kind in 'iub':
            return val.astype(float).astype(object)
        return val.astype(object) if val.dtype.kind in 'fc' else val
    if isinstance(val, (list, tuple)):
        return coerce(kind, np.array([coerce(kind, v) for v in val], dtype=object))
    if hasattr(val, '__array__') and not isinstance(val, (R, C, np.generic)):
        return coerce(kind, np.asarray(val.__array__()))
    return coerce1(kind, val)


def mapu(f, a):
    a = np.asarray(a).view(np.ndarray)
    out = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        out[ix] = f(a[ix])
    return out.view(SymArray)


def kind_of(dtype):
    if dtype is None:
        return 'd'
    if isinstance(dtype, str):
        return {'d': 'd', 'f': 'd', 'float': 'd', 'complex': 'c', 'int': 'i', 'bool': 'i'}.get(dtype, None)
    if dtype is object:
        return None
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        return None
    return {'f': 'd', 'c': 'c', 'i': 'i', 'u': 'i', 'b': 'i'}.get(k)


def _hassym(x):
    if isinstance(x, (R, C)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_hassym(v) for v in x)
    if hasattr(x, '__mv__'):
        return _hassym(x.a)
    return False


def _wrapb(f, ins):
    if any(isinstance(i, np.ndarray) for i in ins):
        b = np.broadcast(*[np.asarray(i, dtype=object) for i in ins])
        out = np.empty(b.shape, dtype=object)
        out.flat = [f(*v) for v in b] if b.shape else [f(*[np.asarray(i)[()] for i in ins])]
        return out.view(SymArray) if b.shape else out[()]
    return f(*ins)


def _cmparr(ufunc, ins):
    import operator
    op = {'equal': eq, 'not_equal': lambda a, b: bnot(eq(a, b)), 'less': operator.lt, 'less_equal': operator.le,
          'greater': operator.gt, 'greater_equal': operator.ge}[ufunc.__name__]
    r = _wrapb(op, ins)
    if isinstance(r, np.ndarray) and all(isinstance(v, (bool, np.bool_)) for v in r.flat):
        return np.asarray(r).view(np.ndarray).astype(bool)
    return r


# ---- scalar functions --------------------------------------------------------------------
def s_sqrt(x):
    if isinstance(x, R):
        return rsqrt(x)
    if isinstance(x, C):
        if not isinstance(x.imag, R) and x.imag == 0:
            return rsqrt(x.real)
        raise Unsupported('complex sqrt')
    return np.sqrt(x)


def s_exp(x):
    if isinstance(x, R):
        if x.op == 'c':
            return R.const(1) if x.value == 0 else app('exp', x)
        return app('exp', x)
    if isinstance(x, C):
        if not isinstance(x.imag, R) and x.imag == 0:
            return s_exp(x.real)
        raise Unsupported('complex exp')
    return np.exp(x)


def s_log(x):
    if isinstance(x, R):
        return app('log', x)
    if isinstance(x, C):
        if not isinstance(x.imag, R) and x.imag == 0:
            return s_log(x.real)
        if x.real > 0:
            return C(app('log', x.real*x.real + x.imag*x.imag)*0.5, app('atan', x.imag/x.real))
        raise Unsupported('complex log in the left half plane')
    return np.log(x)


def s_abs(x):
    return abs(x)


def s_conj(x):
    return x.conjugate()


def s_rint(x):
    if isinstance(x, R):
        if x.op == 'c':
            return float(round(x.value))
        raise Unsupported('rint of a symbolic value')
    return np.rint(float(x))


def _trig(name):
    f = getattr(np, name)

    def g(x):
        if isinstance(x, R):
            return app(name, x)
        if isinstance(x, C):
            raise Unsupported(name)
        return f(x)
    return g


_UF = {'sqrt': s_sqrt, 'exp': s_exp, 'log': s_log, 'absolute': s_abs, 'conjugate': s_conj, 'rint': s_rint,
       'tanh': _trig('tanh'), 'sin': _trig('sin'), 'cos': _trig('cos'),
       'isfinite': lambda x: True if is_sym(x) else bool(np.isfinite(x)),
       'isnan': lambda x: False if is_sym(x) else bool(np.isnan(x)),
       'power': lambda a, b: a ** b}


def _u(name):
    f = _UF[name]
    real = getattr(np, name)

    def g(x, *a, **k):
        if hasattr(x, '__mv__'):
            x = x.a
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return mapu(f, x)
            return real(x, *a, **k)
        if is_sym(x):
            return f(x)
        return real(x, *a, **k)
    return g


# ---- constructors ------------------------------------------------------------------------
def _mk(shape, kind, fill, order='C'):
    a = np.empty(shape, dtype=object, order=order)
    a.fill(fill)
    a = a.view(SymArray)
    a.kind = kind
    return a


def zeros(shape, dtype=float, order='C'):
    k = kind_of(dtype)
    if k in ('d', 'c'):
        return _mk(shape, k, 0.0 if k == 'd' else 0j, order)
    return np.zeros(shape, dtype=dtype, order=order)


def ones(shape, dtype=None, order='C'):
    k = kind_of(dtype)
    if k in ('d', 'c'):
        return _mk(shape, k, 1.0 if k == 'd' else 1 + 0j, order)
    return np.ones(shape, dtype=dtype, order=order)


def empty(shape, dtype=float, order='C'):
    k = kind_of(dtype)
    if k in ('d', 'c'):
        return _mk(shape, k, UNINIT, order)
    return np.empty(shape, dtype=dtype, order=order)


class _Uninit:
    def __repr__(self):
        return '<uninitialised>'


UNINIT = _Uninit()


def full(shape, v, dtype=None, order='C'):
    if dtype is None and is_sym(v):
        return _mk(shape, 'd' if isinstance(v, R) else 'c', v, order)
    k = kind_of(dtype if dtype is not None else type(v))
    if k in ('d', 'c'):
        return _mk(shape, k, coerce1(k, v), order)
    return np.full(shape, v, dtype=dtype, order=order)


def eye(n, *a, dtype=float, **k):
    r = np.eye(n, *a, **k)
    kd = kind_of(dtype)
    if kd in ('d', 'c'):
        s = r.astype(object).view(SymArray)
        s.kind = kd
        return s
    return r.astype(dtype)


identity = eye


def zeros_like(a, dtype=None, **k):
    if dtype is None and isinstance(a, SymArray):
        return _mk(a.shape, a.kind, 0j if a.kind == 'c' else 0.0)
    if hasattr(a, '__mv__'):
        return zeros_like(a.a, dtype)
    return zeros(np.shape(a), np.asarray(a).dtype if dtype is None else dtype)


def array(x, dtype=None, copy=True, order=None, **kw):
    if hasattr(x, '__mv__'):
        x = x.a
    if dtype is None:
        if isinstance(x, SymArray):
            r = np.array(x, dtype=object, order=order or 'K').view(SymArray)
            r.kind = x.kind
            return r
        if _hassym(x):
            r = _objarr(x)
            r.kind = 'c' if any(isinstance(v, (C,) + CN) for v in r.flat) else 'd'
            return r
        r = np.array(x, order=order or 'K', **kw)
        if r.dtype.kind in 'fc':
            k = 'd' if r.dtype.kind == 'f' else 'c'
            r = np.array(r.tolist(), dtype=object).reshape(r.shape).view(SymArray)
            r.kind = k
        return r
    k = kind_of(dtype)
    if k in ('d', 'c'):
        r = _objarr(x)
        r = coerce(k, r).view(SymArray)
        if k == 'c':
            pass
        r.kind = k
        if not copy and isinstance(x, SymArray) and x.kind == k:
            return x
        return r
    if isinstance(x, SymArray):
        return np.array([coerce1('i', v) for v in x.flat], dtype=dtype).reshape(x.shape)
    return np.array(x, dtype=dtype, order=order or 'K')


def _objarr(x):
    """Nested sequence (possibly with symbolic leaves / sub-arrays) -> object array."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(np.ndarray).copy().view(SymArray)
        return np.array(x.tolist(), dtype=object).reshape(x.shape).view(SymArray)
    if isinstance(x, (list, tuple)):
        parts = [_objarr(v) for v in x]
        if not parts:
            return np.empty((0,), dtype=object).view(SymArray)
        sh = {p.shape for p in parts}
        if len(sh) > 1:
            raise ValueError('setting an array element with a sequence (inhomogeneous shape)')
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p.view(np.ndarray) if p.ndim else p[()]
        return out.view(SymArray)
    if hasattr(x, '__mv__'):
        return _objarr(x.a)
    out = np.empty((), dtype=object)
    out[()] = x if not isinstance(x, np.generic) else x.item()
    return out.view(SymArray)


def asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and (dtype is None or kind_of(dtype) == x.kind):
        return x
    return array(x, dtype)


def _un(x):
    if hasattr(x, '__mv__'):
        x = x.a
    return x


def dot(a, b, out=None):
    a, b = _un(a), _un(b)
    if not (_hassym(a) or _hassym(b)):
        return np.dot(a, b)
    a = np.asarray(a).view(np.ndarray) if isinstance(a, (np.ndarray, list, tuple)) else a
    b = np.asarray(b).view(np.ndarray) if isinstance(b, (np.ndarray, list, tuple)) else b
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
        return a * b
    return _sa(_matprod(a, b, np.dot))


def matmul(a, b):
    a, b = _un(a), _un(b)
    if not (_hassym(a) or _hassym(b)):
        return np.matmul(a, b)
    a = np.asarray(a).view(np.ndarray)
    b = np.asarray(b).view(np.ndarray)
    return _sa(_matprod(a, b, np.matmul))


def _z(x):
    return not isinstance(x, (R, C)) and x == 0


def _matprod(a, b, f):
    if a.ndim <= 2 and b.ndim <= 2 and a.ndim >= 1 and b.ndim >= 1:
        A = a.reshape(1, -1) if a.ndim == 1 else a
        Bm = b.reshape(-1, 1) if b.ndim == 1 else b
        if A.shape[1] != Bm.shape[0]:
            raise ValueError('shapes not aligned')
        out = np.empty((A.shape[0], Bm.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(Bm.shape[1]):
                s = 0.0
                for k in range(A.shape[1]):
                    x, y = A[i, k], Bm[k, j]
                    if _z(x) or _z(y):
                        continue
                    s = s + x * y
                out[i, j] = s
        if a.ndim == 1 and b.ndim == 1:
            return out[0, 0]
        if a.ndim == 1:
            return out[0]
        if b.ndim == 1:
            return out[:, 0]
        return out
    return f(a.astype(object), b.astype(object))


def sum_(a, axis=None, **k):
    a = _un(a)
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return _sa(np.sum(np.asarray(a).view(np.ndarray), axis=axis))
    return np.sum(a, axis=axis, **k)


def power(a, b):
    a, b = _un(a), _un(b)
    if _hassym(a) or _hassym(b):
        return _wrapb(lambda x, y: x ** y, [a, b])
    return np.power(a, b)


def concatenate(xs, axis=0):
    xs = [_un(x) for x in xs]
    if any(_hassym(x) for x in xs):
        xs = [array(x) if not isinstance(x, np.ndarray) else x for x in xs]
        kinds = {getattr(x, 'kind', None) or kind_of(x.dtype) for x in xs}
        r = np.concatenate([np.asarray(x).view(np.ndarray).astype(object) for x in xs], axis=axis).view(SymArray)
        r.kind = 'c' if 'c' in kinds else ('d' if 'd' in kinds else None)
        return r
    return np.concatenate(xs, axis=axis)


def copy(a, order='K'):
    a = _un(a)
    if isinstance(a, SymArray):
        return a.copy()
    if _hassym(a):
        return array(a)
    return np.copy(a)


def diag(a, k=0):
    a = _un(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        v = np.asarray(a).view(np.ndarray)
        if v.ndim == 2:
            return _sa(np.diag(v, k).copy())
        n = len(v) + builtins.abs(k)
        out = _mk((n, n), getattr(a, 'kind', None), 0.0)
        for i in range(len(v)):
            out[i + builtins.max(0, -k), i + builtins.max(0, k)] = v[i]
        return out
    return np.diag(a, k)


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = _un(a), _un(b)
    if _hassym(a) or _hassym(b):
        a_, b_ = np.broadcast_arrays(np.asarray(array(a)), np.asarray(array(b)))
        out = True
        for x, y in zip(a_.flat, b_.flat):
            out = band(out, isclose1(x, y, rtol, atol))
        return out
    return np.allclose(a, b, rtol, atol, **k)


def isclose1(x, y, rtol=1e-5, atol=1e-8):
    return abs(x - y) <= atol + rtol * abs(y)


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = _un(a), _un(b)
    if _hassym(a) or _hassym(b):
        return _boolarr(_wrapb(lambda x, y: isclose1(x, y, rtol, atol), [a, b]))
    return np.isclose(a, b, rtol, atol, **k)


def _boolarr(r):
    if isinstance(r, np.ndarray) and all(isinstance(v, (bool, np.bool_)) for v in r.flat):
        return np.asarray(r).view(np.ndarray).astype(bool)
    return r


def any_(a, *r, **k):
    a = _un(a)
    if isinstance(a, np.ndarray) and a.dtype == object and not r and not k:
        return bor(*[v if isinstance(v, B) else _truth(v) for v in a.flat])
    return np.any(a, *r, **k)


def all_(a, *r, **k):
    a = _un(a)
    if isinstance(a, np.ndarray) and a.dtype == object and not r and not k:
        return band(*[v if isinstance(v, B) else _truth(v) for v in a.flat])
    return np.all(a, *r, **k)


def _truth(v):
    if isinstance(v, (R, C)):
        return v != 0
    return bool(v)


def smax(*xs):
    if len(xs) == 1:
        xs = list(xs[0])
    r = xs[0]
    for x in xs[1:]:
        if is_sym(x) or is_sym(r):
            r = ite(x > r, x, r)
        else:
            r = x if x > r else r
    return r


def smin(*xs):
    if len(xs) == 1:
        xs = list(xs[0])
    r = xs[0]
    for x in xs[1:]:
        if is_sym(x) or is_sym(r):
            r = ite(x < r, x, r)
        else:
            r = x if x < r else r
    return r


def npmax(a, axis=None):
    a = _un(a)
    if isinstance(a, np.ndarray) and a.dtype == object and axis is None:
        return smax(list(a.flat))
    return np.max(a, axis=axis)


def npmin(a, axis=None):
    a = _un(a)
    if isinstance(a, np.ndarray) and a.dtype == object and axis is None:
        return smin(list(a.flat))
    return np.min(a, axis=axis)


def nonzero(a):
    a = _un(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        t = np.array([bool(_truth(v)) for v in a.flat]).reshape(a.shape)
        return np.nonzero(t)
    return np.nonzero(a)


def real(a):
    a = _un(a)
    return a.real


def imag(a):
    a = _un(a)
    return a.imag


def linspace(start, stop, num=50, **k):
    if isinstance(start, R) or isinstance(stop, R):
        if k:
            raise Unsupported('np.linspace options on symbolic data')
        n = int(num)
        return array([start + i*((stop-start)/(n-1)) if 0 < i < n-1 else (start if i == 0 else stop) for i in range(n)])
    r = np.linspace(start, stop, num, **k)
    s = r.astype(object).view(SymArray)
    s.kind = 'd'
    return s


def arange(*a, **k):
    """the number of points of a symbolic range forks (small ranges only)"""
    if not any(isinstance(x, R) for x in a):
        return np.arange(*a, **k)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else a if len(a) == 3 else (a[0], a[1], 1)
    out = []
    while bool((start+len(out)*step) < stop) if step > 0 else bool((start+len(out)*step) > stop):
        out.append(start+len(out)*step)
        if len(out) > 64:
            raise Unsupported('np.arange with an unbounded symbolic count')
    return array(out) if out else zeros(0)


def sort(a, axis=-1, kind=None):
    a = _un(a)
    if not _hassym(a):
        return np.sort(a, axis)
    return array([a[i] for i in lexsort([a])])


def lexsort(keys, axis=-1):
    """stable indirect sort, the last key being the primary one; comparisons of solver values fork"""
    keys = [_un(k) for k in keys] if not isinstance(keys, np.ndarray) else [keys[i] for i in range(len(keys))]
    if not any(_hassym(k) for k in keys):
        return np.lexsort([np.asarray(k).view(np.ndarray).astype(float) if isinstance(k, np.ndarray) else k for k in keys])
    ks = [list(np.asarray(k).view(np.ndarray).flat) if isinstance(k, np.ndarray) else list(k) for k in reversed(keys)]

    def less(i, j):
        for k in ks:
            if k[i] is k[j]:
                continue
            if bool(k[i] < k[j]):
                return True
            if bool(k[i] > k[j]):
                return False
        return False
    out = []
    for i in range(len(ks[0])):
        p = len(out)
        while p and less(i, out[p-1]):
            p -= 1
        out.insert(p, i)
    return np.array(out, dtype=int)


def argsort(a, axis=-1, kind=None, order=None):
    return lexsort([a]) if _hassym(_un(a)) else np.argsort(_un(a), axis, kind)


class _Stub:
    """A callable that fails loudly unless the harness installs a stub."""

    def __init__(self, name):
        self.name = name
        self.fn = None

    def __call__(self, *a, **k):
        if self.fn is not None:
            return self.fn(*a, **k)
        raise Unsupported('%s reached without a stub' % self.name)


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        d = self.__dict__
        d.update(zeros=zeros, ones=ones, empty=empty, full=full, eye=eye, identity=eye, zeros_like=zeros_like,
                 array=array, asarray=asarray, dot=dot, matmul=matmul, sum=sum_, power=power,
                 concatenate=concatenate, copy=copy, diag=diag, allclose=allclose, isclose=isclose,
                 any=any_, all=all_, max=npmax, min=npmin, amax=npmax, amin=npmin, nonzero=nonzero,
                 real=real, imag=imag, linspace=linspace, arange=arange, sort=sort, lexsort=lexsort, argsort=argsort, ndarray=np.ndarray)
        for n in ('sqrt', 'exp', 'log', 'conjugate', 'rint', 'tanh', 'sin', 'cos', 'isfinite', 'isnan'):
            d[n] = _u(n)
        d['abs'] = d['absolute'] = d['fabs'] = _u('absolute')
        d['conj'] = d['conjugate']
        d['linalg'] = types.SimpleNamespace(eigh=_Stub('eigh'), inv=_Stub('inv'), solve=_Stub('solve'),
                                            lstsq=_Stub('lstsq'), LinAlgError=np.linalg.LinAlgError,
                                            norm=np.linalg.norm)
        d['errstate'] = np.errstate

    def __getattr__(self, name):
        v = getattr(np, name)
        if callable(v) and not isinstance(v, type):
            def f(*a, **k):
                if any(_hassym(x) for x in a) and name not in _SAFE:
                    try:
                        return v(*[np.asarray(_un(x)) if isinstance(x, np.ndarray) or hasattr(x, '__mv__') else x
                                   for x in a], **k)
                    except TypeError as e:
                        raise Unsupported('np.%s on symbolic data: %s' % (name, e))
                return v(*[_un(x) for x in a], **k)
            return f
        return v


_SAFE = {'shape', 'ndim', 'reshape', 'transpose', 'vstack', 'hstack'}
