"""Worlds: ways of loading the code under test.

SymWorld  executes /repo's current .py sources, and the current .pyx sources after translation,
          with numpy replaced by the symbolic shim.  Nothing from a previous build is used.
RealWorld is an ordinary import of a compiled qmeq (used in a subprocess to replay
          counterexamples).
"""
import builtins
import importlib
import os
import sys
import types

import numpy as np

from . import npshim, pyxtrans, cyrt
from .sym import R, C, B, CTX, NUMS, Unsupported, app, ite, is_sym, rsqrt

REPO = os.environ.get('VERIF_REPO', '/repo')


# the model of dgesv/dgelsd; harnesses set LapackStub.on_solve
LapackStub = cyrt.Lapack


class SymWorld:
    symbolic = True

    def __init__(self, root=None, stubs=None, concrete=False):
        self.root = os.path.join(root or REPO, 'qmeq')
        self.mods = {}
        self.np = npshim.NumpyShim() if not concrete else np
        self.concrete = concrete
        self.stubs = stubs or {}
        self.functions = {}
        self.builtins = dict(builtins.__dict__)
        self.builtins['__import__'] = self._import
        if not concrete:
            self.builtins['max'] = _mx(builtins.max, npshim.smax)
            self.builtins['min'] = _mx(builtins.min, npshim.smin)
            self.builtins['print'] = lambda *a, **k: None
            self.builtins['sum'] = builtins.sum
        self.ext = {}
        if not concrete:
            self._mk_ext()
        self.called = set()

    # ---- external modules handed to the code
    def _mk_ext(self):
        n = self.np
        e = self.ext
        e['numpy'] = n
        e['functools'] = types.SimpleNamespace(lru_cache=_lru_cache)
        e['numpy.lib.scimath'] = types.SimpleNamespace(log=n.log, sqrt=n.sqrt)
        e['numpy.fft'] = types.SimpleNamespace(fft=npshim._Stub('fft'), ifft=npshim._Stub('ifft'))
        quad = npshim._Stub('quad')
        self.quad = quad
        e['scipy'] = types.SimpleNamespace(pi=np.pi, exp=n.exp, log=n.log, sqrt=n.sqrt,
                                           linalg=types.SimpleNamespace(
                                               eigh_tridiagonal=npshim._Stub('eigh_tridiagonal')),
                                           optimize=types.SimpleNamespace(root=npshim._Stub('optimize.root')))
        e['scipy.integrate'] = types.SimpleNamespace(quad=quad)
        e['scipy.linalg'] = e['scipy'].linalg
        e['scipy.optimize'] = e['scipy'].optimize
        e['scipy.special'] = types.SimpleNamespace(psi=npshim._Stub('psi'),
                                                   factorial=_real('scipy.special', 'factorial'))

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - (level - 1)])
            full = base + ('.' + name if name else '')
            return self._qimport(full, fromlist)
        if name == 'qmeq' or name.startswith('qmeq.'):
            if not fromlist:
                self.load(name)
                return self.load('qmeq')
            return self._qimport(name, fromlist)
        if name in self.ext:
            if not fromlist and '.' in name:
                return self.ext[name.split('.')[0]]
            return self.ext[name]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _qimport(self, full, fromlist):
        m = self.load(full)
        for f in fromlist or ():
            if f != '*' and not hasattr(m, f) and self._find(full + '.' + f):
                setattr(m, f, self.load(full + '.' + f))
        return m

    def _find(self, full):
        rel = full.split('.')[1:]
        p = os.path.join(self.root, *rel)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return 'pkg', os.path.join(p, '__init__.py')
        if os.path.exists(p + '.pyx') and not os.path.exists(p + '.py'):
            return 'pyx', p + '.pyx'
        if os.path.exists(p + '.py'):
            return 'py', p + '.py'
        return None

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        if '.' in full:
            par = self.load(full.rsplit('.', 1)[0])
        f = self._find(full)
        if f is None:
            raise ImportError('No module named %s in the tree under test' % full)
        kind, path = f
        m = types.ModuleType(full)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = full if kind == 'pkg' else full.rsplit('.', 1)[0]
        if kind == 'pkg':
            m.__path__ = [os.path.dirname(path)]
        self.mods[full] = m
        try:
            if kind == 'pyx':
                src, fns = pyxtrans.translate(path, full)
                self.functions[full] = fns
                src = src.replace('from engine.cyrt import *\nfrom engine import cyrt as _rt\n', '\n\n', 1)
                for n in cyrt.__all__:
                    m.__dict__[n] = getattr(cyrt, n)
                m.__dict__['_rt'] = cyrt
                exec(compile(src, path + ' (translated)', 'exec'), m.__dict__)
            else:
                with open(path) as fh:
                    src = fh.read()
                exec(compile(src, path, 'exec'), m.__dict__)
            for n, v in self.stubs.get(full, {}).items():
                if n in m.__dict__:
                    m.__dict__[n] = v(m.__dict__[n]) if getattr(v, '_wraps', False) else v
        except BaseException:
            self.mods.pop(full, None)
            raise
        if '.' in full:
            setattr(par, full.rsplit('.', 1)[1], m)
        return m

    def mod(self, name):
        return self.load('qmeq.' + name if name else 'qmeq')

    def array(self, x, dtype=None):
        return self.np.array(x, dtype=dtype)


def _mx(real, symb):
    def f(*a, **k):
        if k:
            return real(*a, **k)
        xs = a if len(a) > 1 else list(a[0])
        if any(isinstance(x, R) for x in xs):
            return symb(list(xs))
        return real(*a)
    return f


def _lru_cache(maxsize=128, typed=False):
    """functools.lru_cache, forgotten between execution paths (an entry made under one path condition must
    not be used under another)"""
    def deco(f):
        store = {}

        def k(x):
            if isinstance(x, R):
                return ('R', x.id)
            if isinstance(x, C):
                return ('C', k(x.real), k(x.imag))
            if isinstance(x, float) and x == 0:
                return 0.0
            hash(x)
            return x

        def g(*a, **kw):
            if store.get('token') is not CTX.token:
                store.clear()
                store['token'] = CTX.token
            key = (tuple(k(x) for x in a), tuple((n, k(x)) for n, x in kw.items()))
            if key not in store:
                store[key] = f(*a, **kw)
            return store[key]
        g.__wrapped__ = f
        return g
    return deco(maxsize) if callable(maxsize) else deco


def _real(mod, name):
    def f(*a, **k):
        m = importlib.import_module(mod)
        return getattr(m, name)(*a, **k)
    return f


class RealWorld:
    """Ordinary (compiled) qmeq; import root must already be first on sys.path."""
    symbolic = False

    def __init__(self):
        self.np = np
        self.functions = {}

    def mod(self, name):
        return importlib.import_module('qmeq.' + name if name else 'qmeq')

    def array(self, x, dtype=None):
        return np.array(x, dtype=dtype)
