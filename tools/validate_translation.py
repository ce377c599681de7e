"""Translator validation: run the repository's own test suite with every .pyx module replaced by
its Python translation (concrete numpy arrays, dgesv/dgelsd replaced by numpy.linalg)."""
import os
import sys
import warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter('ignore')
import numpy as np
from engine import world, cyrt

W = world.SymWorld(concrete=True)


def on_solve(s):
    a, b = s.a.copy(), s.b.copy()
    s.a[...] = np.nan        # the factors overwrite the matrix
    try:
        if s.kind == 'dgesv':
            s.b[...] = np.linalg.solve(a, b)
        else:
            x = np.linalg.lstsq(a, b[:a.shape[0]], rcond=None)[0]
            s.b[:len(x)] = x
        s.info = 0
    except np.linalg.LinAlgError:
        s.info = 1


def main():
    world.LapackStub.on_solve = staticmethod(on_solve)
    W.mod('')
    for n in ('specfunc.c_specfunc', 'specfunc.c_specfunc_elph', 'approach.base.c_RTD'):
        W.mod(n)
    sys.modules.update(W.mods)
    import pytest
    return pytest.main(['-q', '-p', 'no:cacheprovider', '/repo/qmeq/tests'] + sys.argv[1:])


sys.exit(main())
