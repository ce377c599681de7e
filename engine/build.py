"""Scratch builds of the tree under test (for replay): copies /repo's qmeq, cythonizes and compiles it."""
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')


def scratch_build(boundscheck=False):
    """-> directory to put first on sys.path; the caller removes it."""
    d = tempfile.mkdtemp(prefix='verif-qmeq-')
    dst = os.path.join(d, 'qmeq')
    shutil.copytree(os.path.join(REPO, 'qmeq'), dst,
                    ignore=shutil.ignore_patterns('*.so', '*.c', '*.pyc', '__pycache__', 'tests'))
    pyx = []
    for r, _, fs in os.walk(dst):
        for f in fs:
            if f.endswith('.pyx'):
                pyx.append(os.path.join(r, f))
    if boundscheck:
        for p in pyx:
            s = open(p).read().replace('boundscheck=False', 'boundscheck=True')
            open(p, 'w').write(s)
    import numpy
    inc = ['-I' + sysconfig.get_path('include'), '-I' + numpy.get_include()]
    ext = sysconfig.get_config_var('EXT_SUFFIX')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')

    def one(p):
        c = p[:-4] + '.c'
        r = subprocess.run([sys.executable, '-m', 'cython', os.path.relpath(p, d), '-o', os.path.relpath(c, d)],
                           cwd=d, env=env, capture_output=True, text=True)
        if r.returncode:
            return 'cython %s: %s' % (p, (r.stdout + r.stderr)[-2000:])
        o = p[:-4] + ext
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-O0', '-w', '-fopenmp', '-fwrapv'] + inc +
                           ['-o', o, c], cwd=d, env=env, capture_output=True, text=True)
        if r.returncode:
            return 'gcc %s: %s' % (p, r.stderr[-2000:])
        return None
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(one, pyx) if e]
    if errs:
        shutil.rmtree(d, ignore_errors=True)
        raise RuntimeError('\n'.join(errs))
    return d
