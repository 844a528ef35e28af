"""
Prepares one interpreter for simulation: fixes the environment, makes sure the
C extension matches /repo's current sources, installs the seams and imports
the code under test.
"""
import os
import sys
import hashlib
import io

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = (os.path.join(REPO, 'zounds') + os.sep,)

for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
sys.dont_write_bytecode = True


def scratch_root():
    for p in ('/dev/shm', '/tmp'):
        if os.path.isdir(p) and os.access(p, os.W_OK):
            return p
    return '/tmp'


def ensure_extension():
    """
    The popcount extension is compiled.  If its sources changed since
    /repo was last built, compile them into a private directory that comes
    first on the path.
    """
    srcs = [
        os.path.join(REPO, p) for p in (
            'setup.py', 'zounds/__init__.py', 'zounds/nputil/countbits.pyx')]
    h = hashlib.sha256()
    try:
        for s in srcs:
            with open(s, 'rb') as f:
                h.update(f.read())
    except IOError:
        return
    digest = h.hexdigest()
    stamp = os.path.join(REPO, 'build', '.countbits.sha256')
    if os.path.exists(stamp):
        with open(stamp) as f:
            if f.read().split()[:1] == [digest]:
                return
    with open(srcs[2], 'rb') as f:
        pyx = f.read()
    d = os.path.join(
        '/tmp', 'verif-ext-%s' % hashlib.sha256(pyx).hexdigest()[:16])
    import glob
    if not glob.glob(os.path.join(d, 'countbits*.so')):
        build_extension(srcs[2], d)
    sys.path.insert(0, d)


def build_extension(pyx, dest):
    import subprocess
    import shutil
    import tempfile
    tmp = tempfile.mkdtemp(prefix='verif-ext-build-')
    try:
        shutil.copy(pyx, os.path.join(tmp, 'countbits.pyx'))
        setup = (
            'from setuptools import setup, Extension\n'
            'from Cython.Build import cythonize\n'
            'import numpy\n'
            'setup(name="countbits", ext_modules=cythonize([Extension('
            '"countbits", ["countbits.pyx"], '
            'include_dirs=[numpy.get_include()])]))\n')
        with open(os.path.join(tmp, 'setup.py'), 'w') as f:
            f.write(setup)
        p = subprocess.run(
            [sys.executable, 'setup.py', 'build_ext', '--inplace'],
            cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        import glob
        so = glob.glob(os.path.join(tmp, 'countbits*.so'))
        if p.returncode or not so:
            sys.stderr.write(p.stdout.decode('utf8', 'replace')[-2000:])
            raise SystemExit(3)
        os.makedirs(dest, exist_ok=True)
        final = os.path.join(dest, os.path.basename(so[0]))
        shutil.copy(so[0], final + '.tmp%d' % os.getpid())
        os.rename(final + '.tmp%d' % os.getpid(), final)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_booted = False


def boot():
    global _booted
    if _booted:
        return
    _booted = True
    import warnings
    warnings.simplefilter('ignore')
    ensure_extension()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from . import sched, lmdbsim, net, fs
    sched.install()
    lmdbsim.install()
    net.install()
    fs.install()
    import zounds
    f = os.path.realpath(zounds.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        sys.stderr.write('zounds imported from %s\n' % f)
        raise SystemExit(3)
    import zounds.ui
    import zounds.learn
    import numpy as np
    np.seterr(all='ignore')
    import torch
    torch.set_num_threads(1)
    import_all()
    sched.trace_code(TRACE[0])


def import_all():
    import importlib
    base = os.path.join(REPO, 'zounds')
    for d, dirs, files in sorted(os.walk(base)):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith('.py') or f.startswith('test_') or \
                    f in ('__init__.py', 'setup.py'):
                continue
            rel = os.path.relpath(os.path.join(d, f), REPO)[:-3]
            try:
                importlib.import_module(rel.replace(os.sep, '.'))
            except Exception:
                # modules for optional dependencies
                pass
