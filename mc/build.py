"""Scratch build of /repo's current working tree.

The Python package and the two C extensions are copied to, and compiled in, a
scratch directory; nothing is written under /repo or /opt/vp.
"""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
DATA = os.path.join(REPO, 'tests', 'data_for_tests')

_scratch = None


def scratch():
    """The scratch directory of this check (made once, removed at exit)."""
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and _shm_ok() else None
        _scratch = tempfile.mkdtemp(prefix='vmc_', dir=base)
        pid = os.getpid()

        def _rm(path=_scratch, pid=pid):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(_rm)
        for name in ('MPLCONFIGDIR', 'ASTROPY_CACHE_DIR', 'XDG_CACHE_HOME'):
            d = os.path.join(_scratch, name.lower())
            os.makedirs(d)
            os.environ[name] = d
        tmp = os.path.join(_scratch, 'tmp')
        os.makedirs(tmp)
        os.environ['TMPDIR'] = tmp
        tempfile.tempdir = tmp
    return _scratch


def _shm_ok():
    try:
        st = os.statvfs('/dev/shm')
        return st.f_bavail * st.f_frsize > (1 << 30)
    except OSError:
        return False


def build(need_ext=True):
    """Copy and build the package; put it first on sys.path.  Returns its root."""
    root = os.path.join(scratch(), 'src')
    shutil.copytree(os.path.join(REPO, 'redmapper'), os.path.join(root, 'redmapper'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc', '_version.py'))
    for f in ('setup.py', 'setup.cfg', 'pyproject.toml', 'README.md', 'LICENSE', 'MANIFEST.in'):
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            shutil.copy(p, root)
    if os.path.isdir(os.path.join(REPO, 'bin')):
        shutil.copytree(os.path.join(REPO, 'bin'), os.path.join(root, 'bin'),
                        ignore=shutil.ignore_patterns('__pycache__'))
    env = dict(os.environ)
    env.update(SETUPTOOLS_SCM_PRETEND_VERSION='1.0.0', PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin')
    env.pop('PYTHONPATH', None)
    if need_ext:
        p = subprocess.run([sys.executable, 'setup.py', '-q', 'build_ext', '--inplace', '--force', '-j', '2',
                            '--build-temp', os.path.join(scratch(), 'bt'),
                            '--build-lib', os.path.join(scratch(), 'bl')],
                           cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            sys.stderr.write(p.stdout)
            raise RuntimeError('build of /repo failed')
    if not os.path.isfile(os.path.join(root, 'redmapper', '_version.py')):
        with open(os.path.join(root, 'redmapper', '_version.py'), 'w') as f:
            f.write("__version__ = version = '1.0.0'\n__version_tuple__ = version_tuple = (1, 0, 0)\n")
    sys.path.insert(0, root)
    import redmapper
    assert os.path.realpath(redmapper.__file__).startswith(os.path.realpath(root)), redmapper.__file__
    return root
