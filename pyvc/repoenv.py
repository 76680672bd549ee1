"""make /repo's current tree importable; rebuild the compiled kernels outside
/repo when the ones in place do not belong to the current sources"""
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('PYVC_REPO', '/repo')
EXTS = {'regreg.atoms.projl1_cython': 'regreg/atoms/projl1_cython', 'regreg.atoms.mixed_lasso_cython': 'regreg/atoms/mixed_lasso_cython',
        'regreg.atoms.piecewise_linear': 'regreg/atoms/piecewise_linear', 'regreg.smooth.cox_utils': 'regreg/smooth/cox_utils'}
SUFFIX = '.cpython-312-x86_64-linux-gnu.so'


def ext_sum():
    cmd = r'''cd %s && { git ls-files -co --exclude-standard -- 'regreg/*.pyx' 'regreg/*.pxd' 'regreg/*.pxi' 'regreg/*.c' 'regreg/*.h' setup.py setup_helpers.py cythexts.py versioneer.py regreg/info.py fake_pyrex | LC_ALL=C sort -u | while read -r f; do [ -f "$f" ] && sha256sum "$f"; done; } | sha256sum''' % REPO
    return subprocess.run(['bash', '-c', cmd], capture_output=True, text=True).stdout.strip()


class Finder(object):
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        p = self.table.get(name)
        if p is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, p)
        return importlib.util.spec_from_file_location(name, p, loader=loader)


SCRATCH = None


def setup():
    """returns a note on which compiled kernels are in use"""
    global SCRATCH
    sys.path.insert(0, REPO)
    have = all(os.path.exists(os.path.join(REPO, p + SUFFIX)) for p in EXTS.values())
    try:
        cur = open('/opt/vp/state/ext.sum').read().strip()
    except IOError:
        cur = None
    if REPO == '/repo' and have and cur and cur == ext_sum():
        return 'extensions in place match the current sources'
    SCRATCH = tempfile.mkdtemp(prefix='pyvc_ext_')
    dst = os.path.join(SCRATCH, 'src')
    os.mkdir(dst)
    for n in os.listdir(REPO):
        if n in ('.git', 'build', 'doc', 'plots', 'sandbox', 'tools'):
            continue
        s = os.path.join(REPO, n)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dst, n), ignore=shutil.ignore_patterns('*.so', 'tests', '__pycache__'))
        else:
            shutil.copy2(s, dst)
    for p in EXTS.values():
        c = os.path.join(dst, p + '.c')
        if os.path.exists(c):
            os.unlink(c)
    env = dict(os.environ, HOME=SCRATCH, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=dst, env=env, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('extensions do not build: ' + (r.stdout + r.stderr)[-2000:])
    sys.meta_path.insert(0, Finder({k: os.path.join(dst, v + SUFFIX) for k, v in EXTS.items()}))
    return 'extensions rebuilt from the current sources in a scratch folder'


def cleanup():
    if SCRATCH and SCRATCH.startswith(tempfile.gettempdir() + '/pyvc_ext_'):
        shutil.rmtree(SCRATCH, ignore_errors=True)
