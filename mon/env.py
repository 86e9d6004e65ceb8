"""Environment of the checks: paths, scratch directories, seeds, tiers."""
import atexit
import os
import random
import shutil
import sys
import tempfile

REPO = os.environ.get('NCDIFF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'

if SRC not in sys.path:
    sys.path.insert(0, SRC)
sys.dont_write_bytecode = True

_base = None


def scratch():
    """Scratch directory of this process tree (removed at exit)."""
    global _base
    if _base is None:
        _base = tempfile.mkdtemp(prefix='ncmon-')
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_base, ignore_errors=True)
        atexit.register(clean)
    return _base


_n = [0]


def newdir(tag='d'):
    _n[0] += 1
    d = os.path.join(scratch(), '%s-%d-%d' % (tag, os.getpid(), _n[0]))
    os.makedirs(d)
    _dirs.append(d)
    return d


_dirs = []


def keep():
    """Directories made so far survive tidy()."""
    del _dirs[:]


def tidy():
    while _dirs:
        shutil.rmtree(_dirs.pop(), ignore_errors=True)


def rng(*parts):
    return random.Random('|'.join(str(p) for p in parts))


def check_import():
    import ncdiff
    f = os.path.realpath(ncdiff.__file__)
    if not f.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError('ncdiff imported from %s, not from %s' % (f, SRC))
