"""
Make the code under test importable: always /repo's working tree, never stale
bytecode, and nothing written under /repo.
"""
import atexit
import os
import shutil
import sys
import tempfile
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_scratch = None


def scratch():
    """A private scratch directory, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vp-")
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def setup():
    sys.dont_write_bytecode = True
    # Never read a __pycache__ found in /repo: it may be stale.
    sys.pycache_prefix = os.path.join(scratch(), "pycache")
    warnings.simplefilter("ignore")
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    # epsilon/_version.py is generated and untracked; supply it when absent.
    if not os.path.exists(os.path.join(REPO, "epsilon", "_version.py")):
        m = types.ModuleType("epsilon._version")
        m.__version__ = m.version = "0.8.0"
        m.__version_tuple__ = m.version_tuple = (0, 8, 0)
        sys.modules["epsilon._version"] = m
    import epsilon
    where = os.path.realpath(os.path.dirname(epsilon.__file__))
    want = os.path.realpath(os.path.join(REPO, "epsilon"))
    if where != want:
        raise RuntimeError("epsilon imported from %s, not %s" % (where, want))
    # Logging by the code under test goes nowhere.
    from twisted.logger import globalLogBeginner
    globalLogBeginner.beginLoggingTo([lambda event: None], redirectStandardIO=False,
                                     discardBuffer=True)
