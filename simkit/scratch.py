"""Scratch directory of this worker process (tmpfs if there is one)."""
import atexit
import os
import shutil
import tempfile

_dir = None
_own = None


def scratch():
    """An empty directory; the same path for every worker, so that event logs do not depend on who ran the case."""
    global _dir, _own
    if _dir is None or _own != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        top = tempfile.mkdtemp(prefix="objsim-", dir=base)
        _dir, _own = os.path.join(top, "w"), os.getpid()
        atexit.register(_rm, top, _own)
    shutil.rmtree(_dir, ignore_errors=True)
    os.makedirs(_dir)
    return _dir


def _rm(top, pid):
    if os.getpid() == pid:
        shutil.rmtree(top, ignore_errors=True)
