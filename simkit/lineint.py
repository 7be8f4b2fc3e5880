"""Interruptions at source-line granularity: the n-th executed line of objutils raises, once."""
import os
import sys

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PKG = os.path.join(REPO, "objutils") + os.sep


class SimInterrupt(KeyboardInterrupt):
    """Ctrl-C, as far as the code under test can tell."""


EXC = {"interrupt": SimInterrupt, "memory": MemoryError}


class LineInjector:
    """with LineInjector(at, kind) as li: ...   li.count = lines executed, li.fired = where it raised"""

    def __init__(self, at=None, kind="interrupt", pkg=PKG, on_line=None, extra=()):
        self.at, self.kind, self.pkg, self.count, self.fired, self.on_line = at, kind, pkg, 0, None, on_line
        self.known = {}
        self.pkgs = (pkg,) + tuple(os.path.dirname(os.path.realpath(__import__(m).__file__)) + os.sep for m in extra)

    def _global(self, frame, event, arg):
        code = frame.f_code
        k = self.known.get(code)
        if k is None:
            k = self.known[code] = os.path.realpath(code.co_filename).startswith(self.pkgs)
        return self._local if k else None

    def _local(self, frame, event, arg):
        if event == "line":
            n = self.count
            self.count += 1
            if self.on_line:
                self.on_line(n, frame)
            if n == self.at and self.fired is None:
                self.fired = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
                raise EXC[self.kind](f"injected at {self.fired}")
        return self._local

    def __enter__(self):
        self.prev = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self.prev)
        return False
