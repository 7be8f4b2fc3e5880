"""Deterministic threads: real Python threads, exactly one of which runs; a seeded scheduler decides at every executed line
(or bytecode) of objutils which one continues.  Locks created through `threading` after patch() are cooperative."""
import _thread
import os
import random
import sys
import time

from simkit.lineint import EXC, PKG

ACTIVE = None       # the running Sched, if any
WATCH_S = 4.0


class SimDeadlock(BaseException):
    pass


class SimStop(BaseException):
    """Too many steps."""


def _me():
    s = ACTIVE
    return (s, s.ident.get(_thread.get_ident())) if s is not None else (None, None)


class SimLock:
    def __init__(self):
        self.owner, self.count = None, 0

    reentrant = False

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s, i = _me()
        if i is None:
            if self.owner is not None and not (self.reentrant and self.owner == me):
                if s is None and blocking and timeout < 0:
                    raise RuntimeError("simulated lock is held, and nobody is left to release it")
                return False
            self.owner = me
            self.count += 1
            return True
        if self.reentrant and self.owner == me:
            self.count += 1
            return True
        s.point(i, None)
        tries = 0
        while self.owner is not None:
            if not blocking:
                return False
            tries += 1
            if timeout >= 0 and tries > 50:
                return False
            s.block(i, self)
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count <= 0:
            self.owner, self.count = None, 0
            s, i = _me()
            if i is not None:
                s.unblock(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        st = (self.owner, self.count)
        self.count = 1
        self.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count = st[1]


def patch():
    """Before anything else is imported: locks made through `threading` are cooperative."""
    import logging  # noqa: F401 - keeps its real locks: nothing of objutils runs while they are held
    import queue  # noqa: F401
    import threading
    threading.Lock = SimLock
    threading.RLock = SimRLock


class Sched:
    """schedule: {"seed", "p"}: switch with probability p | {"switches": [[decision, thread], ...]} | None
    faults: [{"thread", "at", "kind"}]: the at-th step of that thread raises."""

    def __init__(self, schedule=None, faults=(), opcodes=False, max_steps=400000, pkgs=(PKG,)):
        self.schedule = schedule or {}
        self.sw = {int(a): b for a, b in self.schedule["switches"]} if "switches" in self.schedule else None
        self.rng = random.Random(self.schedule.get("seed", 0))
        self.p = self.schedule.get("p", 0.0)
        self.faults = [dict(f) for f in faults]
        self.opcodes, self.max_steps, self.pkgs = opcodes, max_steps, tuple(pkgs)
        self.known = {}
        self.ident = {}
        self.steps = 0
        self.decisions = 0
        self.switches = []
        self.fired = {}
        self.clock = 0
        self.trail = []
        self.real_blocks = 0
        self.current = None
        self.deadlock = False

    # ---- called in simulated threads -----------------------------------------------------------
    def _is_ours(self, code):
        k = self.known.get(code)
        if k is None:
            k = self.known[code] = os.path.realpath(code.co_filename).startswith(self.pkgs)
        return k

    def _tracer(self, i):
        want = "opcode" if self.opcodes else "line"

        def local(frame, event, arg):
            if event == want:
                self.point(i, frame, event == "line")
            elif event == "line":
                self.point(i, frame, True)
            return local

        def glob(frame, event, arg):
            if self._is_ours(frame.f_code):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob

    def now(self):
        self.clock += 1
        return self.clock

    def point(self, i, frame, line=False):
        # CPython does not survive exceptions raised between arbitrary bytecodes by a trace function: faults hit at lines only.
        if self.stopped:
            raise SimStop()
        n = self.count[i]
        self.count[i] += 1
        self.steps += 1
        if self.steps > self.max_steps:
            self.stopped = True
            raise SimStop()
        for f in self.faults:
            if line and f["thread"] == i and n >= f["at"] and not f.get("_done"):
                f["_done"] = True
                self.fired[f["kind"]] = self.fired.get(f["kind"], 0) + 1
                raise EXC[f["kind"]](f"injected at {os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}")
        ready = [j for j in range(self.n) if self.state[j] == "ready"]
        if len(ready) < 2:
            return
        d = self.decisions
        self.decisions += 1
        nxt = i
        if self.sw is not None:
            if self.sw.get(d, i) in ready:
                nxt = self.sw.get(d, i)
        elif self.p and self.rng.random() < self.p:
            nxt = ready[self.rng.randrange(len(ready))]
        if nxt != i:
            self.switches.append((d, nxt))
            if frame is not None and len(self.trail) < 400:
                self.trail.append((i, frame.f_code.co_name, frame.f_lineno, nxt))
            self._go(i, nxt)

    def _go(self, i, j):
        self.current = j
        self.sem[j].release()
        self.sem[i].acquire()
        if self.stopped:
            raise SimStop()
        if self.deadlock and self.state[i] == "dead":
            raise SimDeadlock()

    def block(self, i, lock):
        self.state[i] = "blocked"
        self.waits[i] = lock
        ready = [j for j in range(self.n) if self.state[j] == "ready"]
        if not ready:
            self.deadlock = True
            for j in range(self.n):
                if self.state[j] == "blocked":
                    self.state[j] = "dead"
            raise SimDeadlock()
        self._go(i, ready[self.rng.randrange(len(ready))] if self.sw is None and self.p else ready[0])

    def unblock(self, lock):
        for j in range(self.n):
            if self.state[j] == "blocked" and self.waits[j] is lock:
                self.state[j] = "ready"
                self.waits[j] = None

    def _body(self, i, fn):
        self.ident[_thread.get_ident()] = i
        self.sem[i].acquire()
        out = None
        try:
            sys.settrace(self._tracer(i))
            try:
                out = ("ok", fn())
            finally:
                sys.settrace(None)
        except SimDeadlock:
            out = ("deadlock", None)
        except SimStop:
            out = ("steps", None)
        except BaseException as e:  # noqa: BLE001
            out = ("exc", f"{type(e).__name__}: {e}"[:300])
            e.__traceback__ = None
        self.results[i] = out
        self.state[i] = "done"
        nxt = [j for j in range(self.n) if self.state[j] in ("ready", "dead")]
        if not nxt and any(st == "blocked" for st in self.state):
            self.deadlock = True
            for j in range(self.n):
                if self.state[j] == "blocked":
                    self.state[j] = "dead"
            nxt = [j for j in range(self.n) if self.state[j] == "dead"]
        if nxt:
            self.current = nxt[0]
            self.sem[nxt[0]].release()
        else:
            self.main.release()

    # ---- called by the harness ------------------------------------------------------------------
    def run(self, fns):
        global ACTIVE
        self.n = len(fns)
        self.sem = [_thread.allocate_lock() for _ in fns]
        for s in self.sem:
            s.acquire()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.state = ["ready"] * self.n
        self.waits = [None] * self.n
        self.count = [0] * self.n
        self.results = [None] * self.n
        self.stopped = False
        ACTIVE = self
        _thread.stack_size(16 << 20)
        for i, fn in enumerate(fns):
            _thread.start_new_thread(self._body, (i, fn))
        while len(self.ident) < self.n:
            time.sleep(0.0005)
        self.current = 0
        self.sem[0].release()
        last = -1
        while not self.main.acquire(timeout=WATCH_S):
            if self.steps == last and self.real_blocks < 8:
                # the running thread waits for something real: let another one continue, as the operating system would
                self.real_blocks += 1
                others = [j for j in range(self.n) if self.state[j] == "ready" and j != self.current]
                if others:
                    j = others[0]
                    self.current = j
                    try:
                        self.sem[j].release()
                    except RuntimeError:
                        pass
            elif self.steps == last:
                break
            last = self.steps
        ACTIVE = None
        return self.results
