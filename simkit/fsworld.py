"""The simulated operating system: nodes are forked processes, every file-system call is a step.

The simulator (this process) and its nodes talk over pipes (see shim/simfs.c).  Between two calls a node
only computes; the simulator decides which node's call happens next, with which result, and when.
"""
import ctypes
import errno
import gc
import io
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys

KINDS = ["", "open", "read", "pread", "write", "pwrite", "close", "fsync", "ftruncate", "truncate", "unlink", "rename", "link",
         "mkdir", "rmdir", "stat", "access", "lock", "mmap", "sleep", "mark", "result", "sendfile", "chmod"]
K = {n: i for i, n in enumerate(KINDS)}
DATA_OUT = {"write", "pwrite", "sendfile"}
DATA_IN = {"read", "pread"}
GO, ERR, SHORT, KILL_BEFORE, KILL_AFTER, KILL_PARTIAL = range(6)

REQ = struct.Struct("<IiqqqiHH")
REP = struct.Struct("<Iiqqq")

REAL0 = 1_700_000_000 * 10**9
OP_NS = 20_000
STUCK_S = 60
CPU_S = 20

_lib = None


def lib():
    global _lib
    if _lib is None:
        l = ctypes.CDLL(None)
        l.simfs_activate.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_uint64, ctypes.c_int64, ctypes.c_int64]
        l.simfs_mark.argtypes = [ctypes.c_char_p]
        l.simfs_detrand.argtypes = [ctypes.c_uint64]
        _lib = l
    return _lib


def mark(s):
    """Called inside a node: announce a phase to the simulator (a scheduling point, never faulted)."""
    lib().simfs_mark(s.encode())


class Op:
    __slots__ = ("kind", "path", "path2", "off", "len", "fd")

    def __init__(self, kind, path, path2, off, len_, fd):
        self.kind, self.path, self.path2, self.off, self.len, self.fd = kind, path, path2, off, len_, fd


class NodeResult:
    """status: ok | exc | killed | exit | cpu | stuck | signal:N"""

    def __init__(self, status, value=None, exc=None, nops=0, ops=None, marks=None):
        self.status, self.value, self.exc, self.nops, self.ops, self.marks = status, value, exc, nops, ops or [], marks or {}

    def __repr__(self):
        return f"<{self.status} {self.value!r:.200} {self.exc}>"


class Node:
    def __init__(self, idx, name):
        self.idx, self.name = idx, name
        self.pending = None
        self.wake = 0
        self.count = 0          # faultable operations so far
        self.ops = []           # (kind, path, len) of faultable operations, for fault placement
        self.marks = {}         # phase name -> operation count when it was announced
        self.result = None
        self.sticky = []
        self.last = None        # index of this node's last entry in the log


def describe_exc(e):
    return {"type": type(e).__name__, "msg": str(e)[:500], "mro": [c.__name__ for c in type(e).__mro__], "errno": getattr(e, "errno", None)}


class World:
    """One simulated run.  `faults` is the fault plan; all other randomness comes from `seed`."""

    def __init__(self, base, seed=0, faults=(), schedule=None, trace=False, cpu_s=CPU_S, armed=True):
        self.root = base
        self.rng = random.Random(seed)
        self.chop_rng = random.Random(seed ^ 0x5EED)
        self.seed = seed
        self.mono, self.real = 10**9, REAL0
        self.faults = [dict(f) for f in faults]
        self.armed = armed                # False: no faults before mark("arm")
        self.schedule = schedule          # None: no switching; {"seed","p"}: random; {"switches": {n: node}}: replay
        self.sched_rng = random.Random((schedule or {}).get("seed", 0))
        self.log = []
        self.fired = {}
        self.nodes = 0
        self.decisions = 0
        self.switches = []
        self.used = 0
        self.trace = trace
        self.cpu_s = cpu_s
        self.max_steps = 60000
        self.steps = 0
        os.makedirs(self.root, exist_ok=True)

    # ---- helpers used by workloads -------------------------------------------------------------
    def path(self, name):
        return os.path.join(self.root, name)

    def put(self, name, data):
        with open(self.path(name), "wb") as f:
            f.write(data)

    def get(self, name):
        try:
            with open(self.path(name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def listdir(self):
        return sorted(os.listdir(self.root))

    def cleanup(self):
        shutil.rmtree(self.root, ignore_errors=True)

    # ---- nodes ---------------------------------------------------------------------------------
    def spawn(self, fn, name=None, capture=False):
        idx = self.nodes
        self.nodes += 1
        node = Node(idx, name or f"n{idx}")
        c2p_r, c2p_w = os.pipe()
        p2c_r, p2c_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            self._child(fn, idx, c2p_w, p2c_r, c2p_r, p2c_w, capture)
        os.close(c2p_w)
        os.close(p2c_r)
        node.pid, node.rfd, node.wfd = pid, c2p_r, p2c_w
        return node

    def _child(self, fn, idx, wfd, rfd, o1, o2, capture):
        try:
            os.close(o1)
            os.close(o2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (self.cpu_s, self.cpu_s + 5))
            resource.setrlimit(resource.RLIMIT_AS, (5 << 29, 5 << 29))
            signal.signal(signal.SIGINT, signal.default_int_handler)
            dn = os.open("/dev/null", os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not self.trace:
                os.dup2(dn, 2)
            os.close(dn)
            os.chdir(self.root)
            sys.stdout = io.StringIO()
            sys.stderr = io.StringIO() if not self.trace else sys.stderr
            random.seed(self.seed * 1000 + idx)
            gc.collect()
            l = lib()
            l.simfs_activate(wfd, rfd, self.root.encode(), 1000 + idx, (self.seed * 7919 + idx * 104729 + 1) & (2**64 - 1), self.mono, self.real)
            try:
                try:
                    out = ("ok", fn(), None)
                except SystemExit as e:
                    out = ("exit", 0 if e.code is None else e.code if isinstance(e.code, int) else 1, None)
                except BaseException as e:  # noqa: BLE001 - the outcome of the simulated node
                    if self.trace:
                        import traceback
                        traceback.print_exc()
                    out = ("exc", None, describe_exc(e))
                    del e
            finally:
                l.simfs_deactivate()
            text = sys.stdout.getvalue() if capture else None
            data = pickle.dumps((out, text))
            hdr = REQ.pack(K["result"], -1, len(data), 0, 0, 0, 0, 0)
            buf = hdr + data
            while buf:
                n = os.write(wfd, buf)
                buf = buf[n:]
        except BaseException as e:  # noqa: BLE001
            try:
                os.write(2, f"node harness failure: {e!r}\n".encode())
            except OSError:
                pass
            os._exit(98)
        os._exit(0)

    def _readn(self, node, n):
        buf = b""
        while len(buf) < n:
            r, _, _ = select.select([node.rfd], [], [], STUCK_S)
            if not r:
                return None
            d = os.read(node.rfd, n - len(buf))
            if not d:
                return b""
            buf += d
        return buf

    def _next(self, node):
        """Wait (for real, bounded) until the node announces its next call or ends."""
        h = self._readn(node, REQ.size)
        if h is None:
            os.kill(node.pid, signal.SIGKILL)
            return self._reap(node, "stuck")
        if len(h) < REQ.size:
            return self._reap(node)
        kind, fd, off, ln, pret, perr, l1, l2 = REQ.unpack(h)
        if kind == K["result"]:
            data = self._readn(node, off)
            (st, val, exc), text = pickle.loads(data)
            self._reap(node, st)
            node.result.value, node.result.exc, node.result.text = val, exc, text
            return
        paths = self._readn(node, l1 + l2) if l1 + l2 else b""
        node.pending = Op(KINDS[kind], paths[:l1].decode("utf8", "replace"), paths[l1:].decode("utf8", "replace"), off, ln, fd)
        if node.last is not None:
            self.log[node.last] += (pret, perr)
            node.last = None

    def _reap(self, node, status=None):
        os.close(node.rfd)
        os.close(node.wfd)
        _, st = os.waitpid(node.pid, 0)
        if status is None:
            if os.WIFSIGNALED(st):
                sig = os.WTERMSIG(st)
                status = "cpu" if sig in (signal.SIGXCPU,) else f"signal:{sig}"
            elif os.WEXITSTATUS(st) == 137:
                status = "killed"
            else:
                status = f"harness:{os.WEXITSTATUS(st)}"
        node.pending = None
        node.result = NodeResult(status, nops=node.count, ops=node.ops, marks=node.marks)

    def _fire(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1

    def _decide(self, node, op):
        """Apply the fault plan to this operation: (action, errno, n)."""
        if op.kind in ("mark", "sleep"):
            return GO, 0, 0
        k = node.count
        node.count += 1
        node.ops.append((op.kind, op.path, op.len))
        for f in self.faults if self.armed else ():
            if f.get("node", node.idx) != node.idx:
                continue
            act = f["act"]
            if act == "err":
                hit = f["at"] == k
                if not hit and f.get("sticky") and k > f["at"]:
                    s = f["sticky"]
                    hit = (s == "all") or (s == "kind" and op.kind == f.get("_kind")) or (s == "out" and op.kind in DATA_OUT) or (s == "path" and op.path == f.get("_path"))
                if hit:
                    if f["at"] == k:
                        f["_kind"], f["_path"] = op.kind, op.path
                    if f["errno"] == "EINTR" and op.kind not in ("open", "read", "pread", "write", "pwrite", "lock"):
                        continue
                    self._fire(f"{f['errno']}@{op.kind}")
                    return ERR, getattr(errno, f["errno"]), 0
            elif act == "short" and f["at"] == k and op.kind in (DATA_IN | DATA_OUT) and op.len > 1:
                self._fire(f"short@{op.kind}")
                return SHORT, 0, max(1, min(op.len - 1, f["n"] if "n" in f else int(op.len * f["frac"])))
            elif act == "kill" and f["at"] == k:
                w = f["when"]
                self._fire(f"kill-{w}@{op.kind}")
                if w == "before":
                    return KILL_BEFORE, 0, 0
                if w == "partial" and op.kind in DATA_OUT and op.len > 0:
                    return KILL_PARTIAL, 0, int(op.len * f.get("frac", 0.5))
                return KILL_AFTER, 0, 0
            elif act == "clock" and f["at"] == k:
                self._fire("clock-jump")
                self.real += f["ns"]
            elif act == "stall" and f["at"] == k and "_done" not in f:
                f["_done"] = True
                self._fire("stall")
                self.mono += 0
                node.wake = self.mono + f["ns"]
                node.count -= 1
                node.ops.pop()
                return None
            elif act == "chop" and op.kind in f["kinds"] and op.len > 1 and (not f.get("only") or f["only"] in op.path):
                n = 1 + self.chop_rng.randrange(min(op.len, f["max"]))
                if n < op.len:
                    self._fire(f"short@{op.kind}")
                    return SHORT, 0, n
            elif act == "ro" and op.kind == "open" and op.off & (os.O_WRONLY | os.O_RDWR) and op.path.endswith(f["path"]):
                self._fire(f"{f['errno']}@open-for-writing")
                return ERR, getattr(errno, f["errno"]), 0
            elif act == "eintr" and op.kind in ("open", "read", "write") and self.chop_rng.random() < f["p"]:
                self._fire(f"EINTR@{op.kind}")
                return ERR, errno.EINTR, 0
            elif act == "full" and op.kind in DATA_OUT:
                room = f["cap"] - self.used
                if room <= 0:
                    self._fire(f"ENOSPC@{op.kind}")
                    return ERR, errno.ENOSPC, 0
                if op.len > room:
                    self._fire(f"short@{op.kind}")
                    self.used += room
                    return SHORT, 0, room
        if op.kind in DATA_OUT:
            self.used += op.len
        return GO, 0, 0

    def _step(self, node):
        """Let the node's pending call happen."""
        op = node.pending
        self.steps += 1
        if op.kind == "sleep":
            if node.wake == 0:
                node.wake = self.mono + op.len
                self._fire("sleep")
                return
            node.wake = 0
        elif op.kind == "mark":
            node.marks[op.path] = node.count
            if op.path == "heal":       # storage is healthy from here on (for everybody)
                self.faults = []
            elif op.path == "arm":      # faults count operations from here on
                self.armed = True
                node.count = 0
                node.ops.clear()
        node.wake = 0
        d = self._decide(node, op)
        if d is None:
            return
        action, err, n = d
        self.mono += OP_NS
        self.real += OP_NS
        self.log.append((node.idx, op.kind, op.path + ("|" + op.path2 if op.path2 else ""), op.off if op.kind != "open" else 0, op.len, f"{action}:{err}:{n}"))
        node.last = len(self.log) - 1
        node.pending = None
        try:
            os.write(node.wfd, REP.pack(action, err, n, self.mono, self.real))
        except BrokenPipeError:
            pass
        self._next(node)

    def run(self, fn, name=None, capture=False):
        """Run one node alone to its end."""
        node = self.spawn(fn, name, capture)
        self._next(node)
        while node.result is None:
            if node.wake > self.mono:
                self.real += node.wake - self.mono
                self.mono = node.wake
            self._step(node)
            if self.steps > self.max_steps:
                os.kill(node.pid, signal.SIGKILL)
                self._reap(node, "steps")
        return node.result

    def run_many(self, fns, names=None, capture=False, on_step=None):
        """Run nodes concurrently under the scheduler."""
        nodes = [self.spawn(fn, (names or {}).get(i) if isinstance(names, dict) else (names[i] if names else None), capture) for i, fn in enumerate(fns)]
        for n in nodes:
            self._next(n)
        cur = nodes[0]
        sched = self.schedule or {}
        sw = {int(a): b for a, b in sched.get("switches", [])} if "switches" in sched else None
        p = sched.get("p", 0.0)
        while True:
            live = [n for n in nodes if n.result is None]
            if not live:
                break
            ready = [n for n in live if n.wake <= self.mono]
            if not ready:
                t = min(n.wake for n in live)
                self.real += t - self.mono
                self.mono = t
                continue
            nxt = cur if cur in ready else ready[0]
            if len(ready) > 1:
                d = self.decisions
                self.decisions += 1
                if sw is not None:
                    if d in sw:
                        nxt = next((n for n in ready if n.idx == sw[d]), nxt)
                elif self.sched_rng.random() < p:
                    nxt = ready[self.sched_rng.randrange(len(ready))]
                if nxt is not (cur if cur in ready else ready[0]):
                    self.switches.append((d, nxt.idx))
            cur = nxt
            self._step(cur)
            if on_step:
                on_step(cur)
            if self.steps > self.max_steps:
                for n in live:
                    if n.result is None:
                        os.kill(n.pid, signal.SIGKILL)
                        self._reap(n, "steps")
                break
        return [n.result for n in nodes]
