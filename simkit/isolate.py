"""Run one simulated execution in a forked copy of the worker: state left behind by a run dies with it."""
import gc
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

CPU_S = 20
STUCK_S = 60


def forked(fn, cpu_s=CPU_S, stuck_s=STUCK_S):
    """(status, value): ok | exc (value: traceback text) | cpu | stuck | signal:N | exit:N"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 5))
            resource.setrlimit(resource.RLIMIT_AS, (5 << 29, 5 << 29))
            dn = os.open("/dev/null", os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not os.environ.get("VERIF_TRACE"):
                os.dup2(dn, 2)
            gc.collect()
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                out = ("exc", "".join(traceback.format_exception(e))[-1500:])
            data = pickle.dumps(out)
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:  # noqa: BLE001
            os._exit(98)
        os._exit(0)
    os.close(w)
    buf = []
    status = None
    end = time.monotonic() + stuck_s
    while True:
        ok, _, _ = select.select([r], [], [], max(0.0, end - time.monotonic()))
        if not ok:
            os.kill(pid, signal.SIGKILL)
            status = "stuck"
            break
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf.append(d)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if status:
        return status, None
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        return ("cpu" if sig == signal.SIGXCPU else f"signal:{sig}"), None
    if os.WEXITSTATUS(st):
        return f"exit:{os.WEXITSTATUS(st)}", None
    try:
        return pickle.loads(b"".join(buf))
    except Exception as e:  # noqa: BLE001
        return "exc", f"result unreadable: {e!r}"


_ = sys


def harmless(fn):
    """Whether `fn`, tried in a forked copy first, succeeds: a warm-up must not hang the worker or eat the memory."""
    return forked(fn)[0] == "ok"
