"""C16: the codec registry is one linearizable, stable table."""
import itertools

from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.isolate import forked

NAMES = ["alpha", "Beta", "GAMMA", "x1"]


def cased(name, how):
    return {"same": name, "upper": name.upper(), "lower": name.lower(), "title": name.title(), "swap": name.swapcase()}[how]


class Spec:
    """Sequential table: lower-case name -> (reader, writer, description)."""

    def __init__(self, table):
        self.t = table      # tuple of (key, value), in order

    def apply(self, op, res):
        """Next states which explain `res` (a list; None as result: unknown, may have happened or not)."""
        d = dict(self.t)
        k = op[0]
        if k == "register":
            key = op[1].lower()
            if res is None or res[0] == "interrupted":
                out = [self]
                if key not in d:
                    out.append(Spec(self.t + ((key, op[2]),)))
                return out
            if res[0] == "ok":
                return [Spec(self.t + ((key, op[2]),))] if key not in d else []
            if res[0] == "exists":
                return [self] if key in d else []
            if res[0] == "failed":
                return [self] if op[3] == "sealed" else []
            return []
        if res is None or res[0] == "interrupted":
            return [self]
        if k == "get":
            if res[0] == "ok":
                return [self] if d.get(op[1].lower()) == res[1] else []
            return [self] if op[1].lower() not in d and res[0] == "missing" else []
        if k == "formats":
            return [self] if res == ("ok", sorted(d)) else []
        if k == "iterate":
            return [self] if res == ("ok", list(self.t)) else []
        return [self]


def linearizable(history, start):
    """history: (begin, end, op, result); a pending or interrupted operation may take effect any time after it began."""
    ops = sorted(history, key=lambda h: h[0])
    n = len(ops)
    seen = set()
    stack = [(0, start)]
    full = (1 << n) - 1
    while stack:
        mask, spec = stack.pop()
        if mask == full:
            return True
        if (mask, spec.t) in seen:
            continue
        seen.add((mask, spec.t))
        first_end = min(ops[j][1] for j in range(n) if not mask >> j & 1)
        for j in range(n):
            if mask >> j & 1 or ops[j][0] > first_end:
                continue
            for nxt in spec.apply(ops[j][2], ops[j][3]):
                stack.append((mask | 1 << j, nxt))
    return False


class Check(BaseCheck):
    id = "C16"
    shim = False
    rule = ("one run = 2-4 threads registering, looking up, listing and re-obtaining the registry under one seeded interleaving at line or bytecode granularity, optionally interrupted "
            "at one line, then an audit; the recorded history is searched for a linearization; distinct = (operations, switch positions); non-trivial = at least one switch inside an operation")
    assumptions = ("CPython's own dict operations are atomic (one bytecode)",)
    real = ("objutils.registry, objutils.utils.SingletonBase, real threads",)
    stub = ("which thread runs; locks made through threading are cooperative",)
    runs = {"quick": 800, "thorough": 12000}
    shrink_lists = ("faults", "schedule.switches")

    def setup(self):
        from simkit import threads
        threads.patch()
        import objutils  # noqa: F401

    def shrinks(self, case):
        import copy
        yield from super().shrinks(case)
        for i, t in enumerate(case["threads"]):
            for k in range(len(t)):
                c = copy.deepcopy(case)
                del c["threads"][i][k]
                yield c

    def family(self, rng, i, tier):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        names = rng.sample(NAMES, rng.choice([1, 1, 2, 3]))
        uid = itertools.count()
        threads = []
        for t in range(n):
            ops = []
            for _ in range(rng.randint(1, 4)):
                nm = cased(rng.choice(names), rng.choice(["same", "same", "upper", "lower", "title", "swap"]))
                k = rng.choice(["register", "register", "register", "get", "get", "formats", "iterate", "obtain", "get-builtin"])
                how = rng.choice(["global", "global", "new", "new"])
                if k == "register":
                    ops.append([k, nm, next(uid), rng.choice(["plain"] * 6 + ["sealed"]), how])
                elif k == "get":
                    ops.append([k, nm, how])
                elif k == "get-builtin":
                    ops.append(["get", rng.choice(["ihex", "SREC", "Bin"]), how])
                else:
                    ops.append([k, how])
            threads.append(ops)
        base = {"seed": rng.getrandbits(32), "threads": threads, "opcodes": rng.random() < 0.5, "faults": [], "schedule": {"switches": []}}
        res = yield base
        if res.violation:
            return
        nd = max(1, res.info["decisions"])
        cnt = res.info["counts"]
        for k in range(10 if tier == "quick" else 40):
            if rng.random() < 0.5:
                sch = {"switches": sorted([rng.randrange(nd), rng.randrange(n)] for _ in range(rng.choice([1, 2, 3, 4, 6])))}
            else:
                sch = {"seed": rng.getrandbits(32), "p": rng.choice([0.05, 0.2, 0.5, 0.9])}
            fs = []
            if rng.random() < 0.3:
                t = rng.randrange(n)
                fs.append({"thread": t, "at": rng.randrange(max(1, cnt[t])), "kind": rng.choice(["interrupt", "memory"])})
            yield dict(base, schedule=sch, faults=fs, opcodes=base["opcodes"] and not fs)

    def execute(self, case):
        from simkit.threads import Sched

        def job():
            import gc

            from objutils.registry import CodecAlreadyExistError, CodecDoesNotExistError, Registry, registry
            gc.disable()
            start = [(k, tuple(c)) for k, c in registry]
            ids = {}
            objs = {}

            def value(c):
                return ids.setdefault((id(c[0]), id(c[1]), c[2]), len(ids) + 1000)
            for k, c in start:
                ids[(id(c[0]), id(c[1]), c[2])] = "builtin-" + k

            def classes(uid, kind):
                if uid not in objs:
                    r = type(f"R{uid}", (), {}) if kind == "plain" else [object, int, 3.5][uid % 3]
                    w = type(f"W{uid}", (), {})
                    objs[uid] = (r, w)
                    ids[(id(r), id(w), f"d{uid}")] = uid
                return objs[uid]
            for t in case["threads"]:
                for op in t:
                    if op[0] == "register":
                        classes(op[2], op[3])
            s = Sched(case["schedule"], case["faults"], opcodes=case["opcodes"])
            hist = []

            def do(op):
                how = op[-1]
                k = op[0]
                r = registry if how == "global" else Registry()
                if k == "register":
                    a, b = classes(op[2], op[3])
                    r.register(op[1], a, b, f"d{op[2]}")
                    return ("ok",)
                if k == "get":
                    return ("ok", value(r.get(op[1])))
                if k == "formats":
                    return ("ok", list(r.formats))
                if k == "iterate":
                    return ("ok", [(n2, value(c)) for n2, c in r])
                if k == "obtain":
                    return ("ok", r is registry)
                raise AssertionError(k)

            def thread(ti, ops):
                def body():
                    for op in ops:
                        b = s.now()
                        try:
                            res = do(op)
                        except CodecAlreadyExistError:
                            res = ("exists",)
                        except CodecDoesNotExistError:
                            res = ("missing",)
                        except (KeyboardInterrupt, MemoryError):
                            res = ("interrupted",)
                        except (TypeError, AttributeError) as e:
                            res = ("failed", f"{type(e).__name__}: {e}"[:100])
                        except Exception as e:  # noqa: BLE001
                            res = ("failed", f"{type(e).__name__}: {e}"[:100])
                        hist.append((b, s.now(), op, res, ti))
                return body
            results = s.run([thread(i, t) for i, t in enumerate(case["threads"])])
            # audit
            audit = []
            for how in ("global", "new"):
                audit.append((["iterate", how], do(["iterate", how])))
                audit.append((["formats", how], do(["formats", how])))
                for nm in sorted({op[1] for t in case["threads"] for op in t if op[0] == "register"}):
                    for c in ("same", "upper", "swap"):
                        try:
                            audit.append((["get", cased(nm, c), how], do(["get", cased(nm, c), how])))
                        except CodecDoesNotExistError:
                            audit.append((["get", cased(nm, c), how], ("missing",)))
            for op, res in audit:
                b = s.now()
                hist.append((b, s.now(), op, res, -1))
            return {"hist": hist, "results": results, "start": [(k, "builtin-" + k) for k, _ in start], "counts": s.count, "decisions": s.decisions, "switches": s.switches,
                    "trail": s.trail, "fired": s.fired, "real": s.real_blocks, "steps": s.steps}
        st, val = forked(job)
        v = None
        if st != "ok":
            v = viol("hang" if st in ("cpu", "stuck") else "ended", f"run ended with {st}: {val}"[:500])
            return Res(v, {}, digest=core.digest((st,)))
        hist = []
        for i, (st2, x) in enumerate(val["results"]):
            if st2 == "deadlock":
                v = viol("deadlock", f"thread {i} waits for a lock nobody can release")
            elif st2 == "steps":
                v = viol("hang", f"thread {i} does not end")
            elif st2 == "exc" and not x.startswith("SimInterrupt") and not x.startswith("MemoryError"):
                v = viol("ended", f"thread {i}: {x}")
        for b, e, op, res, ti in val["hist"]:
            o = list(op)
            res = tuple(res)
            if op[0] == "obtain":
                if res[0] == "ok" and not res[1] and not v:
                    v = viol("another-table", "the registry obtained again is another one")
                continue
            if res[0] == "failed" and not (op[0] == "register" and op[3] == "sealed") and not v:
                v = viol("raised", f"{op}: {res[1]}")
            hist.append((b, e if res[0] != "interrupted" else 10**9, o, res))
        if v is None and not linearizable(hist, Spec(tuple((k, x) for k, x in val["start"]))):
            hs = [(ti, op, res) for b, e, op, res, ti in val["hist"] if ti >= 0]
            audit = [(op[:2], res[0]) for b, e, op, res, ti in val["hist"] if ti < 0 and op[0] == "get"]
            v = viol("not-linearizable", f"no order of the operations explains {hs}; afterwards {audit[:4]}"[:600])
        fired = dict(val["fired"])
        if val["switches"]:
            fired["switch"] = len(val["switches"])
        return Res(v, {"switches": val["switches"], "decisions": val["decisions"], "counts": val["counts"]}, sig=(case["threads"], val["switches"], sorted(val["fired"])), nontrivial=bool(val["switches"]),
                   fired=fired, steps=val["steps"], digest=core.digest((val["hist"], val["switches"], val["results"])), probes=["real-block"] if val["real"] else [])
