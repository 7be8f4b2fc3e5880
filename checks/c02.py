"""C02: a save never reports success when the storage lost data."""
from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.fsworld import World, mark
from simkit.scratch import scratch

SINKS = ("memory", "rawsink", "bufsink", "duck")
ERRNOS = {"open": ["EACCES", "EMFILE", "ENOSPC", "EROFS", "EIO", "EINTR"], "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR"],
          "close": ["EIO", "ENOSPC", "EDQUOT"], "fsync": ["EIO", "ENOSPC"], "rename": ["EIO", "EACCES", "ENOSPC"]}


class Check(BaseCheck):
    id = "C02"
    rule = ("one run = one save under one fault plan, then a second save of the same image on healthy storage; distinct = (format, destination, image size class, "
            "row length, faults as fired on which operation); non-trivial = a fault fired")
    assumptions = ("images the format can represent", "a user-supplied stream signals failure by raising, by a short count, or (raw streams) by None")
    real = ("objutils writers and store; CPython io; kernel tmpfs",)
    stub = ("failing and short system calls come from the simulator; user streams are test doubles of io.RawIOBase",)
    runs = {"quick": 600, "thorough": 6000}
    shrink_lists = ("faults", "images", "plan")

    def setup(self):
        from simkit import hexnode
        hexnode.warm()

    def family(self, rng, i, tier):
        from simkit.hexmodel import FORMATS, gen_image, gen_row
        from simkit.hexnode import DESTS
        fmt = list(FORMATS)[i % len(FORMATS)]
        image = gen_image(rng, fmt, big=rng.random() < 0.3)
        row = gen_row(rng, fmt)
        size = sum(s[1] if isinstance(s[1], int) else len(s[1]) // 2 for s in image)
        if row and size // row > 2000:
            row = max(row, 64)
        dest = rng.choice(DESTS)
        base = {"seed": rng.getrandbits(48), "fmt": fmt, "image": image, "row": row, "dest": dest, "old": rng.choice([None, 20, 100000]), "plan": [], "faults": []}
        res = yield dict(base)
        if res.violation:
            return
        ops = res.info["ops"]
        size = res.info["size"]
        if dest in ("rawsink", "bufsink", "duck"):
            writes = max(1, size // 64 if dest == "bufsink" else 1)
            for _ in range(8):
                plan = [rng.choice([None, None, 1, 5, 40, 100, size // 2 + 1]) for _ in range(rng.randint(0, min(12, writes + 2)))]
                plan.append(rng.choice(["ENOSPC", "EIO", -1, "EPIPE", "EINTR", 1, 3]))
                yield dict(base, plan=plan)
            return
        if dest == "memory":
            return
        for k, (kind, _, ln) in enumerate(ops):
            errs = ERRNOS.get(kind, ["EIO"])
            for e in rng.sample(errs, min(len(errs), 2 if tier == "quick" else 5)):
                f = {"act": "err", "at": k, "errno": e}
                if rng.random() < 0.5 and e != "EINTR":
                    f["sticky"] = rng.choice(["all", "kind", "out"])
                yield dict(base, faults=[f])
            if kind == "write":
                fr = rng.choice([0.01, 0.5, 0.99])
                yield dict(base, faults=[{"act": "short", "at": k, "frac": fr}])
                yield dict(base, faults=[{"act": "short", "at": k, "frac": fr}, {"act": "err", "at": k + 1, "errno": rng.choice(["ENOSPC", "EIO"]),
                                                                               "sticky": rng.choice(["all", "out"])}])
        for _ in range(3):
            cap = rng.choice([0, 1, size - 1, size // 2, 4096, 8192, rng.randrange(size + 1)])
            yield dict(base, faults=[{"act": "full", "cap": cap}])
        yield dict(base, faults=[{"act": "chop", "kinds": ["write"], "max": max(1, size // 40)}, {"act": "full", "cap": rng.randrange(size + 1)}])
        yield dict(base, faults=[{"act": "chop", "kinds": ["write"], "max": max(1, size // 40)}, {"act": "err", "at": rng.randint(1, 20), "errno": "EIO"}])

    def execute(self, case):
        from simkit.hexnode import make_image, raw_get, save
        w = World(scratch(), case["seed"], case["faults"], armed=False)
        if case["old"]:
            w.put("out.dat", b"\x55" * case["old"])
        fmt = case["fmt"]

        def node():
            import objutils
            img = make_image(case["image"])
            rk = {} if case["row"] is None else {"row_length": case["row"]}
            enc = bytes(objutils.dumps(fmt, img, **rk))
            mark("arm")
            err = fp = None
            try:
                fp = save(fmt, img, case["dest"], "out.dat", case["row"], case["plan"])
            except Exception as e:  # noqa: BLE001
                err = f"{type(e).__name__}: {e}"[:200]
            mark("heal")
            stored = None
            if err is None:
                stored = fp.content() if case["dest"] in SINKS else raw_get("out.dat")
            objutils.dump(fmt, "again.dat", img, **rk)
            again = raw_get("again.dat")
            return err, stored == enc, len(stored or b""), len(enc), again == enc
        try:
            r = w.run(node)
        finally:
            w.cleanup()
        v = None
        fired = dict(w.fired)
        info = {}
        if r.status == "ok":
            err, same, got, size, again = r.value
            info = {"ops": [list(o) for o in r.ops[:r.marks.get("heal", len(r.ops))]], "size": size}
            for p in case["plan"]:
                fired[f"sink-{p}"] = fired.get(f"sink-{p}", 0) + 1
            if err is None and not same:
                v = viol("silent-loss", f"saving {fmt} to {case['dest']} returned normally but {got} of {size} bytes (or different ones) are stored")
            elif not again:
                v = viol("second-save", f"a later save of the unchanged image stored something else ({fmt})")
            elif err is not None and not fired:
                v = viol("raised", f"saving {fmt} to healthy storage raised {err}")
        elif r.status == "exc":
            v = viol("later-raised", f"healthy storage after a failed save: {r.exc['type']}: {r.exc['msg']}")
        else:
            v = viol("ended", f"process ended with {r.status}")
        return Res(v, info, sig=(fmt, case["dest"], case["row"], len(case["image"]), info.get("size", 0) // 1000, sorted(fired)), nontrivial=bool(fired),
                   fired=fired, simns=w.mono, steps=w.steps, digest=core.digest((w.log, r.status, r.value)), probes=["fault-raised" if r.status == "ok" and r.value[0] else "fault-absorbed"] if fired else ())
