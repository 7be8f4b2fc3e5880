"""C03: a save that cannot be encoded leaves the existing file untouched."""
from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.fsworld import World, mark
from simkit.lineint import LineInjector
from simkit.scratch import scratch


class Check(BaseCheck):
    id = "C03"
    rule = ("one run = one save to a path that fails while encoding (unrepresentable image or option, interruption or MemoryError at one executed line of the encoder); "
            "distinct = (format, kind of failure, line it was injected at, destination existing or not); non-trivial = the save failed")
    assumptions = ("a line is part of encoding if the image's bytes are accessed later, or if fewer lines were executed than 95 % of an in-memory encoding takes",)
    real = ("objutils writers, image, section; kernel tmpfs",)
    stub = ("interruptions and allocation failures are raised at source-line boundaries by the simulator",)
    runs = {"quick": 900, "thorough": 5000}
    shrink_lists = ("image",)

    def setup(self):
        from simkit import hexnode
        hexnode.warm()

    def family(self, rng, i, tier):
        from simkit.hexmodel import FORMATS, gen_image, gen_row
        fmt = list(FORMATS)[i % len(FORMATS)]
        image = gen_image(rng, fmt, small=rng.random() < 0.4)
        base = {"seed": rng.getrandbits(48), "fmt": fmt, "image": image, "row": gen_row(rng, fmt), "kws": {}, "old": rng.choice([None, 0, 30, 5000]), "at": None, "kind": None, "why": "none", "join": rng.random() < 0.6}
        size = sum(s[1] if isinstance(s[1], int) else len(s[1]) // 2 for s in image)
        if size > 4000:
            base["row"] = max(base["row"] or 0, 32) if base["row"] else base["row"]
        res = yield dict(base)
        if res.violation or not res.info:
            return
        last = res.info["last"]
        n = 8 if tier == "quick" else 20
        for _ in range(min(n, last)):
            at = rng.choice([0, last, last - 1, rng.randrange(last + 1), rng.randrange(last + 1), rng.randrange(min(60, last + 1))])
            yield dict(base, at=at, kind=rng.choice(["interrupt", "memory"]), why="line")
        # images and options the format cannot represent
        limit = FORMATS[fmt]["limit"]
        if fmt not in ("bin", "shf"):
            far = limit + 1 + rng.choice([0, 0, 1, 0x10000, 0xFFFFFF])
            bad = [list(s) for s in image] + [[far, rng.randint(1, 40), 1]]
            yield dict(base, image=bad, why="address")
            yield dict(base, image=[[limit - 3 - rng.randint(0, 5), rng.randint(16, 60), 1]], why="address")
            yield dict(base, row=rng.choice([0, -1, -16]), why="row")
            if FORMATS[fmt]["maxrow"]:
                yield dict(base, image=[list(s) for s in image] + [[0, 400, 1]] if not any(s[0] < 400 for s in image) else [[0, 600, 3]],
                           row=rng.choice([256, 300, 512]), why="row")
        elif fmt == "bin":
            yield dict(base, kws={"filler": rng.choice(["x", "long", "empty", 256, 1000, -1])}, why="option")
        yield dict(base, why="alien", alien=rng.choice(["None", "int", "list", "str"]))

    def execute(self, case):
        from simkit.hexnode import as_pairs, make_image, raw_get
        w = World(scratch(), case["seed"], [])
        old = None
        if case["old"] is not None:
            old = b"\x55" * case["old"]
            w.put("out.dat", old)
        fmt = case["fmt"]

        def node():
            import objutils
            from objutils.section import Section
            img = make_image(case["image"], case.get("join", True))
            before = as_pairs(img)
            kws = {} if case["row"] is None else {"row_length": case["row"]}
            kws.update(case["kws"])
            f = kws.get("filler")
            if f is not None:
                kws["filler"] = {"x": "x", "long": b"\x00\x00", "empty": b""}.get(f, f)
            target = {"None": None, "int": 5, "list": [1, 2], "str": "abc"}[case["alien"]] if case.get("alien") else img
            last = [0]
            li = LineInjector(case["at"], case["kind"] or "interrupt")
            if case["why"] == "none":  # dry run: which executed line reads the image's bytes last?
                def spy(prop):
                    def get(self):
                        last[0] = li.count - 1
                        return prop.fget(self) if isinstance(prop, property) else self.__dict__["data"]
                    return get
                cls = type(img.sections[0])
                watched = type("Watched", (cls,), {"data": property(spy(None), lambda s, v: s.__dict__.__setitem__("data", v))}) if "data" in img.sections[0].__dict__ else None
                if watched:
                    for s in img.sections:
                        s.__class__ = watched
            mark("arm")
            err = None
            with li:
                try:
                    objutils.dump(fmt, "out.dat", target, **kws)
                except BaseException as e:  # noqa: BLE001
                    err = f"{type(e).__name__}: {e}"[:200]
            mark("heal")
            stored = raw_get("out.dat")
            if case["why"] == "none":
                for s in img.sections:
                    if type(s).__name__ == "Watched":
                        s.__class__ = Section
                with LineInjector() as enc_li:
                    objutils.dumps(fmt, img, **kws)
                last[0] = max(last[0], int(enc_li.count * 0.95) - 4)
            after = as_pairs(img)
            names = sorted(n for n in __import__("os").listdir("."))
            enc = None
            if err is not None and stored != old and case["why"] == "line":
                enc = bytes(objutils.dumps(fmt, img, **kws))
            return err, stored, before == after, last[0], li.fired, names, enc
        try:
            r = w.run(node)
        finally:
            w.cleanup()
        v = None
        info = {}
        fired = {}
        sig = None
        if r.status == "ok":
            err, stored, unaltered, last, where, names, enc = r.value
            info = {"last": last}
            sig = (fmt, case["why"], where, case["kind"], case["old"] is None, case["row"] if case["why"] == "row" else None)
            if err is not None:
                fired[case["why"] + (":" + case["kind"] if case["kind"] else "")] = 1
            if not unaltered:
                v = viol("image-altered", f"saving as {fmt} altered the image ({case['why']})")
            elif case["why"] == "none" and err is not None:
                v = viol("raised", f"saving a representable image as {fmt} raised {err}")
            elif err is not None and stored != old and not (enc is not None and stored == enc):
                v = viol("destination", f"saving as {fmt} failed ({err}), but the destination went from {old if old is None else len(old)} to {stored if stored is None else len(stored)} bytes")
            elif case["why"] in ("address", "row") and err is None and not self.representable(case):
                v = viol("accepted", f"saving as {fmt} reported success for an image or option it cannot represent ({case['why']}, row {case['row']})")
            elif err is not None and [n for n in names if n != "out.dat"]:
                v = viol("litter", f"failed save left {names}")
        elif r.status == "exc":
            v = viol("harness", f"{r.exc}")
        else:
            v = viol("ended", f"process ended with {r.status}")
        return Res(v, info, sig=sig, nontrivial=bool(fired), fired=fired, simns=w.mono, steps=w.steps, digest=core.digest((w.log, r.status, r.value)))

    def representable(self, case):
        """Conservative: only claims 'not representable' where no encoding of the format exists."""
        from simkit.hexmodel import FORMATS, expand
        f = FORMATS[case["fmt"]]
        if case["row"] is not None and case["row"] < 1:
            return False
        end = max(a + len(d) for a, d in expand(case["image"]))
        if end > f["limit"] + 1:
            return False
        if f["maxrow"] and case["row"] and case["row"] > 255 and max(len(d) for _, d in expand(case["image"])) > 255:
            return False
        return True
