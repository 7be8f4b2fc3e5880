"""C05: loading does not depend on how bytes arrive; read failures surface."""
import os

from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.fsworld import World, mark
from simkit.scratch import scratch

DATA_ERR = ["EIO", "ESTALE", "EBADF", "EISDIR", "ENOMEM", "ENXIO"]
OPEN_ERR = ["EACCES", "EMFILE", "ENFILE", "EIO", "ENOENT", "ENOMEM"]
TEXTUAL = ("ihex", "srec", "tek", "etek", "mostec", "sig", "emon52", "rca", "cosmac", "shf")


class Check(BaseCheck):
    id = "C05"
    rule = ("one run = loads of one or two files from one kind of source under one fault plan; distinct = (format, source, size class, split limit, fault as fired, history); "
            "non-trivial = bytes arrived in more than one piece or a fault fired")
    assumptions = ("well-formed files", "regular files never report EAGAIN", "plain binary, ASCII hex space, TI text and four packed code files are opened in binary mode")
    real = ("objutils readers; CPython io; kernel tmpfs",)
    stub = ("sizes and failures of reads come from the simulator; one kind of user stream is a test double of io.RawIOBase",)
    runs = {"quick": 240, "thorough": 6000}
    shrink_lists = ("faults", "plan", "history")

    def setup(self):
        from simkit import hexnode
        hexnode.warm()

    def family(self, rng, i, tier):
        from simkit.hexmodel import FORMATS, gen_image, gen_row
        from simkit.hexnode import SOURCES
        fmt = list(FORMATS)[i % len(FORMATS)]
        huge = rng.random() < (0.25 if FORMATS[fmt]["limit"] > 0xFFFF else 0.02)
        image = gen_image(rng, fmt, big="huge" if huge else rng.random() < 0.35)
        size = sum(s[1] if isinstance(s[1], int) else len(s[1]) // 2 for s in image)
        row = gen_row(rng, fmt)
        if row and size // row > (30000 if huge else 2000):
            row = max(row, 64)
        history = [[fmt if rng.random() < 0.7 else "ihex", gen_image(rng, "etek" if fmt != "bin" else "bin", small=True)] for _ in range(rng.choice([0, 0, 1, 2]))]
        if fmt == "bin":
            history = [["bin", h[1]] for h in history]
        base = {"seed": rng.getrandbits(48), "fmt": fmt, "image": image, "row": row, "crlf": rng.random() < 0.2 and fmt not in ("bin", "fpc"),
                "history": history, "reader": rng.random() < 0.4, "source": "path", "plan": [], "faults": [], "addr": rng.choice([0, 0x100, 0x12345])}
        if base["reader"]:
            base["history"] = [[fmt, h[1]] for h in history]
        sources = [s for s in SOURCES if not (fmt == "bin" and s == "str") and not (s == "unbuffered" and size > 3000)]
        n = 2 if huge else len(sources) if tier == "thorough" else 6
        for src in rng.sample(sources, min(n, len(sources))):
            b = dict(base, source=src, plan=[rng.choice([1, 3, 7, 64, 500, 5000]) for _ in range(rng.randint(1, 5))])
            if src in ("path", "buffered") and not huge and rng.random() < 0.4:
                b["twin"] = rng.getrandbits(32)
            if rng.random() < 0.3:
                b["faults"] = [{"act": "ro", "path": "in.dat", "errno": rng.choice(["EACCES", "EROFS", "EPERM"])}]
            res = yield b
            if res.violation:
                return
            ops = res.info.get("ops", [])
            if src in ("path", "buffered", "unbuffered"):
                for mx in rng.sample([1, 2, 9, 100, 4000, 9000], 2):
                    mx = max(mx, res.info["size"] // 300)
                    fs = [{"act": "chop", "kinds": ["read"], "max": mx, "only": "in"}]
                    if rng.random() < 0.5:
                        fs.append({"act": "eintr", "p": 0.3})
                    yield dict(b, faults=fs)
                    if rng.random() < 0.5:
                        yield dict(b, faults=fs[:1] + [{"act": "err", "at": rng.randint(1, 12), "errno": rng.choice(DATA_ERR), "sticky": rng.choice([None, "kind"])}])
                ks = list(enumerate(ops))
                if len(ks) > 8:  # unbuffered files are read byte by byte
                    ks = ks[:2] + [ks[-1], ks[-2]] + rng.sample(ks[2:-2], 4)
                for k, (kind, _, _) in ks:
                    if kind in ("read", "pread", "open", "mmap", "stat", "close"):
                        yield dict(b, faults=[{"act": "err", "at": k, "errno": rng.choice(OPEN_ERR if kind == "open" else DATA_ERR), "sticky": rng.choice([None, "kind", "all"])}])
            elif src == "chunky":
                for _ in range(3):
                    p = [rng.choice([1, 5, 64, 300]) for _ in range(rng.randint(0, 4))] + ["EIO"]
                    yield dict(b, plan=p)

    def execute(self, case):
        from simkit.hexmodel import bin_bytes, expand, joined
        from simkit.hexnode import as_pairs, load, make_image
        w = World(scratch(), case["seed"], case["faults"], armed=False)
        fmt = case["fmt"]

        def node():
            import objutils
            from objutils import Image, Section
            rk = {} if case["row"] is None else {"row_length": case["row"]}
            data = bytes(objutils.dumps(fmt, make_image(case["image"]), **rk))
            want = joined(expand(case["image"]))
            if fmt == "bin":
                want = joined([(case["addr"], bin_bytes(want))])
            if case["crlf"]:
                data = data.replace(b"\r\n", b"\n").replace(b"\n", b"\r\n")
            lk = {"address": case["addr"]} if fmt == "bin" else {}
            ref = joined(as_pairs(objutils.loads(fmt, data, **lk)))
            if ref != want:
                return None, False, sum(len(d) for _, d in ref), sum(len(d) for _, d in want), len(data)
            reader = objutils.registry.get(fmt).Reader() if case["reader"] else None
            if case.get("twin") is not None:    # the file was loaded before, when it held something else
                spec = expand(case["image"])
                k = case["twin"] % len(spec)
                d = bytearray(spec[k][1])
                d[case["twin"] % len(d)] ^= 0x11
                spec[k] = (spec[k][0], bytes(d))
                with open("in.dat", "wb") as f:
                    f.write(bytes(objutils.dumps(fmt, Image([Section(a, d) for a, d in spec]), **rk)))
                load(fmt, case["source"], "in.dat", None, case["plan"], reader, **lk)
                st = os.stat("in.dat")
            with open("in.dat", "wb") as f:
                f.write(data)
            if case.get("twin") is not None:
                os.utime("in.dat", ns=(st.st_atime_ns, st.st_mtime_ns))
            for hf, him in case["history"]:
                hd = bytes(objutils.dumps(hf, make_image(him)))
                if reader:
                    reader.loads(hd)
                else:
                    objutils.loads(hf, hd)
            mark("arm")
            err = got = None
            try:
                got = joined(as_pairs(load(fmt, case["source"], "in.dat", data if case["source"] not in ("path", "buffered", "unbuffered") else None, case["plan"], reader, **lk)))
            except Exception as e:  # noqa: BLE001
                err = f"{type(e).__name__}: {e}"[:200]
            mark("heal")
            return err, got == ref if got is not None else None, sum(len(d) for _, d in got or ()), sum(len(d) for _, d in ref), len(data)
        try:
            r = w.run(node)
        finally:
            w.cleanup()
        v = None
        info = {}
        fired = dict(w.fired)
        hard = [k for k in fired if not k.startswith("short@") and not k.endswith("@open-for-writing") and not k.startswith("EINTR")]
        if r.status == "ok":
            err, same, got, want, size = r.value
            ops = r.ops[:r.marks.get("heal", len(r.ops))]
            info = {"ops": [list(o) for o in ops], "size": size}
            sink_err = any(isinstance(p, str) for p in case["plan"]) and case["source"] == "chunky"
            if sink_err:
                fired["source-error"] = 1
            if err is None and not same:
                v = viol("partial" if hard or sink_err else "differs", f"loading {fmt} from {case['source']} gave {got} bytes (or other content) instead of the {want} it holds; faults {sorted(fired)}")
            elif err is not None and not hard and not sink_err:
                v = viol("raised", f"loading {fmt} from {case['source']} raised {err} although no read failed; {sorted(fired)}")
        elif r.status == "exc":
            v = viol("harness", f"{r.exc}")
        else:
            v = viol("ended", f"process ended with {r.status}")
        return Res(v, info, sig=(fmt, case["source"], info.get("size", 0) // 2000, sorted(fired), [f.get("max") for f in case["faults"]], len(case["history"]), case["reader"], case["crlf"]),
                   nontrivial=bool(fired) or case["source"] == "chunky", fired=fired, simns=w.mono, steps=w.steps, digest=core.digest((w.log, r.status, r.value)))
