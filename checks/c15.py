"""C15: threads working on separate objects do not disturb each other."""
import hashlib
import json
import random

from simkit import core
from simkit import elfbuild as eb
from simkit import hexmodel as hm
from simkit.core import BaseCheck, Res, viol
from simkit.isolate import forked
from simkit.scratch import scratch

DTYPES = ["uint8_le", "int16_be", "uint16_le", "uint32_be", "int32_le", "uint64_le", "int64_be", "float32_be", "float64_le"]


def damage(data, how):
    """A reproducible damaged copy."""
    if not how or not data:
        return data
    r = random.Random(how[1])
    b = bytearray(data)
    if how[0] == "cut":
        return bytes(b[: r.randrange(len(b))])
    if how[0] == "flip":
        for _ in range(r.randint(1, 3)):
            b[r.randrange(len(b))] = r.choice(b"0123456789ABCDEFGS:;/% \n")
        return bytes(b)
    if how[0] == "garbage":
        return r.randbytes(60)
    raise AssertionError(how)


def short(x):
    """Comparable and small."""
    if isinstance(x, (bytes, bytearray)):
        x = bytes(x)
        return x.hex() if len(x) <= 24 else [len(x), hashlib.sha256(x).hexdigest()[:16], x[:8].hex()]
    return x


def pairs(img):
    return [(s.start_address, short(bytes(s.data))) for s in img]


class Actor:
    """One thread's own objects and files."""

    def __init__(self, index, where):
        self.path = f"{where}/t{index}"
        self.img = None
        self.out = []

    def prepare(self, n, op):
        """Input files and texts, made before any thread runs."""
        import objutils
        k = op[0]
        if k in ("loads", "load"):
            from simkit.hexnode import make_image
            data = bytes(objutils.dumps(op[1], make_image(op[2])))
            data = damage(data, op[3])
            if k == "load":
                with open(f"{self.path}-{n}.in", "wb") as f:
                    f.write(data)
            return data
        if k == "elf":
            with open(f"{self.path}-{n}.elf", "wb") as f:
                f.write(eb.build(op[1])[0])
        return None

    def do(self, n, op, data):
        import io

        import objutils
        from objutils import Image, Section
        from simkit.hexnode import make_image, raw_get
        k = op[0]
        if k == "dumps":
            kws = {} if op[3] is None else {"row_length": op[3]}
            return short(bytes(objutils.dumps(op[1], make_image(op[2], join=op[4]), **kws)))
        if k == "save":
            p = f"{self.path}-{n}.out"
            kws = {} if op[3] is None else {"row_length": op[3]}
            try:
                objutils.dump(op[1], p, make_image(op[2]), **kws)
            except Exception as e:  # noqa: BLE001
                return "raised", type(e).__name__, short(raw_get(p))
            return short(raw_get(p))
        if k == "loads":
            return pairs(objutils.loads(op[1], data if op[4] == "bytes" else data.decode("ascii")))
        if k == "load":
            p = f"{self.path}-{n}.in"
            return pairs(objutils.load(op[1], p if op[4] == "path" else open(p, "rb")))
        if k == "image":
            self.img = Image([Section(a, d) for a, d in hm.expand(op[1])], join=op[2])
            return pairs(self.img)
        if k == "edit":
            if self.img is None:
                self.img = Image([Section(0x100, bytes(range(64)))])
            res = []
            for e in op[1]:
                try:
                    res.append(short(self.edit(e)))
                except Exception as x:  # noqa: BLE001
                    res.append(("raised", type(x).__name__))
            return res, pairs(self.img)
        if k == "hexdump":
            fp = io.StringIO()
            make_image(op[1]).hexdump(fp)
            return short(fp.getvalue().encode())
        if k == "elf":
            from simkit import elfnode
            ep = elfnode.open_elf(f"{self.path}-{n}.elf")
            rep = elfnode.canon(elfnode.report(ep))
            res = [hashlib.sha256(repr(rep).encode()).hexdigest()[:16]]
            for q in op[2]:
                res.append(hashlib.sha256(repr(elfnode.ask(ep, q)).encode()).hexdigest()[:16])
            if op[3]:
                ep.session.close()
                ep.db.close()
            return res
        raise AssertionError(k)

    def edit(self, e):
        img = self.img
        k = e[0]
        if k == "write":
            return img.write(e[1], bytes.fromhex(e[2]))
        if k == "read":
            return bytes(img.read(e[1], e[2]))
        if k == "write_numeric":
            return img.write_numeric(e[1], e[2], e[3])
        if k == "read_numeric":
            return repr(img.read_numeric(e[1], e[2]))
        if k == "write_array":
            return img.write_numeric_array(e[1], e[2], e[3])
        if k == "read_array":
            return repr(list(img.read_numeric_array(e[1], e[2], e[3])))
        if k == "write_string":
            return img.write_string(e[1], e[2])
        if k == "read_string":
            return img.read_string(e[1], length=e[2])
        if k == "insert":
            return img.insert_section(bytes.fromhex(e[2]), e[1], join=e[3])
        if k == "join":
            return img.join_sections()
        if k == "get":
            s = img.get_section(e[1])
            return s.start_address, len(s), bytes(s.data).hex()
        if k == "in":
            return e[1] in img, len(img), img == img
        raise AssertionError(k)

    def run(self, script, datas):
        for n, op in enumerate(script):
            try:
                res = ("ok", self.do(n, op, datas[n]))
            except (KeyboardInterrupt, MemoryError):
                res = ("interrupted",)
            except Exception as e:  # noqa: BLE001
                res = ("raised", type(e).__name__)
            self.out.append(res)


def gen_spec(rng, fmt=None):
    f = fmt or "srec"
    return hm.gen_image(rng, f, small=rng.random() < 0.85, nsec=rng.choice([1, 1, 2, 3]))


def gen_edit(rng):
    a = rng.choice([0xF8, 0xFF, 0x100, 0x101, 0x110, 0x120, 0x138, 0x13F, 0x140, 0x150, 0x2000])
    k = rng.choice(["write", "read", "write_numeric", "read_numeric", "write_array", "read_array", "write_string", "read_string", "insert", "insert", "join", "get", "in"])
    dt = rng.choice(DTYPES)
    if k in ("write", "insert"):
        return [k, a, rng.randbytes(rng.randint(1, 12)).hex()] + ([rng.random() < 0.5] if k == "insert" else [])
    if k == "read":
        return [k, a, rng.randint(1, 20)]
    if k == "write_numeric":
        return [k, a, rng.randint(0, 127), dt]
    if k == "read_numeric":
        return [k, a, dt]
    if k == "write_array":
        return [k, a, [rng.randint(0, 127) for _ in range(rng.randint(1, 4))], dt]
    if k == "read_array":
        return [k, a, rng.randint(1, 4), dt]
    if k == "write_string":
        return [k, a, "".join(rng.choice("abcXYZ") for _ in range(rng.randint(1, 6)))]
    if k == "read_string":
        return [k, a, rng.randint(1, 6)]
    if k == "join":
        return [k]
    return [k, a]


def gen_op(rng, fmts, elf, kind=None):
    k = kind or rng.choice(["dumps"] * 5 + ["save"] * 3 + ["loads"] * 5 + ["load"] * 3 + ["edit"] * 2 + ["image", "hexdump"] + ["elf"] * (9 if elf else 0))
    fmt = rng.choice(fmts)
    row = rng.choice([None, None, None, 1, 7, 16, 32, 300]) if fmt != "shf" else None
    how = rng.choice([None] * 5 + [["cut", rng.getrandbits(16)], ["flip", rng.getrandbits(16)], ["garbage", 5]])
    if k == "dumps":
        return [k, fmt, gen_spec(rng, fmt if fmt == "bin" or rng.random() < 0.9 else None), row, rng.random() < 0.8]
    if k == "save":
        return [k, fmt, gen_spec(rng, fmt if fmt == "bin" or rng.random() < 0.9 else None), row]
    if k == "loads":
        return [k, fmt, gen_spec(rng, fmt), how, rng.choice(["bytes", "bytes", "str"]) if fmt != "bin" and not how else "bytes"]
    if k == "load":
        return [k, fmt, gen_spec(rng, fmt), how, rng.choice(["path", "path", "file"])]
    if k == "image":
        return [k, gen_spec(rng), rng.random() < 0.7]
    if k == "edit":
        return [k, [gen_edit(rng) for _ in range(rng.randint(2, 6))]]
    if k == "hexdump":
        return [k, gen_spec(rng)]
    desc = eb.gen(rng, False, False, True)
    ref = eb.build(desc)[1]
    from simkit import elfnode
    return [k, desc, [elfnode.gen_question(rng, ref) for _ in range(rng.randint(0, 3))], rng.random() < 0.5]


class Check(BaseCheck):
    id = "C15"
    shim = False
    rule = ("one run = 2-3 threads, each with its own images, files and ELF files, under one seeded interleaving at line or bytecode granularity, optionally interrupted at one line of one thread; "
            "distinct = (kinds of operations, switch positions, faults fired); non-trivial = at least one switch inside an operation")
    assumptions = ("threads share no object and no file", "switches happen at lines or bytecodes of objutils and at its locks, not inside the libraries it calls",
                   "decoding of debug information is not run by several threads at once")
    real = ("objutils, SQLAlchemy, SQLite, real threads, kernel tmpfs",)
    stub = ("which thread runs; locks made through threading are cooperative",)
    runs = {"quick": 400, "thorough": 8000}
    shrink_lists = ("faults", "schedule.switches")

    def setup(self):
        from simkit import threads
        threads.patch()
        from simkit import hexnode
        hexnode.warm()
        import sqlite3  # noqa: F401
        self.alone = {}

    def shrinks(self, case):
        import copy
        for i in range(len(case["threads"])):
            if len(case["threads"]) > 2:
                c = copy.deepcopy(case)
                del c["threads"][i]
                yield c
        yield from super().shrinks(case)
        for i, t in enumerate(case["threads"]):
            for k in range(len(t)):
                c = copy.deepcopy(case)
                del c["threads"][i][k]
                yield c

    def family(self, rng, i, tier):
        n = rng.choice([2, 2, 2, 3])
        elf = i % 5 == 0
        pool = [f for f in hm.FORMATS if f != "bin"] + ["bin"]
        same = rng.random() < 0.6
        fmts = [rng.choice(pool)] if same else pool
        threads = [[gen_op(rng, fmts, elf) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(n)]
        if not elf and rng.random() < 0.35:     # the same thing at the same time, with different data
            kind = rng.choice(["dumps", "save", "save", "loads", "load"])
            fmt = rng.choice(pool + ["srec", "ihex", "etek"])
            threads = [[gen_op(rng, [fmt], False, kind) for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
        opcodes = rng.random() < 0.3
        base = {"seed": rng.getrandbits(32), "threads": threads, "opcodes": opcodes, "faults": [], "schedule": {"switches": []}}
        res = yield base
        if res.violation:
            return
        nd = max(1, res.info["decisions"])
        cnt = res.info["counts"]
        for k in range((4 if elf else 8) if tier == "quick" else 20):
            r = rng.random()
            if r < 0.5:
                sch = {"switches": sorted([rng.randrange(nd), rng.randrange(n)] for _ in range(rng.choice([1, 2, 3, 4, 8])))}
            elif r < 0.9:
                sch = {"seed": rng.getrandbits(32), "p": rng.choice([0.01, 0.05, 0.2, 0.5])}
            else:     # lock step
                sch = {"seed": rng.getrandbits(32), "p": 1.0}
            if "p" in sch:
                sch["p"] = min(sch["p"], 3000 / nd)     # a switch costs far more than a step
            fs = []
            if rng.random() < 0.25:
                t = rng.randrange(n)
                fs.append({"thread": t, "at": rng.randrange(max(1, cnt[t])), "kind": rng.choice(["interrupt", "memory"])})
            yield dict(base, schedule=sch, faults=fs, opcodes=opcodes and not fs)

    def job(self, scripts, indices, schedule, faults, opcodes, where):
        from simkit.threads import Sched

        def job():
            import gc
            import logging
            logging.raiseExceptions = False
            actors = [Actor(i, where) for i in indices]
            datas = [[a.prepare(n, op) for n, op in enumerate(s)] for a, s in zip(actors, scripts)]
            gc.disable()
            s = Sched(schedule, faults, opcodes=opcodes, max_steps=3000000)
            results = s.run([lambda a=a, sc=sc, d=d: a.run(sc, d) for a, sc, d in zip(actors, scripts, datas)])
            return {"out": [a.out for a in actors], "results": results, "counts": s.count, "decisions": s.decisions, "switches": s.switches, "trail": s.trail[:40],
                    "fired": s.fired, "real": s.real_blocks, "steps": s.steps}
        return forked(job, cpu_s=60)

    def expected(self, i, script):
        """What the thread's operations yield when it runs alone."""
        key = (i, json.dumps(script))
        if key not in self.alone:
            if len(self.alone) > 60:
                self.alone.clear()
            st, val = self.job([script], [i], None, (), False, scratch())
            if st != "ok" or val["results"][0][0] != "ok":
                self.alone[key] = (st, val and val.get("results") if isinstance(val, dict) else val)
            else:
                self.alone[key] = ("ok", val["out"][0])
        return self.alone[key]

    def execute(self, case):
        want = [self.expected(i, t) for i, t in enumerate(case["threads"])]
        bad = [w for w in want if w[0] != "ok"]
        if bad:       # not a matter of threads: another property's business
            return Res(None, {"decisions": 0, "counts": [0] * len(case["threads"])}, sig=None, nontrivial=False, digest="alone-" + str(bad[0][0]), probes=["alone-" + str(bad[0][0])])
        st, val = self.job(case["threads"], range(len(case["threads"])), case["schedule"], case["faults"], case["opcodes"], scratch())
        if st != "ok":
            v = viol("hang" if st in ("cpu", "stuck") else "ended", f"run ended with {st}: {val}"[:500])
            return Res(v, {"decisions": 0, "counts": [0] * len(case["threads"])}, digest=core.digest((st,)))
        v = None
        faulted = {f["thread"] for f in case["faults"]} if val["fired"] else set()
        for i, (s2, x) in enumerate(val["results"]):
            if s2 == "deadlock":
                v = viol("deadlock", f"thread {i} waits for a lock nobody can release")
            elif s2 == "steps":
                v = viol("hang", f"thread {i} does not end")
            elif s2 == "exc" and i not in faulted:
                v = viol("ended", f"thread {i}: {x}")
        if v is None:
            for i, out in enumerate(val["out"]):
                if i in faulted:
                    continue
                exp = want[i][1]
                for k, (a, b) in enumerate(zip(out, exp)):
                    if a != b:
                        op = case["threads"][i][k]
                        v = viol(f"differs-{op[0]}", f"thread {i}, {op[:2] if op[0] != 'elf' else 'elf'}: {a} instead of {b}; switched at {[t[1:3] for t in val['trail']][-3:]}"[:600])
                        break
                if v:
                    break
        fired = dict(val["fired"])
        if val["switches"]:
            fired["switch"] = len(val["switches"])
        kinds = [[(op[0], op[1] if isinstance(op[1], str) else "") for op in t] for t in case["threads"]]
        return Res(v, {"switches": val["switches"], "decisions": val["decisions"], "counts": val["counts"]}, sig=(kinds, val["switches"][:200], len(val["switches"]), sorted(val["fired"])),
                   nontrivial=bool(val["switches"]), fired=fired, steps=val["steps"], digest=core.digest((val["out"], val["switches"], val["results"])),
                   probes=["real-block"] if val["real"] else [])

    def brief(self, case):
        c = json.loads(json.dumps(case))
        c["threads"] = [[json.dumps(op)[:200] for op in t] for t in c["threads"]]
        c["schedule"] = json.dumps(c["schedule"])[:300]
        return c
