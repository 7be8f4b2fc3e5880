"""C06: repeated use does not pile up descriptors, handlers or files."""
import gc
import io
import os

from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.fsworld import World, mark
from simkit.scratch import scratch

ERRS = ["EIO", "ENOSPC", "EACCES", "EMFILE"]
BLOCKS = 5


class Check(BaseCheck):
    id = "C06"
    rule = ("one run = one process repeating a block of loads, saves, ELF opens and queries (succeeding, refused, of damaged or missing files, and failing at injected operations) five "
            "times; descriptors, log handlers and files counted after every block; distinct = (kinds of operations and outcomes in the block, faults as fired); "
            "non-trivial = an operation of the block failed")
    assumptions = ("results are dropped and collected before counting", "a file whose removal the storage refuses may stay")
    real = ("objutils, logging, CPython io and mmap, SQLAlchemy, SQLite, kernel descriptors",)
    stub = ("file-system calls that fail; log handlers' output is counted, not printed",)
    runs = {"quick": 200, "thorough": 5000}
    shrink_lists = ("faults", "block")

    def setup(self):
        from simkit import elfnode
        elfnode.warm()

    def family(self, rng, i, tier):
        from simkit import elfbuild as eb, elfnode as en
        from simkit.hexmodel import FORMATS, gen_image, gen_row
        from simkit.hexnode import DESTS, SOURCES
        desc = eb.gen(rng, small=True)
        _, ref = eb.build(desc)
        block = []
        fmts = list(FORMATS)
        first = fmts[i % len(fmts)]
        for n in range(rng.randint(3, 9)):
            fmt = first if n < 2 else rng.choice(fmts)
            k = rng.choice(["save", "save", "load", "load", "load-bad", "load-bad", "load-bad", "load-missing", "save-bad", "save-nodir", "elf", "elf", "elf-change", "elf-bad", "elf-missing", "elf-nodb",
                            "reader", "registry", "dump-again"])
            if k == "save":
                block.append([k, fmt, rng.choice(DESTS), gen_image(rng, fmt, small=True), gen_row(rng, fmt)])
            elif k in ("load", "reader"):
                block.append([k, fmt, rng.choice([s for s in SOURCES if s not in ("str", "chunky")]), gen_image(rng, fmt, small=True)])
            elif k == "load-bad":
                # checksum wrong, cut, not this format at all
                block.append([k, fmt, rng.choice(["path", "path", "buffered", "unbuffered", "bytes"]), gen_image(rng, fmt, small=True), rng.choice(["flip", "cut", "text", "binary", "empty"]), rng.randrange(1000)])
            elif k == "elf":
                block.append([k, [en.gen_question(rng, ref) for _ in range(2)]])
            elif k in ("load-missing", "save-bad", "save-nodir", "dump-again"):
                block.append([k, fmt])
            elif k == "elf-bad":
                block.append([k, rng.choice(["cut", "magic", "empty", "class", "strtab"]), rng.random()])
            else:
                block.append([k])
        base = {"seed": rng.getrandbits(48), "desc": desc, "block": block, "faults": []}
        res = yield base
        if res.violation:
            return
        ops = res.info["ops"]
        cand = [k for k, o in enumerate(ops) if o[0] != "unlink"]
        if not cand:
            return
        for _ in range(6 if tier == "quick" else 14):
            fs = [{"act": "err", "at": k, "errno": rng.choice(ERRS)} for k in rng.sample(cand, min(len(cand), rng.choice([1, 1, 2, 4])))]
            yield dict(base, seed=rng.getrandbits(48), faults=fs)

    def execute(self, case):
        from simkit import elfbuild as eb, elfnode as en
        data, ref = eb.build(case["desc"])
        w = World(scratch(), case["seed"], case["faults"], armed=False)

        def node():
            import logging

            import objutils
            from simkit.hexnode import Memory, load, make_image, save
            emits = []
            orig = logging.StreamHandler.emit

            def emit(self, record):
                emits.append((id(self), record.name, record.getMessage()))
            logging.StreamHandler.emit = emit
            logging.lastResort = None

            def encode(fmt, spec):
                return bytes(objutils.dumps(fmt, make_image(spec)))

            def broken(fmt, spec, how, at):
                raw = encode(fmt, spec)
                if how == "flip":
                    b = bytearray(raw)
                    p = min(len(b) - 1, 2 + at % max(1, len(b) - 4))
                    b[p] = b[p] ^ 1
                    return bytes(b)
                if how == "cut":
                    return raw[:1 + at % max(1, len(raw) - 1)]
                if how == "text":
                    return b"this is a shopping list\n- milk\n- \xff eggs\n"
                if how == "empty":
                    return b""
                return bytes(range(256))
            prepared = []
            for n, op in enumerate(case["block"]):
                if op[0] in ("load", "reader"):
                    raw = encode(op[1], op[3])
                elif op[0] == "load-bad":
                    raw = broken(op[1], op[3], op[4], op[5])
                elif op[0] == "elf-bad":
                    raw = {"cut": data[:int(len(data) * op[2])], "magic": b"\x7fELG" + data[4:], "empty": b"", "class": data[:5] + b"\7" + data[6:],
                           "strtab": data[:62] + b"\xee\xee" + data[64:] if data[4] == 2 else data[:50] + b"\xee\xee" + data[52:]}[op[1]]
                else:
                    raw = None
                if raw is not None:
                    with open(f"in{n}.bin", "wb") as f:
                        f.write(raw)
                prepared.append(raw)
            with open("p.elf", "wb") as f:
                f.write(data)
            img = make_image([[0x100, 5, 1]])

            def fds():
                return len(os.listdir("/proc/self/fd"))

            def handlers():
                names = [None] + sorted(logging.root.manager.loggerDict)
                return sum(len(logging.getLogger(n).handlers) for n in names)

            def one(n, op, rnd):
                k = op[0]
                if k == "save":
                    save(op[1], make_image(op[3]), op[2], f"out{n}.dat", op[4])
                elif k == "load":
                    load(op[1], op[2], f"in{n}.bin", prepared[n] if op[2] in ("memory", "bytes", "bytearray") else None)
                elif k == "reader":
                    cls = objutils.registry.get(op[1])
                    rd = cls.Reader()
                    load(op[1], op[2], f"in{n}.bin", prepared[n] if op[2] in ("memory", "bytes", "bytearray") else None, reader=rd)
                    cls.Writer()
                elif k == "load-bad":
                    load(op[1], op[2], f"in{n}.bin", prepared[n] if op[2] == "bytes" else None)
                elif k == "load-missing":
                    objutils.load(op[1], "missing.dat")
                elif k == "save-bad":
                    objutils.dump(op[1], f"out{n}.dat", make_image([[0x1FFFFFFF0, 4, 1]]), row_length=0)
                elif k == "save-nodir":
                    objutils.dump(op[1], "nodir/x.dat", img)
                elif k == "dump-again":
                    objutils.dump(op[1], "same.dat", img)
                    objutils.dump(op[1], Memory(), img)
                elif k == "elf":
                    ep = en.open_elf("p.elf")
                    for q in op[1]:
                        en.ask(ep, q)
                elif k == "elf-change":
                    d = data + bytes([rnd & 1])
                    with open("q.elf", "wb") as f:
                        f.write(d)
                    en.open_elf("q.elf")
                elif k == "elf-bad":
                    en.open_elf(f"in{n}.bin")
                elif k == "elf-missing":
                    en.open_elf("missing.elf")
                elif k == "elf-nodb":
                    if os.path.exists("p.prgdb"):
                        os.unlink("p.prgdb")
                    en.open_elf("p.elf")
                elif k == "registry":
                    from objutils.registry import Registry
                    list(Registry().formats if hasattr(Registry(), "formats") else [])
            rows, said, held, outcome = [], [], [], []
            for rnd in range(BLOCKS):
                mark("arm")
                lines = []
                for n, op in enumerate(case["block"]):
                    e0 = len(emits)
                    f0 = fds()
                    try:
                        one(n, op, rnd)
                        res = "ok"
                    except Exception as e:  # noqa: BLE001
                        res = type(e).__name__
                        if op[0] in ("load", "load-bad", "load-missing", "dump-again", "save-bad", "save-nodir") and (len(op) < 3 or op[2] == "path"):
                            # the exception is still held: are the descriptors closed all the same?
                            grown = fds() - f0
                            if grown > 0:
                                held.append((rnd, op[:3], res, grown))
                        del e
                    new = emits[e0:]
                    perrec = {}
                    for h, nm, m in new:
                        perrec.setdefault((nm, m), []).append(h)
                    twice = max([len(set(hs)) for hs in perrec.values()] or [0])
                    lines.append((n, op[0], res, len(new), twice))
                    gc.collect()
                if rnd == 0:
                    outcome = [x[1:3] for x in lines]
                said.append(lines)
                gc.collect()
                rows.append((fds(), handlers(), len(os.listdir("."))))
            logging.StreamHandler.emit = orig
            return rows, said, held, outcome
        try:
            r = w.run(node)
        finally:
            w.cleanup()
        v = None
        info = {}
        outcome = []
        if r.status != "ok":
            v = viol("ended", f"process ended: {r}"[:400])
        else:
            rows, said, held, outcome = r.value
            info["ops"] = [list(o) for o in r.ops]
            for k, what in ((0, "descriptors"), (1, "handlers"), (2, "files")):
                col = [x[k] for x in rows]
                if what == "files" and any(x in f for f in w.fired for x in ("@unlink", "@stat", "@access")):      # cleaning up itself failed
                    continue
                if col[-1] > max(col[1:3]):      # (files may come and go within the block)
                    v = viol(what, f"{ {'descriptors': 'open descriptors', 'handlers': 'log handlers', 'files': 'files in the directory'}[what]} after each repetition of the block: {col}")
                    break
            if v is None and held:
                v = viol("held-open", f"descriptors left open by a failed call: {held[:3]}")
            if v is None:
                for rnd in range(1, BLOCKS):
                    for a, b in zip(said[0], said[rnd]):
                        if b[4] > 1:
                            v = viol("repeated-report", f"{case['block'][b[0]][:3]}: one message handled by {b[4]} handlers in repetition {rnd}")
                        elif b[2] == a[2] and b[3] > a[3] and not w.fired:
                            v = viol("repeated-report", f"{case['block'][b[0]][:3]}: {a[3]} log lines at first, {b[3]} in repetition {rnd}")
                    if v:
                        break
        return Res(v, info, sig=(outcome, [(o[0], o[1] if len(o) > 1 and isinstance(o[1], str) else "") for o in case["block"]], sorted(w.fired)), nontrivial=any(x[1] != "ok" for x in outcome), fired=dict(w.fired), simns=w.mono,
                   steps=w.steps, digest=core.digest((w.log, r.status, outcome)), probes=sorted({f"{a}-{'ok' if b == 'ok' else 'failed'}" for a, b in outcome}))


_ = io
