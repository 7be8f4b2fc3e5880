"""C17: decoding values from binary streams is exact or raises."""
import struct

from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.fsworld import World, mark
from simkit.scratch import scratch

FIXED = {"u8": "B", "u16": "H", "u32": "I", "u64": "Q", "s8": "b", "s16": "h", "s32": "i", "s64": "q"}
SOURCES = ["memory", "buffered", "unbuffered", "rawstream", "bufstream", "mmap"]
DATA_ERR = ["EIO", "ESTALE", "ENXIO", "ENOMEM"]


def uleb(v, pad=0):
    out = []
    while True:
        b = v & 0x7F
        v >>= 7
        if v or pad:
            out.append(b | 0x80)
            if not v:
                out += [0x80] * (pad - 1) + [0]
                return bytes(out)
        else:
            out.append(b)
            return bytes(out)


def sleb(v, pad=0):
    out = []
    while True:
        b = v & 0x7F
        v >>= 7
        if (v == 0 and not b & 0x40) or (v == -1 and b & 0x40):
            if pad:
                fill = 0x7F if v else 0
                return bytes(out + [b | 0x80] + [fill | 0x80] * (pad - 1) + [fill])
            return bytes(out + [b])
        out.append(b | 0x80)


def encode(op, bo):
    """Reference encoder: (bytes, value as the reader reports it)."""
    k = op[0]
    le = "<" if bo in "<@=" else ">"
    if k in FIXED:
        raw = bytes.fromhex(op[1])
        return raw, int.from_bytes(raw, "little" if le == "<" else "big", signed=k[0] == "s")
    if k == "uleb":
        return uleb(op[1], op[2]), op[1]
    if k == "sleb":
        return sleb(op[1], op[2]), op[1]
    if k == "asciiz":
        return op[1].encode("latin1") + b"\0", op[1]
    if k == "cstr":
        return op[1].encode("utf8") + b"\0", op[1]
    if k == "block":
        data = bytes.fromhex(op[2])
        pre = uleb(len(data)) if op[1] == "uleb" else struct.pack({"1": "<B", "2l": "<H", "2b": ">H", "4l": "<L", "4b": ">L"}[op[1]], len(data))
        return pre + data, data.hex()
    if k == "addr":
        raw = bytes.fromhex(op[2])
        return raw, int.from_bytes(raw, "little" if op[3] == 0 else "big")
    if k == "strp":
        return struct.pack("<I" if op[2] == 0 else ">I", op[1]), None
    raise AssertionError(k)


class Check(BaseCheck):
    id = "C17"
    rule = ("one run = one sequence of reads of mixed encodings from one kind of stream, under one fault plan (short reads, failing reads, data ending anywhere); "
            "distinct = (encodings in order, stream, byte order, cut, fault fired); non-trivial = data ended early, a read was short, or a fault fired")
    assumptions = ("streams report their position and can be repositioned",)
    real = ("objutils.readers.PlainBinaryReader, objutils.dwarf.encoding; construct; CPython io, mmap; kernel tmpfs",)
    stub = ("sizes and failures of reads come from the simulator; one kind of stream is a test double of io.RawIOBase",)
    runs = {"quick": 3500, "thorough": 60000}
    shrink_lists = ("faults", "plan", "ops")

    def setup(self):
        from simkit import hexnode
        import objutils.dwarf.encoding  # noqa: F401
        import objutils.readers  # noqa: F401
        hexnode.warm()

    def _op(self, rng, api):
        r = rng.random()
        if api == "plain":
            if r < 0.5:
                k = rng.choice(list(FIXED))
                n = struct.calcsize(FIXED[k]) if k not in ("u64", "s64") else 8
                raw = rng.choice([rng.randbytes(n), b"\xff" * n, b"\x80" + b"\0" * (n - 1), b"\0" * (n - 1) + b"\x80", b"\x7f" * n])
                return [k, raw.hex()]
            if r < 0.65:
                return ["uleb", rng.choice([0, 1, 63, 64, 127, 128, 129, 300, 2**31, 2**32 - 1, 2**63, 2**64 - 1, rng.getrandbits(rng.randint(1, 70))]), rng.choice([0, 0, 0, 1, 3, 12])]
            if r < 0.8:
                v = rng.choice([0, 1, 2, 63, 64, 127, 128, 8191, 8192, 2**27, 2**31, 2**34, 2**62, 2**63, rng.getrandbits(rng.randint(1, 70))])
                return ["sleb", rng.choice([v, -v]), rng.choice([0, 0, 0, 1, 3, 12])]
            return ["asciiz", "".join(chr(rng.choice([65, 97, 48, 32, 0xE9, 0xFF, 1])) for _ in range(rng.choice([0, 1, 5, 40] + ([15, 16, 17, 31, 256, 700, 5000] if rng.random() < 0.3 else []))))]
        if r < 0.3:
            return ["uleb", rng.getrandbits(rng.randint(1, 70)), rng.choice([0, 0, 2])]
        if r < 0.5:
            v = rng.getrandbits(rng.randint(1, 66))
            return ["sleb", rng.choice([v, -v]), rng.choice([0, 0, 2])]
        if r < 0.75:
            k = rng.choice(["uleb", "1", "2l", "2b", "4l", "4b"])
            n = rng.choice([0, 1, 5, 127, 128, 200, 255])
            if k != "1" and rng.random() < 0.12:
                n = rng.choice([256, 700, 16383, 16384, 32767, 32768, 40000, 65535] + ([65536, 70000] if k[0] != "2" else []))
            return ["block", k, rng.randbytes(n).hex()]
        if r < 0.9:
            n = rng.choice([1, 2, 4, 8])
            return ["addr", n, rng.randbytes(n).hex(), rng.randrange(2)]
        return ["strp", rng.choice([0, 3, 4, 9, 10, 11, 12, 20, 500, 5000, 5012, 70000]), rng.randrange(2)]

    def family(self, rng, i, tier):
        api = "plain" if rng.random() < 0.6 else "dwarf"
        ops = [self._op(rng, api) for _ in range(rng.choice([1, 3, 6, 10]))]
        case = {"seed": rng.getrandbits(48), "api": api, "bo": rng.choice("<>@<>"), "ops": ops, "source": rng.choice(SOURCES), "plan": [], "faults": [], "cut": None,
                "lead": rng.choice([0, 0, 3, 4096, 8190]) if rng.random() < 0.3 else 0, "retry": rng.random() < 0.7}
        res = yield case
        if res.violation:
            return
        total = res.info.get("size", 1)
        for _ in range(3):
            yield dict(case, cut=rng.randrange(total + 1))
        src = case["source"]
        if src in ("rawstream", "bufstream"):
            for _ in range(4):
                yield dict(case, plan=[rng.choice([1, 2, 3, 7, "EIO", 0, -1] if src == "rawstream" else [1, 2, 3, 7, "EIO"]) for _ in range(rng.randint(1, 8))],
                           cut=rng.choice([None, rng.randrange(total + 1)]))
        elif src in ("buffered", "unbuffered"):
            nops = res.info.get("nops", 0)
            for _ in range(4):
                fs = []
                if rng.random() < 0.5:
                    fs.append({"act": "chop", "kinds": ["read"], "max": rng.choice([1, 2, 3]) * (1 + total // 2000)})
                if nops and (rng.random() < 0.6 or not fs):
                    fs.append({"act": "err", "at": rng.randrange(nops), "errno": rng.choice(DATA_ERR), "sticky": rng.choice([None, "kind"])})
                yield dict(case, faults=fs, cut=rng.choice([None, None, rng.randrange(total + 1)]))

    def execute(self, case):
        w = World(scratch(), case["seed"], case["faults"], armed=False)
        bo = case["bo"]
        enc = [encode(o, bo) for o in case["ops"]]
        strings = b"abc\0de\xc3\xa9\0\0" + b"x" * 5000 + b"\0tail"        # last string is not terminated
        data = b"\x99" * case["lead"] + b"".join(e[0] for e in enc)
        full = len(data) - case["lead"]
        if case["cut"] is not None:
            data = data[:case["lead"] + case["cut"]]
        w.put("in.dat", data)

        def node():
            import io
            import mmap
            from objutils.dwarf import encoding as E
            from objutils.readers import PlainBinaryReader
            from simkit.hexnode import Chunky
            src = case["source"]
            shorts = []

            class Raw(Chunky):
                """Delivers what the plan says; afterwards everything that was asked for."""

                def readinto(self, b):
                    if self.i >= len(self.plan0):
                        n = len(b)
                    else:
                        n = self.plan0[self.i]
                        if n != "EIO" and (n < len(b)):
                            shorts.append(n)
                    self.i += 1
                    if n == "EIO":
                        shorts.append(n)
                        raise OSError(5, "Input/output error")
                    if n == -1:
                        return None
                    n = min(len(b), n, max(0, len(self.data) - self.pos))
                    b[:n] = self.data[self.pos:self.pos + n]
                    self.pos += n
                    return n

                def seekable(self):
                    return True

                def seek(self, off, whence=0):
                    self.pos = off + (0, self.pos, len(self.data))[whence]
                    return self.pos

                def tell(self):
                    return self.pos
            if src == "memory":
                fp = io.BytesIO(data)
            elif src == "buffered":
                fp = open("in.dat", "rb")
            elif src == "unbuffered":
                fp = open("in.dat", "rb", buffering=0)
            elif src == "mmap":
                if not data:
                    fp = io.BytesIO(data)
                else:
                    with open("in.dat", "rb") as f:
                        fp = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
            else:
                raw = Raw(data, [1])
                raw.plan0 = case["plan"]
                fp = raw if src == "rawstream" else io.BufferedReader(raw, 16)
            rd = PlainBinaryReader(fp, bo) if case["api"] == "plain" else None
            if rd is not None and (rd.size != len(data) or rd.pos != 0):
                return "size", f"size {rd.size}, position {rd.pos} of a stream of {len(data)} bytes", [], 0
            mark("arm")
            fp.seek(case["lead"])
            pos = case["lead"]
            out = []
            for (raw_, want), op in zip(enc, case["ops"]):
                k = op[0]
                for attempt in range(2 if case["retry"] else 1):
                    before = len(shorts)
                    mark("op")
                    err = got = None
                    try:
                        if rd is not None:
                            got = getattr(rd, k)()
                        elif k == "uleb":
                            got = E.ULEB.parse_stream(fp)
                        elif k == "sleb":
                            got = E.SLEB.parse_stream(fp)
                        elif k == "block":
                            got = bytes({"uleb": E.BlockUleb, "1": E.Block1, "2l": E.Block2l, "2b": E.Block2b, "4l": E.Block4l, "4b": E.Block4b}[op[1]].parse_stream(fp)).hex()
                        elif k == "addr":
                            got = E.Address(op[1], E.Endianess(op[3])).parse_stream(fp)
                        elif k == "strp":
                            got = E.StrP(strings, E.Endianess(op[2])).parse_stream(fp)
                    except Exception as e:  # noqa: BLE001
                        err = f"{type(e).__name__}: {e}"[:100]
                    complete = pos + len(raw_) <= len(data)
                    exp, must_raise = want, not complete
                    if k == "strp" and complete:
                        end = strings.find(b"\0", op[1])
                        if end < 0:
                            must_raise = True
                        else:
                            exp = strings[op[1]:end].decode("utf8", "replace")
                            if op[1] > len(strings):
                                must_raise = True
                    faulted = len(shorts) > before
                    end_pos = None
                    if err is None:
                        try:
                            end_pos = fp.tell()
                        except OSError:
                            end_pos = None
                    out.append((k, err is None, faulted, must_raise))
                    if err is None and must_raise:
                        return "incomplete", f"{op} at {pos} of {len(data)} bytes: {len(raw_)} bytes needed, but returned {got!r:.80}", out, 1
                    if err is None and (got != exp or type(got) is not type(exp)):
                        return "value", f"{op} returned {got!r:.80} instead of {exp!r:.80}", out, 1
                    if err is None and end_pos is not None and end_pos != pos + len(raw_):
                        return "position", f"{op} at {pos} ended at {end_pos} instead of {pos + len(raw_)}", out, 1
                    if err is not None and not must_raise and not faulted:
                        out[-1] = out[-1] + (f"{op} at {pos} raised {err}",)     # allowed only if the storage failed
                    if err is None:
                        break
                    for _ in range(3):
                        try:
                            fp.seek(pos)
                            break
                        except (OSError, ValueError):
                            pass
                    else:
                        return None, None, out, 0
                else:
                    pos2 = pos + len(raw_)
                    try:
                        if rd is not None:
                            rd.pos = pos2
                        else:
                            fp.seek(pos2)
                    except (OSError, ValueError):
                        return None, None, out, 0
                pos += len(raw_)
            mark("heal")
            if rd is not None and case["api"] == "plain":
                rd.reset()
                if rd.pos != 0:
                    return "position", "reset() did not return to the start", out, 1
            for v in (o[1] for o in case["ops"] if o[0] == "uleb"):
                if E.ULEB.build(v) != uleb(v):
                    return "build", f"ULEB.build({v}) = {E.ULEB.build(v)!r}", out, 1
            for v in (o[1] for o in case["ops"] if o[0] == "sleb"):
                if E.SLEB.build(v) != sleb(v):
                    return "build", f"SLEB.build({v}) = {E.SLEB.build(v)!r}", out, 1
            return None, None, out, 1
        try:
            r = w.run(node)
        finally:
            w.cleanup()
        fired = dict(w.fired)
        v = None
        out = []
        if r.status == "ok":
            cls, msg, out, _ = r.value
            if cls:
                v = viol(cls, f"{msg} [{case['source']}, byte order {bo}]")
            for o in out:
                if len(o) > 4 and not fired:
                    v = v or viol("raised", f"{o[4]} although the data is complete and no read failed [{case['source']}]")
        elif r.status == "exc":
            if not fired:
                v = viol("harness", f"{r.exc}")
        else:
            v = viol("ended", f"process ended with {r.status} while reading {[o[0] for o in case['ops']]}")
        if case["cut"] is not None and case["cut"] < full:
            fired["data-ends-early"] = 1
        if any(o[2] for o in out):
            fired["stream-short-or-error"] = sum(1 for o in out if o[2])
        return Res(v, {"size": full, "nops": len(r.ops)}, sig=([o[:4] for o in out], case["source"], case["bo"], case["cut"], sorted(fired)), nontrivial=bool(fired),
                   fired=fired, simns=w.mono, steps=w.steps, digest=core.digest((w.log, r.status, r.value)))
