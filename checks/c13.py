"""C13: an image is a memory; edits apply fully or not at all (reference model: address -> byte)."""
import re
import struct

from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.isolate import forked
from simkit.lineint import SimInterrupt, LineInjector

SIZES = {"int8": 1, "uint8": 1, "int16": 2, "uint16": 2, "int32": 4, "uint32": 4, "int64": 8, "uint64": 8, "float32": 4, "float64": 8}
CODES = {"int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I", "int64": "q", "uint64": "Q", "float32": "f", "float64": "d"}
KINDS = ["bytes", "bytearray", "memoryview", "list", "tuple", "arrayB", "arrayH", "section", "generator", "nparray", "nparray16"]
ENCODINGS = ["latin1", "ascii", "utf8", "cp1252"]
BASES = [0, 0x10, 0x100, 0xFFF0, 0xFFFFFFF0, 0x7FFFFFFFFFFFFFF0]


def parse(dtype):
    d = dtype.lower().strip()
    if d == "byte":
        return "uint8", "<"
    t, bo = d.split("_")
    return t, "<" if bo == "le" else ">"


class Refuse(Exception):
    """The operation has to be refused."""


class Boom(Exception):
    pass


class Failing:
    """A sequence whose iteration fails (or does not agree with its length)."""

    def __init__(self, items, at, lie=0):
        self.items, self.at, self.lie = items, at, lie

    def __len__(self):
        return len(self.items) + self.lie

    def __iter__(self):
        for i, x in enumerate(self.items):
            if i == self.at:
                raise Boom("iteration failed")
            yield x


class Model:
    """Bytes by address, and the extents an operation may not cross."""

    def __init__(self):
        self.ext = []      # sorted [start, bytearray]

    def copy(self):
        m = Model()
        m.ext = [[a, bytearray(d)] for a, d in self.ext]
        return m

    def key(self):
        """Memory content, regardless of where sections begin and end."""
        out = []
        for a, d in self.ext:
            if not d:
                continue
            if out and out[-1][0] + len(out[-1][1]) == a:
                out[-1][1] += d
            else:
                out.append([a, bytearray(d)])
        return [(a, bytes(d)) for a, d in out]

    def find(self, addr):
        for e in self.ext:
            if e[0] <= addr < e[0] + len(e[1]):
                return e
        raise Refuse("address")

    def span(self, addr, n):
        e = self.find(addr)
        o = addr - e[0]
        if o + n > len(e[1]):
            raise Refuse("range")
        return e[1], o

    def get(self, addr, n):
        d, o = self.span(addr, n)
        return bytes(d[o:o + n])

    def put(self, addr, data):
        d, o = self.span(addr, len(data))
        d[o:o + len(data)] = data

    def insert(self, addr, data, join):
        for a, d in self.ext:
            if a < addr + len(data) and addr < a + len(d):
                raise Refuse("overlap")
        self.ext.append([addr, bytearray(data)])
        self.ext.sort(key=lambda e: e[0])
        if join:
            self.join()

    def join(self):
        out = []
        for a, d in self.ext:
            if out and out[-1][0] + len(out[-1][1]) == a:
                out[-1][1] += d
            else:
                out.append([a, d])
        self.ext = out


def wrap(kind, raw):
    """The same bytes in one of the types a caller may use."""
    from array import array
    if kind == "bytes":
        return raw
    if kind == "bytearray":
        return bytearray(raw)
    if kind == "memoryview":
        return memoryview(raw)
    if kind == "list":
        return list(raw)
    if kind == "tuple":
        return tuple(raw)
    if kind == "arrayB":
        return array("B", raw)
    if kind == "arrayH":
        return array("H", raw) if len(raw) % 2 == 0 else array("B", raw)
    if kind == "section":
        from objutils import Section
        return Section(0x1234, raw)
    if kind == "generator":
        return (x for x in list(raw))
    import numpy as np
    if kind == "nparray16" and len(raw) % 2 == 0:
        return np.frombuffer(raw, dtype="<u2").copy()
    return np.frombuffer(raw, dtype="u1").copy()


class Check(BaseCheck):
    id = "C13"
    shim = False
    rule = ("one run = one history of edits and reads of an image, with interruptions or memory exhaustion at chosen source lines and with caller-supplied sequences that fail; "
            "distinct = (operations with outcome, interruption points); non-trivial = an operation was refused, interrupted or failed, or the history has five or more edits")
    assumptions = ("lengths are not negative, and inserted sections not empty", "images are built without overlapping sections", "write_numeric's bit_mask and writing in Fortran order are not exercised",
                   "an interruption arrives between two source lines of objutils or sortedcontainers")
    real = ("objutils.image, objutils.section; sortedcontainers; numpy",)
    stub = ("interruptions and memory exhaustion raised by the simulator at source lines",)
    runs = {"quick": 900, "thorough": 60000}
    shrink_lists = ("faults", "ops", "init")

    def setup(self):
        from simkit import hexnode
        import numpy  # noqa: F401
        hexnode.warm()

    # ---------------- generation ----------------
    def _dtype(self, rng):
        if rng.random() < 0.08:
            return "byte"
        t = rng.choice(list(SIZES)) + rng.choice(["_le", "_be"])
        return t.upper() if rng.random() < 0.1 else t

    def _value(self, rng, dtype, bad=False):
        t, _ = parse(dtype)
        if t.startswith("float"):
            return rng.choice([0.0, 1.5, -2.25, 3.0e10, 1e300 if bad and t == "float32" else 0.5])
        n = SIZES[t] * 8
        lo, hi = (0, 2**n - 1) if t[0] == "u" else (-(2 ** (n - 1)), 2 ** (n - 1) - 1)
        if bad:
            return rng.choice([hi + 1, lo - 1])
        return rng.choice([lo, hi, 0, rng.randint(lo, hi)])

    def _op(self, rng, exts, base, big=False):
        def raw(n):
            if rng.random() < 0.4:
                return bytes(rng.choices(b"abc xyz\xe9" if rng.random() < 0.7 else b"\x01\xff", k=n))      # no terminator inside
            return rng.randbytes(n)

        def addr():
            if exts and rng.random() < 0.9:
                a, n = rng.choice(exts)
                return rng.choice([a, a + n - 1, a + rng.randrange(max(1, n)), a + n - 4, a + n // 2, a + n, a - 1])
            return base + rng.randrange(0, 300)

        def fit(a, k):
            """A length that fits at a, mostly."""
            for s, n in exts:
                if s <= a < s + n:
                    room = s + n - a
                    return rng.choice([room, room + 1, room + rng.randint(1, 9), max(0, room - 1)] + [rng.randint(0, room)] * 8)
            return k
        r = rng.random()
        k = rng.randint(1, 12)
        most = 3000 if big else 12
        via = rng.random() < 0.25
        if r < 0.24:
            gap = rng.choice([0, 0, 0, 1, 7, -1, -3])
            if exts and rng.random() < 0.85:
                s, n = rng.choice(exts)
                a = rng.choice([s + n + gap, s - k - gap, s + n // 2, s - 2])
            else:
                a = base + rng.randrange(0, 400)
            a = max(0, a)
            ln = rng.choice([k, k, rng.randint(1, 60), 3, rng.randint(60, 200)] + ([rng.randint(200, 5000), 4096, 70000] if big else []))
            if rng.random() < 0.85:
                exts.append((a, ln))
            return ["insert", None if rng.random() < 0.12 else a, raw(ln).hex(), rng.choice(KINDS), rng.random() < 0.75]
        a = max(0, addr())
        if r < 0.40:
            n = fit(a, k)
            return ["write", a, raw(n).hex(), rng.choice(KINDS), via]
        if r < 0.46:
            n = fit(a, k)
            return ["writebad", a, n, rng.choice(["value256", "negative", "text", "int", "failing", "none"]), rng.randrange(max(1, n)), rng.choice(["write", "insert"])]
        if r < 0.52:
            return ["read", a, fit(a, k), via]
        d = self._dtype(rng)
        if r < 0.62:
            return ["wnum", a, self._value(rng, d, rng.random() < 0.12), d, via]
        if r < 0.68:
            return ["rnum", a, d, rng.choice([None, None, 0xF0F0, 0x80]) if not d.lower().startswith(("float", "byte", "int")) else None, via]
        if r < 0.79:
            cnt = max(0, min(most, fit(a, k) // SIZES[parse(d)[0]]))
            vals = [self._value(rng, d) for _ in range(cnt + rng.choice([0, 0, 0, 1]))]
            if vals and rng.random() < 0.2:
                vals[rng.randrange(len(vals))] = self._value(rng, d, True)
            return ["warr", a, vals, d, rng.choice(["list", "list", "tuple", "failing", "longer", "shorter"]) if vals else "list", rng.randrange(max(1, len(vals))), via]
        if r < 0.84:
            return ["rarr", a, max(0, fit(a, k) // SIZES[parse(d)[0]]), d, via]
        if r < 0.90:
            n = max(0, fit(a, k) - 1)
            txt = "".join(rng.choice("abcXYZ 09" if rng.random() < 0.9 else "é\u20acß") for _ in range(min(n, 6000 if big else 40)))
            return ["wstr", a, txt, rng.choice(ENCODINGS), via]
        if r < 0.94:
            return ["rstr", a, rng.choice([-1, -1, fit(a, k)]), rng.choice(ENCODINGS), via]
        t, bo = parse(d)
        cnt = max(1, min(most, fit(a, k) // SIZES[t]))
        shape = rng.choice([[cnt], [cnt // 2, 2] if cnt % 2 == 0 else [cnt], [1, cnt]])
        if r < 0.957:
            if rng.random() < 0.3:
                return ["eq", a, rng.choice(["same", "same", "byte", "missing", "moved", "more", "empty"]), rng.randrange(1 << 16)]
            return ["find", a, rng.choice([0, 1, 1, 2, 3]), rng.choice(["", "", "ff", "00", "6162"]), rng.choice(["find", "tobytes", "tolist"])]
        if r < 0.974:
            return ["wnd", a, [self._value(rng, d) for _ in range(cnt)], d, shape, rng.choice(["C", "F", "strided"]), via]
        if rng.random() < 0.4:
            cnt += rng.choice([0, 0, 1, 2, 5])      # often beyond the end
        return ["rnd", a, d, shape if rng.random() < 0.5 else [cnt], rng.choice(["", "", "flat", "F"]), via]

    def family(self, rng, i, tier):
        base = rng.choice(BASES)
        big = rng.random() < 0.12
        init, pos = [], base
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
            n = rng.choice([1, 4, 16, 40, rng.randint(1, 300)] + ([1200, 4100, 66000] if big else []))
            init.append([pos, (bytes(rng.choices(b"abcdef \xe9", k=n)) + bytes(rng.choice([0, 1, 5])) if rng.random() < 0.3 else rng.randbytes(n))[:n].hex()])
            pos += n + rng.choice([0, 0, 1, 5, 40])
        order = list(init)
        rng.shuffle(order)
        exts = [(a, len(d) // 2) for a, d in init]
        case = {"init": order, "join": rng.random() < 0.75, "via": rng.choice(["list", "tuple", "generator", "single", "loads", "list"]),
                "ops": [self._op(rng, exts, base, big) for _ in range(rng.choice([3, 6, 10, 20]))], "faults": []}
        res = yield case
        if res.violation:
            return
        lines = res.info.get("lines", [])
        cand = [(j, n) for j, n in enumerate(lines) if n and case["ops"][j][0] in ("insert", "write", "writebad", "wnum", "warr", "wstr", "wnd")]
        for _ in range(10 if tier == "quick" else 40):
            if not cand:
                break
            fs = []
            for j, n in rng.sample(cand, min(len(cand), rng.choice([1, 1, 1, 2, 3]))):
                fs.append({"op": j, "line": rng.randrange(n), "kind": rng.choice(["interrupt", "interrupt", "memory"])})
            yield dict(case, faults=fs)
        for _ in range(4 if tier == "quick" else 10):       # long histories without interruptions
            e = list(exts)
            yield dict(case, plain=True, ops=[self._op(rng, e, base, big) for _ in range(30 if big else 60)])

    def shrink_values(self, case):
        for j, o in enumerate(case["ops"]):
            if o[0] == "insert" and len(o[2]) > 8:
                yield dict(case, ops=case["ops"][:j] + [[o[0], o[1], o[2][:8], o[3], o[4]]] + case["ops"][j + 1:])

    # ---------------- execution ----------------
    def execute(self, case):
        st, val = forked(lambda: self._run(case))
        if st != "ok":
            return Res(viol("ended" if st != "exc" else "harness", f"run ended with {st}: {val}"), digest=st)
        v, info, sig, nontriv, fired, steps = val
        return Res(v, info, sig=sig, nontrivial=nontriv, fired=fired, steps=steps, digest=core.digest(val))

    def _target(self, img, addr, via):
        return img.get_section(addr) if via else img

    def _apply(self, img, m, op, cursor):
        """(call on the real image, effect on the model, expected value, must this be refused?)"""
        import numpy as np
        kind = op[0]
        a = op[1]
        if kind == "insert":
            raw = bytes.fromhex(op[2])
            at = cursor if a is None else a
            kw = {} if op[4] else {"join": False}
            return lambda: img.insert_section(wrap(op[3], raw), *(() if a is None else (a,)), **kw), lambda: m.insert(at, raw, op[4]), None
        via = op[-1] if kind not in ("writebad", "find", "eq") else False
        if kind == "write":
            raw = bytes.fromhex(op[2])
            return lambda: self._target(img, a, via).write(a, wrap(op[3], raw)), lambda: m.put(a, raw), None
        if kind == "writebad":
            n, what, at, how = op[2], op[3], op[4], op[5]

            def data():
                items = [7] * max(1, n)
                if what == "value256":
                    items[at % len(items)] = 256
                elif what == "negative":
                    items[at % len(items)] = -1
                elif what == "text":
                    return "ab\u20ac"
                elif what == "int":
                    return 5
                elif what == "none":
                    return None
                elif what == "failing":
                    return Failing(items, at % len(items))
                return items

            def eff():
                raise Refuse("data")
            if how == "insert":
                free = max([e[0] + len(e[1]) for e in m.ext], default=0) + 64
                return lambda: img.insert_section(data(), free), eff, None
            return lambda: img.write(a, data()), eff, None
        if kind == "read":
            return lambda: bytes(self._target(img, a, via).read(a, op[2])), None, lambda: m.get(a, op[2])
        if kind == "eq":
            def compare():
                from objutils import Image, Section
                ext = [[x, bytearray(d)] for x, d in m.ext]
                k = op[3] % len(ext) if ext else None
                differ = op[2] != "same"
                if op[2] == "more" or (k is None and op[2] not in ("same", "empty")):
                    ext.append([max((x + len(d) for x, d in ext), default=5) + 3, bytearray(b"x")])
                elif op[2] == "byte":
                    ext[k][1][op[3] % len(ext[k][1])] ^= 1
                elif op[2] == "missing":
                    del ext[k]
                elif op[2] == "moved":
                    ext = [[x + 1, d] for x, d in ext]
                elif op[2] == "empty":
                    differ, ext = bool(ext), []
                other = Image([Section(x, d) for x, d in ext], join=False)
                return [(img == other) is not differ, (img != other) is differ, (other == img) is not differ]
            return compare, None, lambda: [True] * 3
        if kind == "find":
            if op[4] != "find":
                return lambda: bytes(getattr(img.get_section(a), op[4])()), None, lambda: bytes(m.find(a)[1])

            def pattern():
                d, o = m.span(a, 1)
                return bytes(d[o:o + op[2]]) + bytes.fromhex(op[3])

            def hits():
                s, d = m.find(a)
                out, pos, pat = [], 0, pattern()
                while pat:
                    pos = d.find(pat, pos)
                    if pos < 0:
                        break
                    out.append((s + pos, len(pat)))
                    pos += len(pat)
                return repr(out)

            def look():
                sec = img.get_section(a)
                pat = pattern()
                return repr(list(sec.find(re.escape(pat))) if pat else [])
            return look, None, hits
        if kind in ("wnum", "warr", "rnum", "rarr", "wnd", "rnd"):
            d = op[2] if kind in ("rnum", "rnd") else op[3]
            t, bo = parse(d)
            code, size = CODES[t], SIZES[t]
        if kind == "wnum":
            def eff():
                m.span(a, size)
                try:
                    raw = struct.pack(bo + code, op[2])
                except (struct.error, OverflowError):
                    raise Refuse("value") from None
                m.put(a, raw)
            return lambda: self._target(img, a, via).write_numeric(a, op[2], d), eff, None
        if kind == "rnum":
            mask = op[3]
            kw = {} if mask is None else {"bit_mask": mask}

            def exp():
                v = struct.unpack(bo + code, m.get(a, size))[0]
                return repr(v if mask is None else v & mask)
            return lambda: repr(self._target(img, a, via).read_numeric(a, d, **kw)), None, exp
        if kind == "warr":
            vals, how, at = op[2], op[4], op[5]

            def data():
                if how == "tuple":
                    return tuple(vals)
                if how == "failing":
                    return Failing(vals, at % len(vals))
                if how == "longer":
                    return Failing(vals, -1, -1)
                if how == "shorter":
                    return Failing(vals, -1, 1)
                return list(vals)

            def eff():
                m.span(a, size * len(vals))
                if how in ("failing", "longer", "shorter"):
                    raise Refuse("sequence")
                try:
                    raw = b"".join(struct.pack(bo + code, x) for x in vals)
                except (struct.error, OverflowError):
                    raise Refuse("value") from None
                m.put(a, raw)
            return lambda: self._target(img, a, via).write_numeric_array(a, data(), d), eff, None
        if kind == "rarr":
            n = op[2]
            return (lambda: repr(tuple(self._target(img, a, via).read_numeric_array(a, n, d))), None,
                    lambda: repr(tuple(struct.unpack(f"{bo}{n}{code}", m.get(a, n * size)))))
        if kind == "wstr":
            def eff():
                try:
                    raw = op[2].encode(op[3]) + b"\0"
                except UnicodeError:
                    raise Refuse("text") from None
                m.put(a, raw)
            return lambda: self._target(img, a, via).write_string(a, op[2], op[3]), eff, None
        if kind == "rstr":
            def exp():
                if op[2] == -1:
                    d, o = m.span(a, 1)
                    e = d.find(b"\0", o)
                    if e < 0:
                        raise Refuse("unterminated")
                    raw = bytes(d[o:e])
                else:
                    raw = m.get(a, op[2])
                try:
                    return raw.decode(op[3])
                except UnicodeError:
                    raise Refuse("text") from None
            kw = {} if op[2] == -1 else {"length": op[2]}
            return lambda: self._target(img, a, via).read_string(a, op[3], **kw), None, exp
        if kind == "wnd":
            arr = np.array(op[2], dtype=np.dtype(code).newbyteorder(bo)).reshape(op[4])
            raw = arr.tobytes()
            if op[5] == "F":
                arr = np.asfortranarray(arr)
            elif op[5] == "strided":
                big = np.zeros([2 * x for x in arr.shape], dtype=arr.dtype)
                big[tuple(slice(None, None, 2) for _ in arr.shape)] = arr
                arr = big[tuple(slice(None, None, 2) for _ in arr.shape)]
            return lambda: self._target(img, a, via).write_ndarray(a, arr), lambda: m.put(a, raw), None
        if kind == "rnd":
            n = size
            for x in op[3]:
                n *= x

            def exp():
                m.span(a, n)
                return repr(np.frombuffer(m.get(a, n), dtype=np.dtype(code).newbyteorder(bo)).reshape(op[3]).tolist())
            kw = {"flat": {}, "F": {"shape": tuple(op[3]), "order": "F"}}.get(op[4], {"shape": tuple(op[3])})

            def rd():
                arr = self._target(img, a, via).read_ndarray(a, n, d, **kw)
                if op[4] == "F":
                    arr = arr.T
                elif op[4] == "flat" and arr.size == n // size:     # else: not as long as asked for
                    arr = arr.reshape(op[3])
                return repr(arr.tolist())
            return rd, None, exp
        raise AssertionError(kind)

    def _build(self, case, m):
        import objutils
        from objutils import Image, Section
        pairs = [(a, bytes.fromhex(d)) for a, d in case["init"]]
        for a, d in sorted(pairs):
            m.ext.append([a, bytearray(d)])
        secs = [Section(a, d) for a, d in pairs]
        how = case["via"]
        join = case["join"]
        if how == "single" and len(secs) == 1:
            img = Image(secs[0], join=join)
        elif how == "tuple":
            img = Image(tuple(secs), join=join)
        elif how == "generator":
            img = Image((s for s in secs), join=join)
        elif how == "loads" and join and secs and max(a + len(d) for a, d in pairs) < 2**32:
            img = objutils.loads("srec", objutils.dumps("srec", Image(secs)))
        else:
            img = Image(secs, join=join)
        if join:
            m.join()
        return img

    @staticmethod
    def _state(img):
        return [(s.start_address, bytes(s.data)) for s in img.sections]

    def _run(self, case):
        m = Model()
        img = self._build(case, m)
        faults = {f["op"]: f for f in case["faults"]}
        lines, trail, fired, nontriv, steps = [], [], {}, False, 0
        cursors = [0]

        def bad(cls, msg):
            return viol(cls, msg), {"lines": lines}, ("v",), True, fired, steps
        if self._structure(img, m):
            return bad("initial", f"the image built from {[(hex(a), len(d) // 2) for a, d in case['init']]} has {[(hex(a), len(d)) for a, d in self._state(img)]}")
        for j, op in enumerate(case["ops"]):
            f = faults.get(j)
            before = m.copy()
            outcomes = []
            for cur in cursors:          # the automatic address may be old or new after an interruption
                trial = m.copy()
                call, eff, exp = self._apply(img, trial, op, cur)
                want, refuse = None, None
                try:
                    if eff:
                        eff()
                    if exp:
                        want = exp()
                except Refuse as e:
                    refuse = str(e)
                    trial = before.copy()
                outcomes.append((cur, trial, want, refuse))
            li = LineInjector(f["line"] if f else None, f["kind"] if f else "interrupt", extra=("sortedcontainers",))
            got = err = None
            try:
                if case.get("plain"):
                    got = call()
                else:
                    with li:
                        got = call()
            except (Exception, SimInterrupt) as e:  # noqa: BLE001
                err = e
            lines.append(li.count)
            steps += li.count
            actual = self._state(img)
            where = f"operation {j} {brief(op)}"
            if li.fired:
                fired[f["kind"]] = fired.get(f["kind"], 0) + 1
                nontriv = True
                keys = [before.key()] + [t.key() for _, t, _, r in outcomes]
                now = Model()
                now.ext = [[a, bytearray(d)] for a, d in actual]
                if now.key() not in keys:
                    return bad("torn", f"{where}, interrupted at {li.fired}, left the memory neither as before nor as after it: {diff(before, now)}")
                v = self._structure(img, None)
                if v:
                    return bad("structure", f"after {where}, interrupted at {li.fired}: {v}")
                m = now
                if op[0] == "insert":
                    at = op[1] if op[1] is not None else None
                    cursors = sorted(set(cursors + [(c if at is None else at) + len(op[2]) // 2 for c in cursors]))
                trail.append((op[0], "int", li.fired[1]))
                continue
            ok = None
            for cur, trial, want, refuse in outcomes:
                if refuse is not None:
                    if err is not None and actual == [(a, bytes(d)) for a, d in before.ext]:
                        ok = (cur, before, refuse)
                elif err is None and (exp is None or got == want) and not self._structure(img, trial):
                    ok = (cur, trial, None)
                if ok:
                    break
            if ok is None:
                cur, trial, want, refuse = outcomes[0]
                now = Model()
                now.ext = [[a, bytearray(d)] for a, d in actual]
                if refuse is not None and err is None:
                    return bad(f"accepted-{refuse}", f"{where} should have been refused ({refuse}); got {got!r:.80}; {diff(before, now)}")
                if refuse is not None:
                    return bad("failed-edit", f"{where} raised {err!r:.120} and changed the memory: {diff(before, now)}")
                if err is not None:
                    return bad("refused", f"{where} raised {err!r:.160}")
                if exp is not None and got != want:
                    return bad("read", f"{where} returned {got!r:.120} instead of {want!r:.120}")
                return bad("edit", f"{where} left {diff(trial, now)} (expected against actual)")
            cur, m, refused = ok
            if op[0] == "insert" and refused is None:
                cursors = [(cur if op[1] is None else op[1]) + len(op[2]) // 2]
            elif len(cursors) > 1 and op[0] == "insert" and op[1] is None:
                pass
            if refused:
                nontriv = True
                fired["refused-" + refused] = fired.get("refused-" + refused, 0) + 1
            if op[0] in ("writebad",) or (op[0] == "warr" and op[4] in ("failing", "longer", "shorter")):
                fired["failing-argument"] = fired.get("failing-argument", 0) + 1
            trail.append((op[0], refused))
        return None, {"lines": lines}, (trail, sorted(fired.items()), case["join"], case["via"]), nontriv or len(trail) >= 5, fired, steps

    def _structure(self, img, m):
        """Problem with the image's sections, or with their agreement with the model."""
        st = self._state(img)
        for (a, d), (b, _) in zip(st, st[1:]):
            if a + len(d) > b:
                return f"sections overlap or are not in order: {[(hex(x), len(y)) for x, y in st]}"
        if len(img) != sum(len(d) for _, d in st):
            return "len(image) is not the number of its bytes"
        for s in img.sections:
            if s.length and (s.start_address not in img or s.start_address + s.length - 1 not in img or img.get_section(s.start_address + s.length - 1).data is not s.data):
                return f"section at {s.start_address:#x} is not found by address"
        if m is not None and st != [(a, bytes(d)) for a, d in m.ext]:
            return "content differs"
        return None

    def brief(self, case):
        return {"init": [(hex(a), len(d) // 2) for a, d in case["init"]], "ops": [brief(o) for o in case["ops"]], "faults": case["faults"]}


def brief(op):
    return " ".join(hex(x) if isinstance(x, int) and not isinstance(x, bool) and i == 1 else str(x)[:40] for i, x in enumerate(op))


def diff(a, b):
    x, y = a.ext, b.ext
    sx, sy = [(hex(s), len(d)) for s, d in x], [(hex(s), len(d)) for s, d in y]
    if sx != sy:
        return f"sections {sx} -> {sy}"
    for (s, d), (_, e) in zip(x, y):
        for i, (p, q) in enumerate(zip(d, e)):
            if p != q:
                return f"first difference at {s + i:#x}: {p:02x} -> {q:02x}"
    return "no difference"
