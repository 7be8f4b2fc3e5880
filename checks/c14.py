"""C14: images, sections and caller buffers created separately never affect each other."""
import io

from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.isolate import forked
from simkit.lineint import LineInjector, SimInterrupt

BUFKINDS = ["bytearray", "list", "arrayB", "nparray", "memoryview", "bytes"]
CONTAINERS = ["list", "tuple", "generator", "iter", "sorted", "image", "failing", "foreign"]
FORMATS = ["srec", "ihex", "etek", "shf", "ash", "bin", "fpc", "titxt"]


class Boom(Exception):
    pass


class Check(BaseCheck):
    id = "C14"
    shim = False
    rule = ("one run = one history over several images, sections, lists and caller buffers, every object compared with its own shadow copy after every step, and every byte store poked at the end; "
            "distinct = (operations with outcome, interruption points); non-trivial = at least two objects were built from one source, or an operation failed or was interrupted")
    assumptions = ("sections reached through an image belong to that image", "copy.copy() of a section is not a separate creation")
    real = ("objutils.image, objutils.section, all readers and writers; sortedcontainers; numpy",)
    stub = ("interruptions and memory exhaustion raised by the simulator at source lines; failing iterables",)
    runs = {"quick": 2000, "thorough": 40000}
    shrink_lists = ("faults", "ops")

    def setup(self):
        from simkit import hexnode
        import numpy  # noqa: F401
        hexnode.warm()

    def _op(self, rng, n):
        r = rng.random()
        i, j = rng.randrange(1000), rng.randrange(1000)
        pos, val = rng.randrange(1000), rng.randrange(256)
        if n == 0 or r < 0.10:
            return ["buf", rng.choice(BUFKINDS), rng.randbytes(rng.choice([0, 1, 4, 16, 40])).hex()]
        if r < 0.22:
            return ["sec", rng.choice([0, 4, 16, 0x100, 0x1000]), rng.choice(["none", "buf", "buf", "buf", "sec", "bad"]), i]
        if r < 0.40:
            return ["img", [rng.randrange(1000) for _ in range(rng.choice([0, 1, 2, 2, 3, 5]))], rng.random() < 0.5, rng.choice(CONTAINERS), rng.randrange(5)]
        if r < 0.45:
            return ["img0", rng.choice(["none", "list", "tuple", "generator"]), rng.random() < 0.5]
        if r < 0.51:
            return ["load", rng.choice(FORMATS), i, rng.random() < 0.5, rng.choice(["bytes", "bytearray", "stream"])]
        if r < 0.62:
            return ["insert", i, rng.choice([None, 0, 16, 0x100, 0x2000, 0x3000]), rng.choice(["buf", "sec"]), j, rng.random() < 0.5]
        if r < 0.67:
            return ["mbuf", i, pos, val]
        if r < 0.75:
            return ["msec", i, rng.choice(["write", "item", "extend", "numeric", "array", "clear"]), pos, val]
        if r < 0.83:
            return ["mimg", i, rng.choice(["write", "item", "extend", "numeric", "meta", "secaddr"]), pos, val]
        if r < 0.88:
            return ["join", [rng.randrange(1000) for _ in range(rng.choice([1, 2, 3]))], rng.choice(["list", "tuple", "sorted", "foreign"])]
        if r < 0.91:
            return ["dump", rng.choice(FORMATS), i, rng.random() < 0.2]
        if r < 0.95:
            return ["look", rng.choice(["eq", "repr", "hexdump", "tolist", "len", "contains", "read", "iter", "lt", "find", "readnd"]), i, j]
        return ["deepcopy", i]

    def family(self, rng, i, tier):
        ops = []
        for k in range(rng.choice([5, 9, 14, 22])):
            ops.append(self._op(rng, k))
        case = {"ops": ops, "faults": []}
        res = yield case
        if res.violation:
            return
        lines = res.info.get("lines", [])
        cand = [(j, n) for j, n in enumerate(lines) if n and ops[j][0] in ("img", "sec", "insert", "load", "dump", "join", "msec", "mimg")]
        for _ in range(5 if tier == "quick" else 20):
            if not cand:
                return
            yield dict(case, faults=[{"op": j, "line": rng.randrange(n), "kind": rng.choice(["interrupt", "memory"])} for j, n in rng.sample(cand, min(len(cand), rng.choice([1, 1, 2])))])

    def execute(self, case):
        st, val = forked(lambda: self._run(case))
        if st != "ok":
            return Res(viol("ended" if st != "exc" else "harness", f"run ended with {st}: {val}"), digest=st)
        v, info, sig, nontriv, fired, steps = val
        return Res(v, info, sig=sig, nontrivial=nontriv, fired=fired, steps=steps, digest=core.digest(val))

    def _run(self, case):
        import objutils
        from array import array
        from copy import deepcopy
        import numpy as np
        from operator import attrgetter
        from objutils import Image, Section
        from objutils.section import join_sections
        from sortedcontainers import SortedList

        bufs, secs, imgs, lists, readers = [], [], [], [], {}   # each entry: [object, shadow]
        readback = {"bytearray": bytes, "bytes": bytes, "list": list, "arrayB": lambda b: b.tolist(), "nparray": lambda b: b.tolist(), "memoryview": bytes}

        def snap_sec(s):
            return (s.start_address, bytes(s.data))

        def snap_img(m):
            return ([snap_sec(s) for s in m.sections], {str(k): repr(v) for k, v in dict(m.meta).items()})

        def all_ok(skip=None):
            for e in bufs:
                if e is not skip and readback[e[2]](e[0]) != e[1]:
                    return f"a caller's {e[2]} changed: {e[1]!r:.60} -> {readback[e[2]](e[0])!r:.60}"
            for k, e in enumerate(secs):
                if e is not skip and snap_sec(e[0]) != e[1]:
                    return f"section #{k} changed: {e[1]!r:.80} -> {snap_sec(e[0])!r:.80}"
            for k, e in enumerate(imgs):
                if e is not skip and snap_img(e[0]) != e[1]:
                    return f"image #{k} changed: {e[1]!r:.140} -> {snap_img(e[0])!r:.140}"
            for k, e in enumerate(lists):
                if len(e[0]) != len(e[1]) or any(a is not b for a, b in zip(e[0], e[1])):
                    return f"a caller's list of sections changed from {len(e[1])} to {len(e[0])} entries"
            return None

        def pick(lst, i):
            return lst[i % len(lst)] if lst else None

        def make_buf(kind, raw):
            return {"bytearray": lambda: bytearray(raw), "bytes": lambda: raw, "list": lambda: list(raw), "arrayB": lambda: array("B", raw),
                    "nparray": lambda: np.frombuffer(raw, dtype="u1").copy(), "memoryview": lambda: memoryview(bytearray(raw))}[kind]()

        def container(chosen, how, at, join=True):
            objs = [e[0] for e in chosen]
            if how == "tuple":
                return tuple(objs)
            if how == "generator":
                return (o for o in objs)
            if how == "iter":
                return iter(objs)
            if how == "sorted":
                return SortedList(objs, key=attrgetter("start_address"))
            if how == "image" and imgs:
                return pick(imgs, at)[0]
            if how == "failing":
                def g():
                    for k, o in enumerate(objs):
                        if k == at % max(1, len(objs)):
                            raise Boom("iteration failed")
                        yield o
                return g()
            lst = list(objs)
            if how == "foreign":
                class Odd:
                    start_address, length, data = 1 << 20, 2, b"ab"
                lst.append(Odd() if join else object())
            lists.append([lst, list(lst)])
            return lst

        faults = {f["op"]: f for f in case["faults"]}
        lines, trail, fired, steps = [], [], {}, 0
        shared = False
        for j, op in enumerate(case["ops"]):
            kind = op[0]
            f = faults.get(j)
            target = None       # the entry this operation is allowed to change
            made = None         # ("sec" | "img")
            want = None
            call = None
            if kind == "buf":
                b = make_buf(op[1], bytes.fromhex(op[2]))
                bufs.append([b, readback[op[1]](b), op[1]])
            elif kind == "sec":
                made = "sec"
                if op[2] == "none":
                    call, want = (lambda: Section(op[1])) if op[1] else Section, b""
                elif op[2] == "bad":
                    call = lambda: Section(op[1], [1, 2, 300])  # noqa: E731
                else:
                    e = pick(bufs if op[2] == "buf" else secs, op[3])
                    if e is not None:
                        src = e[0]
                        want = bytes(src.data) if op[2] == "sec" else bytes(bytearray(src))
                        call = lambda: Section(op[1], src)  # noqa: E731
                        shared = True
            elif kind == "img":
                made = "img"
                chosen = [pick(secs, k) for k in op[1] if secs]
                arg = container(chosen, op[3], op[4], op[2])
                shared = shared or bool(chosen)
                call = lambda: Image(arg, join=op[2])  # noqa: E731
            elif kind == "img0":
                made = "img"
                args = {"none": (), "list": ([],), "tuple": ((),), "generator": ((x for x in ()),)}[op[1]]
                call = lambda: Image(*args, join=op[2])  # noqa: E731
            elif kind == "load":
                made = "img"
                spec = [(0x100, bytes(range(op[2] % 40 + 1))), (0x400, b"\x55\xaa")] if op[1] != "bin" else [(0, bytes(range(op[2] % 40 + 1)))]
                data = bytes(objutils.dumps(op[1], Image([Section(a, d) for a, d in spec])))
                arg = bytearray(data) if op[4] == "bytearray" else data
                if op[4] == "bytearray":
                    bufs.append([arg, bytes(arg), "bytearray"])
                rd = readers.setdefault(op[1], objutils.registry.get(op[1]).Reader()) if op[3] else objutils.registry.get(op[1]).Reader()
                call = (lambda: rd.load(io.BytesIO(arg))) if op[4] == "stream" else (lambda: rd.loads(arg))
                want = [(a, d) for a, d in spec]
            elif kind == "insert":
                target = pick(imgs, op[1])
                e = pick(bufs if op[3] == "buf" else secs, op[4])
                if target is not None and e is not None:
                    im, src = target[0], e[0]
                    shared = True
                    call = lambda: im.insert_section(src, op[2], join=op[5])  # noqa: E731
            elif kind == "mbuf":
                e = pick(bufs, op[1])
                if e is not None and e[2] != "bytes" and len(e[0]):
                    target = e
                    call = lambda: e[0].__setitem__(op[2] % len(e[0]), op[3])  # noqa: E731
            elif kind in ("msec", "mimg"):
                e = pick(secs if kind == "msec" else imgs, op[1])
                if e is not None:
                    target = e
                    call = self._mutate(e[0], kind, op)
            elif kind == "join":
                chosen = [pick(secs, k) for k in op[1] if secs]
                arg = container(chosen, op[2], 0)
                shared = shared or bool(chosen)

                def call():
                    out = join_sections(arg)
                    if op[2] != "tuple":
                        return Image(list(out), join=False)
                    secs.extend([s, snap_sec(s)] for s in out)
                    return None
                made = "img"
            elif kind == "dump":
                e = pick(secs if op[3] else imgs, op[2])
                if e is not None:
                    call = lambda: objutils.dumps(op[1], e[0])  # noqa: E731
            elif kind == "look":
                call = self._look(op, pick(imgs, op[2]), pick(imgs, op[3]), pick(secs, op[2]), pick(secs, op[3]))
            elif kind == "deepcopy":
                e = pick(imgs, op[1])
                made = "img"
                if e is not None:
                    call = lambda: deepcopy(e[0])  # noqa: E731
                    shared = True
            out = err = None
            li = LineInjector(f["line"] if f else None, f["kind"] if f else "interrupt", extra=("sortedcontainers",))
            if call is not None:
                try:
                    with li:
                        out = call()
                except (Exception, SimInterrupt) as ex:  # noqa: BLE001
                    err = ex
            lines.append(li.count)
            steps += li.count
            if li.fired:
                fired[f["kind"]] = fired.get(f["kind"], 0) + 1
            elif err is not None:
                fired["operation-failed"] = fired.get("operation-failed", 0) + 1
            trail.append((kind, op[1] if isinstance(op[1], str) else "", type(err).__name__ if err else None, li.fired and li.fired[1]))
            if target is not None:
                target[1] = readback[target[2]](target[0]) if len(target) > 2 else snap_sec(target[0]) if kind == "msec" else snap_img(target[0])
            if made and out is not None and err is None:
                if made == "sec":
                    if want is not None and bytes(out.data) != want:
                        return viol("created", f"{brief(op)} created a section with {bytes(out.data)!r:.80} instead of {want!r:.80}"), {"lines": lines}, ("v",), True, fired, steps
                    secs.append([out, snap_sec(out)])
                else:
                    if want is not None and snap_img(out)[0] != want:
                        return viol("created", f"{brief(op)} created {snap_img(out)[0]!r:.100} instead of {want!r:.100}"), {"lines": lines}, ("v",), True, fired, steps
                    if kind == "img0" and len(out.sections):
                        return viol("created", f"a new empty image already holds {snap_img(out)[0]!r:.100}"), {"lines": lines}, ("v",), True, fired, steps
                    imgs.append([out, snap_img(out)])
            msg = all_ok()
            if msg:
                return viol("changed-by-" + kind, f"operation {j} {brief(op)}{' (interrupted at ' + str(li.fired) + ')' if li.fired else ''}: {msg}"), {"lines": lines}, ("v",), True, fired, steps
        # ---- poke every byte store and see that nothing else changes ----
        everything = [(f"section #{k}", e, e[0]) for k, e in enumerate(secs)]
        for k, e in enumerate(imgs):
            for q, s in enumerate(e[0].sections):
                everything.append((f"section {q} of image #{k}", e, s))
        for what, e, s in everything:
            if s.length:
                s.write(s.start_address, bytes([s.data[0] ^ 0xFF]))
                inner = list(e[0].sections) if e[0] is not s else None
                if inner is not None:     # siblings within one image are separate sections, too
                    new = snap_img(e[0])
                    for q, (old, cur) in enumerate(zip(e[1][0], new[0])):
                        if inner[q] is not s and old != cur:
                            return viol("poke", f"writing to {what} changed section {q} of the same image"), {"lines": lines}, ("v",), True, fired, steps
                e[1] = snap_sec(s) if e[0] is s else snap_img(e[0])
                msg = all_ok()
                if msg:
                    return viol("poke", f"writing to {what}: {msg}"), {"lines": lines}, ("v",), True, fired, steps
            s.data.extend(b"\x5a")
            e[1] = snap_sec(s) if e[0] is s else snap_img(e[0])
            msg = all_ok()
            if msg:
                return viol("poke", f"appending to {what}: {msg}"), {"lines": lines}, ("v",), True, fired, steps
        for k, e in enumerate(imgs):
            e[0].insert_section(b"\x01", 1 << 40)
            e[0].meta["poked"] = k
            e[1] = snap_img(e[0])
            msg = all_ok()
            if msg:
                return viol("poke", f"inserting into image #{k}: {msg}"), {"lines": lines}, ("v",), True, fired, steps
        fresh_s, fresh_i = Section(), Image()
        if fresh_s.length or len(fresh_i.sections) or dict(fresh_i.meta):
            return viol("poke", "a new default section or image is not empty any more"), {"lines": lines}, ("v",), True, fired, steps
        return None, {"lines": lines}, (trail, sorted(fired.items())), shared or bool(fired), fired, steps

    def _mutate(self, obj, kind, op):
        how, pos, val = op[2], op[3], op[4]
        if kind == "msec":
            s = obj
        else:
            if how == "meta":
                return lambda: obj.meta.__setitem__(f"k{pos % 3}", val)
            if not len(obj.sections):
                return None
            s = obj.sections[pos % len(obj.sections)]
        if how == "secaddr":
            return lambda: setattr(s, "start_address", s.start_address)
        if not s.length:
            return (lambda: s.data.extend(bytes([val]))) if how == "extend" else None
        a = s.start_address + pos % s.length
        tgt = s if kind == "msec" or pos % 2 else obj
        if how == "write":
            return lambda: tgt.write(a, bytes([val]))
        if how == "item":
            return lambda: s.data.__setitem__(a - s.start_address, val)
        if how == "extend":
            return (lambda: s.data.extend(bytes([val]))) if kind == "msec" else None
        if how == "numeric":
            return lambda: tgt.write_numeric(a, val * 257, "uint16_be")
        if how == "array":
            return lambda: tgt.write_numeric_array(a, [val, val], "uint8_le")
        if how == "clear":
            return lambda: s.data.clear()
        return None

    def _look(self, op, e1, e2, s1, s2):
        how = op[1]
        if how in ("lt", "tolist", "find") or (how == "eq" and op[2] % 2):
            if s1 is None or s2 is None:
                return None
            a, b = s1[0], s2[0]
            return {"lt": lambda: sorted([a, b]) and None, "tolist": lambda: (a.tolist().append(1), a.tobytes()) and None, "find": lambda: list(a.find(b"\x00")) and None,
                    "eq": lambda: (a == b, a != b) and None}[how]
        if e1 is None or e2 is None:
            return None
        x, y = e1[0], e2[0]

        def read():
            for s in x.sections:
                if s.length:
                    d = x.read(s.start_address, s.length)
                    if isinstance(d, bytearray):
                        d.clear()

        def readnd():
            for s in x.sections:
                if s.length:
                    d = s.read_ndarray(s.start_address, s.length, "uint8_le", shape=(s.length,))
                    if d.flags.writeable:
                        d[:] = 0x77
        return {"eq": lambda: (x == y, x != y) and None, "repr": lambda: (repr(x), str(y)) and None, "hexdump": lambda: x.hexdump(io.StringIO()), "len": lambda: len(x) and None,
                "contains": lambda: (5 in x, 0x100 in y) and None, "read": read, "iter": lambda: [s for s in x] and None, "readnd": readnd}[how]


def brief(op):
    return " ".join(str(x)[:40] for x in op)
