"""C04: damaged or torn hex files never load as wrong data (oracle: reference decoders in simkit/hexref.py)."""
import itertools

from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.fsworld import World
from simkit.scratch import scratch

LINED = ("ihex", "srec", "tek", "etek", "mostec", "sig", "emon52", "fpc")
CUTTABLE = LINED + ("shf", "rca", "cosmac", "titxt", "ash")


class Check(BaseCheck):
    id = "C04"
    rule = ("one run = one saved file, damaged by the simulated storage (torn save by a killed process, cut, flipped bits, changed digits anywhere or in the fields around the data, zeroed blocks, lost, repeated, moved or spliced lines, records whose length is "
            "wrong but whose checksum agrees), then loaded; distinct = (format, damage, outcome, records by kind); non-trivial = the damage changed the file")
    assumptions = ("records are on lines of their own; what follows a valid record on its line may be ignored",
                   "what a format's checksum does not cover (EMON52 and SHF addresses) is believed", "an Intel hex address record of the wrong size may be ignored",
                   "for formats without checksums only cut-off files are considered")
    real = ("objutils readers and writers; CPython io; kernel tmpfs",)
    stub = ("the storage damaging the file is the simulator",)
    runs = {"quick": 650, "thorough": 9000}
    shrink_lists = ("faults", "damage", "image", "old", "foreign")

    def setup(self):
        from simkit import hexnode
        hexnode.warm()

    def family(self, rng, i, tier):
        from simkit.hexmodel import gen_image, gen_row
        fmt = CUTTABLE[i % len(CUTTABLE)] if rng.random() < 0.5 else LINED[i % len(LINED)]
        image = gen_image(rng, fmt, nsec=rng.choice([1, 2, 3]))
        image = [[o[0], min(o[1], rng.choice([8, 40, 200])), o[2]] if isinstance(o[1], int) else [o[0], o[1][:80]] for o in image]
        row = gen_row(rng, fmt)
        old = gen_image(rng, fmt, small=True)
        base = {"seed": rng.getrandbits(48), "fmt": fmt, "image": image, "row": row, "old": old, "damage": [], "faults": [], "source": rng.choice(["path", "bytes"]), "crlf": rng.random() < 0.15 and fmt != "fpc"}
        if fmt in LINED and rng.random() < 0.3:
            base["foreign"] = self._foreign(rng, fmt)
            base["lower"] = rng.random() < 0.2
        res = yield base
        if res.violation:
            return
        size = res.info.get("size", 1)
        nops = res.info.get("nops", 0)
        n = 14 if tier == "quick" else 40
        for _ in range(n):
            r = rng.random()
            if r < 0.12 and nops and not base.get("foreign"):
                k = rng.randrange(nops)
                yield dict(base, faults=[{"act": "kill", "at": k, "when": rng.choice(["before", "partial", "partial", "after"]), "frac": rng.random()}])
                continue
            if r < 0.27 or fmt not in LINED + ("shf",):
                yield dict(base, damage=[["cut", rng.choice([rng.randrange(size + 1), max(0, size - rng.randint(1, 20))])]])
                continue
            dmg = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                pos = rng.randrange(max(1, size))
                dmg.append(rng.choice([
                    ["flip", pos, rng.randrange(8)], ["flip", pos, rng.randrange(7)], ["digit", pos, rng.choice("0123456789ABCDEF")], ["digit", pos, rng.choice("0123456789ABCDEF")],
                    ["zero", pos, rng.choice([1, 4, 30, 512])], ["drop", rng.randrange(1000)], ["dup", rng.randrange(1000), rng.randrange(1000)], ["swap", rng.randrange(1000), rng.randrange(1000)],
                    ["splice", pos, rng.randrange(1000)], ["garble", pos, rng.randbytes(rng.choice([1, 2, 8])).hex()], ["delete", pos, rng.choice([1, 2, 10])], ["exchange", pos, rng.choice([1, 2, 4])],
                    ["relen", rng.randrange(1000), rng.choice([-2, -1, 1, 2, 5, -3])], ["badsum", rng.randrange(1000), rng.choice([1, 255, 16, 128])], ["junk", rng.randrange(1000), rng.choice(["hello", "", "# x", "!!", " "])],
                    ["short", rng.randrange(1000), rng.choice([2, 4, 8, 16])],
                ] + [["field", rng.randrange(1000), rng.choice(list(range(13)) + [-1, -2, -3, -4] * 2), rng.choice("0123456789ABCDEF")] for _ in range(6)]))
            yield dict(base, damage=dmg)

    def _foreign(self, rng, fmt):
        """A file written by another program: rows of any length and order, every kind of record."""
        recs = []
        pos, base = rng.choice([0, 0x100, 0xFF00, rng.randrange(0xF000)]), 0
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if fmt == "ihex" and r < 0.3:
                recs.append([rng.choice(["seg", "lin"]), rng.choice([0, 1, 0x10, 0x1000, 0x1234, 0x8000, 0xF000, 0xFFFF, rng.randrange(0x10000)])])
                continue
            if fmt in ("ihex", "srec") and r < 0.42:
                recs.append(["info", rng.randrange(1, 1000)])
                continue
            n = rng.choice([1, 2, 3, 15, 16, 17, 32, 100, rng.randint(1, 120)])
            if rng.random() < 0.4:
                pos = rng.choice([0, 0xFF, 0x100, 0x1FF0, 0x8000, 0xFFF0, rng.randrange(0xFF00)])
                if fmt == "srec":
                    pos += rng.choice([0, 0, 0x10000, 0xFF0000, 0x1000000, 0x7F000000, 0xFFFF0000])
            if (pos & 0xFFFF) + n > 0x10000:
                pos = 0
            recs.append(["data", pos, n, rng.getrandbits(32), rng.choice([1, 1, 2, 3])])
            pos = pos + n if (pos & 0xFFFF) + n < 0x10000 else 0
        if not any(r[0] == "data" for r in recs):
            recs.append(["data", 0x20, 4, 1, 1])
        return recs

    def shrink_values(self, case):
        for j, s in enumerate(case["image"]):
            if isinstance(s[1], int) and s[1] > 2:
                yield dict(case, image=case["image"][:j] + [[s[0], s[1] // 2] + s[2:]] + case["image"][j + 1:])

    # ---------------- the storage ----------------
    def _damage(self, fmt, data, old, dmg):
        from simkit import hexref
        for d in dmg:
            k = d[0]
            if not data:
                return data
            if k == "cut":
                data = data[:d[1]]
            elif k == "flip":
                p = d[1] % len(data)
                data = data[:p] + bytes([data[p] ^ (1 << d[2])]) + data[p + 1:]
            elif k == "digit":
                p = d[1] % len(data)
                while p < len(data) and data[p:p + 1] not in b"0123456789ABCDEFabcdef":
                    p += 1
                data = data[:p] + d[2].encode() + data[p + 1:] if p < len(data) else data
            elif k == "zero":
                p = d[1] % len(data)
                data = data[:p] + bytes(min(d[2], len(data) - p)) + data[p + d[2]:]
            elif k == "garble":
                p, g = d[1] % len(data), bytes.fromhex(d[2])
                data = data[:p] + g + data[p + len(g):]
            elif k == "delete":
                p = d[1] % len(data)
                data = data[:p] + data[p + d[2]:]
            elif k == "exchange":
                p = d[1] % len(data)
                a, b = data[p:p + d[2]], data[p + d[2]:p + 2 * d[2]]
                data = data[:p] + b + a + data[p + 2 * d[2]:]
            elif k == "splice":
                data = data[:d[1] % len(data)] + old[d[2] % max(1, len(old)):]
            else:
                lines = data.split(b"\n")
                i = d[1] % len(lines)
                if k == "drop":
                    del lines[i]
                elif k == "dup":
                    lines.insert(d[2] % (len(lines) + 1), lines[i])
                elif k == "swap":
                    j = d[2] % len(lines)
                    lines[i], lines[j] = lines[j], lines[i]
                elif k == "junk":
                    lines.insert(i, d[2].encode())
                elif k == "field":
                    ln = lines[i].rstrip(b"\r")
                    if len(ln) > 5:
                        p = d[2] % len(ln)
                        lines[i] = ln[:p] + d[3].encode() + ln[p + 1:]
                elif k == "short":
                    lines[i] = lines[i].rstrip(b"\r")[:-d[2]]
                elif k in ("relen", "badsum") and fmt in LINED:
                    recs = [q for q, ln in enumerate(lines) for kd, acc in [hexref.classify(fmt, ln)] if kd == "valid" and acc[0] == "data" and acc[2]]
                    if recs:
                        q = recs[d[1] % len(recs)]
                        _, acc = hexref.classify(fmt, lines[q])
                        if k == "relen":
                            lines[q] = hexref.record(fmt, acc[1], acc[2], max(0, len(acc[2]) + d[2]))
                        else:
                            ln = lines[q].rstrip(b"\r")
                            if fmt == "fpc":
                                t = hexref.fpc_text(ln)[0]
                                lines[q] = hexref.fpc_line(b"%02X" % (int(t[:2], 16) + d[2] & 0xFF) + t[2:])
                            else:
                                at = {"etek": 4}.get(fmt, len(ln) - 2)
                                lines[q] = ln[:at] + b"%02X" % (int(ln[at:at + 2], 16) + d[2] & 0xFF) + ln[at + 2:]
                data = b"\n".join(lines)
        return data

    # ---------------- execution ----------------
    def execute(self, case):
        from simkit import hexref
        from simkit.hexmodel import expand, flat
        from simkit.hexnode import as_pairs, load, make_image
        fmt = case["fmt"]
        w = World(scratch(), case["seed"], case["faults"])
        rk = {} if case["row"] is None else {"row_length": case["row"]}

        def save(spec):
            import objutils
            objutils.dump(fmt, "in.dat", make_image(spec), **rk)
        fired = {}
        try:
            if case["faults"]:
                w.armed = False
                w.run(lambda: save(case["old"]))
                w.armed = True
            r0 = w.run(lambda: save(case["image"]))
            if r0.status not in ("ok", "killed"):
                return Res(viol("harness", f"saving ended with {r0.status} {r0.exc}"))
            data = w.get("in.dat") or b""
            if case.get("foreign"):
                data = hexref.foreign(fmt, case["foreign"], case.get("lower"))
            w.faults = []
            other = None
            if any(d[0] == "splice" for d in case["damage"]):
                w.run(lambda: save(case["old"]))
                other = w.get("in.dat")
            if case["crlf"]:
                data = data.replace(b"\r\n", b"\n").replace(b"\n", b"\r\n")
            whole = data
            data = self._damage(fmt, data, other or b"", case["damage"])
            w.put("in.dat", data)

            def node():
                return as_pairs(load(fmt, case["source"], "in.dat"))
            r = w.run(node)
        finally:
            w.cleanup()
        fired = dict(w.fired)
        changed = data != whole or r0.status == "killed"
        for d in case["damage"]:
            fired["damage-" + d[0]] = fired.get("damage-" + d[0], 0) + 1
        info = {"size": len(whole), "nops": len(r0.ops)}
        v = None
        kinds = {}
        what = f"{fmt} file of {len(data)} bytes, damage {case['damage'] or case['faults']}"
        if r.status not in ("ok", "exc"):
            v = viol("ended", f"loading a {what} ended with {r.status}")
        elif not changed:
            if r.status != "ok":
                v = viol("harness", f"undamaged {fmt} file does not load: {r.exc}")
        got = None
        if v is None and r.status == "ok":
            got = set()
            for a, d in r.value:
                got.update((a + i, b) for i, b in enumerate(d))
            if fmt in LINED:
                recs = hexref.decode(fmt, data)
                for k, acc in recs:
                    kk = k + ("+" if k == "other" and acc else "")
                    kinds[kk] = kinds.get(kk, 0) + 1
                if any(k == "bad" for k, _ in recs):
                    bad = next(ln for ln in data.split(b"\n") if hexref.classify(fmt, ln)[0] == "bad")
                    v = viol("bad-record", f"a {what} loads although the record {bad[:90]!r} has a wrong length or checksum")
                elif not any(k == "wild" for k, _ in recs):
                    opt = [j for j, (k, acc) in enumerate(recs) if k == "other" and acc]
                    if len(opt) <= 6:
                        ok = False
                        for choice in itertools.product((True, False), repeat=len(opt)):
                            drop = {j for j, c in zip(opt, choice) if not c}
                            want = hexref.build([acc for j, (k, acc) in enumerate(recs) if acc and j not in drop])
                            if want == got:
                                ok = True
                                break
                        if not ok:
                            want = hexref.build([acc for k, acc in recs if acc])
                            extra, missing = sorted(got - want)[:3], sorted(want - got)[:3]
                            v = viol("wrong-data", f"a {what} loads, but not as its intact records say: {len(got)} bytes; too many {[(hex(a), b) for a, b in extra]}, missing {[(hex(a), b) for a, b in missing]}")
            elif fmt == "shf":
                blocks = hexref.shf_blocks(data)
                if blocks is not None:
                    want = {(a + i, b) for a, d in blocks for i, b in enumerate(d)}
                    if not got <= want or (got != want and not case["damage"] and not case["faults"]):
                        v = viol("wrong-data", f"a {what} loads bytes that are in no intact block: {[(hex(a), b) for a, b in sorted(got - want)[:4]]}")
                    elif got != want:
                        v = viol("lost-block", f"a {what} loads without an intact block: missing {[(hex(a), b) for a, b in sorted(want - got)[:4]]}")
                else:
                    v = viol("wrong-data", f"a {what} loads although it is not well-formed")
        if v is None and r.status == "ok" and not case.get("foreign") and (r0.status == "killed" or all(d[0] == "cut" for d in case["damage"])):
            # a torn save: whatever loads was in one of the images
            src = {(a, b) for a, b in flat(expand(case["image"])).items()}
            alt = {(a, b) for a, b in flat(expand(case["old"])).items()} if r0.status == "killed" else set()
            if not (got <= src or got <= alt):
                v = viol("torn", f"a {what} loads bytes the saved image did not have: {[(hex(a), b) for a, b in sorted(got - src)[:4]]}")
        return Res(v, info, sig=(fmt, [d[0] for d in case["damage"]], sorted(w.fired), r.status, (r.exc or {}).get("type"), sorted(kinds.items()), len(data) // 50),
                   nontrivial=changed, fired=fired, simns=w.mono, steps=w.steps, digest=core.digest((w.log, r.status, r.value)))
