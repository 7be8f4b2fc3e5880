"""C01: a save that returned success is stored as encoded and loads back byte for byte."""
import os
import random

from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.fsworld import World, mark
from simkit.scratch import scratch


IN_MEMORY = ("memory", "rawsink", "bufsink", "duck")


class Check(BaseCheck):
    id = "C01"
    rule = ("one run = a history of saves and loads in one process over a simulated file system that splits and interrupts reads and writes; "
            "distinct = set of (format, layout class, row length class, destination, source, fault kinds) combinations of the run plus the split pattern; "
            "non-trivial = at least one save returned and was loaded back")
    assumptions = ("images hold at least one byte and end at or below 0xFFFF / 0xFFFFFFFF (the writers' own range check)",
                   "row lengths up to what the format's length field can hold", "binzip is a stub in the code and is excluded")
    real = ("objutils codecs, image, section, store; CPython io; kernel tmpfs",)
    stub = ("result sizes and interruptions of system calls come from the simulator",)
    runs = {"quick": 3200, "thorough": 60000}
    shrink_lists = ("steps", "faults")

    def setup(self):
        from simkit import hexnode
        hexnode.warm()

    # ---- workload ----
    def family(self, rng, i, tier):
        from simkit.hexmodel import FORMATS, expand, gen_image, gen_row
        from simkit.hexnode import DESTS, SOURCES
        fmts = list(FORMATS)
        nimg = rng.choice([1, 2, 2, 3])
        steps = []
        images = []
        first = fmts[i % len(fmts)]
        huge = rng.random() < 0.008
        for k in range(1 if huge else rng.choice([1, 2, 3, 4, 6])):
            fmt = first if k == 0 or rng.random() < 0.4 else rng.choice(fmts)
            reuse = [n for n, im in enumerate(images) if im[0] == fmt or (FORMATS[im[0]]["limit"] <= FORMATS[fmt]["limit"] and fmt != "bin")]
            if reuse and rng.random() < 0.4:
                im = rng.choice(reuse)
            else:
                images.append([fmt, gen_image(rng, fmt, big="huge" if huge else rng.random() < 0.12)])
                im = len(images) - 1
            row = gen_row(rng, fmt)
            size = sum(s[1] if isinstance(s[1], int) else len(s[1]) // 2 for s in images[im][1])
            if huge and row and FORMATS[fmt]["limit"] <= 0xFFFF:
                row = rng.choice([1, 2, 3])
            elif row and size // row > (30000 if huge else 3000):
                row = max(row, 64)
            step = {"fmt": fmt, "img": im, "join": rng.random() < 0.7, "row": row, "dest": rng.choice(DESTS[:1] * 3 + DESTS),
                    "file": f"f{rng.randrange(nimg)}.dat", "plan": [rng.choice([None, 1, 2, 7, 100]) for _ in range(rng.randint(0, 6))],
                    "src": rng.choice(["path"] * 3 + [s for s in SOURCES if s not in ("chunky",)]), "shared": rng.random() < 0.3,
                    "inst": rng.random() < 0.3}
            if fmt == "bin":
                step["filler"] = rng.choice([0xFF, 0, 0x41])
                step["intfill"] = rng.random() < 0.3
                step["base"] = rng.choice([0, 0x100, 0x8000])
                if step["src"] == "str":
                    step["src"] = "bytes"
            if k and steps[-1]["fmt"] != "bin" and fmt != "bin" and FORMATS[steps[-1]["fmt"]]["limit"] <= FORMATS[fmt]["limit"] and rng.random() < 0.35:
                step.update({"from": "prev", "img": steps[-1]["img"], "join": True, "shared": False, "hdr": steps[-1].get("hdr") if steps[-1]["fmt"] == "srec" else None})
                if row and size > 3000:
                    step["row"] = max(row, 64)
            elif fmt != "bin" and size < 6000 and rng.random() < 0.25:
                src = rng.choice(["srec", "srec", "ihex"])
                step.update({"from": src, "join": True, "shared": False, "width": rng.choice([1, 1, 2, 3]), "line": rng.choice([1, 8, 16, 100]),
                             "info": [rng.randrange(1 << 16) for _ in range(rng.choice([0, 1, 1, 2, 5]))]})
                step["hdr"] = [[rng.choice([0, 0, 0x1234, 0xFFFF]), rng.randbytes(rng.choice([1, 2, 3, 12, 40, 249])).hex()]
                               for _ in range(rng.choice([0, 1, 1, 2]))] if src == "srec" else None
            if fmt == "srec" and step["inst"]:
                step["s5"] = rng.random() < 0.5
                step["start"] = rng.choice([None, None, 0, 1])
            if k and "from" not in steps[-1] and steps[-1]["dest"] not in IN_MEMORY and rng.random() < 0.25:
                # the same object, changed, saved to the same place: neither size nor times of the file change
                step = dict(steps[-1], shared=True, edit=rng.getrandbits(32), keep=rng.random() < 0.8, src=rng.choice([steps[-1]["src"], "path", "path", "bytes"]))
            steps.append(step)
        biggest = max(sum(len(expand([s])[0][1]) for s in im[1]) for im in images)
        if biggest > 3000:  # raw files are read byte by byte
            for st in steps:
                if st["src"] == "unbuffered":
                    st["src"] = "buffered"
        faults = []
        if rng.random() < 0.8:
            kinds = rng.choice([["write"], ["read"], ["read", "write"]])
            faults.append({"act": "chop", "kinds": kinds, "max": rng.choice([1, 3, 17, 100, 1000, 5000]), "only": "f"})
            faults[0]["max"] = max(faults[0]["max"], biggest // 300)
        if rng.random() < 0.5:
            faults.append({"act": "eintr", "p": rng.choice([0.05, 0.3])})
        if rng.random() < 0.3:
            faults.append({"act": "clock", "at": rng.randint(0, 6), "ns": rng.choice([-10**15, 10**15])})
        yield {"seed": rng.getrandbits(48), "images": images, "steps": steps, "faults": faults, "old": rng.choice([None, None, 5, 3000])}

    # ---- execution ----
    def execute(self, case):
        from simkit import hexref
        from simkit.hexmodel import bin_bytes, expand, joined
        from simkit.hexnode import as_pairs, load, make_image, raw_get, save
        w = World(scratch(), case["seed"], case["faults"])
        if case["old"]:
            for k in range(3):
                w.put(f"f{k}.dat", random.Random(k).randbytes(case["old"]))

        def node():
            import objutils
            cache, insts, kept, mods = {}, {}, None, {}
            for n, st in enumerate(case["steps"]):
                key = (st["img"], st["join"])
                if st["shared"] and key in cache:
                    img = cache[key]
                else:
                    img = cache[key] = make_image(case["images"][st["img"]][1], st["join"])
                    mods[key] = {}
                spec = expand(case["images"][st["img"]][1])
                if "edit" in st:
                    r = random.Random(st["edit"])
                    a, d = r.choice(spec)
                    at = r.choice([0, len(d) - 1, r.randrange(len(d))])
                    mods[key][a + at] = new = r.randrange(256)
                    img.write(a + at, bytes([new]))
                want = joined([(a, bytes(mods[key].get(a + i, b) for i, b in enumerate(d)) if mods[key] else d) for a, d in spec])
                kws = {"filler": st["filler"] if st["intfill"] else bytes([st["filler"]])} if st["fmt"] == "bin" else {}
                org = st.get("from")
                if org == "prev":
                    img, want = kept, last
                elif org:
                    src = hexref.program(org, want, st["width"], st["line"], st["info"], st["hdr"] or [])
                    img = objutils.loads(org, src)
                    if joined(as_pairs(img)) != want:
                        return ("foreign", n, [(a, len(d)) for a, d in as_pairs(img)][:6], [(a, len(d)) for a, d in want][:6])
                last = want
                mark(f"save{n}")
                w_ = r_ = None
                if st["inst"]:  # codec objects used more than once
                    if st["fmt"] not in insts:
                        c = objutils.registry.get(st["fmt"])
                        insts[st["fmt"]] = (c.Writer(), c.Reader())
                    w_, r_ = insts[st["fmt"]]
                    if "s5" in st:
                        w_.s5record = st["s5"]
                        w_.start_address = None if st["start"] is None else want[0][0] + st["start"]
                old = os.stat(st["file"]) if st.get("keep") and os.path.exists(st["file"]) else None
                fp = save(st["fmt"], img, st["dest"], st["file"], st["row"], st["plan"], writer=w_, **kws)
                if old:
                    os.utime(st["file"], ns=(old.st_atime_ns, old.st_mtime_ns))
                mark(f"saved{n}")
                stored = fp.content() if st["dest"] in IN_MEMORY else raw_get(st["file"])
                rk = {} if st["row"] is None else {"row_length": st["row"]}
                enc = bytes(w_.dumps(img, **rk, **kws) if w_ else objutils.dumps(st["fmt"], img, **rk, **kws))
                if stored != enc:
                    return ("stored", n, len(stored or b""), len(enc))
                if st["fmt"] == "bin":
                    flat = bin_bytes(want, st["filler"])
                    want = joined([(st["base"], flat)])
                    lk = {"address": st["base"]}
                else:
                    lk = {}
                mark(f"load{n}")
                src = st["src"]
                if st["dest"] in IN_MEMORY and src in ("path", "buffered", "unbuffered"):
                    src = "bytes"
                kept = load(st["fmt"], src, st["file"], None if src in ("path", "buffered", "unbuffered") else stored, reader=r_, **lk)
                got = joined(as_pairs(kept))
                if got != want:
                    return ("loaded", n, [(a, len(d)) for a, d in got][:6], [(a, len(d)) for a, d in want][:6])
                if st["fmt"] == "srec" and st.get("hdr"):
                    hdr = [[int(ln[4:8], 16), ln[8:-2].decode().lower()] for ln in stored.splitlines() if ln[:2] == b"S0" and hexref.classify("srec", ln)[0] == "valid"]
                    if hdr != st["hdr"]:
                        return ("header", n, hdr, st["hdr"])
            return None

        try:
            r = w.run(node)
        finally:
            w.cleanup()
        v = None
        if r.status == "ok" and r.value:
            n = r.value[1]
            v = viol(r.value[0], f"step {n} ({case['steps'][n]['fmt']}): {r.value!r}")
        elif r.status == "exc":
            v = viol("raised", f"a save or load of a representable image raised {r.exc['type']}: {r.exc['msg']}")
        elif r.status != "ok":
            v = viol("ended", f"process ended with {r.status}")
        from simkit.hexmodel import FORMATS
        sig = [sorted((s["fmt"], len(case["images"][s["img"]][1]), s["join"], min(s["row"] or 0, 20), s["dest"], s["src"], str(s.get("from")), "edit" in s, bool(s.get("hdr"))) for s in case["steps"]),
               sorted(w.fired.items())]
        return Res(v, sig=sig, fired=w.fired, simns=w.mono, steps=w.steps, digest=core.digest((w.log, r.status, r.value)),
                   probes=[f"fmt:{s['fmt']}" for s in case["steps"]])
