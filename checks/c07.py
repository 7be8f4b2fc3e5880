"""C07: an opened ELF file is reported exactly, the first and every later time."""
from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.fsworld import World
from simkit.scratch import scratch


class Check(BaseCheck):
    id = "C07"
    rule = ("one run = one generated ELF file, opened by several processes (index missing, present, deleted, made from the same content under another name), each asking "
            "random questions; distinct = (class, byte order, machine, table order, number of sections/segments/symbols/notes, steps, kinds of questions); "
            "non-trivial = an open from a saved index happened after a first one")
    assumptions = ("well-formed ELF files with fewer than 65280 sections and no value above 2**63 - 1 (larger ones make the open raise)",
                   "order of entries with equal keys, and which of several equally named entries get() returns, are not specified")
    real = ("objutils.elf, SQLAlchemy, SQLite, mmap, kernel tmpfs",)
    stub = ("file-system calls pass the simulator (short and interrupted reads and writes); ELF files come from an independent writer",)
    runs = {"quick": 800, "thorough": 20000}
    shrink_lists = ("desc.sections", "desc.symtab", "desc.dynsym", "desc.segments", "steps", "faults")

    def setup(self):
        from simkit import elfnode
        elfnode.warm()

    def family(self, rng, i, tier):
        from simkit import elfbuild as eb, elfnode as en
        desc = eb.gen(rng, big=i % 9 == 0)
        _, ref = eb.build(desc)

        def questions(n):
            return [en.gen_question(rng, ref) for _ in range(n)]
        steps = [{"op": "open", "name": "a.elf", "times": rng.choice([1, 1, 2]), "ask": questions(6)}]
        for _ in range(rng.randint(1, 3)):
            k = rng.choice(["open", "open", "open", "delete", "copy", "touch", "both", "pair"])
            if k == "open":
                steps.append({"op": "open", "name": "a.elf", "times": rng.choice([1, 2]), "ask": questions(6)})
            elif k == "both":
                steps.append({"op": "both", "ask": questions(4)})
            elif k == "pair":
                odesc = eb.gen(rng, small=True)
                _, oref = eb.build(odesc)
                steps.append({"op": "pair", "desc": odesc, "first": rng.random() < 0.5, "ask": questions(4), "oask": [en.gen_question(rng, oref) for _ in range(3)]})
            else:
                steps.append({"op": k})
                steps.append({"op": "open", "name": "b.axf" if k == "copy" else "a.elf", "times": 1, "ask": questions(4)})
        if steps[-1]["op"] != "open" or len([s for s in steps if s["op"] == "open"]) < 2:
            steps.append({"op": "open", "name": "a.elf", "times": 1, "ask": questions(6)})
        base = {"seed": rng.getrandbits(48), "desc": desc, "steps": steps, "faults": []}
        if rng.random() < 0.4:      # files of somebody else
            base["faults"] = [{"act": "ro", "path": p, "errno": rng.choice(["EACCES", "EROFS", "EPERM"])} for p in (".elf", ".axf")]
        yield base
        if i % 3:
            return
        f = [{"act": "chop", "kinds": ["read", "pread", "write", "pwrite"], "max": rng.choice([500, 3000])}]
        if rng.random() < 0.5:
            f.append({"act": "eintr", "p": 0.05})
        yield dict(base, seed=rng.getrandbits(48), faults=f, desc=eb.gen(rng), steps=[{"op": "open", "name": "a.elf", "times": 1, "ask": []}] * 2)

    def execute(self, case):
        from simkit import elfbuild as eb, elfnode as en
        data, ref = eb.build(case["desc"])
        want = en.ref_report(ref)
        w = World(scratch(), case["seed"], case["faults"])
        w.put("a.elf", data)
        v = None
        opens = 0
        outs = []
        probes = set()
        try:
            for n, st in enumerate(case["steps"]):
                if st["op"] == "delete":
                    import os
                    if os.path.exists(w.path("a.prgdb")):
                        os.unlink(w.path("a.prgdb"))
                    continue
                if st["op"] == "touch":
                    import os
                    os.utime(w.path("a.elf"), (1, 1))
                    continue
                if st["op"] == "copy":
                    w.put("b.axf", data)
                    continue

                oref = None
                if st["op"] == "pair":
                    odata, oref = eb.build(st["desc"])
                    w.put("other.elf", odata)
                    owant = en.ref_report(oref)

                def node():
                    out = []
                    if st["op"] == "pair":      # a different file, open at the same time
                        names = ["a.elf", "other.elf"] if st["first"] else ["other.elf", "a.elf"]
                        eps = {n: en.open_elf(n) for n in names}
                        for q in st["ask"]:
                            out.append(("ask", q, en.ask(eps["a.elf"], q)))
                        for q in st["oask"]:
                            out.append(("oask", q, en.ask(eps["other.elf"], q)))
                        out.append(("report", None, en.report(eps["a.elf"])))
                        out.append(("oreport", None, en.report(eps["other.elf"])))
                        out.append(("report", None, en.report(eps["a.elf"])))
                        return out
                    if st["op"] == "both":
                        eps = [en.open_elf("a.elf"), en.open_elf("a.elf")]
                        for q in st["ask"]:
                            out.append(("ask", q, en.ask(eps[len(out) % 2], q)))
                        for ep in eps:
                            out.append(("report", None, en.report(ep)))
                        return out
                    for _ in range(st["times"]):
                        ep = en.open_elf(st["name"])
                        out.append(("report", str(ep.machine_data), en.report(ep)))
                        for q in st["ask"]:
                            out.append(("ask", q, en.ask(ep, q)))
                        out.append(("report", str(ep.machine_data), en.report(ep)))
                    return out
                r = w.run(node)
                outs.append(r.value)
                if r.status == "exc":
                    v = viol("raised", f"step {n} ({st['op']}): {r.exc['type']}: {r.exc['msg']}"[:400])
                    break
                if r.status != "ok":
                    v = viol("ended", f"step {n}: process ended with {r.status}")
                    break
                opens += 1
                for k, q, ans in r.value:
                    if k[0] == "o":
                        bad = en.diff(ans, owant) if k == "oreport" else en.judge(oref, q, ans)
                    else:
                        bad = en.diff(ans, want) if k == "report" else en.judge(ref, q, ans)
                    if k.endswith("ask"):
                        probes.add("ask-" + q[0])
                    if bad:
                        when = "first open" if opens == 1 else f"open number {opens}"
                        v = viol("wrong-report" if k.endswith("report") else f"wrong-{q[0]}", f"{when}: {bad}")
                        break
                if v:
                    break
                mds = {q for k, q, _ in r.value if k == "report" and q}
                if len(mds) > 1:
                    v = viol("unstable", f"machine_data differs: {mds}")
                    break
                name = en.MACHINES.get(ref["header"]["e_machine"])
                if name and any(not m.startswith(name + " [") for m in mds) and st.get("name") != "other.elf":
                    v = viol("wrong-report", f"machine {name} is called {mds}")
                    break
        finally:
            w.cleanup()
        d = case["desc"]
        return Res(v, {}, sig=(d["cls"], d["end"], d["machine"], d["order"], len(d["sections"]), len(d["segments"]), len(d["symtab"] or ()), len(d["dynsym"] or ()), [s["op"] for s in case["steps"]],
                               sorted(probes), sorted(w.fired)), nontrivial=opens > 1, fired=dict(w.fired), simns=w.mono, steps=w.steps,
                   digest=core.digest((w.log, outs)), probes=probes)

    def brief(self, case):
        return {k: case[k] for k in ("seed", "steps", "faults")} | {"desc": {k: v for k, v in case["desc"].items() if k not in ("sections", "symtab", "dynsym")}, "sections": len(case["desc"]["sections"])}
