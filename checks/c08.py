"""C08: a crash while indexing an ELF file never corrupts later opens."""
import os

from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.fsworld import World
from simkit.scratch import scratch


class Check(BaseCheck):
    id = "C08"
    rule = ("one run = a sequence of opens of one ELF file, some killed at one storage operation, then two undisturbed opens, all completed opens compared with the file; "
            "distinct = (what the index was before, killed operations with kind and path, way of the kill, size class); non-trivial = a kill fired")
    assumptions = ("a killed process loses nothing it has written (power loss is not simulated: the index is declared SYNCHRONOUS=OFF, it is a cache)", "well-formed ELF file")
    real = ("objutils.elf, SQLAlchemy, SQLite with its journal and locks, kernel tmpfs",)
    stub = ("the moment of death: _exit(137) before, after or inside (partial write) one file-system call",)
    runs = {"quick": 40, "thorough": 1200}
    shrink_lists = ("faults", "desc.sections", "desc.symtab", "desc.segments", "plan")

    def setup(self):
        from simkit import elfnode
        elfnode.warm()

    def family(self, rng, i, tier):
        from simkit import elfbuild as eb
        desc = eb.gen(rng, small=rng.random() < 0.5, big=rng.random() < 0.15)
        old = rng.choice([None, None, "older", "foreign", "garbage", "empty", "journal", "orphan"])
        base = {"seed": rng.getrandbits(48), "desc": desc, "old": old, "odesc": eb.gen(rng, small=True), "torn": rng.choice(["all", "symbol", "section", "-"]), "plan": ["open", "open", "open"], "faults": []}
        res = yield base
        if res.violation:
            return
        ops = res.info["ops"]
        n = len(ops)

        def kill(node, k=None):
            k = rng.randrange(n) if k is None else k
            return {"act": "kill", "node": node, "at": k, "when": rng.choice(["before", "after", "partial", "partial"] if ops[k][0] in ("write", "pwrite", "sendfile") else ["before", "after"]),
                    "frac": rng.choice([0.0, 0.3, 0.9])}
        # around operations that change what is on disk, and everywhere
        hot = [k for k, o in enumerate(ops) if o[0] in ("write", "pwrite", "sendfile", "rename", "unlink", "trunc", "ftruncate", "open", "creat", "fsync")]
        some = rng.sample(hot, min(len(hot), 14 if tier == "quick" else 60)) + [rng.randrange(n) for _ in range(5 if tier == "quick" else 25)]
        last = [k for k in hot if ops[k][0] in ("rename", "unlink", "sendfile")]
        last += [k for k in hot if ops[k][1].endswith(".prgdb") and k not in last][:4]
        for k in some + last:
            yield dict(base, seed=rng.getrandbits(48), faults=[kill(0, k)])
        for _ in range(4 if tier == "quick" else 30):
            m = rng.randint(2, 5)
            kills = [kill(j, rng.choice(hot) if rng.random() < 0.7 else None) for j in range(m)]
            plan = ["open"] * m + ["open", "open"]
            if rng.random() < 0.3:
                kills.pop(rng.randrange(len(kills)))
            if rng.random() < 0.3:
                plan.insert(rng.randint(1, m), "report")
            yield dict(base, seed=rng.getrandbits(48), plan=plan, faults=kills)

    def execute(self, case):
        from simkit import elfbuild as eb, elfnode as en
        data, ref = eb.build(case["desc"])
        want = en.ref_report(ref)
        w = World(scratch(), case["seed"], case["faults"])
        w.put("p.elf", data)
        old = case["old"]
        wants = [want]

        def opener():
            ep = en.open_elf("p.elf")
            return en.report(ep), [(s.start_address, bytes(s.data)) for s in ep.create_image(join=False)]

        mode = case.get("torn", "all")

        def torn_writer():
            import sqlite3
            c = sqlite3.connect("p.prgdb", isolation_level=None)
            c.execute("PRAGMA cache_size=1")
            c.execute("BEGIN")
            for (t,) in list(c.execute("SELECT name FROM sqlite_master WHERE type='table'")):
                if mode == "all" or mode in t:
                    c.execute(f"DELETE FROM {t}")
            c.execute("CREATE TABLE filler (x)")
            c.executemany("INSERT INTO filler VALUES (?)", [("y" * 3000,)] * 20)
            os._exit(0)
        v = None
        outs = []
        info = {}
        try:
            if old == "garbage":
                w.put("p.prgdb", b"this is not a database\n" * 400)
            elif old == "empty":
                w.put("p.prgdb", b"")
            elif old in ("older", "foreign", "journal", "orphan"):
                odata, _ = eb.build(case["odesc"])
                name = "p.axf" if old == "foreign" else "p.elf"
                w.put(name, odata)
                keep, w.faults = w.faults, []
                r = w.run(lambda: en.open_elf(name) and None)
                w.faults = keep
                w.nodes = 0
                if r.status != "ok":
                    return Res(viol("raised", f"open of the older file: {r}"), {}, sig=None, digest=core.digest(w.log))
                w.put("p.elf", data)
                if old in ("journal", "orphan"):    # a program writing to the index was killed
                    w.armed = False
                    w.run(torn_writer)
                    w.armed = True
                    w.nodes = 0
                    if old == "orphan":     # and its file removed by the user
                        os.unlink(w.path("p.prgdb"))
            for n, what in enumerate(case["plan"]):
                r = w.run(opener)
                outs.append((r.status, r.value, r.exc))
                if n == 0:
                    info["ops"] = [list(o) for o in r.ops]
                if r.status == "killed":
                    continue
                hist = f"open {n + 1} of {len(case['plan'])} ({sum(1 for o in outs[:-1] if o[0] == 'killed')} killed before; index before: {old})"
                if r.status == "exc":
                    v = viol("raised", f"{hist}: {r.exc['type']}: {r.exc['msg']}"[:400])
                elif r.status != "ok":
                    v = viol("hang" if r.status in ("stuck", "steps", "cpu") else "ended", f"{hist}: {r.status}")
                else:
                    rep, img = r.value
                    bad = en.diff(rep, want)
                    if bad:
                        v = viol("wrong-report", f"{hist}: {bad}")
                    else:
                        wi = eb.image_of(eb.image_sections(ref), False)
                        if wi is not None and [tuple(x) for x in img] != wi:
                            v = viol("wrong-image", f"{hist}: image differs")
                if v:
                    break
            left = [x for x in w.listdir() if x not in ("p.elf", "p.axf", "p.prgdb")]
        finally:
            w.cleanup()
        killed = sorted(k for k in w.fired if k.startswith("kill"))
        kp = []
        for f in case["faults"]:
            if f["act"] == "kill":
                kp.append((f["node"], f["when"], f["at"] // 4))
        return Res(v, info, sig=(old, len(case["plan"]), kp, case["desc"]["cls"], len(data) // 2000), nontrivial=bool(killed), fired=dict(w.fired), simns=w.mono, steps=w.steps,
                   digest=core.digest((w.log, outs)), probes=(["leftover-files"] if left else []) + [f"index-before-{old}"])

    def brief(self, case):
        return {k: case[k] for k in ("seed", "old", "plan", "faults")} | {"cls": case["desc"]["cls"], "sections": len(case["desc"]["sections"]), "symbols": len(case["desc"]["symtab"] or ())}


_ = os
