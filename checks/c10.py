"""C10: concurrent opens of one ELF file each see correct contents."""
import os
import time

from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.fsworld import World, mark
from simkit.scratch import scratch


class Check(BaseCheck):
    id = "C10"
    rule = ("one run = 2-4 processes opening the same ELF file (once or repeatedly), optionally one replacing it, under one seeded interleaving of their file-system calls, with "
            "kills and stalls; then one undisturbed open; distinct = the sequence of (process, call, file) actually executed; non-trivial = at least two switches between processes")
    assumptions = ("the file is replaced by rename, or rewritten in place by one write call of equal size (a longer rewrite can be seen half done by any reader)", "an open may raise, e.g. because the index is locked")
    real = ("objutils.elf, SQLAlchemy, SQLite with its file locks and busy handler, kernel tmpfs and fcntl locks",)
    stub = ("order of file-system calls of all processes, sleep and clock",)
    runs = {"quick": 130, "thorough": 8000}
    shrink_lists = ("faults", "procs", "schedule.switches", "desc0.sections", "desc0.symtab")

    def setup(self):
        from simkit import elfnode
        elfnode.warm()

    def family(self, rng, i, tier):
        from checks.c09 import edited
        from simkit import elfbuild as eb
        d0 = eb.gen(rng, small=True)
        d1 = edited(rng, d0) if rng.random() < 0.6 else eb.gen(rng, small=True)
        d2 = edited(rng, d1)
        n = rng.choice([2, 2, 2, 3, 3, 4])
        procs = [{"do": "open", "times": rng.choice([1, 1, 2, 3]), "delay": rng.choice([0, 0, 0, 2, 10]), "keep": rng.random() < 0.5} for _ in range(n)]
        if rng.random() < 0.6:
            procs.append({"do": "rewrite", "seq": [rng.choice([0, 1, 2]) for _ in range(rng.randint(1, 4))], "delay": rng.choice([0, 1, 3, 6]), "inplace": rng.random() < 0.5})
        if rng.random() < 0.15:
            procs.append({"do": "rm-index", "delay": rng.choice([0, 2, 5])})
        base = {"seed": rng.getrandbits(48), "desc0": d0, "desc1": d1, "desc2": d2, "procs": procs, "before": rng.choice([None, None, "current", "stale", "garbage", "foreign"]),
                "faults": [], "schedule": {"seed": rng.getrandbits(32), "p": rng.choice([0.02, 0.05, 0.15, 0.4, 0.9])}}
        res = yield base
        if res.violation:
            return
        for _ in range(3 if tier == "quick" else 10):
            yield dict(base, seed=rng.getrandbits(48), schedule={"seed": rng.getrandbits(32), "p": rng.choice([0.02, 0.05, 0.15, 0.4, 0.9])})
        for _ in range(3 if tier == "quick" else 10):
            fs = []
            for k in range(rng.choice([1, 1, 2])):
                node = rng.randrange(n)
                at = rng.randrange(res.info["nops"][node] or 1)
                if rng.random() < 0.75:
                    fs.append({"act": "kill", "node": node, "at": at, "when": rng.choice(["before", "after", "partial"]), "frac": 0.5})
                else:
                    fs.append({"act": "stall", "node": node, "at": at, "ns": rng.choice([10**6, 10**9, 8 * 10**9])})
            yield dict(base, seed=rng.getrandbits(48), faults=fs, schedule={"seed": rng.getrandbits(32), "p": rng.choice([0.02, 0.05, 0.15, 0.4])})

    def execute(self, case):
        from simkit import elfbuild as eb, elfnode as en
        built = [eb.build(case[f"desc{k}"]) for k in range(3)]
        wants = [en.ref_report(ref) for _, ref in built]
        imgs = [eb.image_of(eb.image_sections(ref), False) for _, ref in built]
        w = World(scratch(), case["seed"], case["faults"], case["schedule"])
        keep, w.faults = w.faults, []
        current = [0]
        timeline = [(0, 0)]     # (log length, content) from when on
        spans = {}              # (node, k) -> [begin, end]
        v = None
        outs = []
        probes = set()
        try:
            if case["before"] == "garbage":
                w.put("p.prgdb", b"no database at all " * 300)
            elif case["before"] in ("current", "stale", "foreign"):
                name = "p.axf" if case["before"] == "foreign" else "p.elf"
                w.put(name, built[0 if case["before"] == "current" else 1][0])
                r = w.run(lambda: en.open_elf(name) and None)
                if r.status != "ok":
                    return Res(viol("raised", f"undisturbed open: {r}"), {}, digest=core.digest(w.log))
            w.put("p.elf", built[0][0])
            w.faults = keep
            w.nodes = 0

            def opener(p):
                def node():
                    if p["delay"]:
                        time.sleep(p["delay"] / 1000)
                    out, eps = [], []
                    for k in range(p["times"]):
                        mark(f"b{k}")
                        try:
                            ep = en.open_elf("p.elf")
                        except Exception as e:  # noqa: BLE001
                            mark(f"e{k}")
                            out.append(("raised", f"{type(e).__name__}: {e}"[:200], None))
                            continue
                        mark(f"e{k}")
                        try:
                            rep = en.report(ep)
                            try:
                                img = [(s.start_address, bytes(s.data)) for s in ep.create_image(join=False)]
                            except ValueError:
                                img = None
                        except Exception as e:  # noqa: BLE001
                            out.append(("raised", f"{type(e).__name__}: {e}"[:200], None))
                            continue
                        if p["keep"]:
                            eps.append(ep)
                        out.append(("ok", rep, img))
                    return out
                return node

            def rewriter(p):
                def node():
                    if p["delay"]:
                        time.sleep(p["delay"] / 1000)
                    if p["do"] == "rm-index":
                        try:
                            os.unlink("p.prgdb")
                        except FileNotFoundError:
                            pass
                        return None
                    for k in p["seq"]:
                        if p.get("inplace") and os.stat("p.elf").st_size == len(built[k][0]):
                            fd = os.open("p.elf", os.O_WRONLY)
                            os.write(fd, built[k][0])
                            os.close(fd)
                        else:
                            with open("p.new", "wb") as f:
                                f.write(built[k][0])
                            os.rename("p.new", "p.elf")
                        time.sleep(0.0015)
                    return None
                return node

            def on_step(node):
                for m in node.marks:
                    spans.setdefault((node.idx, m), len(w.log))
                if w.log and w.log[-1][1] in ("rename", "write") and w.log[-1][2].endswith("p.elf"):
                    data = w.get("p.elf")
                    k = next((n for n, (d, _) in enumerate(built) if d == data), None)
                    if k is not None and k != timeline[-1][1]:
                        timeline.append((len(w.log) - 1, k))
            names = [p["do"] for p in case["procs"]]
            rs = w.run_many([opener(p) if p["do"] == "open" else rewriter(p) for p in case["procs"]], names=names, on_step=on_step)
            for n, (p, r) in enumerate(zip(case["procs"], rs)):
                outs.append((r.status, r.value, r.exc))
                if r.status == "killed":
                    continue
                if r.status != "ok":
                    v = viol("hang" if r.status in ("stuck", "steps", "cpu") else "ended", f"process {n} ({p['do']}): {r}"[:400])
                    break
                if p["do"] != "open":
                    continue
                for k, (st, rep, img) in enumerate(r.value):
                    if st == "raised":
                        probes.add("open-raised " + rep[:60])
                        continue
                    b, e = spans[(n, f"b{k}")], spans[(n, f"e{k}")]
                    ok = {c for j, (t, c) in enumerate(timeline) if t <= e and (j + 1 == len(timeline) or timeline[j + 1][0] >= b - 1)}
                    bad = {c: en.diff(rep, wants[c]) for c in sorted(ok)}
                    good = [c for c in ok if bad[c] is None]
                    if not good:
                        served = [c for c in range(3) if en.diff(rep, wants[c]) is None]
                        v = viol("outdated" if served else "wrong-report", f"process {n}, open {k}: contents of the file meanwhile {sorted(ok)}, reported is "
                                 f"{served or 'none of them: ' + str(list(bad.values())[0])}")
                        break
                    if all(imgs[c] is not None and [tuple(x) for x in img or ()] != imgs[c] for c in good):
                        v = viol("wrong-image", f"process {n}, open {k}: program image differs")
                        break
                if v:
                    break
            if v is None:
                w.faults = []
                data = w.get("p.elf")
                cur = next((n for n, (d, _) in enumerate(built) if d == data), None)
                r = w.run(opener({"times": 1, "delay": 0, "keep": False}))
                outs.append((r.status, r.value, r.exc))
                if r.status != "ok" or r.value[0][0] != "ok":
                    v = viol("final", f"open after all of them: {r}"[:400])
                else:
                    bad = en.diff(r.value[0][1], wants[cur])
                    if bad:
                        v = viol("final", f"open after all of them (content {cur}): {bad}")
        finally:
            w.cleanup()
        sw = 0
        seq = []
        for e in w.log:
            if not seq or seq[-1][0] != e[0]:
                sw += 1
            seq.append((e[0], e[1], os.path.basename(e[2])[-6:]))
        nops = [r.nops for r in rs] if "rs" in dir() else []
        return Res(v, {"nops": nops, "switches": w.switches}, sig=core.digest(seq), nontrivial=sw > 3, fired=dict(w.fired), simns=w.mono, steps=w.steps,
                   digest=core.digest((w.log, outs)), probes=sorted(probes) + [f"processes-{len(case['procs'])}"])

    def brief(self, case):
        return {k: case[k] for k in ("seed", "procs", "before", "faults", "schedule")}
