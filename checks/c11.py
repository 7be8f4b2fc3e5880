"""C11: storage errors while opening an ELF never yield wrong contents."""
from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.fsworld import World, mark
from simkit.scratch import scratch

ERRNOS = {"open": ["EACCES", "EMFILE", "ENOSPC", "EROFS", "EIO", "EINTR", "ENOENT", "ENFILE"], "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR"],
          "pwrite": ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR"], "read": ["EIO", "EINTR"], "pread": ["EIO", "EINTR"], "close": ["EIO", "ENOSPC"], "fsync": ["EIO", "ENOSPC"],
          "rename": ["EIO", "EACCES", "ENOSPC", "EROFS"], "unlink": ["EIO", "EACCES", "EROFS"], "lock": ["EAGAIN", "ENOLCK", "EIO", "EINTR"], "mmap": ["ENOMEM", "ENODEV", "EACCES"],
          "stat": ["EIO", "EACCES", "ENOENT", "ENOMEM"], "access": ["EACCES", "EIO"], "ftruncate": ["EIO", "ENOSPC"], "truncate": ["EIO"], "mkdir": ["EIO"], "chmod": ["EPERM"]}


class Check(BaseCheck):
    id = "C11"
    rule = ("one run = one process opening and querying an ELF file under one fault plan, again after the storage healed, then an open in a fresh process; distinct = (index "
            "before, operation kind and file the fault hit, error, persistence); non-trivial = a fault fired")
    assumptions = ("well-formed ELF file; an open or query may raise anything that is an Exception", "ENOENT/EACCES from stat mean the file is not there, as far as any program can tell")
    real = ("objutils.elf, SQLAlchemy, SQLite, CPython io and mmap, kernel tmpfs",)
    stub = ("the result of individual file-system calls (errors, short counts)",)
    runs = {"quick": 20, "thorough": 900}
    shrink_lists = ("faults", "ask", "desc.sections", "desc.symtab", "desc.segments")

    def setup(self):
        from simkit import elfnode
        elfnode.warm()

    def family(self, rng, i, tier):
        from checks.c09 import edited
        from simkit import elfbuild as eb, elfnode as en
        desc = eb.gen(rng, small=rng.random() < 0.6, big=rng.random() < 0.15)
        huge = i % 9 == 4
        if huge:        # more than SQLite's page cache holds: data reaches the disk before the commit
            desc["sections"].insert(rng.randrange(len(desc["sections"]) + 1), {"name": ".huge", "type": 1, "flags": 0, "addr": 0, "link": 0, "info": 0, "align": 1, "entsize": 0,
                                                                              "data": [rng.getrandbits(32), rng.randrange(2100000, 3500000)]})
            if desc["symtab"]:
                at = 1 + next(k for k, s in enumerate(desc["sections"]) if s["name"] == ".huge")
                desc["symtab"][-1]["shndx"] = at if len(desc["symtab"]) > 1 else 0
                for y in desc["symtab"]:
                    y["shndx"] = min(y["shndx"], len(desc["sections"])) if y["shndx"] < 0xFF00 else y["shndx"]
        _, ref = eb.build(desc)
        base = {"seed": rng.getrandbits(48), "desc": desc, "odesc": edited(rng, desc), "before": None if huge else rng.choice([None, None, "current", "current", "current", "stale", "garbage"]),
                "ask": [en.gen_question(rng, ref) for _ in range(5)], "faults": []}
        res = yield base
        if res.violation:
            return
        ops = res.info["ops"]
        ks = ks0 = list(range(len(ops)))
        if huge or tier == "quick" and len(ks) > 40:
            seen = {}
            for k in ks:
                seen.setdefault((ops[k][0], ops[k][1].rsplit(".", 1)[-1][:6]), []).append(k)
            ks = sorted({x for lst in seen.values() for x in [lst[0], lst[-1]] + rng.sample(lst, min(len(lst), 3))})
        if huge:
            ks = rng.sample(ks, min(len(ks), 5))
        for k in ks:
            kind = ops[k][0]
            errs = ERRNOS.get(kind, ["EIO"])
            for e in rng.sample(errs, 1 if tier == "quick" else min(3, len(errs))):
                f = {"act": "err", "at": k, "errno": e}
                if rng.random() < 0.45 and e != "EINTR":
                    f["sticky"] = rng.choice(["all", "kind", "out", "path"])
                yield dict(base, faults=[f])
            if kind in ("write", "pwrite", "read", "pread") and rng.random() < 0.4:
                fr = rng.choice([0.01, 0.5, 0.99])
                yield dict(base, faults=[{"act": "short", "at": k, "frac": fr}])
                yield dict(base, faults=[{"act": "short", "at": k, "frac": fr}, {"act": "err", "at": k + 1, "errno": "EIO" if "read" in kind else rng.choice(["ENOSPC", "EIO"]),
                                                                               "sticky": rng.choice(["all", "kind", "path"])}])
        if base["before"] == "current" and not huge:
            # the open itself goes well, the storage fails while a question is answered
            for _ in range(14):
                k = res.info["asks"][0][0] + rng.choice([0, 0, 0, 0, 1, 2])
                f = {"act": "err", "at": k, "errno": rng.choice(["EIO", "EIO", "ENOMEM"])}
                if rng.random() < 0.5:
                    f["sticky"] = rng.choice(["all", "kind", "path"])
                yield dict(base, ask=[en.gen_question(rng, ref)] + base["ask"][:2], faults=[f])
        first = res.info["asks"][0][0]      # the open ends here
        for _ in range(8 if huge else 0):
            kinds = rng.choice([("pwrite", "write"), ("pread", "read")])
            k = rng.choice([k for k in ks0 if ops[k][0] in kinds and k < first] or ks0)
            f = {"act": "err", "at": k, "errno": "EIO"}
            if rng.random() < 0.7:
                f["sticky"] = rng.choice(["out", "path", "kind"])
            yield dict(base, faults=[f])
        for _ in range(4):
            yield dict(base, faults=[{"act": "full", "cap": rng.choice([0, 100, 4096, 20000, 50000, rng.randrange(120000)])}])

    def execute(self, case):
        from simkit import elfbuild as eb, elfnode as en
        data, ref = eb.build(case["desc"])
        want = en.ref_report(ref)
        w = World(scratch(), case["seed"], case["faults"], armed=False)
        if any(s["name"] == ".huge" for s in case["desc"]["sections"]):
            w.max_steps = 400000
        v = None
        info = {}
        outs = []
        probes = set()
        try:
            if case["before"] == "garbage":
                w.put("p.prgdb", b"no database at all " * 300)
            elif case["before"]:
                w.put("p.elf", data if case["before"] == "current" else eb.build(case["odesc"])[0])
                r = w.run(lambda: en.open_elf("p.elf") and None)
                if r.status != "ok":
                    return Res(viol("raised", f"undisturbed open: {r}"), {}, digest=core.digest(w.log))
            w.put("p.elf", data)
            w.nodes = 0

            def attempt(f):
                try:
                    return "ok", f()
                except Exception as e:  # noqa: BLE001
                    return "raised", f"{type(e).__name__}: {e}"[:200]

            def node():
                out = []
                eps = []
                mark("arm")
                for rnd in range(2):
                    st, ep = attempt(lambda: en.open_elf("p.elf"))
                    out.append((rnd, "open", None, st, None if st == "ok" else ep))
                    if st == "ok":
                        eps.append(ep)
                        for n, q in enumerate(case["ask"]):
                            if rnd == 0:
                                mark(f"ask{n}")
                            out.append((rnd, "ask", q, *attempt(lambda: en.ask(ep, q))))
                        if rnd == 0:
                            mark(f"ask{len(case['ask'])}")
                        out.append((rnd, "report", None, *attempt(lambda: en.report(ep))))
                    if rnd == 0:
                        mark("heal")
                for ep in eps[:1]:
                    out.append((2, "report", None, *attempt(lambda: en.report(ep))))
                return out
            r = w.run(node)
            outs.append((r.status, r.value, r.exc))
            if r.status != "ok":
                v = viol("hang" if r.status in ("stuck", "steps", "cpu") else "ended", f"process with {case['faults']}: {r}"[:400])
            else:
                info["ops"] = [list(o) for o in r.ops[:r.marks.get("heal", len(r.ops))]]
                at = [r.marks.get(f"ask{n}", 0) for n in range(len(case["ask"]) + 1)] + [len(info["ops"])]
                info["asks"] = list(zip(at, at[1:]))
                for rnd, what, q, st, val in r.value:
                    when = ["under faults", "after the storage healed", "parser opened under faults, asked again later"][rnd]
                    if st == "raised" or (what == "ask" and q[0] == "image" and val[0] == "raised"):
                        probes.add(f"{what}-raised")
                        if rnd == 1:
                            v = viol("not-healed", f"{when}: {what} {q or ''} raised {val}"[:400])
                        elif not w.fired:
                            v = viol("raised", f"{what} {q or ''} raised {val}"[:400])
                    elif what == "report":
                        bad = en.diff(val, want)
                        if bad:
                            v = viol("wrong-report", f"{when}: {bad}")
                    elif what == "ask":
                        bad = en.judge(ref, q, val)
                        if bad:
                            v = viol(f"wrong-{q[0]}", f"{when}: {bad}")
                    if v:
                        break
            if v is None:
                r = w.run(lambda: en.report(en.open_elf("p.elf")))
                outs.append((r.status, r.value, r.exc))
                if r.status != "ok":
                    v = viol("next-open", f"healthy open in a fresh process: {r}"[:400])
                else:
                    bad = en.diff(r.value, want)
                    if bad:
                        v = viol("next-open", f"healthy open in a fresh process: {bad}")
        finally:
            w.cleanup()
        hit = []
        ops = info.get("ops", [])
        for f in case["faults"]:
            if "at" in f and f["at"] < len(ops):
                hit.append((ops[f["at"]][0], ops[f["at"]][1].rsplit(".", 1)[-1][:7], f.get("errno"), f.get("sticky"), f["at"]))
            else:
                hit.append(sorted(f.items()))
        return Res(v, info, sig=(case["before"], hit, case["desc"]["cls"]), nontrivial=bool(w.fired), fired=dict(w.fired), simns=w.mono, steps=w.steps,
                   digest=core.digest((w.log, outs)), probes=sorted(probes))

    def brief(self, case):
        return {k: case[k] for k in ("seed", "before", "ask", "faults")}
