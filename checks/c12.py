"""C12: the command-line tools produce complete output or fail."""
import re
import sys

from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.fsworld import World, mark
from simkit.scratch import scratch

SEG = {1: "LOAD", 2: "DYNAMIC", 3: "INTERP", 4: "NOTE", 6: "PHDR", 7: "TLS"}
SECT = {0: "NULL", 1: "PROGBITS", 2: "SYMTAB", 3: "STRTAB", 4: "RELA", 5: "HASH", 6: "DYNAMIC", 7: "NOTE", 8: "NOBITS", 9: "REL", 11: "DYNSYM", 14: "INIT_ARRAY", 15: "FINI_ARRAY"}
STT = {0: "NOTYPE", 1: "OBJECT", 2: "FUNC", 3: "SECTION", 4: "FILE", 5: "COMMON", 6: "TLS", 10: "GNU_IFUNC", 13: "LOPROC"}
STB = {0: "LOCAL", 1: "GLOBAL", 2: "WEAK", 10: "GNU_UNIQUE", 13: "LOPROC"}
HEXF = ["ihex", "srec", "shf", "titxt", "tek", "mostec", "sig", "emon52", "rca", "cosmac", "ash", "fpc", "etek"]


def call(tool, argv):
    """Run a tool's main() as the console script would."""
    import importlib
    mod = importlib.import_module("objutils.scripts." + tool)
    sys.argv = [tool] + argv
    return mod.main()


def check_syms(text, ref, args):
    from simkit import elfbuild as eb
    want = eb.select_symbols(ref, **{k: v for k, v in args.items() if k != "order"})
    groups = {}
    for s in want:
        groups.setdefault(s["section_name"], []).append(s)
    lines = text.split("\n")
    got, cur = {}, None
    k = 0
    rowre = re.compile(r"^([0-9a-f]{8,}) +(\d+) (\S+) +(\S+) +([A ][W ][X ])$")
    order = []
    while k < len(lines):
        if k + 3 < len(lines) and lines[k] == lines[k + 2] and set(lines[k]) <= {"="} and len(lines[k]) == len(lines[k + 1]) and lines[k + 3] == "" and k + 4 < len(lines) and lines[k + 4] == "Name":
            cur = lines[k + 1]
            order.append(cur)
            got.setdefault(cur, [])
            k += 7
            continue
        if cur is not None and k + 1 < len(lines):
            m = rowre.match(lines[k + 1])
            if m:
                got[cur].append((lines[k].rstrip(), int(m[1], 16), int(m[2]), m[3], m[4], m[5]))
                k += 2
                continue
        k += 1
    exp = {g: [(s["symbol_name"], s["st_value"], s["st_size"], STB[s["st_bind"]], STT[s["st_type"]],
                ("A" if s["access"] & 2 else " ") + ("W" if s["access"] & 1 else " ") + ("X" if s["access"] & 4 else " ")) for s in lst] for g, lst in groups.items()}
    if {g: sorted(x) for g, x in got.items()} != {g: sorted(x) for g, x in exp.items()}:
        for g in sorted(set(got) | set(exp)):
            a, b = sorted(got.get(g, [])), sorted(exp.get(g, []))
            if a != b:
                return f"symbols of {g!r} printed: {len(a)}, in the file: {len(b)}; e.g. {[x for x in a if x not in b][:1] or [x for x in b if x not in a][:1]}"
    if order != sorted(order):
        return f"sections printed in order {order}"
    key = 1 if args.get("order", "V") == "V" else 0
    for g, lst in got.items():
        ks = [x[key] for x in lst]
        if ks != sorted(ks):
            return f"symbols of {g!r} not ordered as requested"
    return None


def check_info(text, ref):
    h = ref["header"]
    for label, pat in (("Class", "64" if h["ei_class"] == 2 else "32"), ("Data", "(?i)little" if h["ei_data"] == 1 else "(?i)big")):
        m = re.search(rf"^{label}: +(.*)$", text, re.M)
        if not m or not re.search(pat, m[1]):
            return f"{label} printed as {m and m[1]!r}"
    m = re.search(r"^Type: +(\S+)", text, re.M)
    if not m or m[1] != {1: "REL", 2: "EXEC", 3: "DYN", 4: "CORE"}[h["e_type"]]:
        return f"Type printed as {m and m[1]!r}"
    rest = text
    i = rest.find("\nName                      Type")
    secs = []
    for line in rest[i + 1:].split("\n")[2:]:
        m = re.match(r"^(.*?) +(\S+) +([0-9a-f]{8,}) ([0-9a-f]{8,}) ([0-9a-f]{6,}) +(\d+)$", line)
        if not m:
            break
        secs.append((m[1].strip(), m[2], int(m[3], 16), int(m[4], 16), int(m[5], 16), int(m[6])))
    # (names of types the ABI does not define are not compared)
    other = {i for i, s in enumerate(ref["sections"]) if s["sh_type"] not in SECT}
    secs = [x[:1] + ("?",) + x[2:] if i in other else x for i, x in enumerate(secs)]
    want = [(s["section_name"].strip(), SECT.get(s["sh_type"], "?"), s["sh_addr"], s["sh_offset"], s["sh_size"], s["sh_addralign"]) for s in ref["sections"]]
    if secs != want:
        return f"sections printed {[x for x in secs if x not in want][:2]}, missing {[x for x in want if x not in secs][:2]} ({len(secs)} of {len(want)})"
    segs = [(m[1], *(int(x, 16) for x in m.groups()[1:6]), m[7], int(m[8])) for m in
            re.finditer(r"^(\S+) +0x([0-9a-f]+) 0x([0-9a-f]+) 0x([0-9a-f]+) 0x([0-9a-f]+) 0x([0-9a-f]+) ([R-][W-][X-]) +(\d+)$", text, re.M)]
    want = [(SEG[p["p_type"]], p["p_offset"], p["p_vaddr"], p["p_paddr"], p["p_filesz"], p["p_memsz"],
             ("R" if p["p_flags"] & 4 else "-") + ("W" if p["p_flags"] & 2 else "-") + ("X" if p["p_flags"] & 1 else "-"), p["p_align"]) for p in ref["segments"]]
    if segs != want:
        return f"segments printed {segs}, are {want}"[:400]
    if ref["comment"] and f"========\n.comment\n========\n\n{ref['comment']}\n" not in text:
        return f"comment {ref['comment']!r} not printed"
    notes = []
    for m in re.finditer(r"^=+\n(.*)\n=+\n\nType Name            Desc\n-+\n *(\d+) (\S*) +([0-9a-f]*)$", text, re.M):
        notes.append((m[1], m[3], int(m[2]), m[4]))
    if sorted(notes) != sorted(tuple(n) for n in ref["notes"]):
        return f"notes printed {notes}, are {ref['notes']}"[:400]
    return None


def check_arm(text, ref):
    from simkit.elfbuild import ARM_TAGS
    if not ref["arm"]:
        return None if "No .ARM.attributes section" in text else f"no attributes in the file, printed {text!r}"
    got = {}
    cur = None
    lines = text.split("\n")
    for k, ln in enumerate(lines):
        if 0 < k < len(lines) - 1 and lines[k - 1] == lines[k + 1] == "=" * len(ln) and ln:
            cur = got.setdefault(ln, [])
        m = re.match(r"^(Tag_\w+) +(.*)$", ln)
        if m and cur is not None:
            cur.append((m[1], m[2]))
    want = {v: [(t, str(x)) for t, x in attrs] for v, attrs in ref["arm"]}
    if set(got) != set(want):
        return f"vendors printed {sorted(got)}, in the file {sorted(want)}"
    for v, attrs in want.items():
        if len(got[v]) != len(attrs) or any(not n.startswith(ARM_TAGS[t][0]) or x != y for (n, x), (t, y) in zip(got[v], attrs)):
            return f"attributes of {v} printed {got[v]}, in the file {attrs}"
    return None


class Check(BaseCheck):
    id = "C12"
    rule = ("one run = one to three tool runs on one ELF or hex file (alone under storage faults, killed and re-run, or concurrently under a seeded interleaving), output file and "
            "printed text compared with an independent description of the input when the tool succeeds; distinct = (tools, options, index and output before, faults as fired, "
            "outcomes); non-trivial = a fault or kill fired, processes switched, or an older output/index was there")
    assumptions = ("sections of the extracted image do not overlap", "standard output itself does not fail", "oj_elf_info is run on files without debug sections (C18 covers decoding)")
    real = ("objutils.scripts, objutils.elf, writers, SQLAlchemy, SQLite, kernel tmpfs",)
    stub = ("file-system call results, kills, interleaving; standard output is a string buffer",)
    runs = {"quick": 100, "thorough": 2500}
    shrink_lists = ("faults", "tools", "desc.sections", "desc.symtab", "desc.segments", "schedule.switches")

    def setup(self):
        from simkit import elfnode
        elfnode.warm()
        from objutils.scripts import oj_elf_arm_attrs, oj_elf_extract, oj_elf_info, oj_elf_syms, oj_hex_info  # noqa: F401

    def gen_tool(self, rng, ref, k, conc):
        from simkit import elfnode as en
        snames = sorted({s["section_name"] for s in ref["sections"]})
        r = rng.random()
        if r < 0.55:
            t = {"tool": "oj_elf_extract", "type": rng.choice(["ihex", "ihex", "srec", "shf", "titxt"]), "join": rng.random() < 0.5, "out": f"out{k}.hex", "include": None, "exclude": None,
                 "old": rng.choice([None, "old content\n", "old content\n" * 900])}
            if rng.random() < 0.4:
                t[rng.choice(["include", "exclude"])] = en.gen_pattern(rng, snames)
            return t
        if r < 0.75:
            q = None
            while not q or q[0] != "symbols":
                q = en.gen_question(rng, ref)
            a = dict(q[1])
            a["order"] = "V" if a.pop("order_by_value") else "N"
            return {"tool": "oj_elf_syms", "args": a}
        if r < 0.9:
            return {"tool": "oj_elf_arm_attrs" if rng.random() < (0.7 if ref["arm"] and ref["header"]["e_machine"] in (40, 183) else 0.08) else "oj_elf_info"}
        from simkit.hexmodel import gen_image
        f = rng.choice(HEXF)
        return {"tool": "oj_hex_info", "fmt": f, "image": gen_image(rng, f, small=True), "dump": rng.random() < 0.3}

    def family(self, rng, i, tier):
        from simkit import elfbuild as eb
        while True:
            desc = eb.gen(rng, small=rng.random() < 0.5, tool=True)
            desc["sections"] = [s for s in desc["sections"] if not s["name"].startswith(".debug")]
            _, ref = eb.build(desc)
            if eb.image_of(eb.image_sections(ref)) is not None and (rng.random() < 0.9 or all(s["sh_type"] in SECT for s in ref["sections"])):
                break
        base = {"seed": rng.getrandbits(48), "desc": desc, "odesc": eb.gen(rng, small=True, tool=True), "before": rng.choice([None, None, "current", "stale"]), "faults": [],
                "schedule": None, "tools": [self.gen_tool(rng, ref, 0, False)], "rerun": False}
        res = yield base
        if res.violation:
            return
        ops = res.info["ops"]
        for _ in range(5):                # healthy storage: more tools and options on the same file
            res = yield dict(base, seed=rng.getrandbits(48), tools=[self.gen_tool(rng, ref, 0, False)])
            if res.violation:
                return
        from checks.c11 import ERRNOS
        n = len(ops)
        for _ in range(9 if tier == "quick" else 40):
            k = rng.randrange(n) if n else 0
            if rng.random() < 0.5 and n:      # near the end: where output is written
                k = n - 1 - rng.randrange(min(n, 6))
            kind = ops[k][0] if n else "open"
            r = rng.random()
            if r < 0.45:
                f = {"act": "err", "at": k, "errno": rng.choice(ERRNOS.get(kind, ["EIO"]))}
                if rng.random() < 0.5 and f["errno"] != "EINTR":
                    f["sticky"] = rng.choice(["all", "out", "kind", "path"])
                yield dict(base, faults=[f], rerun=True)
            elif r < 0.6 and kind in ("write", "pwrite"):
                yield dict(base, faults=[{"act": "short", "at": k, "frac": 0.5}, {"act": "err", "at": k + 1, "errno": "ENOSPC", "sticky": "out"}], rerun=True)
            elif r < 0.7:
                yield dict(base, faults=[{"act": "full", "cap": rng.choice([0, 10, 200, 5000, 40000, rng.randrange(120000)])}], rerun=True)
            else:
                yield dict(base, faults=[{"act": "kill", "at": k, "when": rng.choice(["before", "after", "partial"]), "frac": rng.random()}], rerun=True)
        for _ in range(4 if tier == "quick" else 15):
            tools = [self.gen_tool(rng, ref, k, True) for k in range(rng.choice([2, 2, 3]))]
            fs = []
            if rng.random() < 0.3:
                fs.append({"act": "kill", "node": 0, "at": rng.randrange(250), "when": rng.choice(["before", "after"])})
            yield dict(base, seed=rng.getrandbits(48), tools=tools, schedule={"seed": rng.getrandbits(32), "p": rng.choice([0.02, 0.1, 0.4])}, faults=fs, rerun=rng.random() < 0.3)

    def argv(self, t):
        if t["tool"] == "oj_elf_extract":
            a = ["-t", t["type"]] + (["-j"] if t["join"] else [])
            if t["include"]:
                a += ["-i", t["include"]]
            if t["exclude"]:
                a += ["-e", t["exclude"]]
            return a + ["--", "p.elf", t["out"]]
        if t["tool"] == "oj_elf_syms":
            a = []
            for k, o in (("sections", "-s"), ("name_pattern", "-p"), ("types_str", "-t"), ("access", "-a"), ("bindings", "-b"), ("order", "-o")):
                if t["args"].get(k):
                    a += [o + t["args"][k] if o == "-p" and t["args"][k].startswith("-") else o, t["args"][k]] if not t["args"][k].startswith("-") else [o + t["args"][k]]
            return a + ["p.elf"]
        if t["tool"] in ("oj_elf_info", "oj_elf_arm_attrs"):
            return ["p.elf"]
        return [t["fmt"], t["hexname"]] + (["-d"] if t["dump"] else [])

    def execute(self, case):
        from simkit import elfbuild as eb, elfnode as en
        from simkit.hexmodel import expand, joined
        data, ref = eb.build(case["desc"])
        w = World(scratch(), case["seed"], case["faults"], case["schedule"], armed=False)
        v = None
        outs = []
        info = {}
        outcomes = []
        try:
            tools = [dict(t) for t in case["tools"]]
            if case["before"]:
                w.put("p.elf", data if case["before"] == "current" else eb.build(case["odesc"])[0])
                w.run(lambda: en.open_elf("p.elf") and None)
            w.put("p.elf", data)
            for k, t in enumerate(tools):
                if t.get("old"):
                    w.put(t["out"], t["old"].encode())
                if t["tool"] == "oj_hex_info":
                    t["hexname"] = f"in{k}.hex"

                    def mk(t=t):
                        import objutils
                        from simkit.hexnode import make_image
                        objutils.dump(t["fmt"], t["hexname"], make_image(t["image"]))
                    r = w.run(mk)
                    if r.status != "ok":
                        return Res(viol("prepare", f"saving {t['fmt']}: {r}"), {}, digest=core.digest(w.log))
            w.nodes = 0
            if len(tools) > 1:
                w.armed = True
            args = [self.argv(t) for t in tools]

            def run(t, a):
                def node():
                    if len(tools) == 1:
                        mark("arm")
                    return call(t["tool"], a)
                return node

            def may_fail(t):
                """Refusing is fine: nothing to extract, addresses out of range, or section types without a name."""
                if t["tool"] == "oj_elf_extract":
                    secs = eb.image_of(eb.image_sections(ref, t["include"], t["exclude"]))
                    return not secs or t["type"] == "titxt" or max(a + len(d) for a, d in secs) > 1 << 32
                if t["tool"] == "oj_elf_arm_attrs":
                    return ref["header"]["e_machine"] not in (40, 183)
                return t["tool"] == "oj_elf_info" and any(s["sh_type"] not in SECT for s in ref["sections"])

            def judge(t, r, how):
                ok = r.status == "ok" or (r.status == "exit" and r.value == 0)
                outcomes.append((t["tool"], "ok" if ok else r.status))
                if r.status in ("stuck", "steps", "cpu") or r.status.startswith("signal"):
                    return viol("hang", f"{how}: {t['tool']}: {r.status}")
                if not ok:
                    return None
                txt = r.text or ""
                if t["tool"] == "oj_elf_syms":
                    bad = check_syms(txt, ref, t["args"])
                    return viol("wrong-listing", f"{how}: oj_elf_syms {t['args']}: {bad}"[:400]) if bad else None
                if t["tool"] == "oj_elf_arm_attrs":
                    bad = "printed attributes of a file for another machine" if may_fail(t) else check_arm(txt, ref)
                    return viol("wrong-listing", f"{how}: oj_elf_arm_attrs: {bad}"[:400]) if bad else None
                if t["tool"] == "oj_elf_info":
                    bad = check_info(txt, ref)
                    return viol("wrong-listing", f"{how}: oj_elf_info: {bad}"[:400]) if bad else None
                if t["tool"] == "oj_hex_info":
                    rows = [(int(m[1], 16), int(m[2])) for m in re.finditer(r"^\d+ +0x([0-9a-f]+) (\d+)$", txt, re.M)]
                    want = [(a, len(d)) for a, d in joined(expand(t["image"]))]
                    tot = re.search(r"^ +(\d+) total bytes", txt, re.M)
                    if sorted(rows) != want or not tot or int(tot[1]) != sum(x[1] for x in want):
                        return viol("wrong-listing", f"{how}: oj_hex_info printed {rows} / {tot and tot[1]}, file holds {want}"[:400])
                    return None
                secs = eb.image_sections(ref, t["include"], t["exclude"])
                want = eb.image_of(secs)
                if not want:
                    got = w.get(t["out"])
                    return viol("nothing", f"{how}: success although nothing is selected (output: {got is not None and len(got)} bytes)")
                keep, w.faults = w.faults, []

                def rd():
                    import objutils
                    return [(s.start_address, bytes(s.data)) for s in objutils.load(t["type"], t["out"])]
                r2 = w.run(rd)
                w.faults = keep
                if r2.status != "ok":
                    return viol("bad-output", f"{how}: oj_elf_extract {args} succeeded, output cannot be loaded: {r2.exc or r2.status}"[:400])
                if joined(r2.value) != joined(want):
                    return viol("wrong-output", f"{how}: oj_elf_extract succeeded, output holds {[(a, len(d)) for a, d in joined(r2.value)]}, allocated sections are {[(a, len(d)) for a, d in want]}"[:400])
                return None
            if len(tools) == 1:
                rs = [w.run(run(tools[0], args[0]), capture=True)]
                info["ops"] = [list(o) for o in rs[0].ops]
            else:
                rs = w.run_many([run(t, a) for t, a in zip(tools, args)], capture=True)
                info["switches"] = w.switches
            for r in rs:
                outs.append((r.status, r.value, r.exc, getattr(r, "text", None)))
            w.faults = []
            for t, r in zip(tools, rs):
                how = "alone" if len(tools) == 1 else "concurrently"
                v = judge(t, r, how)
                if not v and len(tools) == 1 and not w.fired and outcomes[-1][1] != "ok":
                    if not may_fail(t):
                        v = viol("failed", f"{t['tool']} {args[0]} failed on healthy storage: {r}"[:400])
                if v:
                    break
            if v is None and case["rerun"]:
                for t, a in zip(tools, args):
                    r = w.run(run(t, a), capture=True)
                    outs.append((r.status, r.value, r.exc, getattr(r, "text", None)))
                    v = judge(t, r, "re-run after the fault")
                    if not v and outcomes[-1][1] != "ok" and not may_fail(t):
                        v = viol("rerun-failed", f"{t['tool']} {a} failed on healthy storage after {case['faults']}: {r}"[:400])
                    if v:
                        break
        finally:
            w.cleanup()
        return Res(v, info, sig=([(t["tool"], t.get("type"), t.get("join"), bool(t.get("include")), bool(t.get("exclude")), t.get("fmt")) for t in case["tools"]], case["before"], sorted(w.fired), outcomes,
                                 case["faults"] and case["faults"][0].get("at", 0) // 8, w.switches[:20]),
                   nontrivial=bool(w.fired or w.switches or case["before"] or any(t.get("old") for t in case["tools"])), fired=dict(w.fired), simns=w.mono, steps=w.steps,
                   digest=core.digest((w.log, outs)), probes=sorted({f"{a}-{b}" for a, b in outcomes}))

    def brief(self, case):
        return {k: case[k] for k in ("seed", "tools", "before", "faults", "schedule", "rerun")}
