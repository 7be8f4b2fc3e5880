"""C18: DWARF debug information is decoded exactly and recorded once."""
import os

from simkit import core
from simkit import dwarfbuild as dw
from simkit import elfbuild as eb
from simkit.core import BaseCheck, Res, viol
from simkit import isolate
from simkit.fsworld import World, mark
from simkit.scratch import scratch

ERRNOS = {"open": ["EACCES", "EMFILE", "ENOSPC", "EIO"], "write": ["ENOSPC", "EIO", "EDQUOT"], "pwrite": ["ENOSPC", "EIO", "EDQUOT"], "read": ["EIO"], "pread": ["EIO"], "unlink": ["EIO", "EACCES"],
          "lock": ["EAGAIN", "ENOLCK", "EIO"], "ftruncate": ["EIO", "ENOSPC"], "fsync": ["EIO"], "stat": ["EIO"], "access": ["EACCES"], "mmap": ["ENOMEM"], "close": ["EIO"], "rename": ["EIO"]}


def ser(e):
    return [e.name, [[n, a.raw_value, a.display_value] for n, a in e.attributes], [ser(c) for c in e.children]]


def rows(ep):
    from objutils.elf import model
    return [[e.tag, [(a.name, a.raw_value) for a in e.attributes]] for e in ep.query(model.DebugInformationEntry).all()], ep.query(model.DIEAttribute).count()


def canon_rows(r):
    return sorted(([dw.canon_tag(t), sorted(((dw.canon_attr(n), v) for n, v in attrs), key=repr)] for t, attrs in r), key=repr)


def decode(ep, dp=None):
    from objutils.dwarf import DwarfProcessor
    dp = dp or DwarfProcessor(ep)
    r = dp.do_dbg_info()
    return {"tree": [ser(x) for x in r.die_entries], "map": sorted([off, e.name, [[n, a.raw_value, a.display_value] for n, a in e.attributes]] for off, e in r.die_map.items())}


def gen_bad(rng):
    kind = rng.choice(["code", "code", "long", "version", "form"])
    return [kind, rng.randrange(5)] + ([rng.choice([0, 1, 6, 77])] if kind == "version" else [])


class Check(BaseCheck):
    id = "C18"
    rule = ("one run = a history of processes decoding, re-decoding, racing and re-opening one ELF file with generated debug information, one of them killed, failing or interrupted at one "
            "point; distinct = (versions, byte order, class, steps, fault as placed); non-trivial = debug information was decoded")
    assumptions = ("32-bit DWARF, versions 2 to 5, forms objutils lists; location expressions of simple operations",
                   "a process killed while it decodes loses nothing it has written (no power loss)", "a decode under faults or in a race may raise")
    real = ("objutils.dwarf, objutils.elf, construct, SQLAlchemy, SQLite, kernel tmpfs",)
    stub = ("results of individual file-system calls, the moment of death or interruption, which process runs",)
    runs = {"quick": 200, "thorough": 6000}
    shrink_lists = ("faults", "steps", "a.units", "desc.sections", "desc.symtab", "desc.segments", "schedule.switches")

    def setup(self):
        from simkit import elfnode, hexnode
        import gc
        import random
        import shutil
        import tempfile
        import io
        import sys
        elfnode.warm()
        import objutils.dwarf  # noqa: F401
        tmp = tempfile.mkdtemp(prefix="objsim-warm-")
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            rng = random.Random(5)
            d = eb.gen(rng, small=True)
            d, _ = dw.attach(d, dw.gen(rng, d["cls"] == 64, True))
            p = os.path.join(tmp, "w.elf")
            with open(p, "wb") as f:
                f.write(eb.build(d)[0])

            def use():
                ep = elfnode.open_elf(p)
                decode(ep)
                rows(ep)
                ep.session.close()
                ep.db.close()
                del ep
            if isolate.harmless(use):
                use()
        except Exception:  # noqa: BLE001 - the runs will tell
            pass
        finally:
            sys.stdout = out
            shutil.rmtree(tmp, ignore_errors=True)
        hexnode.warm()
        gc.collect()
        gc.freeze()

    def family(self, rng, i, tier):
        desc = eb.gen(rng, small=True)
        b64 = desc["cls"] == 64
        plain = i % 7 != 0           # breadth of inputs; the others: histories and faults
        small = rng.random() < (0.2 if plain else 0.6)
        a, b = dw.gen(rng, b64, small), dw.gen(rng, b64, True)
        base = {"seed": rng.getrandbits(48), "desc": desc, "a": a, "b": b, "bad": None, "arm": rng.choice(["open", "decode", "decode", "decode"]), "faults": [], "line": None,
                "steps": [["decode", rng.choice([1, 1, 2, 3])], ["open"]], "target": 0, "schedule": None, "other": None}
        if plain:
            base["steps"] = [["decode", 1]]
            if rng.random() < 0.3:
                od = eb.gen(rng, small=True)
                base["other"] = [od, dw.gen(rng, od["cls"] == 64, True)]
            elif rng.random() < 0.15:
                base["bad"] = gen_bad(rng)
                base["steps"] = [["swap"], ["decode", 1]]
                base["target"] = 1
            res = yield base
            if not res.violation and rng.random() < 0.3:
                yield dict(base, line={"at": rng.randrange(max(1, res.info.get("lines") or 0)), "kind": "interrupt"})
            return
        pre = rng.choice([None, None, "decode", "open", "swap", "bad"])
        if pre in ("decode", "open"):
            base["steps"].insert(0, [pre, 1])
            base["target"] = 1
        elif pre == "swap":
            base["steps"] = [["decode", 1], ["swap"], ["open"]] + base["steps"]
            base["target"] = 3
        if rng.random() < 0.6:
            base["steps"] += [["decode", 1], ["open"]]
        if pre == "bad":
            base["bad"] = gen_bad(rng)
            base["steps"] = [["swap"], ["decode", 1], ["swap"], ["decode", 2], ["open"]]      # good, then damaged, then good content
            base["target"] = rng.choice([1, 3])
        res = yield base
        if res.violation:
            return
        ops, lines = res.info.get("ops") or [], res.info.get("lines") or 0
        hot = [k for k, o in enumerate(ops) if o[0] in ("write", "pwrite", "rename", "unlink", "ftruncate", "open", "lock")] or list(range(len(ops)))
        q = tier == "quick"
        for _ in range((5 if q else 30) if ops else 0):
            k = rng.choice(hot) if rng.random() < 0.8 else rng.randrange(len(ops))
            when = rng.choice(["before", "after", "partial"] if ops[k][0] in ("write", "pwrite") else ["before", "after"])
            yield dict(base, seed=rng.getrandbits(48), faults=[{"act": "kill", "node": "target", "at": k, "when": when, "frac": rng.choice([0.0, 0.4, 0.9])}])
        for _ in range((4 if q else 25) if ops else 0):
            k = rng.choice(hot) if rng.random() < 0.8 else rng.randrange(len(ops))
            f = {"act": "err", "node": "target", "at": k, "errno": rng.choice(ERRNOS.get(ops[k][0], ["EIO"]))}
            if rng.random() < 0.4:
                f["sticky"] = rng.choice(["all", "kind", "out", "path"])
            yield dict(base, seed=rng.getrandbits(48), faults=[f])
        for _ in range((4 if q else 25) if lines else 0):
            yield dict(base, seed=rng.getrandbits(48), line={"at": rng.randrange(lines), "kind": rng.choice(["interrupt", "memory"])})
        if pre != "bad":
            for _ in range(2 if q else 12):
                st = base["steps"][:base["target"]] + [["race", rng.choice([2, 2, 3])], ["open"], ["decode", 1], ["open"]]
                yield dict(base, seed=rng.getrandbits(48), steps=st, schedule={"seed": rng.getrandbits(32), "p": rng.choice([0.02, 0.1, 0.3, 0.6])})

    def execute(self, case):
        from simkit import elfnode as en
        from simkit.lineint import LineInjector
        versions = {}
        if not case["a"]["units"]:
            raise core.HarnessError("no units")
        for key in ("a", "b"):
            d, roots = dw.attach(case["desc"], case[key])
            data, ref = eb.build(d)
            versions[key] = (data, ref, roots)
        if case["bad"]:
            d, _ = dw.attach(case["desc"], case["a"], case["bad"])
            versions["b"] = (eb.build(d)[0], eb.build(d)[1], None)
        cur = "a"
        faults = []
        # node numbers are counted as they start: the target step's node
        idx = 0
        for k, st in enumerate(case["steps"]):
            if k == case["target"]:
                break
            idx += {"decode": 1, "open": 1, "race": st[1] if st[0] == "race" else 0, "swap": 0}[st[0]]
        for f in case["faults"]:
            faults.append(dict(f, node=idx) if f.get("node") == "target" else dict(f))
        w = World(scratch(), case["seed"], faults, schedule=case["schedule"], armed=False)
        w.max_steps = 200000
        w.put("p.elf", versions[cur][0])
        other = None
        if case["other"]:
            d, oroots = dw.attach(*case["other"])
            w.put("q.elf", eb.build(d)[0])
            other = oroots
        v = None
        info = {}
        outs = []
        have = []            # what the index may hold: list of acceptable row sets
        recorded = {"now": [[]]}
        probes = set()

        def inode():
            try:
                return os.stat(w.path("p.prgdb")).st_ino
            except FileNotFoundError:
                return None

        def check_rows(got, when):
            r, n = got
            c = canon_rows(r)
            if n != sum(len(a) for _, a in r):
                return viol("rows", f"{when}: {n} attributes recorded, {sum(len(a) for _, a in r)} of them belong to entries")
            if not any(c == k for k in recorded["now"]):
                return viol("rows", f"{when}: {len(c)} entries recorded, expected {[len(k) for k in recorded['now']]}; first difference {next((x for x in c if x not in recorded['now'][-1]), None)}"[:400])
            recorded["now"] = [c]
            return None

        def body(times, target, want_open):
            def node():
                out = []
                if target and case["arm"] == "open":
                    mark("arm")
                try:
                    ep = en.open_elf("p.elf")
                except Exception as e:  # noqa: BLE001
                    out.append(("open-raised", f"{type(e).__name__}: {e}"[:200]))
                    return out, 0
                if want_open:
                    out.append(("report", en.report(ep)))
                    out.append(("rows", rows(ep)))
                    return out, 0
                if target and case["arm"] == "decode":
                    mark("arm")
                dp = None
                if other:
                    from objutils.dwarf import DwarfProcessor
                    dp = DwarfProcessor(ep)
                    ep2 = en.open_elf("q.elf")
                    out.append(("other", decode(ep2)))
                    out.append(("decoded", decode(ep, dp)))
                li = LineInjector(case["line"]["at"] if target and case["line"] else None, case["line"]["kind"] if case["line"] else "interrupt")
                with li:
                    for _ in range(times):
                        try:
                            out.append(("decoded", decode(ep)))
                        except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                            out.append(("raised", f"{type(e).__name__}: {e}"[:200]))
                if li.fired:
                    out.append(("fired", li.fired))
                mark("heal")
                try:
                    out.append(("rows", rows(ep)))
                except Exception as e:  # noqa: BLE001
                    out.append(("rows-raised", f"{type(e).__name__}: {e}"[:200]))
                if target:
                    try:
                        out.append(("again", decode(ep)))
                    except Exception as e:  # noqa: BLE001
                        out.append(("again-raised", f"{type(e).__name__}: {e}"[:200]))
                return out, li.count
            return node

        def judge_decoded(val, roots, when):
            bad = dw.diff(val["tree"], roots)
            if bad is None:
                want = sorted(((e["off"], e) for e in dw.flat(roots)), key=lambda x: x[0])
                if [m[0] for m in val["map"]] != [x[0] for x in want]:
                    bad = f"offsets {[hex(m[0]) for m in val['map']]} instead of {[hex(x[0]) for x in want]}"[:300]
                else:
                    for m, (off, e) in zip(val["map"], want):
                        bad = bad or (None if dw.canon_tag(m[1]) == e["tag"] else f"entry at {off:x} is {m[1]}") or dw.diff_attrs(m[2], e["attrs"], f"entry at {off:x}")
            return viol("wrong-tree", f"{when}: {bad}"[:500]) if bad else None
        try:
            for k, st in enumerate(case["steps"]):
                data, ref, roots = versions[cur]
                full = None if roots is None else canon_rows([[t, a] for t, a in dw.rows_of(roots)])
                when = f"step {k + 1} {st}"
                if st[0] == "swap":
                    cur = "b" if cur == "a" else "a"
                    w.put("p.elf.new", versions[cur][0])
                    os.replace(w.path("p.elf.new"), w.path("p.elf"))
                    recorded["now"] = [[]]
                    continue
                target = k == case["target"]
                was = inode()
                quiet = not (target and (case["faults"] or case["line"]))
                if st[0] == "race":
                    rs = w.run_many([body(1, False, False) for _ in range(st[1])])
                    rs = [n for n in rs]
                else:
                    rs = [w.run(body(st[1] if st[0] == "decode" else 0, target, st[0] == "open"))]
                outs.append([(r.status, r.value, r.exc) for r in rs])
                done = False
                attempted = st[0] != "open"
                for r in rs:
                    if target:
                        info["ops"] = [list(o) for o in r.ops[:r.marks.get("heal", len(r.ops))]]
                        if r.status == "ok":
                            info["lines"] = r.value[1]
                    if r.status == "killed" and not quiet:
                        continue
                    if r.status != "ok":
                        v = viol("hang" if r.status in ("stuck", "steps", "cpu") else "ended", f"{when}: {r}"[:400])
                        break
                    for what, val in r.value[0]:
                        if what == "decoded":
                            if roots is None:
                                v = viol("accepted", f"{when}: debug information with {case['bad']} was decoded")
                            else:
                                v = judge_decoded(val, roots, when)
                            done = True
                        elif what in ("raised", "open-raised", "rows-raised", "again-raised"):
                            probes.add(what)
                            if what == "again-raised" and roots is not None and not case["faults"]:
                                v = viol("not-healed", f"{when}: decoding again after the fault raised {val}")
                            elif quiet and what != "again-raised" and st[0] != "race" and not (roots is None and what in ("raised", "again-raised")):
                                v = viol("raised", f"{when}: {what}: {val}")
                        elif what == "other":
                            v = judge_decoded(val, other, when + ", other file")
                        elif what == "again":
                            v = judge_decoded(val, roots, when + ", again after the fault") if roots is not None else viol("accepted", f"{when}: decoded")
                            done = True
                        elif what == "report":
                            bad = en.diff(val, en.ref_report(ref))
                            if bad:
                                v = viol("wrong-report", f"{when}: {bad}")
                        elif what == "rows" and st[0] != "race":
                            keep = list(recorded["now"])
                            if attempted and full is not None:
                                if any(x[0] == "decoded" for x in r.value[0]) and quiet:
                                    recorded["now"] = [full]
                                else:
                                    recorded["now"] = keep + [full] + ([[]] if inode() != was else [])
                            v = check_rows(val, when)
                            if not quiet:       # another decode may follow in this process
                                recorded["now"] = recorded["now"] + keep + ([full] if full is not None else [])
                        if v:
                            break
                    if v:
                        break
                if v:
                    break
                if attempted and full is not None:
                    if done and (quiet or rs[0].status == "ok"):
                        recorded["now"] = [full]
                    elif [] not in recorded["now"] or full not in recorded["now"]:
                        recorded["now"] = recorded["now"] + [full]
                    if inode() != was and not done:
                        recorded["now"] = recorded["now"] + [[]]
        finally:
            w.cleanup()
        fl = dict(w.fired)
        line = any(x[0] == "fired" for o in outs for s, val, _ in o if s == "ok" and val for x in val[0])
        if line:
            fl[case["line"]["kind"]] = 1
        if w.switches:
            fl["switch"] = len(w.switches)
        placed = [sorted((a, str(b)) for a, b in f.items() if a not in ("node",)) for f in case["faults"]] + ([case["line"]["at"] // 10] if case["line"] else [])
        return Res(v, dict(info, switches=w.switches if case["schedule"] else None), sig=([u["version"] for u in case["a"]["units"]], case["desc"]["end"], case["desc"]["cls"], case["steps"], placed, w.switches),
                   nontrivial=bool(fl) or any(s[0] == "decode" for s in case["steps"]), fired=fl, simns=w.mono, steps=w.steps, digest=core.digest((w.log, outs)),
                   probes=sorted(probes) + ([f"bad-{case['bad'][0]}"] if case["bad"] else []))

    def brief(self, case):
        return {k: case[k] for k in ("seed", "steps", "target", "arm", "bad", "faults", "line", "schedule")} | {"versions": [u["version"] for u in case["a"]["units"]]}
