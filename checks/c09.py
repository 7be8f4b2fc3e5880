"""C09: a saved index is never served for different file content."""
import copy
import os

from simkit import core
from simkit.core import BaseCheck, Res, viol
from simkit.elfbuild import blob
from simkit.fsworld import World
from simkit.scratch import scratch

FILES = ["a.elf", "a.axf", "a.elf", "b.elf", "b.out", "c", "dir.x/a.elf"]
DB = ".prgdb"
SELF = "self" + DB      # an ELF file carrying the name of its own index


def stem(name):
    d, b = os.path.split(name)
    root, ext = os.path.splitext(b)
    return os.path.join(d, root) + DB


def edited(rng, desc):
    """A slightly different file: often of the same size."""
    d = copy.deepcopy(desc)
    k = rng.choice(["byte", "byte", "byte", "symbol", "value", "size", "info", "abiversion", "entry", "type", "machine", "flags", "secflags", "secaddr", "sectype", "segment", "note", "arm", "secname"])
    if k == "byte":
        ss = [s for s in d["sections"] if s.get("data") and blob(s["data"]) and s["name"] != ".comment"]
        if ss:
            s = max(ss, key=lambda x: len(blob(x["data"]))) if rng.random() < 0.5 else rng.choice(ss)
            b = bytearray(blob(s["data"]))
            at, bit = rng.choice([0, len(b) - 1, rng.randrange(len(b))]), 1 << rng.randrange(8)
            if isinstance(s["data"], str):
                b[at] ^= bit
                s["data"] = bytes(b).hex()
            else:
                s["data"] = s["data"] + [[at, bit]]
            return d
    if k in ("symbol", "value", "size") and d["symtab"] and len(d["symtab"]) > 1:
        y = rng.choice(d["symtab"][1:])
        if k == "symbol" and y["name"]:
            y["name"] = y["name"][:-1] + ("z" if y["name"][-1] != "z" else "y")
        else:
            y["size" if k == "size" else "value"] ^= 4
        return d
    if k == "type":
        d["type"] = d["type"] % 4 + 1
        return d
    if k == "machine":
        d["machine"] = {3: 62}.get(d["machine"], 3)
        return d
    if k == "segment" and d["segments"]:
        rng.choice(d["segments"])[rng.choice(["p_vaddr", "p_filesz", "p_flags"])] ^= 1
        return d
    if k == "note":
        ns = [n for s in d["sections"] for n in s.get("notes", ()) if n[2]]
        if ns:
            n = rng.choice(ns)
            n[2] = f"{int(n[2][:2], 16) ^ 0x10:02x}" + n[2][2:]
            return d
    if k == "arm":
        for s in d["sections"]:
            if "arm" in s:
                a = s["arm"][0][1][0]
                a[1] = a[1] + "x" if isinstance(a[1], str) else 0 if a[1] else 77 if a[0] == 7 else 2 if a[0] == 18 else 1
                return d
    if k == "secname" and d["sections"]:
        s = rng.choice(d["sections"])
        if len(s["name"]) > 2 and s["name"] != ".comment":
            s["name"] = s["name"][:-1] + ("q" if s["name"][-1] != "q" else "r")
            return d
    if k.startswith("sec") and d["sections"]:
        s = d["sections"][-1]
        if k == "secflags":
            s["flags"] ^= 0x10
        elif k == "sectype" and s["type"] == 1:
            s["type"] = 14
        elif k == "secaddr" and not s["flags"] & 2:
            s["addr"] ^= 0x40
        else:
            s["info"] ^= 1
        return d
    if k == "info" and d["sections"]:
        d["sections"][-1]["info"] ^= 1
        return d
    if k == "abiversion":
        d["abiversion"] ^= 1
        return d
    if k == "flags":
        d["flags"] ^= 1
        return d
    d["entry"] ^= 2
    return d


class Check(BaseCheck):
    id = "C09"
    rule = ("one run = a history of 8-30 operations (open, rewrite, rename, copy, delete, move and swap of ELF files and index files, over files sharing an index name) in 1-4 "
            "processes with clock jumps; every open compared with the content at that moment; distinct = (operation sequence, files, how versions differ); "
            "non-trivial = an open found an index made from other content")
    assumptions = ("files are not rewritten while an open is under way (that is C10)",
                   "index files found are complete: made by this library, or foreign databases, or no databases")
    real = ("objutils.elf, SQLAlchemy, SQLite, mmap, kernel tmpfs",)
    stub = ("clock (jumps both ways, time stamps restored by the history), pids, file-system calls pass the simulator",)
    runs = {"quick": 800, "thorough": 20000}
    shrink_lists = ("ops",)

    def setup(self):
        from simkit import elfnode
        elfnode.warm()

    def family(self, rng, i, tier):
        from simkit import elfbuild as eb
        descs = [eb.gen(rng, small=True)]
        if rng.random() < 0.12:     # beyond any buffer size
            ss = [s for s in descs[0]["sections"] if isinstance(s.get("data"), list) and not s["flags"] & 2]
            if ss:
                rng.choice(ss)["data"][1] = rng.choice([70000, 140000, 300000])
            else:
                descs[0]["sections"].append({"name": ".big", "type": 1, "flags": 0, "addr": 0, "link": 0, "info": 0, "align": 1, "entsize": 0,
                                             "data": [rng.getrandbits(32), rng.choice([70000, 140000, 300000])]})
        for _ in range(rng.randint(1, 3)):
            descs.append(edited(rng, rng.choice(descs)) if rng.random() < 0.75 else eb.gen(rng, small=True))
        files = rng.sample(FILES, rng.randint(1, 4))
        ops = [["write", files[0], 0, "plain"]]
        last = files[0]
        for _ in range(rng.randint(7, 30 if tier == "quick" else 60)):
            f = last if rng.random() < 0.6 else rng.choice(files)
            last = f
            k = rng.choice(["open"] * 8 + ["write"] * 6 + ["again", "again", "cp", "mv", "rm", "rm-index", "cp-index", "swap-index", "foreign", "clock", "process", "process", "touch"] + (["self"] if rng.random() < 0.15 else []))
            if k == "write":
                ops.append(["write", f, rng.randrange(len(descs)), rng.choice(["plain", "inplace", "rename", "keep-time", "keep-time", "past", "past", "future"])])
            elif k == "open":
                ops.append(["open", f, rng.randrange(3), rng.random() < 0.3])
            elif k == "again":
                ops.append(["again", rng.randrange(3)])
            elif k in ("cp", "mv"):
                ops.append([k, f, rng.choice(files)])
            elif k in ("cp-index", "swap-index"):
                ops.append([k, f, rng.choice(files)])
            elif k == "foreign":
                ops.append(["foreign", f, rng.choice(["tables", "meta-only", "meta-null", "text", "empty", "other-version", "binary", "header-only"])])
            elif k == "clock":
                ops.append(["clock", rng.choice([-10**9 * 86400 * 400, -10**9, 10**9, 10**9 * 86400 * 9000, -10**9 * 1700000000])])
            elif k == "process":
                ops.append(["process"])
            elif k == "self":
                ops.append(["self", SELF, rng.randrange(len(descs))])
            else:
                ops.append([k, f])
        ops.append(["open", rng.choice(files), 0, False])
        yield {"seed": rng.getrandbits(48), "descs": descs, "ops": ops, "faults": []}

    def execute(self, case):
        from simkit import elfbuild as eb, elfnode as en
        built = [eb.build(d) for d in case["descs"]]
        wants = [en.ref_report(ref) for _, ref in built]
        w = World(scratch(), case["seed"], case["faults"])
        os.makedirs(w.path("dir.x"))
        # split into processes; follow in a model what every file contains
        procs = [[]]
        have, slots = {}, {}
        stale = False
        made = {}
        disk = [have]       # per process: contents of all ELF files after it
        for op in case["ops"]:
            k = op[0]
            if k in ("process", "clock"):
                procs.append([])
                disk[-1] = dict(have)
                disk.append(have)
                slots = {}
                if k == "clock":
                    procs[-1].append(op)
                continue
            exp = None
            if k == "write":
                have[op[1]] = op[2]
            elif k == "open":
                exp = have.get(op[1])
                slots[op[2]] = exp
                if exp is None:
                    slots.pop(op[2])
                else:
                    s = stem(op[1])
                    if s in made and made[s] != built[exp][0]:
                        stale = True
                    made[s] = built[exp][0]
            elif k == "again":
                if op[1] not in slots:
                    continue
                exp = slots[op[1]]
            elif k in ("cp", "mv"):
                if op[1] not in have or op[1] == op[2]:
                    continue
                have[op[2]] = have[op[1]]
                if k == "mv":
                    have.pop(op[1])
            elif k == "rm":
                if op[1] not in have:
                    continue
                have.pop(op[1])
            elif k == "touch" and op[1] not in have:
                continue
            elif k == "self":
                have[op[1]] = exp = op[2]
            procs[-1].append(op + [exp])

        def runner(ops):
            def index_op(op):
                a, b = stem(op[1]), stem(op[2]) if len(op) > 3 else None
                if op[0] == "rm-index":
                    if os.path.exists(a):
                        os.unlink(a)
                elif a != b and os.path.exists(a):
                    da = open(a, "rb").read()
                    if op[0] == "swap-index" and os.path.exists(b):
                        db = open(b, "rb").read()
                        put(a, db, "rename")
                    put(b, da, "rename")

            def put(name, data, how):
                st = os.stat(name) if os.path.exists(name) else None
                if how in ("rename",):
                    with open(name + ".new", "wb") as f:
                        f.write(data)
                    os.replace(name + ".new", name)
                else:
                    with open(name, "r+b" if how == "inplace" and st else "wb") as f:
                        f.write(data)
                        f.truncate()
                if how == "keep-time" and st:
                    os.utime(name, ns=(st.st_atime_ns, st.st_mtime_ns))
                elif how in ("past", "future"):     # as unpacking an archive does
                    t = 1000000000 if how == "past" else 4000000000
                    os.utime(name, (t, t))

            def foreign(path, kind):
                import sqlite3
                if os.path.exists(path):
                    os.unlink(path)
                if kind == "text":
                    put(path, b"hello, I am not a database " * 50, "plain")
                elif kind == "empty":
                    put(path, b"", "plain")
                elif kind == "binary":
                    put(path, bytes(range(256)) * 40, "plain")
                elif kind == "header-only":
                    put(path, b"SQLite format 3\0" + b"\0" * 84, "plain")
                else:
                    c = sqlite3.connect(path)
                    if kind == "tables":
                        c.execute("create table person (id integer primary key, name text)")
                        c.execute("insert into person values (1, 'x')")
                    elif kind == "other-version":
                        c.execute("create table meta (rid integer primary key, hash_value varchar, ts_created datetime)")
                        c.execute("create table elf_header (rid integer primary key, ei_class integer)")
                        c.execute("insert into meta values (1, 'abc', null)")
                    else:
                        c.execute("create table meta (rid integer primary key, hash_value varchar, ts_created datetime)")
                        if kind == "meta-null":
                            c.execute("insert into meta values (1, null, null)")
                    c.commit()
                    c.close()

            def node():
                out = []
                eps = {}
                for op in ops:
                    k = op[0]
                    if k == "write":
                        put(op[1], built[op[2]][0], op[3])
                    elif k == "open":
                        eps.pop(op[2], None)
                        try:
                            ep = en.open_elf(op[1])
                        except Exception as e:  # noqa: BLE001
                            out.append((op, "raised", f"{type(e).__name__}: {e}"[:300]))
                            continue
                        if op[3]:
                            eps[op[2]] = ep
                            out.append((op, "ok", None))
                        else:
                            eps[op[2]] = ep
                            out.append((op, "ok", en.report(ep)))
                    elif k == "self":
                        if not os.path.exists(op[1]) or open(op[1], "rb").read() != built[op[2]][0]:
                            put(op[1], built[op[2]][0], "plain")
                        try:
                            out.append((op, "ok", en.report(en.open_elf(op[1]))))
                        except Exception as e:  # noqa: BLE001
                            out.append((op, "refused", f"{type(e).__name__}: {e}"[:300]))
                    elif k == "again":
                        if op[1] in eps:
                            out.append((op, "ok", en.report(eps[op[1]])))
                    elif k == "cp":
                        put(op[2], open(op[1], "rb").read(), "plain")
                    elif k == "mv":
                        os.replace(op[1], op[2])
                    elif k == "rm":
                        os.unlink(op[1])
                    elif k == "touch":
                        os.utime(op[1])
                    elif k == "foreign":
                        foreign(stem(op[1]), op[2])
                    elif k in ("rm-index", "cp-index", "swap-index"):
                        index_op(op)
                return out
            return node
        v = None
        outs = []
        nopen = 0
        try:
            for pn, ops in enumerate(procs):
                if ops and ops[0][0] == "clock":
                    w.real = max(10**9, w.real + ops[0][1])
                    w._fire("clock-jump")
                    ops = ops[1:]
                if not ops:
                    continue
                r = w.run(runner(ops))
                outs.append((r.status, r.value, r.exc))
                if r.status != "ok":
                    v = viol("ended", f"process {pn}: {r}")
                    break
                for op, st, rep in r.value:
                    exp = op[-1]
                    nopen += 1
                    if exp is None:
                        if st == "ok":
                            v = viol("ghost", f"open of missing {op[1]} succeeded")
                    elif st == "raised":
                        v = viol("raised", f"{op[:2]} (content {exp}): {rep}")
                    elif st == "ok" and rep is not None:
                        bad = en.diff(rep, wants[exp])
                        if bad:
                            served = [n for n, x in enumerate(wants) if en.diff(rep, x) is None]
                            v = viol("wrong-content", f"{op[0]} {op[1]} holding content {exp}: {bad}" + (f"; this is content {served}" if served else ""))
                    if v:
                        break
                for name, k in sorted(disk[pn].items()):
                    if v is None and w.get(name) != built[k][0]:
                        v = viol("altered", f"{name} was not left alone: {len(built[k][0])} bytes written, now {w.get(name) and len(w.get(name))}")
                if v:
                    break
        finally:
            w.cleanup()
        return Res(v, {}, sig=[o[:2] for o in case["ops"]], nontrivial=stale, fired=dict(w.fired), simns=w.mono, steps=w.steps, digest=core.digest((w.log, outs)),
                   probes=sorted({"op-" + o[0] for o in case["ops"]}))

    def brief(self, case):
        return {"seed": case["seed"], "versions": len(case["descs"]), "ops": case["ops"]}
