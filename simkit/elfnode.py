"""What simulated nodes do with ELF files: open, and report everything the reader says about the file."""
from simkit import elfbuild as eb


def warm():
    """Import everything, and use it once, so that forked nodes need not compile queries again."""
    import gc
    import os
    import random
    import shutil
    import tempfile

    from simkit import hexnode
    from simkit.isolate import harmless
    hexnode.warm()
    tmp = tempfile.mkdtemp(prefix="objsim-warm-")
    try:
        data, ref = eb.build(eb.gen(random.Random(1)))
        path = os.path.join(tmp, "w.elf")
        with open(path, "wb") as f:
            f.write(data)

        def use():
            ep = open_elf(path)
            report(ep)
            rng = random.Random(2)
            for _ in range(60):
                ask(ep, gen_question(rng, ref))
            ep.session.close()
            ep.db.close()
            del ep
        if harmless(use):
            try:
                use()
            except Exception:  # noqa: BLE001 - the code under test may be broken; the runs will tell
                pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    gc.collect()
    gc.freeze()


def open_elf(path):
    from objutils.elf import ElfParser
    return ElfParser(path)


def row(obj, names):
    return {n: getattr(obj, n) for n in names}


def flat_symbols(result):
    return [row(s, eb.SYMBOL + ["symbol_name", "section_name", "access"]) for lst in result.values() for s in lst]


def section_row(s):
    r = row(s, eb.SECTION + ["index", "section_name"])
    r["content"] = bytes(s.section_image or b"")
    return r


def canon(rep):
    """Comparable form: order of equal keys is not specified."""
    out = dict(rep)
    out["sections"] = sorted(rep["sections"], key=lambda s: s["index"])
    out["symbols"] = sorted(rep["symbols"], key=repr)
    # notes of one section keep their order; sections of one name may be reported in either order
    out["notes"] = sorted(tuple(n) for n in rep["notes"])
    out["arm"] = sorted(rep["arm"])
    return out


def arm_rows(attrs):
    """Vendors in any order, their attributes in the order of the file."""
    out = []
    for v, lst in sorted(attrs.items()):
        for a in lst:
            known = eb.ARM_TAGS.get(a.tag)
            if known and not str(a.tag_name).startswith(known[0]):
                raise ValueError(f"tag {a.tag} named {a.tag_name}")
        out.append([v, [[a.tag, a.value] for a in lst]])
    return out


PARTS = {
    "header": lambda ep: row(ep, eb.HEADER),
    "sections": lambda ep: [section_row(s) for s in ep.sections.fetch()],
    "segments": lambda ep: [row(p, eb.SEGMENT) for p in ep.segments],
    "symbols": lambda ep: [{k: v for k, v in r.items()} for r in flat_symbols(ep.symbols.fetch())],
    "comment": lambda ep: ep.comment,
    "notes": lambda ep: [(n.section_name, n.name, n.type, n.desc) for n in ep.notes],
    "arm": lambda ep: arm_rows(ep.arm_attributes),
}


def report(ep):
    """Everything, through the public interface."""
    return {name: part(ep) for name, part in PARTS.items()}


def ref_report(ref):
    r = dict(ref)
    r["symbols"] = [{k: y[k] for k in eb.SYMBOL + ["symbol_name", "section_name", "access"]} for y in ref["symbols"]]
    return r


def diff(got, want):
    """None, or what differs (a short text)."""
    g, w = canon(got), canon(want)
    for k in ("header", "segments", "comment", "notes", "arm", "sections", "symbols"):
        if g[k] != w[k]:
            if isinstance(g[k], dict):
                d = {x: (g[k].get(x), w[k].get(x)) for x in w[k] if g[k].get(x) != w[k].get(x)}
                return f"{k}: {d}"[:300]
            if isinstance(g[k], list):
                if len(g[k]) != len(w[k]):
                    return f"{k}: {len(g[k])} entries reported, {len(w[k])} in the file"
                for a, b in zip(g[k], w[k]):
                    if a != b:
                        if isinstance(a, dict):
                            d = {x: (a.get(x), b.get(x)) for x in b if a.get(x) != b.get(x)}
                            return f"{k}: {d}"[:300]
                        return f"{k}: {a} instead of {b}"[:300]
            return f"{k}: {g[k]!r} instead of {w[k]!r}"[:300]
    return None


# ---- questions: (asked in a node, answer checked against what the file contains) -----------------
SECTION_FLAGS = {"flag_writeable": 1, "flag_alloc": 2, "flag_executable": 4, "flag_merge": 0x10, "flag_strings": 0x20, "flag_info_link": 0x40, "flag_link_order": 0x80,
                 "flag_group": 0x200, "flag_tls": 0x400, "flag_os_nonconforming": 0x100, "flag_ordered": 0x40000000, "flag_exclude": 0x80000000}
SYMBOL_FLAGS = {"hidden": lambda y: y["st_other"] in (1, 2), "weak": lambda y: y["st_bind"] == 2, "absolute": lambda y: y["st_shndx"] == 0xFFF1,
                "undefined": lambda y: y["st_shndx"] == 0, "local": lambda y: y["st_bind"] == 0, "global_": lambda y: y["st_bind"] == 1,
                "writeable": lambda y: bool(y["access"] & 1), "executeable": lambda y: bool(y["access"] & 4), "allocate": lambda y: bool(y["access"] & 2)}


def section_flag(s, name):
    if name == "has_content":
        return s["sh_type"] not in (0, 8) and s["sh_size"] > 0
    if name == "is_debug":
        return s["section_name"].startswith(".debug")
    if name == "is_dwo":
        return s["section_name"].startswith(".dwo")
    return s["sh_flags"] & SECTION_FLAGS[name] == SECTION_FLAGS[name]


MACHINES = {3: "386", 62: "X86_64", 40: "ARM", 8: "MIPS", 20: "PPC", 83: "AVR", 183: "AARCH64"}
SECTION_PROPS = list(SECTION_FLAGS) + ["has_content", "is_debug", "is_dwo"]


def gen_pattern(rng, names):
    nm = rng.choice(sorted(n for n in names if n) or ["x"])
    import re
    return rng.choice([re.escape(nm), re.escape(nm) + "$", re.escape(nm[:3]), ".*" + re.escape(nm[-2:]), ".*" + re.escape(nm[-2:]) + "$", "[._a-f].*", "^[^.]", ".text|.data",
                       "(?i)" + re.escape(nm.upper()), ".", "nothing like this", "_.*", "main$", ".*[0-9]"])


def gen_question(rng, ref):
    snames = sorted({s["section_name"] for s in ref["sections"]})
    ynames = sorted({s["symbol_name"] for s in ref["symbols"]}) or [""]
    ysecs = sorted({s["section_name"] for s in ref["symbols"]}) or [".text"]
    plain = [s for s in snames if s and " " not in s and "," not in s] or [".text"]
    k = rng.choice(["symbols", "symbols", "symbols", "sections", "sections", "get-section", "get-symbol", "image", "image", "special", "debug", "section-prop", "symbol-prop", "part"])
    if k == "part":
        return [k, rng.choice(["header", "segments", "comment", "comment", "notes", "arm"])]
    if k == "sections":
        a = {}
        if rng.random() < 0.6:
            a["sections"] = rng.choice([",", " ", ", "]).join(rng.sample(plain, min(len(plain), rng.randint(1, 3))) + (["nope"] if rng.random() < 0.3 else []))
        if rng.random() < 0.6:
            a["name_pattern"] = gen_pattern(rng, snames)
        a["order_by_address"] = rng.random() < 0.5
        return [k, a]
    if k == "symbols":
        a = {}
        if rng.random() < 0.35:
            pool = [s for s in ysecs if " " not in s and "," not in s and s] or [".text"]
            a["sections"] = rng.choice([",", " ", ", "]).join(rng.sample(pool, min(len(pool), rng.randint(1, 3))))
        if rng.random() < 0.35:
            a["name_pattern"] = gen_pattern(rng, ynames)
        if rng.random() < 0.35:
            a["bindings"] = rng.choice([",", " "]).join(rng.sample(["g", "l", "w", "G", "L", "W"], rng.randint(1, 3)))
        if rng.random() < 0.35:
            a["access"] = rng.choice([",", " "]).join(rng.sample(["a", "w", "x", "A", "W", "X"], rng.randint(1, 2)))
        if rng.random() < 0.35:
            a["types_str"] = rng.choice([",", " "]).join(rng.sample(["notype", "object", "func", "section", "file", "common", "tls", "FUNC"], rng.randint(1, 3)))
        a["order_by_value"] = rng.random() < 0.5
        return [k, a]
    if k == "get-section":
        return [k, rng.choice(snames + ["nope"])]
    if k == "get-symbol":
        return [k, rng.choice(ynames + ["nope"]), rng.choice([None, None] + ysecs)]
    if k == "image":
        a = {"join": rng.random() < 0.6, "callback": rng.random() < 0.4}
        if rng.random() < 0.4:
            a["include_pattern"] = gen_pattern(rng, snames)
        if rng.random() < 0.3:
            a["exclude_pattern"] = gen_pattern(rng, snames)
        return [k, a]
    if k == "section-prop":
        return [k, rng.choice(SECTION_PROPS)]
    if k == "symbol-prop":
        return [k, rng.choice(sorted(SYMBOL_FLAGS))]
    return [k]


def ask(ep, q):
    from objutils.elf import model
    k = q[0]
    if k == "part":
        return PARTS[q[1]](ep)
    if k == "sections":
        return [section_row(s) for s in ep.sections.fetch(**q[1])]
    if k == "symbols":
        res = ep.symbols.fetch(**q[1])
        return [(name, [row(s, eb.SYMBOL + ["symbol_name", "section_name", "access"]) for s in lst]) for name, lst in res.items()]
    if k == "get-section":
        s = ep.sections.get(q[1])
        return None if s is None else section_row(s)
    if k == "get-symbol":
        s = ep.symbols.get(q[1], q[2]) if q[2] else ep.symbols.get(q[1])
        return None if s is None else row(s, eb.SYMBOL + ["symbol_name", "section_name", "access"])
    if k == "image":
        a = dict(q[1])
        seen = []
        if a.pop("callback"):
            a["callback"] = lambda state, section: seen.append((state, section and (section.sh_addr, section.section_name)))
        try:
            img = ep.create_image(**a)
        except Exception as e:  # noqa: BLE001
            return "raised", type(e).__name__, str(e)[:100]
        return [(s.start_address, bytes(s.data)) for s in img], seen
    if k == "special":
        return [row(s, eb.SYMBOL + ["symbol_name", "section_name", "access"]) for s in ep.symbols.fetch_gcc_special_symbols()]
    if k == "debug":
        return [(n, bytes(i.image or b""), i.section.section_name) for n, i in ep.debug_sections().items()]
    if k == "section-prop":
        objs = ep.query(model.Elf_Section).all()
        return [(s.index, bool(getattr(s, q[1]))) for s in objs], None if q[1].startswith("is_") else [s.index for s in ep.query(model.Elf_Section).filter(getattr(model.Elf_Section, q[1])).all()]
    if k == "symbol-prop":
        objs = ep.query(model.Elf_Symbol).all()
        return ([(row(s, eb.SYMBOL + ["symbol_name", "section_name", "access"]), bool(getattr(s, q[1])), s.symbol_bind.value, s.symbol_type.value) for s in objs],
                [row(s, eb.SYMBOL + ["symbol_name", "section_name", "access"]) for s in ep.query(model.Elf_Symbol).filter(getattr(model.Elf_Symbol, q[1])).all()])
    raise AssertionError(k)


def srt(rows):
    return sorted(rows, key=repr)


def judge(ref, q, ans):
    """None, or why the answer is wrong."""
    k = q[0]
    if k == "part":
        want = ref_report(ref)
        return diff(dict(want, **{q[1]: ans}), want)
    want_y = [{n: y[n] for n in eb.SYMBOL + ["symbol_name", "section_name", "access"]} for y in ref["symbols"]]
    yref = dict(ref, symbols=want_y)
    if k == "sections":
        a = dict(q[1])
        by = a.pop("order_by_address")
        want = eb.select_sections(ref, **a)
        if srt(ans) != srt(want):
            return f"sections.fetch({q[1]}) selected {sorted(s['index'] for s in ans)}, matching are {sorted(s['index'] for s in want)}"
        keys = [s["sh_addr" if by else "section_name"] for s in ans]
        return None if keys == sorted(keys) else f"sections.fetch({q[1]}) not in order: {keys}"[:300]
    if k == "symbols":
        a = dict(q[1])
        by = a.pop("order_by_value")
        want = eb.select_symbols(yref, **a)
        got = [s for _, lst in ans for s in lst]
        if srt(got) != srt(want):
            return f"symbols.fetch({q[1]}) selected {len(got)} symbols, matching are {len(want)}: only one side has {[s for s in got if s not in want][:1] or [s for s in want if s not in got][:1]}"[:400]
        names = [n for n, _ in ans]
        if names != sorted(set(names)):
            return f"symbols.fetch({q[1]}) groups are {names}"
        for n, lst in ans:
            if any(s["section_name"] != n for s in lst):
                return f"symbols.fetch({q[1]}): group {n} contains symbols of other sections"
            keys = [s["st_value" if by else "symbol_name"] for s in lst]
            if keys != sorted(keys):
                return f"symbols.fetch({q[1]}) not in order within {n}: {keys}"[:300]
        return None
    if k == "get-section":
        want = [s for s in ref["sections"] if s["section_name"] == q[1]]
        return None if (ans is None and not want) or ans in want else f"sections.get({q[1]!r}) = {ans}"[:300]
    if k == "get-symbol":
        want = [s for s in want_y if s["symbol_name"] == q[1] and (not q[2] or s["section_name"] == q[2])]
        return None if (ans is None and not want) or ans in want else f"symbols.get({q[1]!r}, {q[2]!r}) = {ans}"[:300]
    if k == "image":
        a = q[1]
        secs = eb.image_sections(ref, a.get("include_pattern"), a.get("exclude_pattern"))
        want = eb.image_of(secs, a["join"])
        if want is None:      # overlapping sections: refused, or left to the caller
            return None
        if ans[0] == "raised":
            return f"create_image({a}) raised {ans[1]}: {ans[2]}"
        if [tuple(x) for x in ans[0]] != want:
            return f"create_image({a}) = {[(x, len(y)) for x, y in ans[0]]}, allocated sections are {[(x, len(y)) for x, y in want]}"[:400]
        if a["callback"]:
            if [x[0] for x in ans[1]] != ["start"] + ["section"] * len(secs) + ["stop"]:
                return f"create_image({a}) announced {ans[1]}"[:300]
            said = [tuple(x[1]) for x in ans[1][1:-1]]
            if sorted(said) != sorted((s["sh_addr"], s["section_name"]) for s in secs) or [x[0] for x in said] != sorted(x[0] for x in said):
                return f"create_image({a}) announced {said}"[:300]
        return None
    if k == "special":
        want = [s for s in eb.gcc_special(yref)]
        vals = [s["st_value"] for s in ans]
        return None if srt(ans) == srt(want) and vals == sorted(vals) else f"fetch_gcc_special_symbols() = {[s['symbol_name'] for s in ans]}, are {[s['symbol_name'] for s in want]}"[:300]
    if k == "debug":
        want = {}
        for s in ref["sections"]:
            if s["section_name"].startswith(".debug"):
                want.setdefault(s["section_name"], []).append(s["content"])
        if sorted(n for n, _, _ in ans) != sorted(want) or any(n != m or i not in want[n] for n, i, m in ans):
            return f"debug_sections() = {[n for n, _, _ in ans]}, are {sorted(want)}"[:300]
        return None
    if k == "section-prop":
        want = {s["index"]: section_flag(s, q[1]) for s in ref["sections"]}
        if dict(ans[0]) != want or len(ans[0]) != len(want):
            return f"{q[1]} of sections: {[(i, v) for i, v in ans[0] if want.get(i) != v][:3]} wrong"
        if ans[1] is not None and sorted(ans[1]) != sorted(i for i, v in want.items() if v):
            return f"sections filtered by {q[1]}: {sorted(ans[1])}, are {sorted(i for i, v in want.items() if v)}"[:300]
        return None
    if k == "symbol-prop":
        f = SYMBOL_FLAGS[q[1]]
        if srt(x[0] for x in ans[0]) != srt(want_y):
            return f"{q[1]}: symbols missing"
        for y, v, b, t in ans[0]:
            if v != f(y) or b != y["st_bind"] or t != y["st_type"]:
                return f"{q[1]} of {y} is {v} (symbol_bind {b}, symbol_type {t})"[:300]
        if srt(ans[1]) != srt(y for y in want_y if f(y)):
            return f"symbols filtered by {q[1]}: {len(ans[1])}, are {sum(1 for y in want_y if f(y))}"
        return None
    raise AssertionError(k)
