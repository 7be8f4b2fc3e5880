"""Random well-formed DWARF 2-5 debug information (32-bit format), and what is in it (independent of objutils)."""
import random
import struct

from simkit import dwarfnames as dn

ATTR = {n: v for v, n in dn.ATTRIBUTES.items()}
TAG = {n: v for v, n in dn.TAGS.items()}
FORM = {n: v for v, n in dn.FORMS.items()}
EXPR_ATTRS = ["location", "frame_base", "data_member_location", "vtable_elem_location", "return_addr"]
INT_FORMS = ["data1", "data2", "data4", "data8", "udata", "sdata"]
BLOCKS = ["block", "block1", "block2", "block4"]
REFS = ["ref1", "ref2", "ref4", "ref8", "ref_udata"]
PLAIN = [n for n in ATTR if n not in EXPR_ATTRS and n not in dn.ENCODED and n != "discr_list"]
WORDS = ["int", "main", "x", "argc", "GNU C17 9.2.1", "/home/build/src", "a.c", "täst", "名前", "_ZN3fooEv", "", "unsigned long", "n" * 70, "_ZN" + "4type" * 60, "ö" * 140]
NO_DISPLAY = "-"


def uleb(v, pad=0):
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        if v or pad:
            out.append(b | 0x80)
            if not v:
                for _ in range(pad - 1):
                    out.append(0x80)
                out.append(0)
                break
        else:
            out.append(b)
            break
    return bytes(out)


def sleb(v):
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        if (v == 0 and not b & 0x40) or (v == -1 and b & 0x40):
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)


# ---- generator: JSON description ------------------------------------------------------------------
def gen_attr(rng, version):
    """[attribute number, form name]"""
    r = rng.random()
    v4, v5 = version >= 4, version >= 5
    if r < 0.15:
        return [ATTR["name"], rng.choice(["string", "strp", "strp"] + (["line_strp"] if v5 else []))]
    if r < 0.3:
        return [ATTR[rng.choice(sorted(dn.ENCODED))], rng.choice(INT_FORMS[:5] + (["implicit_const"] if v5 else []))]
    if r < 0.45:
        return [ATTR[rng.choice(EXPR_ATTRS)], rng.choice((["exprloc"] * 3 if v4 else BLOCKS) + INT_FORMS[:5] + (["sec_offset"] if v4 else []))]
    at = ATTR[rng.choice(PLAIN)] if rng.random() < 0.93 else 0x3E00 + rng.randrange(16)
    forms = INT_FORMS * 2 + BLOCKS + REFS + ["addr", "addr", "string", "strp", "flag", "ref_addr"]
    if v4:
        forms += ["sec_offset", "flag_present", "flag_present", "exprloc", "ref_sig8"]
    if v5:
        forms += ["line_strp"] + ["implicit_const"] * 5
    return [at, rng.choice(forms)]


def gen_int(rng, bits):
    return rng.choice([0, 1, 2, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, rng.getrandbits(bits), rng.getrandbits(max(1, bits // 2))])


def gen_expr(rng, b64):
    """[[op, operand...]...]"""
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(["addr", "addr", "fbreg", "fbreg", "plus_uconst", "const1u", "const2s", "const4u", "const8s", "constu", "consts", "breg", "lit", "call_frame_cfa"])
        if k == "addr":
            out.append([k, gen_int(rng, 64 if b64 else 32)])
        elif k in ("fbreg", "consts"):
            out.append([k, rng.choice([0, 1, 63, 64, -1, -64, -65, -20, 8191, -8192, rng.randrange(-1 << 31, 1 << 31)])])
        elif k in ("plus_uconst", "constu"):
            out.append([k, gen_int(rng, 32)])
        elif k == "const1u":
            out.append([k, gen_int(rng, 8)])
        elif k == "const2s":
            out.append([k, gen_int(rng, 16) - 0x8000])
        elif k == "const4u":
            out.append([k, gen_int(rng, 32)])
        elif k == "const8s":
            out.append([k, gen_int(rng, 64) - (1 << 63)])
        elif k == "breg":
            out.append([k, rng.randrange(32), rng.randrange(-300, 300)])
        elif k == "lit":
            out.append([k, rng.randrange(32)])
        else:
            out.append([k])
    return out


def gen_value(rng, at, form, addr_size, b64, enc):
    name = dn.ATTRIBUTES.get(at)
    if form == "flag_present":
        return None
    if form == "implicit_const":
        return None
    if name in EXPR_ATTRS and form in BLOCKS + ["exprloc"]:
        return gen_expr(rng, b64)
    if name in dn.ENCODED:
        tab = sorted(enc[name])
        return rng.choice(tab)
    if form in BLOCKS + ["exprloc"]:
        n = rng.choice([0, 1, 3, 20, 127, 128, 200] + ([300, 700] + ([16384, 33000] if rng.random() < 0.05 else []) if form not in ("block1",) else []))
        return [rng.getrandbits(32), n]
    if form in ("string", "strp", "line_strp"):
        return rng.choice(WORDS) if rng.random() < 0.98 else "/" + rng.choice("abc") * rng.choice([255, 256, 1023, 4095, 20000])
    bits = {"data1": 8, "data2": 16, "data4": 32, "data8": 64, "ref1": 8, "ref2": 16, "ref4": 32, "ref8": 63, "flag": 8, "ref_sig8": 64, "sec_offset": 32}.get(form)
    if form == "addr":
        bits = addr_size * 8
    if form == "ref_addr":
        bits = 32
    if bits:
        return rng.choice([0, 1]) if form == "flag" else gen_int(rng, bits)
    if form in ("udata", "ref_udata"):
        return rng.choice([0, 1, 127, 128, 129, 16383, 16384, rng.getrandbits(31), rng.getrandbits(64)])
    if form == "sdata":
        return rng.choice([0, 1, -1, 63, 64, -64, -65, 8191, 8192, -8192, rng.randrange(-1 << 63, 1 << 63), rng.randrange(-1 << 31, 1 << 31)])
    raise AssertionError(form)


def gen(rng, b64, small=False):
    """A JSON description of the debug information of one file."""
    d = {"tables": [], "units": [], "suffixes": rng.random() < 0.5}
    version = rng.choice([2, 3, 4, 4, 5, 5])
    mixed = rng.random() < 0.3
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.randint(2, 4 if small else 9)
        codes = rng.sample(range(1, n + 1), n) if rng.random() < 0.6 else rng.sample([1, 2, 3, 5, 17, 63, 64, 127, 128, 200, 1000, 16384, 70000], n)
        if rng.random() < 0.5:
            codes.sort()
        t = {"min": rng.choice([2, 3, 4, 5]) if mixed else version, "decls": []}
        for k, c in enumerate(codes):
            tag = rng.choice(sorted(dn.TAGS)) if rng.random() < 0.95 else 0x5000 + rng.randrange(100)
            attrs = [gen_attr(rng, t["min"]) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            for a in attrs:
                if a[1] == "implicit_const":
                    a.append(rng.choice([0, 1, 63, 64, -1, -2, -64, -65, 4, 1000, -70000]))
            t["decls"].append([c, tag, k % 2 == 0, attrs])
        d["tables"].append(t)
    enc = ENC
    for _ in range(rng.choice([1, 1, 2, 3]) if small else rng.choice([1, 2, 3, 5])):
        ti = rng.randrange(len(d["tables"]))
        t = d["tables"][ti]
        v = rng.choice([x for x in (2, 3, 4, 5) if x >= t["min"]]) if mixed else version
        size = rng.choice([8 if b64 else 4] * 5 + [4])
        u = {"version": v, "addr": size, "table": ti, "skip": rng.choice([0] * 9 + [1]) if len(t["decls"]) > 2 else 0, "type": rng.choice([1, 1, 1, 3, 2, 4, 5, 6]) if v == 5 else 1,
             "sig": rng.getrandbits(64), "toff": rng.getrandbits(8), "pad": rng.choice([0, 0, 0, 1, 3]), "tree": None}
        budget = [rng.choice([1, 3, 8] if small else [1, 5, 15, 30])]
        decls = t["decls"][u["skip"]:]

        def die(depth, must=False):
            budget[0] -= 1
            ks = [k for k, x in enumerate(decls) if x[2]] if must else range(len(decls))
            k = rng.choice(list(ks) or [0])
            c, tag, ch, attrs = decls[k]
            e = {"k": k + u["skip"], "v": [gen_value(rng, a[0], a[1], size, b64, enc) for a in attrs], "c": [], "lp": rng.choice([0] * 9 + [1, 2])}
            if ch:
                for _ in range(rng.choice([0, 1, 2, 4, 8])):
                    if budget[0] > 0 and depth < 7:
                        e["c"].append(die(depth + 1, rng.random() < 0.4))
            return e
        u["tree"] = die(0, True)
        d["units"].append(u)
    return d


ENC = {k: {v: n for v, n in t.items()} for k, t in dn.ENCODED.items()}
# values objutils has no name for, or another spelling
for _k, _vs in (("encoding", (0x11, 0x12)), ("calling_convention", (4, 5)), ("defaulted", (0, 1, 2))):
    for _v in _vs:
        ENC[_k] = {v: n for v, n in ENC[_k].items() if v != _v} or {0: None}


# ---- builder ------------------------------------------------------------------------------------
class Strings:
    def __init__(self, suffixes):
        self.data, self.suffixes = bytearray(b"\0first\0"), suffixes

    def add(self, s):
        b = s.encode("utf8") + b"\0"
        if self.suffixes:
            p = self.data.find(b)
            if p >= 0:
                return p
        p = len(self.data)
        self.data += b
        return p


def fmt_op(name, *vals):
    return f"{name}({', '.join(f'0x{v:08x}' if v > 0 else str(v) for v in vals)})"


def expr_bytes(ops, e, b64):
    out, text = b"", []
    for op in ops:
        k = op[0]
        if k == "addr":
            out += b"\x03" + struct.pack(e + ("Q" if b64 else "I"), op[1])
        elif k == "fbreg":
            out += b"\x91" + sleb(op[1])
        elif k == "plus_uconst":
            out += b"\x23" + uleb(op[1])
        elif k == "const1u":
            out += b"\x08" + struct.pack("B", op[1])
        elif k == "const2s":
            out += b"\x0b" + struct.pack(e + "h", op[1])
        elif k == "const4u":
            out += b"\x0c" + struct.pack(e + "I", op[1])
        elif k == "const8s":
            out += b"\x0f" + struct.pack(e + "q", op[1])
        elif k == "constu":
            out += b"\x10" + uleb(op[1])
        elif k == "consts":
            out += b"\x11" + sleb(op[1])
        elif k == "breg":
            out += bytes([0x70 + op[1]]) + sleb(op[2])
            text.append(fmt_op(f"breg{op[1]}", op[2]))
            continue
        elif k == "lit":
            out += bytes([0x30 + op[1]])
            text.append(fmt_op(f"lit{op[1]}"))
            continue
        elif k == "call_frame_cfa":
            out += b"\x9c"
        text.append(fmt_op(k, *op[1:]))
    return out, "; ".join(text)


def build(d, end, b64, bad=None):
    """({section name: bytes}, [root entries]); entry: {"off", "tag", "attrs": [[name, raw, display]], "children"}.
    bad: ["code" | "long" | "version" | "form", unit index]: a file which must be refused."""
    e = end
    strs, lstrs = Strings(d["suffixes"]), Strings(d["suffixes"])
    abbrev = bytearray()
    starts = []
    for t in d["tables"]:
        st = []
        for c, tag, ch, attrs in t["decls"]:
            st.append(len(abbrev))
            abbrev += uleb(c) + uleb(tag) + (b"\1" if ch else b"\0")
            for a in attrs:
                abbrev += uleb(a[0]) + uleb(FORM[a[1]])
                if a[1] == "implicit_const":
                    abbrev += sleb(a[2])
            abbrev += b"\0\0"
        abbrev += b"\0"
        starts.append(st)
    badtable = len(abbrev)
    if bad and bad[0] == "form":
        abbrev += uleb(1) + uleb(0x11) + b"\0" + uleb(3) + uleb(FORM["strx1"]) + b"\0\0\0"
    info = bytearray()
    roots = []
    for ui, u in enumerate(d["units"]):
        base = len(info)
        is_bad = bad is not None and bad[1] % len(d["units"]) == ui
        v = u["version"]
        decls = d["tables"][u["table"]]["decls"]
        aoff = starts[u["table"]][u["skip"]]
        if is_bad and bad[0] == "form":
            aoff = badtable
        if v < 5:
            head = struct.pack(e + "HIB", v, aoff, u["addr"])
        else:
            head = struct.pack(e + "HBBI", v, u["type"], u["addr"], aoff)
            if u["type"] in (4, 5):
                head += struct.pack(e + "Q", u["sig"])
            elif u["type"] in (2, 6):
                head += struct.pack(e + "QI", u["sig"], u["toff"])
        if is_bad and bad[0] == "version":
            head = struct.pack(e + "H", bad[2]) + head[2:]
        body = bytearray(head)

        def die(x):
            c, tag, ch, attrs = decls[x["k"]]
            out = {"off": base + 4 + len(body), "tag": dn.TAGS.get(tag, f"User TAG value: 0x{tag:04x}"), "attrs": [], "children": []}
            body.extend(uleb(c, x["lp"]))
            for a, val in zip(attrs, x["v"]):
                at, form = a[0], a[1]
                name = dn.ATTRIBUTES.get(at, f"Unknown AT value (0x{at:04x})")
                raw, disp = val, NO_DISPLAY
                if form == "flag_present":
                    raw = 1
                elif form == "implicit_const":
                    raw = a[2]
                elif form in BLOCKS + ["exprloc"]:
                    if name in EXPR_ATTRS:
                        raw, disp = expr_bytes(val, e, b64)
                    else:
                        raw = random.Random(val[0]).randbytes(val[1])
                        disp = raw
                    n = len(raw)
                    body.extend({"block": uleb(n), "exprloc": uleb(n), "block1": struct.pack("B", n & 255), "block2": struct.pack(e + "H", n), "block4": struct.pack(e + "I", n)}[form] + raw)
                elif form == "string":
                    body.extend(val.encode("utf8") + b"\0")
                elif form == "strp":
                    body.extend(struct.pack(e + "I", strs.add(val)))
                elif form == "line_strp":
                    body.extend(struct.pack(e + "I", lstrs.add(val)))
                elif form in ("data1", "flag", "ref1"):
                    body.extend(struct.pack(e + "B", val))
                elif form in ("data2", "ref2"):
                    body.extend(struct.pack(e + "H", val))
                elif form in ("data4", "ref4", "sec_offset"):
                    body.extend(struct.pack(e + "I", val))
                elif form in ("data8", "ref8", "ref_sig8"):
                    body.extend(struct.pack(e + "Q", val))
                elif form == "addr":
                    body.extend(struct.pack(e + {1: "B", 2: "H", 4: "I", 8: "Q"}[u["addr"]], val))
                elif form == "ref_addr":
                    body.extend(struct.pack(e + ("Q" if v == 2 and u["addr"] == 8 else "I"), val))
                elif form in ("udata", "ref_udata"):
                    body.extend(uleb(val))
                elif form == "sdata":
                    body.extend(sleb(val))
                else:
                    raise AssertionError(form)
                if form in REFS and name not in dn.ENCODED and name not in EXPR_ATTRS:
                    raw = val + base
                    disp = f"0x{raw:08x}"
                elif form in ("string", "strp", "line_strp", "data1", "data2", "data4", "data8", "udata", "sdata", "addr", "flag") and name not in dn.ENCODED and name not in EXPR_ATTRS:
                    disp = raw
                elif name in dn.ENCODED and form != "implicit_const" and ENC[name].get(raw):
                    disp = f"{ENC[name][raw]} (0x{raw:08x})"
                out["attrs"].append([name, raw, disp])
            if ch:
                for y in x["c"]:
                    out["children"].append(die(y))
                body.extend(b"\0")
            return out
        if is_bad and bad[0] == "form":
            body.extend(b"\1\0")
        else:
            roots.append(die(u["tree"]))
            if is_bad and bad[0] == "code":       # a code this table does not declare (another one may)
                mine = {x[0] for x in decls[u["skip"]:]}
                others = sorted({x[0] for t in d["tables"] for x in t["decls"]} - mine) or [99991]
                body.extend(uleb(others[0]) + b"\0" * 8)
        body.extend(b"\0" * u["pad"])
        if is_bad and bad[0] == "long":
            info += b"\xff\xff\xff\xff" + struct.pack(e + "Q", len(body)) + body
        else:
            info += struct.pack(e + "I", len(body)) + body
    return {".debug_info": bytes(info), ".debug_abbrev": bytes(abbrev), ".debug_str": bytes(strs.data), ".debug_line_str": bytes(lstrs.data)}, roots


def attach(desc, dwarf, bad=None):
    """The ELF description `desc` with debug sections; (description, roots)."""
    import copy
    desc = copy.deepcopy(desc)
    secs, roots = build(dwarf, desc["end"], desc["cls"] == 64, bad)
    for n, b in secs.items():
        desc["sections"].append({"name": n, "type": 1, "flags": 0, "addr": 0, "link": 0, "info": 0, "align": 1, "entsize": 0, "data": b.hex()})
    return desc, roots


# ---- comparable forms ------------------------------------------------------------------------------
ALIAS = {"template_type_param": "template_type_parameter", "template_value_param": "template_value_parameter", "import_": "import"}


def canon_tag(text):
    if text.startswith("User TAG value: 0x"):
        v = int(text.rsplit("0x", 1)[1], 16)
        return dn.TAGS.get(v, text)
    return ALIAS.get(text, text)


def canon_attr(text):
    return ALIAS.get(text, text)


def diff(got, want, where=""):
    """None, or how the returned trees differ.  got: [[tag, [[name, raw, display]], children]]"""
    if len(got) != len(want):
        return f"{where or 'top level'}: {len(got)} entries returned ({[g[0] for g in got][:6]}), {len(want)} in the file ({[w['tag'] for w in want][:6]})"
    for g, w in zip(got, want):
        here = f"{where}/{w['tag']}@{w['off']:x}"
        if canon_tag(g[0]) != w["tag"]:
            return f"{here}: reported as {g[0]}"
        bad = diff_attrs(g[1], w["attrs"], here)
        if bad:
            return bad
        bad = diff(g[2], w["children"], here)
        if bad:
            return bad
    return None


def diff_attrs(got, want, here):
    if len(got) != len(want):
        return f"{here}: {len(got)} attributes reported, {len(want)} in the file"
    for (gn, gr, gd), (wn, wr, wd) in zip(got, want):
        if canon_attr(gn) != wn:
            return f"{here}: attribute {gn} instead of {wn}"
        if gr != wr or type(gr) is not type(wr):
            return f"{here}: {wn} = {gr!r} instead of {wr!r}"[:400]
        if wd != NO_DISPLAY and gd != wd:
            return f"{here}: {wn} shown as {gd!r} instead of {wd!r}"[:400]
    return None


def flat(roots):
    for r in roots:
        yield r
        yield from flat(r["children"])


def text(v):
    return str(v) if isinstance(v, int) else v


def rows_of(roots):
    """What the index has to hold: [tag, [(name, raw)]] of every entry, sorted."""
    return sorted(([r["tag"], sorted(((n, text(raw)) for n, raw, _ in r["attrs"]), key=repr)] for r in flat(roots)), key=repr)
