"""Random well-formed ELF files, written with nothing but struct, and what is in them (independent of objutils)."""
import random
import re
import struct

SHT_NULL, SHT_PROGBITS, SHT_SYMTAB, SHT_STRTAB, SHT_RELA, SHT_HASH, SHT_DYNAMIC, SHT_NOTE, SHT_NOBITS, SHT_REL, SHT_DYNSYM = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11
SHF_WRITE, SHF_ALLOC, SHF_EXECINSTR, SHF_MERGE, SHF_STRINGS, SHF_TLS = 1, 2, 4, 0x10, 0x20, 0x400
SPECIAL = {0: "SHN_UNDEF", 0xFF00: "SHN_LORESERVE", 0xFFF1: "SHN_ABS", 0xFFF2: "SHN_COMMON"}
BINDS = {0: "LOCAL", 1: "GLOBAL", 2: "WEAK", 10: "LOOS", 13: "LOPROC"}
TYPES = {0: "NOTYPE", 1: "OBJECT", 2: "FUNC", 3: "SECTION", 4: "FILE", 5: "COMMON", 6: "TLS"}
HEADER = ["ei_class", "ei_data", "ei_version", "ei_osabi", "ei_abiversion", "e_type", "e_machine", "e_version", "e_entry", "e_phoff", "e_shoff", "e_flags",
          "e_ehsize", "e_phentsize", "e_phnum", "e_shentsize", "e_shnum", "e_shstrndx"]
SECTION = ["sh_name", "sh_type", "sh_flags", "sh_addr", "sh_offset", "sh_size", "sh_link", "sh_info", "sh_addralign", "sh_entsize"]
SEGMENT = ["p_type", "p_flags", "p_offset", "p_vaddr", "p_paddr", "p_filesz", "p_memsz", "p_align"]
SYMBOL = ["st_name", "st_value", "st_size", "st_bind", "st_type", "st_other", "st_shndx"]

CODE = [".text", ".init", ".fini", ".text.startup", ".plt", ".bootloader", ".text_ram"]
DATA = [".data", ".sdata", ".data1", ".tdata", ".got", ".init_array", ".noinit", ".cal", ".data.rel.ro"]
RODATA = [".rodata", ".rodata1", ".eh_frame", ".vectors", ".const", ".rodata.str1.1", "rodata"]
BSS = [".bss", ".sbss", ".tbss", ".stack"]
META = [".ARM.extab", ".gnu.version", ".debug_frame_x", ".dwo_list", ".strings", ".meta info", ".xx,yy", "_", ".Data", ".TEXT", ".text"]
WORDS = ["main", "_start", "foo", "bar", "buf", "_edata", "__bss_start", "init", "g_counter", "x", "_exit", "Main", "tick", "$d", "$a", "a.c", "loop_17",
         "very_long_symbol_name_that_goes_on_and_on_and_on_for_quite_a_while_%d", "handler", "_stack", "n%d", "f%d", "v%d", "_l%d"]


def blob(spec):
    """Section content: hex text or [seed, length, [position, bits to flip]...]."""
    if isinstance(spec, str):
        return bytes.fromhex(spec)
    b = random.Random(spec[0]).randbytes(spec[1])
    if len(spec) > 2:
        b = bytearray(b)
        for at, bits in spec[2:]:
            b[at] ^= bits
        b = bytes(b)
    return b


def gen_symbols(rng, n, nsec, small=False):
    out = [{"name": "", "value": 0, "size": 0, "bind": 0, "type": 0, "other": 0, "shndx": 0}]
    for k in range(n):
        name = rng.choice(WORDS)
        if "%d" in name:
            name %= rng.randrange(1000)
        t = rng.choice([0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 10, 13] if not small else [0, 1, 2, 1, 2])
        b = rng.choice([0, 0, 1, 1, 1, 2, 10, 13] if not small else [0, 1, 2])
        sh = rng.choice([rng.randrange(1, nsec + 1)] * 6 + [0, 0xFFF1, 0xFFF1, 0xFFF2, nsec + 40, 0xFF00] if not small else [rng.randrange(1, nsec + 1)])
        if t == 3:
            name = ""
        out.append({"name": name, "value": rng.choice([0, 1, 0x10, 0x20000000 + k, rng.randrange(1 << 31), 0xFFFFFFFC]), "size": rng.choice([0, 1, 4, rng.randrange(100000)]),
                    "bind": b, "type": t, "other": rng.choice([0, 0, 0, 1, 2, 3]), "shndx": sh})
    return out


# tag -> (name, values the ABI defines); None: text
ARM_TAGS = {4: ("Tag_CPU_raw_name", None), 5: ("Tag_CPU_name", None), 6: ("Tag_CPU_arch", range(15)), 7: ("Tag_CPU_arch_profile", (0, 65, 82, 77, 83)), 8: ("Tag_ARM_ISA_use", (0, 1)),
            9: ("Tag_THUMB_ISA_use", range(3)), 10: ("Tag_FP_arch", range(7)), 11: ("Tag_WMMX_arch", range(3)), 12: ("Tag_Advanced_SIMD_arch", range(3)), 13: ("Tag_PCS_config", range(8)),
            14: ("Tag_ABI_PCS_R9_use", range(4)), 15: ("Tag_ABI_PCS_RW_data", range(4)), 16: ("Tag_ABI_PCS_RO_data", range(3)), 17: ("Tag_ABI_PCS_GOT_use", range(3)),
            18: ("Tag_ABI_PCS_wchar_t", (0, 2, 4)), 19: ("Tag_ABI_FP_rounding", (0, 1)), 20: ("Tag_ABI_FP_denormal", (0, 1)), 21: ("Tag_ABI_FP_exceptions", (0, 1)),
            22: ("Tag_ABI_FP_user_exceptions", (0, 1)), 23: ("Tag_ABI_FP_number_model", range(4)), 24: ("Tag_ABI_align_needed", range(4)), 25: ("Tag_ABI_align", range(4)),
            26: ("Tag_ABI_enum_size", range(4)), 27: ("Tag_ABI_HardFP_use", (0, 1, 3)), 28: ("Tag_ABI_VFP_args", range(4)), 30: ("Tag_ABI_optimization_goals", range(7)),
            31: ("Tag_ABI_FP_optimization_goals", range(7)), 34: ("Tag_CPU_unaligned_access", (0, 1)), 38: ("Tag_ABI_FP_16bit_format", range(3)), 42: ("Tag_MPextension_use", (0, 1)),
            44: ("Tag_DIV_use", range(3)), 64: ("Tag_nodefaults", (0, 1, 127, 128, 300, 1 << 20)), 66: ("Tag_T2EE_use", (0, 1)), 67: ("Tag_conformance", None),
            68: ("Tag_Virtualization_use", range(4))}


def gen_arm(rng):
    """Vendors with their attributes of the file: [[vendor, [[tag, value], …]], …]"""
    out = []
    for v in rng.choice([["aeabi"], ["aeabi"], ["aeabi", "ARM"], ["Xyz", "aeabi"]]):
        tags = rng.sample(sorted(ARM_TAGS), rng.choice([1, 3, 9, 20]))
        if rng.random() < 0.5:
            tags.sort()
        out.append([v, [[t, rng.choice(["", "7-A", "ARM v6K", "cortex-m4", "2.09"]) if ARM_TAGS[t][1] is None else rng.choice(list(ARM_TAGS[t][1]))] for t in tags]])
    return out


def uleb(v):
    out = b""
    while True:
        out += bytes([v & 127 | (128 if v > 127 else 0)])
        v >>= 7
        if not v:
            return out


def arm_blob(vendors, e):
    out = b"A"
    for v, attrs in vendors:
        a = b"".join(uleb(t) + (x.encode() + b"\0" if isinstance(x, str) else uleb(x)) for t, x in attrs)
        sub = b"\1" + struct.pack(e + "I", len(a) + 5) + a
        nm = v.encode() + b"\0"
        out += struct.pack(e + "I", 4 + len(nm) + len(sub)) + nm + sub
    return out


def gen(rng, big=False, tool=False, small=False):
    """A JSON description of a well-formed ELF file.  tool: what the tools can print; small: few sections and symbols."""
    cls = rng.choice([32, 64])
    d = {"cls": cls, "end": rng.choice(["<", ">"]), "machine": rng.choice([3, 62, 40, 8, 20, 243, 83, 183]), "type": rng.choice([1, 2, 2, 2, 3, 4]),
         "osabi": rng.choice([0, 0, 3, 9] if not tool else [0, 0, 3]), "abiversion": rng.choice([0, 1]), "version": 1, "entry": rng.choice([0, 0x1000, 0x8000, rng.randrange(1 << 31)]),
         "flags": rng.choice([0, 5, 0x5000200, 0x80000000 | rng.randrange(1 << 20)]), "sections": [], "segments": [], "gap": rng.choice([0, 0, 3, 16])}
    addr = rng.choice([0, 0x100, 0x1000, 0x08000000, 0x8000, 0xFFFFE000 if cls == 64 else 0x7FFF0000])
    nsec = rng.randint(1, 4 if small else 9)
    used = set()
    for k in range(nsec):
        kind = rng.choice(["code", "code", "data", "data", "ro", "bss", "meta", "empty", "null"]) if not small else rng.choice(["code", "data", "ro", "bss", "meta"])
        name = rng.choice({"code": CODE, "data": DATA, "ro": RODATA, "bss": BSS, "meta": META, "empty": CODE + DATA + BSS, "null": ["", ".removed"]}[kind])
        if name in used and rng.random() < 0.7:
            name += f".{k}"
        used.add(name)
        size = rng.choice([1, 2, 3, 4, 15, 16, 33, 100, rng.randrange(1, 400)])
        if big and rng.random() < 0.4:
            size = rng.randrange(1000, 40000)
        flags = {"code": SHF_ALLOC | SHF_EXECINSTR, "data": SHF_ALLOC | SHF_WRITE, "ro": SHF_ALLOC, "bss": SHF_ALLOC | SHF_WRITE, "meta": 0, "empty": SHF_ALLOC,
                 "null": 0}[kind]
        if rng.random() < 0.15:
            flags |= rng.choice([SHF_MERGE, SHF_STRINGS, SHF_TLS, SHF_EXECINSTR, 0x200, 0x80, 0x40, 0x100, 0x40000000, 0x80000000])
        if kind == "meta" and rng.random() < 0.5:
            flags |= rng.choice([SHF_WRITE, SHF_EXECINSTR, SHF_WRITE | SHF_EXECINSTR])
        typ = {"bss": SHT_NOBITS, "null": SHT_NULL}.get(kind, SHT_PROGBITS)
        if kind in ("code", "data", "ro", "meta") and rng.random() < 0.15:
            typ = rng.choice([14, 15, 16, 17, SHT_RELA, SHT_HASH, SHT_REL, SHT_STRTAB, SHT_DYNAMIC, 0x70000001, 0x70000001, 0x70000003, 0x6FFFFFF6, 0x6FFFFFFF, 0x80000001])
        s = {"name": name, "type": typ, "flags": flags, "addr": 0, "link": 0, "info": rng.choice([0, 0, 3]), "align": rng.choice([0, 1, 4, 8, 16]), "entsize": rng.choice([0, 0, 4])}
        if kind in ("null",):
            s["size"] = rng.choice([0, 8])
        elif kind == "bss":
            s["size"] = rng.choice([0, size, 0x10000])
        elif kind == "empty":
            s["data"] = ""
        else:
            s["data"] = [rng.getrandbits(32), size]
        if flags & SHF_ALLOC:
            step = rng.choice([0, 0, 1, 4, 0x100, 0x1000])
            addr += step
            s["addr"] = addr
            addr += size if kind != "empty" else 0
        d["sections"].append(s)
    if d["type"] == 1 and rng.random() < 0.5:
        for s in d["sections"]:
            s["addr"] = 0
    rng.shuffle(d["sections"])
    if not small or rng.random() < 0.3:
        for k in range(rng.choice([0, 0, 1, 2])):
            al = rng.choice([4, 4, 8, 1])
            d["sections"].append({"name": rng.choice([".note.gnu.build-id", ".note.ABI-tag", ".note.gnu.property", ".note"]) + (str(k) if rng.random() < 0.5 else ""),
                                  "type": SHT_NOTE, "flags": rng.choice([0, SHF_ALLOC]) if False else 0, "addr": 0, "link": 0, "info": 0, "align": al, "entsize": 0,
                                  "notes": [[rng.choice(["GNU", "GNU", "stapsdt", "CORE", "A", "ABCDEFGH"]), rng.choice([1, 2, 3, 5, 0x100]),
                                             rng.randbytes(rng.choice([0, 1, 4, 7, 8, 16, 20])).hex()] for _ in range(rng.randint(1, 4))]})
        if rng.random() < 0.6:
            d["sections"].append({"name": ".comment", "type": SHT_PROGBITS, "flags": 0x30, "addr": 0, "link": 0, "info": 0, "align": 1, "entsize": 1,
                                  "data": b"".join((b"" if rng.random() < 0.2 else f"GCC: (GNU) {rng.randint(4, 13)}.{rng.randrange(10)}".encode()) + b"\0"
                                                   for _ in range(rng.randint(1, 3))).hex()})
    if rng.random() < (0.25 if tool else 0.12):
        if rng.random() < 0.7:
            d["machine"] = 40
        d["sections"].insert(rng.randrange(len(d["sections"]) + 1), {"name": ".ARM.attributes", "type": 0x70000003, "flags": 0, "addr": 0, "link": 0, "info": 0, "align": 1,
                                                                     "entsize": 0, "arm": gen_arm(rng)})
    n = rng.choice([0, 1, 5, 12] if small else [0, 1, 6, 20, 40])
    if big:
        n = rng.choice([100, 400])
    d["symtab"] = gen_symbols(rng, n, len(d["sections"]), small) if rng.random() < 0.93 else rng.choice([None, []])
    d["dynsym"] = gen_symbols(rng, rng.randint(0, 8), len(d["sections"]), small) if rng.random() < (0.25 if not small else 0.1) else None
    for _ in range(rng.choice([0, 1, 2, 3])):
        d["segments"].append({"p_type": rng.choice([1, 1, 2, 3, 4, 6, 7, 0x6474E551, 0x70000001] if not tool else [1, 1, 2, 3, 4, 6, 7]), "p_flags": rng.randrange(8), "p_offset": rng.choice([0, rng.randrange(5000)]),
                              "p_vaddr": rng.choice([0, rng.randrange(1 << 31), rng.randrange(1 << 31)]), "p_paddr": rng.randrange(1 << 31), "p_filesz": rng.choice([0, rng.randrange(5000)]), "p_memsz": rng.choice([0, rng.randrange(9000)]),
                              "p_align": rng.choice([0, 1, 4, 0x1000])})
    d["order"] = rng.choice(["tables-last", "tables-first", "shstr-first"])
    d["suffixes"] = rng.random() < 0.4
    return d


class Strtab:
    def __init__(self, suffixes):
        self.data, self.suffixes, self.pos = bytearray(b"\0"), suffixes, {"": 0}

    def add(self, s):
        if s in self.pos:
            return self.pos[s]
        b = s.encode("ascii") + b"\0"
        if self.suffixes:
            p = self.data.find(b)
            if p >= 0:
                self.pos[s] = p
                return p
        self.pos[s] = len(self.data)
        self.data += b
        return self.pos[s]


def build(d):
    """(file content, what is in it).  The second part is what every reader of the file has to report."""
    e, b64 = d["end"], d["cls"] == 64
    secs = [{"name": "", "type": 0, "flags": 0, "addr": 0, "link": 0, "info": 0, "align": 0, "entsize": 0, "size": 0}] + [dict(s) for s in d["sections"]]
    nuser = len(secs)

    def note(s):
        al = s["align"] if s["align"] in (4, 8) else 4
        out = b""
        for name, typ, desc in s["notes"]:
            nm = name.encode() + b"\0"
            ds = bytes.fromhex(desc)
            hdr = struct.pack(e + "III", len(nm), len(ds), typ) + nm
            hdr += b"\0" * (-len(hdr) % al)
            out += hdr + ds + b"\0" * (-len(ds) % al)
        return out
    for s in secs:
        s["body"] = None
        if "notes" in s:
            s["body"] = note(s)
        elif "arm" in s:
            s["body"] = arm_blob(s["arm"], e)
        elif "data" in s:
            s["body"] = blob(s["data"])
    symbols = []
    for key, typ, sn in (("symtab", SHT_SYMTAB, ".strtab"), ("dynsym", SHT_DYNSYM, ".dynstr")):
        if d.get(key) is None:
            continue
        st = Strtab(d["suffixes"])
        body = b""
        for y in d[key]:
            nm = st.add(y["name"])
            info = y["bind"] << 4 | y["type"]
            if b64:
                body += struct.pack(e + "IBBHQQ", nm, info, y["other"], y["shndx"], y["value"], y["size"])
            else:
                body += struct.pack(e + "IIIBBH", nm, y["value"], y["size"], info, y["other"], y["shndx"])
            symbols.append(dict(st_name=nm, st_value=y["value"], st_size=y["size"], st_bind=y["bind"], st_type=y["type"], st_other=y["other"], st_shndx=y["shndx"],
                                symbol_name=y["name"]))
        alloc = SHF_ALLOC if key == "dynsym" and False else 0
        secs.append({"name": "." + key, "type": typ, "flags": alloc, "addr": 0, "link": len(secs) + 1, "info": 1, "align": 8 if b64 else 4, "entsize": 24 if b64 else 16, "body": body})
        secs.append({"name": sn, "type": SHT_STRTAB, "flags": alloc, "addr": 0, "link": 0, "info": 0, "align": 1, "entsize": 0, "body": bytes(st.data)})
    shstr = Strtab(d["suffixes"])
    shs = {"name": ".shstrtab", "type": SHT_STRTAB, "flags": 0, "addr": 0, "link": 0, "info": 0, "align": 1, "entsize": 0}
    if d["order"] == "shstr-first":
        pos = nuser
        secs.insert(pos, shs)
        for s in secs[pos + 1:]:
            if s["link"] > 0:
                s["link"] += 1
        shstrndx = pos
    else:
        secs.append(shs)
        shstrndx = len(secs) - 1
    names = [s["name"] for s in secs]
    for nm in (sorted(set(names), key=lambda x: (-len(x), x)) if d["suffixes"] else names):
        shstr.add(nm)
    shs["body"] = bytes(shstr.data)
    ehsize, phes, shes = (64, 56, 64) if b64 else (52, 32, 40)
    head_tables = d["order"] == "tables-first"
    off = ehsize
    phoff = off if d["segments"] else 0
    off += phes * len(d["segments"])
    if head_tables:
        shoff = off
        off += shes * len(secs)
    body = bytearray()
    for s in secs:
        off0 = off + len(body)
        if s["body"] is None:
            s["size"] = s.get("size", 0)
            s["offset"] = off0 if s["type"] else 0
            continue
        al = max(1, s["align"])
        body += b"\xA5" * ((-off0 % al) + d["gap"])
        s["offset"] = off + len(body)
        s["size"] = len(s["body"])
        body += s["body"]
    if not head_tables:
        body += b"\0" * (-(off + len(body)) % 8)
        shoff = off + len(body)
    eh = b"\x7fELF" + bytes([2 if b64 else 1, 1 if e == "<" else 2, 1, d["osabi"], d["abiversion"]]) + b"\0" * 7
    eh += struct.pack(e + ("HHIQQQIHHHHHH" if b64 else "HHIIIIIHHHHHH"), d["type"], d["machine"], d["version"], d["entry"], phoff, shoff, d["flags"], ehsize,
                      phes if d["segments"] else 0, len(d["segments"]), shes, len(secs), shstrndx)
    ph = b""
    for p in d["segments"]:
        if b64:
            ph += struct.pack(e + "IIQQQQQQ", p["p_type"], p["p_flags"], p["p_offset"], p["p_vaddr"], p["p_paddr"], p["p_filesz"], p["p_memsz"], p["p_align"])
        else:
            ph += struct.pack(e + "IIIIIIII", p["p_type"], p["p_offset"], p["p_vaddr"], p["p_paddr"], p["p_filesz"], p["p_memsz"], p["p_flags"], p["p_align"])
    sh = b""
    rsecs = []
    for i, s in enumerate(secs):
        vals = [shstr.pos[s["name"]], s["type"], s["flags"], s["addr"], s["offset"], s["size"], s["link"], s["info"], s["align"], s["entsize"]]
        sh += struct.pack(e + ("IIQQQQIIQQ" if b64 else "IIIIIIIIII"), *vals)
        content = s["body"] if s["type"] not in (SHT_NULL, SHT_NOBITS) and s["size"] else b""
        rsecs.append(dict(zip(SECTION, vals), index=i, section_name=s["name"], content=content or b""))
    data = eh + ph + (sh + bytes(body) if head_tables else bytes(body) + sh)
    hdr = dict(ei_class=2 if b64 else 1, ei_data=1 if e == "<" else 2, ei_version=1, ei_osabi=d["osabi"], ei_abiversion=d["abiversion"], e_type=d["type"], e_machine=d["machine"],
               e_version=d["version"], e_entry=d["entry"], e_phoff=phoff, e_shoff=shoff, e_flags=d["flags"], e_ehsize=ehsize, e_phentsize=phes if d["segments"] else 0,
               e_phnum=len(d["segments"]), e_shentsize=shes, e_shnum=len(secs), e_shstrndx=shstrndx)
    for y in symbols:
        n = y["st_shndx"]
        if n in SPECIAL:
            y["section_name"], y["access"] = SPECIAL[n], 0
        elif n < len(rsecs):
            y["section_name"], y["access"] = rsecs[n]["section_name"], rsecs[n]["sh_flags"]
        else:
            y["section_name"], y["access"] = str(n), 0
    comments = [blob(s["data"]) for s in d["sections"] if s["name"] == ".comment" and s.get("data")]
    comment = "\n".join(x.decode() for x in comments[0].split(b"\0") if x) if comments else None
    notes = sorted(((s["name"], n[0], n[1], n[2]) for s in d["sections"] for n in s.get("notes", ())), key=lambda n: n[0])
    ref = {"header": hdr, "sections": rsecs, "segments": [dict(p) for p in d["segments"]], "symbols": symbols, "comment": comment or None, "notes": notes,
           "arm": next(([list(x) for x in s["arm"]] for s in d["sections"] if s["name"] == ".ARM.attributes" and "arm" in s), [])}
    return data, ref


# ---- what filters select, by definition ----------------------------------------------------------
def split(s):
    return [x for x in re.split(r"[ ,]", s) if x] if s else []


def select_sections(ref, sections=None, name_pattern=None):
    out = ref["sections"]
    if sections:
        out = [s for s in out if s["section_name"] in split(sections)]
    if name_pattern:
        out = [s for s in out if re.match(name_pattern, s["section_name"])]
    return out


BIND_ARG = {"g": 1, "l": 0, "w": 2}
TYPE_ARG = {"notype": 0, "object": 1, "func": 2, "section": 3, "file": 4, "common": 5, "tls": 6}
ACC_ARG = {"a": SHF_ALLOC, "w": SHF_WRITE, "x": SHF_EXECINSTR}


def select_symbols(ref, sections=None, name_pattern=None, bindings=None, access=None, types_str=None):
    out = ref["symbols"]
    if sections:
        out = [s for s in out if s["section_name"] in split(sections)]
    if access:
        m = 0
        for a in split(access):
            m |= ACC_ARG[a.lower()]
        out = [s for s in out if s["access"] & m]
    if bindings:
        bs = [BIND_ARG[b.lower()] for b in split(bindings)]
        out = [s for s in out if s["st_bind"] in bs]
    if types_str:
        ts = [TYPE_ARG[t.lower()] for t in split(types_str)]
        out = [s for s in out if s["st_type"] in ts]
    if name_pattern:
        out = [s for s in out if re.match(name_pattern, s["symbol_name"])]
    return out


def gcc_special(ref):
    return [s for s in ref["symbols"] if s["st_shndx"] == 0xFFF1 and s["st_type"] == 0 and re.match("_.*", s["symbol_name"])]


def image_sections(ref, include=None, exclude=None):
    out = [s for s in ref["sections"] if s["sh_flags"] & SHF_ALLOC and s["content"]]
    if include:
        out = [s for s in out if re.match(include, s["section_name"])]
    if exclude:
        out = [s for s in out if not re.match(exclude, s["section_name"])]
    return out


def image_of(secs, join=True):
    """[(address, bytes)] of the program image, or None if sections overlap."""
    items = sorted((s["sh_addr"], s["content"]) for s in secs)
    out = []
    for a, b in items:
        if out and a < out[-1][0] + len(out[-1][1]):
            return None
        if join and out and a == out[-1][0] + len(out[-1][1]):
            out[-1] = (out[-1][0], out[-1][1] + b)
        else:
            out.append((a, b))
    return out
