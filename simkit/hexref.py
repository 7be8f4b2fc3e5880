"""Reference decoders for the record formats that carry length and checksum, written from the format definitions.

classify(fmt, line) -> (kind, accept):
  kind   "valid"  a complete record on a line of its own; accept is what it says
         "bad"    a complete data or address record whose length or checksum is wrong
         "other"  anything else (comment, garbage, torn record); accept is what it says if a prefix of it is a valid record
  accept None | ("data", address, bytes) | ("base", base) | ("nop",)
"""
import hashlib
import re
import xml.etree.ElementTree as ET

H = b"0-9A-Fa-f"


def rx(s):
    return re.compile(s.replace(b"#", b"[" + H + b"]"))


# prefix pattern (marker and header fields), digits per data byte, checksum digits
SHAPES = {
    "ihex": rx(rb":(?P<len>##)(?P<addr>####)(?P<type>##)"),
    "srec": rx(rb"S(?P<type>[0-9])(?P<len>##)"),
    "tek": rx(rb"/(?P<addr>####)(?P<len>##)(?P<hc>##)"),
    "etek": rx(rb"%(?P<len>##)(?P<type>#)(?P<ck>##)(?P<addr>#####)"),
    "mostec": rx(rb";(?P<len>##)(?P<addr>####)"),
    "sig": rx(rb":(?P<addr>####)(?P<len>##)(?P<hc>##)"),
    "emon52": rx(rb"(?P<len>##) (?P<addr>####):"),
}
HEXRUN = rx(rb"#*")


def nibbles(data):
    return sum((b >> 4) + (b & 15) for b in data) & 0xFF


def rot(data):
    c = 0
    for b in data:
        c ^= b
        c = ((c << 1) | (c >> 7)) & 0xFF
    return c


def be(v, n):
    return v.to_bytes(n, "big")


def parse(fmt, m, body):
    """(verdict, accept, used) of a record with header match `m` and following hex text `body` (digits only).

    verdict: True valid, False wrong checksum, None too short; used: number of digits of `body` that belong to it.
    """
    n = int(m["len"], 16)
    if fmt == "ihex":
        need = 2 * n + 2
        if len(body) < need:
            return None, None, 0
        data, ck = bytes.fromhex(body[:2 * n].decode()), int(body[2 * n:need], 16)
        a, t = int(m["addr"], 16), int(m["type"], 16)
        ok = (n + (a >> 8) + (a & 255) + t + sum(data) + ck) & 0xFF == 0
        acc = ("data", a, data) if t == 0 else ("base", data[0] << 12 | data[1] << 4) if t == 2 and n == 2 else ("base", data[0] << 24 | data[1] << 16) if t == 4 and n == 2 else ("nop",)
        return ok, acc, need
    if fmt == "srec":
        t = int(m["type"])
        alen = {0: 2, 1: 2, 2: 3, 3: 4, 5: 2, 7: 4, 8: 3, 9: 2}.get(t)
        if alen is None or n < alen + 1:
            return None, None, 0
        need = 2 * n
        if len(body) < need:
            return None, None, 0
        raw = bytes.fromhex(body[:need].decode())
        ok = (n + sum(raw)) & 0xFF == 0xFF
        acc = ("data", int.from_bytes(raw[:alen], "big"), raw[alen:-1]) if t in (1, 2, 3) else ("nop",)
        return ok, acc, need
    if fmt in ("tek", "sig"):
        a = int(m["addr"], 16)
        head = be(a, 2) + bytes([n])
        f = nibbles if fmt == "tek" else rot
        hok = f(head) == int(m["hc"], 16)
        if n == 0:
            return (True if hok else None), ("nop",), 0
        need = 2 * n + 2
        if len(body) < need:
            return None, None, 0
        data, ck = bytes.fromhex(body[:2 * n].decode()), int(body[2 * n:need], 16)
        return hok and f(data) == ck, ("data", a, data), need
    if fmt == "etek":
        if m["type"] != b"6":
            return None, None, 0
        cnt = n // 2 - 5
        if n % 2 or cnt < 0:
            return None, None, 0
        if len(body) < 2 * cnt:
            return None, None, 0
        data = bytes.fromhex(body[:2 * cnt].decode())
        a = int(m["addr"], 16)
        ok = nibbles(bytes([n, 6]) + be(a, 3) + data) == int(m["ck"], 16)
        return ok, (("data", a & 0xFFFF, data) if a >> 16 == 4 else None), 2 * cnt
    if fmt in ("mostec", "emon52"):
        a = int(m["addr"], 16)
        need = 2 * n + 4
        if len(body) < need:
            return None, None, 0
        data, ck = bytes.fromhex(body[:2 * n].decode()), int(body[2 * n:need], 16)
        s = sum(data) + ((n + (a >> 8) + (a & 255)) if fmt == "mostec" else 0)
        return s & 0xFFFF == ck, ("data", a, data), need
    raise AssertionError(fmt)


CKDIGITS = {"ihex": 2, "srec": 2, "tek": 2, "etek": 0, "mostec": 4, "sig": 2, "emon52": 4}
EMON = rx(rb"(## )*## ####")


B85 = [c for c in range(37, 123) if c != 42]


def fpc_text(line):
    """The hex text of a four-packed-code line and whether every word fits 32 bits; None if it is none."""
    body = line.strip()[1:]
    if len(body) % 5 or any(c not in B85 for c in body):
        return None, False
    words = []
    for i in range(0, len(body), 5):
        v = 0
        for c in body[i:i + 5]:
            v = v * 85 + B85.index(c)
        words.append(v)
    return b"".join(b"%08X" % v for v in words), all(v < 1 << 32 for v in words)


def fpc_line(text):
    text = text + b"0" * (-len(text) % 8)
    out = b"$"
    for i in range(0, len(text), 8):
        v, q = int(text[i:i + 8], 16), []
        for _ in range(5):
            q.append(B85[v % 85])
            v //= 85
        out += bytes(reversed(q))
    return out


def classify_fpc(line):
    text, fits = fpc_text(line)
    if text is None:
        return "other", None
    if text == b"00000000" and fits:
        return "valid", ("nop",)
    if len(text) >= 8 and text[4:8] in (b"0001", b"0002"):
        return "wild", None  # incremental and relative records
    if len(text) < 18 or len(text) % 2 or text[4:8] != b"0000":
        return "other", None
    raw = bytes.fromhex(text.decode())
    n = raw[1] - 4
    data = raw[8:8 + n] if n > 0 else b""
    ok = n >= 0 and len(data) == n and (sum(raw[:8]) + sum(data)) & 0xFF == 0
    acc = ("data", int.from_bytes(raw[4:8], "big"), data) if ok and n else None
    if not fits or line.strip()[:1] != b"$":
        return "other", acc
    if not ok:
        return "bad", None
    return ("valid", acc) if acc and len(raw) - 8 - n < 4 else ("other", acc)


def classify(fmt, line):
    line = line.rstrip(b"\r\n")
    if fmt == "fpc":
        return classify_fpc(line)
    m = SHAPES[fmt].match(line)
    if not m:
        return "other", None
    rest = line[m.end():]
    if fmt == "emon52":
        # bytes separated by single spaces, then the checksum
        text = rest.replace(b" ", b"")
        regular = EMON.fullmatch(rest) is not None
        run = HEXRUN.match(text).group(0)
        whole = regular
    else:
        run = HEXRUN.match(rest).group(0)
        whole = run == rest
    ok, acc, used = parse(fmt, m, run)
    if whole and ok and used == len(run) and acc is not None:
        return "valid", acc
    if whole and len(run) % 2 == 0 and len(run) >= 2 + CKDIGITS[fmt]:
        # every field is there and made of hex digits: a complete record, but what it says about itself is wrong
        data_like = {"ihex": lambda: int(m["type"], 16) in (0, 2, 4), "srec": lambda: m["type"] in b"123", "etek": lambda: m["type"] == b"6"}.get(fmt, lambda: True)()
        if fmt == "srec":
            alen = {b"1": 2, b"2": 3, b"3": 4}.get(m["type"], 9)
            data_like = data_like and len(run) >= 2 * (alen + 2)
        if data_like and not (fmt in ("tek", "sig") and int(m["len"], 16) == 0):
            if fmt == "ihex" and m["type"] != b"00" and ok and used == len(run):
                return "other", acc
            return "bad", None
    return "other", acc if ok else None


def decode(fmt, data):
    """[(kind, accept)] for every line."""
    return [classify(fmt, ln) for ln in data.split(b"\n")]


def build(records):
    """Set of (address, byte) for a list of accepted records, in order."""
    base = 0
    out = set()
    for r in records:
        if r[0] == "base":
            base = r[1]
        elif r[0] == "data":
            for i, b in enumerate(r[2]):
                out.add((base + r[1] + i, b))
    return out


def record(fmt, addr, data, declared=None):
    """One record, optionally with a wrong length but a checksum that agrees with it."""
    n = len(data) if declared is None else declared & 0xFF
    hx = data.hex().upper()
    if fmt == "ihex":
        a = addr & 0xFFFF
        return b":%02X%04X00%s%02X" % (n, a, hx.encode(), -(n + (a >> 8) + (a & 255) + sum(data)) & 0xFF)
    if fmt == "srec":
        t, al = (1, 2) if addr < 0x10000 else (2, 3) if addr < 1 << 24 else (3, 4)
        ln = (n + al + 1) & 0xFF
        ab = be(addr, al)
        return b"S%d%02X%s%s%02X" % (t, ln, ab.hex().upper().encode(), hx.encode(), ~(ln + sum(ab) + sum(data)) & 0xFF)
    a = addr & 0xFFFF
    if fmt == "fpc":
        rec = bytes([(n + 4) & 0xFF, 0, 0]) + be(addr, 4) + data
        return fpc_line((bytes([-sum(rec) & 0xFF]) + rec).hex().upper().encode())
    if fmt in ("tek", "sig"):
        f = nibbles if fmt == "tek" else rot
        return (b"/" if fmt == "tek" else b":") + b"%04X%02X%02X%s%02X" % (a, n, f(be(a, 2) + bytes([n])), hx.encode(), f(data))
    if fmt == "etek":
        ln = ((n + 5) * 2) & 0xFF
        return b"%%%02X6%02X4%04X%s" % (ln, nibbles(bytes([ln, 6]) + be(0x40000 | a, 3) + data), a, hx.encode())
    if fmt == "mostec":
        return b";%02X%04X%s%04X" % (n, a, hx.encode(), (n + (a >> 8) + (a & 255) + sum(data)) & 0xFFFF)
    if fmt == "emon52":
        return b"%02X %04X:%s %04X" % (n, a, data.hex(" ").upper().encode(), sum(data) & 0xFFFF)
    raise AssertionError(fmt)


def foreign(fmt, recs, lower=False):
    """A file made of the given records, as another program would write it.

    recs: ["data", addr, length, seed, width] | ["seg", v] | ["lin", v] | ["info", kind]
    """
    import random
    out = []
    for r in recs:
        if r[0] == "data":
            data = random.Random(r[3]).randbytes(r[2])
            if fmt == "srec":
                t = max(r[4], 1 if r[1] < 1 << 16 else 2 if r[1] < 1 << 24 else 3)
                ab = be(r[1], t + 1)
                ln = len(data) + t + 2
                out.append(b"S%d%02X%s%s%02X" % (t, ln, ab.hex().upper().encode(), data.hex().upper().encode(), ~(ln + sum(ab) + sum(data)) & 0xFF))
            else:
                out.append(record(fmt, r[1], data))
        elif fmt == "ihex":
            body = {"seg": lambda: b"\2\0\0\2" + be(r[1], 2), "lin": lambda: b"\2\0\0\4" + be(r[1], 2),
                    "info": lambda: (b"\4\0\0" + bytes([3 if r[1] & 1 else 5]) + be(r[1] * 7919 & 0xFFFFFFFF, 4))}[r[0]]()
            out.append(b":" + (body + bytes([-sum(body) & 255])).hex().upper().encode())
        elif fmt == "srec" and r[0] == "info":
            t = (0, 5, 7, 8, 9)[r[1] % 5]
            body = be(r[1] & 0xFFFF, {0: 2, 5: 2, 7: 4, 8: 3, 9: 2}[t]) + (b"hello"[:r[1] % 6] + b"x" if t == 0 else b"")
            ln = len(body) + 1
            out.append(b"S%d%02X%s%02X" % (t, ln, body.hex().upper().encode(), ~(ln + sum(body)) & 0xFF))
    if lower and fmt != "fpc":
        out = [ln[:2] + ln[2:].lower() for ln in out]
    return b"\n".join(out) + b"\n"


def program(fmt, sections, width, line, infos, headers=()):
    """S-record or Intel hex file of the given sections as another program would write it, with records that carry no data."""
    def srec(t, ab, data):
        ln = len(ab) + len(data) + 1
        return b"S%d%02X%s%02X" % (t, ln, (ab + data).hex().upper().encode(), ~(ln + sum(ab) + sum(data)) & 0xFF)
    out = []
    if fmt == "srec":
        out += [srec(0, be(a, 2), bytes.fromhex(h)) for a, h in headers]
        last = max(a + len(d) for a, d in sections)
        width = max(width, 1 if last <= 1 << 16 else 2 if last <= 1 << 24 else 3)
        rows = 0
        for a, d in sections:
            for i in range(0, len(d), line):
                out.append(srec(width, be(a + i, width + 1), d[i:i + line]))
                rows += 1
        for v in infos:
            t = (5, 9, 8, 7)[v % 4]
            if t == 5:
                out.append(srec(5, be(rows & 0xFFFF, 2), b""))
            else:
                out.append(srec(t, be(v, {9: 2, 8: 3, 7: 4}[t]), b""))
    else:
        base = 0
        for a, d in sections:
            i = 0
            while i < len(d):
                if (a + i) >> 16 != base:
                    base = (a + i) >> 16
                    b = b"\2\0\0\4" + be(base, 2)
                    out.append(b":" + (b + bytes([-sum(b) & 255])).hex().upper().encode())
                n = min(line, len(d) - i, 0x10000 - ((a + i) & 0xFFFF))
                out.append(record("ihex", a + i, d[i:i + n]))
                i += n
        for v in infos:
            b = b"\4\0\0" + bytes([3 if v & 1 else 5]) + be(v, 4)
            out.append(b":" + (b + bytes([-sum(b) & 255])).hex().upper().encode())
        out.append(b":00000001FF")
    return b"\n".join(out) + b"\n"


def shf_blocks(data):
    """Intact blocks of an SHF file: [(address, bytes)], or None if it is not well-formed."""
    try:
        root = ET.fromstring(data)
    except Exception:  # noqa: BLE001
        return None
    out = []
    for child in root:
        try:
            at = {k: "".join(v.split()) for k, v in child.attrib.items()}
            raw = bytes.fromhex("".join((child.text or "").split()))
            if "name" in at and len(raw) == int(at["length"], 16) * int(at["word_size"], 16) and hashlib.sha1(raw).hexdigest() == at["checksum"]:
                out.append((int(at["address"], 16), raw))
        except (KeyError, ValueError):
            continue
    return out
