"""Workload generator and reference model for hex-file images.  Knows nothing of objutils' internals.

An image is described as JSON: a list of [address, length, seed] (pseudo-random content) or [address, "hex"].
"""
import hashlib
import random

# name -> (highest usable address + 1, longest row, loads needs a binary stream, separators)
FORMATS = {
    "ihex": dict(limit=0xFFFFFFFF, maxrow=255),
    "srec": dict(limit=0xFFFFFFFF, maxrow=250),
    "tek": dict(limit=0xFFFF, maxrow=255),
    "etek": dict(limit=0xFFFF, maxrow=122),
    "mostec": dict(limit=0xFFFF, maxrow=255),
    "sig": dict(limit=0xFFFF, maxrow=255),
    "emon52": dict(limit=0xFFFF, maxrow=255),
    "rca": dict(limit=0xFFFF, maxrow=None),
    "cosmac": dict(limit=0xFFFF, maxrow=None),
    "titxt": dict(limit=0xFFFF, maxrow=None),
    "ash": dict(limit=0xFFFF, maxrow=None),
    "fpc": dict(limit=0xFFFF, maxrow=251),
    "shf": dict(limit=0xFFFFFFFF, maxrow=0),
    "bin": dict(limit=0xFFFFFFFF, maxrow=0),
}
CHECKSUMMED = ("ihex", "srec", "tek", "mostec", "sig", "emon52", "shf")
BINARY_STREAM_ONLY = ("ash", "titxt", "fpc")


def content(seed, n):
    return random.Random(seed).randbytes(n)


def blob(d):
    """Bytes of one described section."""
    return bytes.fromhex(d[1]) if isinstance(d[1], str) else content(d[2], d[1])


def expand(img):
    return [(d[0], blob(d)) for d in img]


def joined(sections):
    """Canonical form: sorted, adjacent blocks merged, empty ones dropped."""
    out = []
    for a, d in sorted((a, bytes(d)) for a, d in sections if len(d)):
        if out and out[-1][0] + len(out[-1][1]) == a:
            out[-1] = (out[-1][0], out[-1][1] + d)
        else:
            out.append((a, d))
    return out


def flat(sections):
    m = {}
    for a, d in sections:
        for i, b in enumerate(d):
            m[a + i] = b
    return m


def summary(sections):
    """Comparable, small description of loaded or expected content."""
    return [(a, len(d), hashlib.sha256(d).hexdigest()[:16]) for a, d in joined(sections)]


def gen_image(rng, fmt, big=False, overlap=False, nsec=None, small=False):
    """A random image whose addresses fit `fmt`; sections never overlap."""
    limit = FORMATS[fmt]["limit"]
    n = nsec or rng.choice([1, 1, 2, 2, 3, 3, 4, 6])
    if big == "huge":
        if limit > 0xFFFF:
            n = 2
        else:
            return [[0, 0x8000 + rng.randrange(0x7F00), rng.getrandbits(32)]]
    style = rng.choice(["any", "any", "gaps", "adjacent", "alias", "boundary", "low", "high"])
    out = []

    def length():
        r = rng.random()
        if small:
            return rng.randint(1, 12)
        if big == "huge":
            return rng.randint(200000, 500000)
        if big and r < 0.5:
            return rng.randint(9000, 70000 if limit > 0xFFFF else 14000)
        if r < 0.25:
            return rng.randint(1, 3)
        if r < 0.5:
            return rng.choice([15, 16, 17, 31, 32, 33, 48, 64])
        return rng.randint(1, 200)

    pos = None
    for _ in range(n):
        ln = length()
        if style == "low":
            a = rng.randint(0, 64) if pos is None else pos + rng.randint(0, 40)
        elif style == "high":
            a = limit - ln - rng.randint(0, 300) if pos is None else max(0, rng.randrange(limit - ln))
        elif style == "adjacent" and pos is not None and rng.random() < 0.7:
            a = pos
        elif style == "gaps" and pos is not None:
            a = pos + rng.choice([1, 2, 15, 16, 17, 100])
        elif style == "alias" and limit > 0xFFFF:
            # same low 16 bits (or directly following ones) in different 64 KiB blocks
            low = rng.choice([0, 0x10, 0x100, 0xFFF0]) if pos is None or rng.random() < 0.3 else pos & 0xFFFF
            hi = rng.choice([0, 1, 2, 3, 0xF, 0x10, 0x11, 0x100, 0x7FFF, 0x8000, 0xFFFE])
            a = (hi << 16) | low
        elif style == "boundary" and limit > 0xFFFF:
            a = rng.choice([0x10000, 0x20000, 0xF0000, 0x100000, 0x1000000, 0x80000000]) + rng.choice([-40, -16, -8, -1, 0, 1, 16]) - rng.choice([0, ln])
            a = max(0, a)
        else:
            a = rng.randrange(0, 0x4000) if rng.random() < 0.5 else rng.randrange(limit - ln)
        if a < 0 or a + ln > limit:
            continue
        if any(a < o[0] + o[1] and o[0] < a + ln for o in out):
            continue
        out.append([a, ln, rng.getrandbits(32)])
        pos = a + ln
    if not out:
        ln = rng.randint(1, 40)
        out = [[rng.randint(0, 0x1000), ln, rng.getrandbits(32)]]
    if fmt == "bin":  # keep the gaps affordable
        base = min(o[0] for o in out)
        cur, res = base % 0x10000, []
        for o in sorted(out):
            res.append([cur, o[1], o[2]])
            cur += o[1] + rng.choice([0, 0, 1, 7, 300])
        out = res
    if rng.random() < 0.15:  # runs of equal bytes, and bytes that look like structure
        o = rng.choice(out)
        b = rng.choice([0, 0xFF, 0x0A, 0x3A, 0x53])
        out[out.index(o)] = [o[0], (bytes([b]) * o[1]).hex()]
    rng.shuffle(out)
    return out


def gen_row(rng, fmt):
    m = FORMATS[fmt]["maxrow"]
    if m == 0:
        return None
    top = m or 300
    return rng.choice([16, 16, 16, 32, 1, 2, 3, 4, 5, 7, 8, 15, 17, 31, 33, 64, 100, top, top - 1, rng.randint(1, top)])


def bin_bytes(sections, filler=0xFF):
    """Expected content of a plain binary file."""
    out = bytearray()
    prev = None
    for a, d in sorted(sections):
        if prev is not None and a > prev:
            out += bytes([filler]) * (a - prev)
        out += d
        prev = a + len(d)
    return bytes(out)
