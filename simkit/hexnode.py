"""What simulated nodes do with hex files: destinations and sources of every kind, around the real objutils calls."""
import gc
import io
import os

DESTS = ["path", "buffered", "unbuffered", "fd", "memory", "rawsink", "bufsink", "duck"]
SOURCES = ["path", "buffered", "unbuffered", "memory", "bytes", "bytearray", "str", "chunky"]


def warm():
    """Import the code under test and freeze the heap, so that forked nodes start from the same state."""
    import logging

    import objutils  # noqa: F401
    import objutils.elf  # noqa: F401

    logging.raiseExceptions = False
    _settle_sqlalchemy()
    gc.collect()
    gc.freeze()
    return objutils


def _settle_sqlalchemy():
    """SQLAlchemy creates a table's indexes in the order of a set of objects, i.e. of their memory addresses: use the order of names."""
    import sys

    from sqlalchemy import MetaData
    from sqlalchemy.util import OrderedSet
    seen = set()
    for name, mod in list(sys.modules.items()):
        if name.startswith("objutils."):
            for obj in list(vars(mod).values()):
                md = getattr(obj, "metadata", None)
                if isinstance(md, MetaData) and id(md) not in seen:
                    seen.add(id(md))
                    for table in md.tables.values():
                        table.indexes = OrderedSet(sorted(table.indexes, key=lambda x: str(x.name)))


def make_image(spec, join=True, meta=None):
    from objutils import Image, Section

    from simkit.hexmodel import expand

    return Image([Section(a, d) for a, d in expand(spec)], join=join)


def as_pairs(img):
    return [(s.start_address, bytes(s.data)) for s in img]


def raw_get(path):
    """The stored bytes, read with plain system calls (short reads tolerated)."""
    try:
        fd = os.open(path, os.O_RDONLY)
    except FileNotFoundError:
        return None
    try:
        out = []
        while True:
            d = os.read(fd, 1 << 20)
            if not d:
                return b"".join(out)
            out.append(d)
    finally:
        os.close(fd)


class Memory(io.BytesIO):
    """In-memory destination that keeps its content after close()."""

    kept = None

    def close(self):
        if self.kept is None and not self.closed:
            self.kept = self.getvalue()
        super().close()

    def content(self):
        return self.kept if self.kept is not None else self.getvalue()


class RawSink(io.RawIOBase):
    """User-supplied raw stream: accepts at most `plan[i]` bytes in its i-th write; an error name raises."""

    def __init__(self, plan=()):
        self.plan, self.i, self.buf = list(plan), 0, bytearray()

    def writable(self):
        return True

    def write(self, data):
        n = self.plan[self.i] if self.i < len(self.plan) else None
        self.i += 1
        if isinstance(n, str):
            import errno

            raise OSError(getattr(errno, n), os.strerror(getattr(errno, n)))
        data = bytes(data)
        if n == -1:
            return None
        if n is not None:
            data = data[: max(1, n)]
        self.buf += data
        return len(data)

    def content(self):
        return bytes(self.buf)


class Duck:
    """User-supplied object with a write() method and nothing else of a file: partial counts, errors, or no count at all (everything taken)."""

    def __init__(self, plan=()):
        self.plan, self.i, self.buf, self.closed = list(plan), 0, bytearray(), False

    def write(self, data):
        n = self.plan[self.i] if self.i < len(self.plan) else None
        self.i += 1
        if isinstance(n, str):
            import errno

            raise OSError(getattr(errno, n), os.strerror(getattr(errno, n)))
        data = bytes(data)
        if n is not None and n > 0:
            data = data[:n]
        self.buf += data
        return None if n == -1 else len(data)

    def close(self):
        self.closed = True

    def content(self):
        return bytes(self.buf)


class Chunky(io.RawIOBase):
    """User-supplied raw source delivering at most `plan[i % len]` bytes per read; an error name raises once."""

    def __init__(self, data, plan):
        self.data, self.plan, self.i, self.pos = data, list(plan) or [7], 0, 0

    def readable(self):
        return True

    def readinto(self, b):
        n = self.plan[self.i % len(self.plan)]
        if isinstance(n, str):
            if self.i < len(self.plan):
                self.i += 1
                import errno

                raise OSError(getattr(errno, n), os.strerror(getattr(errno, n)))
            n = 7
        self.i += 1
        n = min(len(b), max(1, n), len(self.data) - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def save(fmt, img, dest, path, row=None, plan=(), writer=None, **kws):
    """Save through the given kind of destination; returns the object holding the data, if any."""
    import objutils

    fn = (lambda _, *a, **k: writer.dump(*a, **k)) if writer else objutils.dump
    if row is not None:
        kws["row_length"] = row
    if dest == "path":
        fn(fmt, path, img, **kws)
        return None
    if dest == "buffered":
        fp = open(path, "wb")
    elif dest == "unbuffered":
        fp = open(path, "wb", buffering=0)
    elif dest == "fd":
        fp = os.fdopen(os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644), "wb")
    elif dest == "memory":
        fp = Memory()
    elif dest == "rawsink":
        fp = RawSink(plan)
    elif dest == "duck":
        fp = Duck(plan)
    elif dest == "bufsink":
        fp = RawSink(plan)
        buf = io.BufferedWriter(fp, 64)
        fn(fmt, buf, img, **kws)
        buf.close()
        return fp
    else:
        raise AssertionError(dest)
    fn(fmt, fp, img, **kws)
    if dest not in ("memory", "rawsink", "duck"):
        fp.close()  # what the caller would do; normally closed already
    return fp


def load(fmt, source, path, data=None, plan=(), reader=None, **kws):
    """Load from the given kind of source, through the module functions or one particular reader object."""
    import objutils

    ld = reader.load if reader else lambda *a, **k: objutils.load(fmt, *a, **k)
    lds = reader.loads if reader else lambda *a, **k: objutils.loads(fmt, *a, **k)
    if source == "path":
        return ld(path, **kws)
    if source == "buffered":
        return ld(open(path, "rb"), **kws)
    if source == "unbuffered":
        return ld(open(path, "rb", buffering=0), **kws)
    if data is None:
        data = raw_get(path)
    if source == "memory":
        return ld(io.BytesIO(data), **kws)
    if source == "bytes":
        return lds(data, **kws)
    if source == "bytearray":
        return lds(bytearray(data), **kws)
    if source == "str":
        return lds(data.decode("ascii"), **kws)
    if source == "chunky":
        return ld(io.BufferedReader(Chunky(data, plan), 64), **kws)
    raise AssertionError(source)
