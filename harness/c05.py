"""C05: a file is accepted exactly when its header is valid; a damaged file is never half read."""
from engine.api import Case

from pyflp.exceptions import DataCorrupted, HeaderCorrupted, InvalidEventChunkSize, VersionNotDetected

from . import common as K

META = {
    "entry": ["pyflp.parse"],
    "bounds": "all 22 header bytes symbolic (each field over its whole range with the others valid, and pairs of fields); "
              "every file length 0..21 with arbitrary contents; data sizes off by anything in 32 bits; text events with "
              "no version before them for all 17 text ids; fixed-size events cut short for all 192 ids",
    "outside": "variable-size events whose length runs past the end of the file",
    "assumptions": [],
}

BODY = K.join(K.HEAD) + K.E(9, K.u8(1))


def ok(h, data):
    """The project, or None if the header was refused; any other exception escapes."""
    e = h.raises(lambda: K.pyflp.parse(h.put(data)), HeaderCorrupted)
    if e is not None:
        h.check(isinstance(e, DataCorrupted) and isinstance(e, ValueError), "kind of error")
    return e is None


def base(h, **kw):
    parts = dict(magic=b"FLhd", size=K.u32(6), fmt=K.u16(0), nch=K.u16(1), ppq=K.u16(96), data=b"FLdt", dsize=K.u32(len(BODY)))
    parts.update(kw)
    return K.join([parts[k] for k in ("magic", "size", "fmt", "nch", "ppq", "data", "dsize")]) + BODY


def magic(h):
    b = h.bytes("b", 4)
    h.check(ok(h, base(h, magic=b)) == (b == b"FLhd"), "header magic")


def hsize(h):
    b = h.bytes("b", 4)
    h.check(ok(h, base(h, size=b)) == (K.le(b) == 6), "header size")


def fmt(h):
    b = h.bytes("b", 2)
    v = K.le(b, True)
    h.check(ok(h, base(h, fmt=b, nch=h.bytes("n", 2))) == h.any([v == f for f in K.FORMATS]), "format")


def ppq(h):
    b = h.bytes("b", 2)
    v = K.le(b)
    h.check(ok(h, base(h, ppq=b, nch=h.bytes("n", 2))) == h.any([v == q for q in K.VALID_PPQ]), "timebase")


def dmagic(h):
    b = h.bytes("b", 4)
    h.check(ok(h, base(h, data=b)) == (b == b"FLdt"), "data magic")


def dsize(h):
    b = h.bytes("b", 4)
    h.check(ok(h, base(h, dsize=b)) == (K.le(b) == len(BODY)), "data size")


def two(h, x, y):
    """Two fields at once: valid only if both are."""
    spec = {"magic": (4, lambda b: b == b"FLhd"), "size": (4, lambda b: K.le(b) == 6),
            "fmt": (2, lambda b: h.any([K.le(b, True) == f for f in K.FORMATS])),
            "ppq": (2, lambda b: h.any([K.le(b) == q for q in K.VALID_PPQ])),
            "data": (4, lambda b: b == b"FLdt"), "dsize": (4, lambda b: K.le(b) == len(BODY))}
    kw, conds = {}, []
    for k in (x, y):
        n, c = spec[k]
        b = h.bytes(k, n)
        kw[k] = b
        conds.append(c(b))
    h.check(ok(h, base(h, **kw)) == h.all(conds), "%s and %s" % (x, y))


def every(h):
    """The whole header at once."""
    b = h.bytes("b", 22)
    good = h.all([b[0:4] == b"FLhd", K.le(b[4:8]) == 6, h.any([K.le(b[8:10], True) == f for f in K.FORMATS]),
                  h.any([K.le(b[12:14]) == q for q in K.VALID_PPQ]), b[14:18] == b"FLdt", K.le(b[18:22]) == len(BODY)])
    h.check(ok(h, b + BODY) == good, "header")


def short(h, n, valid):
    """A file that ends inside the header."""
    data = base(h)[:n] if valid else h.bytes("b", n)
    h.check(not ok(h, data), "file of %d bytes accepted" % n)


def empty(h):
    """No events."""
    h.check(not ok(h, K.header() + b"FLdt" + h.bytes("n", 4)), "file without events accepted")


def cut(h, n):
    """The last bytes of a valid file are missing / there are extra ones."""
    data = base(h, nch=h.bytes("nch", 2))
    h.check(not ok(h, data[:len(data) - n]), "truncated file accepted")
    h.check(not ok(h, data + h.bytes("more", n)), "file with trailing bytes accepted")


def text_first(h, id, n):
    data = h.bytes("t", n)
    file = K.flp([K.E(id, data), *K.HEAD])
    e = h.raises(lambda: K.pyflp.parse(h.put(file)), VersionNotDetected)
    h.check(e is not None and isinstance(e, DataCorrupted), "text accepted before the version")


def text_later(h, id):
    """Other events before the version are fine."""
    t = h.text("t", 2)
    file = K.flp([K.E(12, h.bytes("v", 1)), K.E(66, h.bytes("w", 2)), *K.HEAD, K.E(id, K.utf16(t))])
    e = h.raises(lambda: K.pyflp.parse(h.put(file)), VersionNotDetected)
    h.check(e is None, "text refused after the version")


def cut_event(h, lo, hi, have, need):
    """A fixed-size event with fewer bytes than its id demands, at the end of the file."""
    id = h.int("id", lo, hi - 1)
    file = K.flp([*K.HEAD, id.to_bytes(1, "little"), h.bytes("v", have)])
    e = h.raises(lambda: K.pyflp.parse(h.put(file)), InvalidEventChunkSize)
    h.check(e is not None and isinstance(e, BufferError), "event of %d instead of %d bytes accepted" % (have, need))


def accepted(h):
    """What a valid header says is what the project says."""
    fmt = K.FORMATS[h.choose("fmt", len(K.FORMATS))]
    q = h.int("ppq", 24, 960)
    h.assume(h.any([q == v for v in K.VALID_PPQ]))
    n = h.int("nch", 0, 65535)
    p = K.parse(h, [*K.HEAD], fmt, n, q)
    h.check(h.all([int(p.format) == fmt, p.ppq == q, p.channel_count == n, len(p.events) == 2]), "header of the project")


def missing(h):
    h.check(h.raises(lambda: K.pyflp.parse(h.path("nowhere.flp")), FileNotFoundError) is not None, "file does not exist")


def cases(tier):
    out = [Case(f.__name__, f, (), weight=3) for f in (magic, hsize, fmt, ppq, dmagic, dsize, empty, accepted, missing)]
    out.append(Case("whole header", every, (), weight=9))
    names = ("magic", "size", "fmt", "ppq", "data", "dsize")
    for i, x in enumerate(names):
        for y in names[i + 1:]:
            out.append(Case("%s and %s" % (x, y), two, (x, y), weight=4))
    for n in range(0, 22):
        for valid in (False, True):
            out.append(Case("%d bytes%s" % (n, " of a valid file" if valid else ""), short, (n, valid), weight=2))
    for n in (1, 2, 3, 7) + ((20, 30) if tier != "quick" else ()):
        out.append(Case("off by %d" % n, cut, (n,), weight=2))
    for id in (*range(192, 199), *range(200, 208), 231, 239, 241):
        out.append(Case("text %d first" % id, text_first, (id, 4)))
        out.append(Case("text %d later" % id, text_later, (id,)))
    for lo, hi, need in ((0, 64, 1), (64, 128, 2), (128, 192, 4)):
        for have in range(need):
            out.append(Case("ids %d.. with %d bytes" % (lo, have), cut_event, (lo, hi, have, need), weight=4))
    return out
