"""C01: a file that parses is saved back byte for byte (header, framing, order, unknown events)."""
from engine.api import Case

from . import big as B
from . import common as K
from . import spec as S

META = {
    "entry": ["pyflp.parse", "pyflp.save"],
    "bounds": "header: every format, timebase and channel count; one event with any of the 256 ids and any payload of "
              "1/2/4 bytes (fixed size) or 0..8 bytes (unknown data); payload lengths around each VarInt boundary up "
              "to 2 MiB, and one of 16 MiB; histories of 3 and 4 events of mixed kinds; files of 30000 (70000 thorough) "
              "events, 130 channels and patterns, 500 tracks, 127 inserts, 1100 notes, with a few symbolic events; "
              "paths as text and Path, saving to a new file, the same file, and over others",
    "outside": "event lengths in a non-minimal VarInt; booleans stored as anything but 0/1; signalling NaNs; "
               "structured payloads (C02, C03) and text (C04)",
    "assumptions": ["FL Studio writes booleans as 0 or 1 and lengths in the shortest form"],
}

BOOLS = (0, 9, 10, 15, 20, 26, 28, 30, 32)
STRUCTURED = (*S.STRUCTS, *S.LISTS, 234)
TEXTS = (*range(192, 208), 231, 239, 241)


def both_ways(h, file):
    p = K.pyflp.parse(h.put(file))
    out = K.save(h, p)
    h.check(out == file, "saved file differs")
    return p


def headers(h):
    fmt = h.int("fmt", -1, 80)
    h.assume(h.any([fmt == f for f in K.FORMATS]))
    ppq = h.int("ppq", 24, 960)
    h.assume(h.any([ppq == q for q in K.VALID_PPQ]))
    nch = h.int("nch", 0, 65535)
    file = K.flp([*K.HEAD, K.E(9, K.u8(1))], fmt, nch, ppq)
    p = both_ways(h, file)
    h.check(p.ppq == ppq, "timebase")
    h.check(p.channel_count == nch, "channel count")
    h.check(p.format == fmt, "format")


def set_header(h):
    """What the user sets is what the header says, nothing else changes."""
    file = K.flp([*K.HEAD, K.E(9, K.u8(1))], 0, h.int("nch", 0, 65535), 96)
    p = K.pyflp.parse(h.put(file))
    n = h.int("n", 0, 65535)
    ppq = h.int("ppq", 24, 960)
    h.assume(h.any([ppq == q for q in K.VALID_PPQ]))
    p.channel_count = n
    p.ppq = ppq
    out = K.save(h, p)
    h.check(out == K.splice(K.splice(file, 10, K.u16(n)), 12, K.u16(ppq)), "header after setting it")


def fixed(h, lo, hi, n):
    id = h.int("id", lo, hi - 1)
    data = h.bytes("v", n)
    if n == 1:
        h.assume(h.implies(h.any([id == b for b in BOOLS]), data[0] < 2))
    if n == 4:
        h.assume(h.implies(id == 140, h.lnot(h.all([data[3] & 127 == 127, data[2] & 128 == 128]))))
    both_ways(h, K.flp([*K.HEAD, id.to_bytes(1, "little"), data]))


def unknown(h, n):
    id = h.int("id", 208, 255)
    for k in (*STRUCTURED, 231, 239, 241):
        h.assume(id != k)
    both_ways(h, K.flp([*K.HEAD, id.to_bytes(1, "little"), K.varint(n), h.bytes("v", n), K.E(12, h.bytes("w", 1))]))


def length(h, n):
    """Payload length around a VarInt boundary."""
    data = h.bytes("a", 2) + b"\x81" * (n - 4) + h.bytes("z", 2)
    p = both_ways(h, K.flp([*K.HEAD, K.E(210, data), K.E(12, h.bytes("w", 1))]))
    h.check(len(p.events) == 4, "event count")


KINDS = 7


def some_event(h, k, i):
    if k == 0:
        return K.E(12, h.bytes("e%d" % i, 1))
    if k == 1:
        return K.E(80, h.bytes("e%d" % i, 2))
    if k == 2:
        return K.E(156, h.bytes("e%d" % i, 4))
    if k == 3:
        return K.E(210, h.bytes("e%d" % i, 3))
    if k == 4:
        return K.E(194, K.utf16(h.text("e%d" % i, 2)))
    if k == 5:
        return K.E(219, h.bytes("e%d" % i, 8))
    return K.E(250, b"")


def history(h, n):
    evs = [some_event(h, h.choose("k%d" % i, KINDS), i) for i in range(n)]
    p = both_ways(h, K.flp([*K.HEAD, *evs]))
    h.check(len(p.events) == 2 + n, "event count")


def many_events(h, n):
    """A file of n events."""
    ids = (12, 80, 156, 210, 194, 30, 250)
    size = lambda k: 1 if k < 64 else 2 if k < 128 else 4 if k < 192 else 6
    evs = [K.E(k, (B.fill(i, 0, size(k) - (2 if k == 194 else 0)) + (b"\0\0" if k == 194 else b"")) if k != 30 else K.u8(i & 1))
           for i, k in ((i, ids[i % 7]) for i in range(n))]
    evs[n // 2] = some_event(h, 3, 0)
    evs[-1] = some_event(h, 2, 1)
    p = both_ways(h, K.flp([*K.HEAD, *evs]))
    h.check(len(p.events) == 2 + n, "event count")


def over(h, how, where):
    """Opened from and saved to paths of either kind, a new file, the same file or over a longer or shorter one."""
    import pathlib

    a, b = h.bytes("a", 3), h.bytes("b", 1)
    file = K.flp([*K.HEAD, K.E(210, a), K.E(12, b)])
    src = h.put(file, "in.flp")
    dst = src if where == "same" else h.path("new.flp") if where == "new" else h.put(
        K.flp([*K.HEAD, K.E(210, bytes(90 if where == "longer" else 1))]) if where != "empty" else b"", "other.flp")
    p = K.pyflp.parse(pathlib.Path(src) if how & 1 else src)
    for _ in range(2):
        K.pyflp.save(p, pathlib.Path(dst) if how & 2 else dst)
        h.check(h.get(dst) == file, "saved file")
    h.check(h.get(src) == file, "file it was opened from")
    v = h.int("v", 0, 255)
    p.main_volume = v
    K.pyflp.save(p, pathlib.Path(dst) if how & 2 else dst)
    h.check(h.get(dst) == K.splice(file, len(file) - 1, v.to_bytes(1, "little")), "saved file after a change")
    h.check(h.get(src) == h.get(dst) if where == "same" else h.get(src) == file, "file it was opened from, after a change")


def again(h):
    """save . parse . save = save"""
    file = K.flp([*K.HEAD, K.E(12, h.bytes("a", 1)), K.E(210, h.bytes("b", 2)), K.E(194, K.utf16(h.text("t", 2)))])
    p = K.pyflp.parse(h.put(file))
    p.main_volume = h.int("v", 0, 255)
    p.title = h.text("title", 3)
    one = K.save(h, p, "one.flp")
    two = K.save(h, K.pyflp.parse(h.path("one.flp")), "two.flp")
    h.check(one == two, "second generation differs")
    h.check(one == K.save(h, p, "three.flp"), "saving twice differs")


def cases(tier):
    deep = tier != "quick"
    out = [Case("header", headers, weight=5), Case("set header", set_header), Case("generations", again)]
    out += [Case("byte events", fixed, (0, 64, 1), weight=5), Case("word events", fixed, (64, 128, 2), weight=5),
            Case("dword events", fixed, (128, 192, 4), weight=5)]
    for how in range(4):
        for where in ("new", "same", "longer", "shorter", "empty"):
            out.append(Case("over/%s/%d" % (where, how), over, (how, where)))
    for n in (0, 1, 2, 3, 8, 16, 64) + ((128,) if deep else ()):
        out.append(Case("unknown data/%d" % n, unknown, (n,), weight=3))
    for n in (126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 131072, 200000, 262144, 524288,
              1048576, 2097151, 2097152, 16777216, 2097153, 4194304):
        out.append(Case("length/%d" % n, length, (n,)))
    out.append(Case("sequence/2", history, (2,), weight=4))
    out.append(Case("sequence/3", history, (3,), weight=9))
    for kind, n in B.SIZES.items():
        out.append(Case("many/%s" % kind, B.many_saved, (kind, n), weight=5))
    for n in (300, 3000, 30000) + ((70000,) if deep else ()):
        out.append(Case("many/events/%d" % n, many_events, (n,), weight=9))
    out.append(Case("sequence/4", history, (4,), paths=5000, weight=50))
    return out
