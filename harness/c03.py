"""C03: plugin payloads (VST wrapper state, notes, native plugins) survive parse + save byte for byte."""
from engine.api import Case

from . import common as K
from . import spec as S

META = {
    "entry": ["pyflp.parse", "pyflp.save"],
    "bounds": "every native plugin at every known payload size, all bytes symbolic (enumerations in turn); other "
              "plugins with opaque payloads of 0..8 bytes and up to 70000; VST state of 0..3 records (5 thorough) of every known "
              "kind and unknown kinds, record lengths 0..8 and every field boundary of the structured ones; notebooks "
              "of 0..2 pages (4 thorough) of 0..3 characters; up to 300 records or pages, a record of 70000 bytes and a page of 40000 "
              "characters, most of it fixed",
    "outside": "payload sizes of native plugins that PyFLP does not know; VST data truncated inside a record; texts "
               "inside VST records or pages that are not valid UTF-8/UTF-16; booleans stored as anything but 0/1",
    "assumptions": ["FL Studio writes booleans as 0 or 1", "record lengths cover whole fields"],
}


def both(h, name, data, tail=()):
    ev = [K.E(201, K.utf16(name)), K.E(213, data)]
    file = K.flp([*K.HEAD, *ev, *tail, K.E(9, K.u8(1))])
    p = K.pyflp.parse(h.put(file))
    h.check(K.save(h, p) == file, "saved file differs")


def native(h, name, i, hot):
    both(h, name, S.payload(h, "f", S.NATIVES[name][i], None, hot))


def opaque(h, name, n):
    both(h, name, h.bytes("d", n))


def anonymous(h, n):
    """A payload with no plugin named before it."""
    file = K.flp([*K.HEAD, K.E(213, h.bytes("d", n)), K.E(9, K.u8(1))])
    h.check(K.save(h, K.pyflp.parse(h.put(file))) == file, "saved file differs")


def named_by_user(h, n):
    """An arbitrary plugin name (never one PyFLP knows: shorter than all of them)."""
    both(h, h.text("name", n), h.bytes("d", 5))


def rec(id, data):
    return K.u32(id) + len(data).to_bytes(8, "little") + data


MIDI_CUTS = (0, 4, 8, 12, 13, 20)
FLAG_CUTS = (0, 9, 13, 17, 22, 23, 30)
TEXTS = (51, 54, 55, 56)
BLOBS = (30, 31, 32, 50, 52, 53, 57)
UNKNOWN = (0, 3, 58, 0x12345678)


def record(h, label, id, n):
    if id == 2 and n > 22:
        return rec(id, h.bytes(label, 22) + K.u8(h.int(label + ".idle", 0, 1)) + h.bytes(label + ".more", n - 23))
    if id in TEXTS:
        return rec(id, h.text(label, n, 0, 127).encode("utf-8"))
    return rec(id, h.bytes(label, n))


def vst(h, marker, kinds):
    data = K.u32(marker)
    for i, (id, n) in enumerate(kinds):
        data = data + record(h, "r%d" % i, id, n)
    both(h, "Fruity Wrapper", data)


def vst_text(h, id, lo, hi):
    both(h, "Fruity Wrapper", K.u32(10) + rec(id, h.text("t", 1, lo, hi).encode("utf-8") + b"z"))


def vst_marker(h):
    m = h.bytes("marker", 4)
    both(h, "Fruity Wrapper", m + record(h, "r", 53, 4))


def notebook(h, lens, wide):
    data = h.bytes("u", 4) + h.bytes("active", 4)
    for i, n in enumerate(lens):
        t = h.text("p%d" % i, n, 1, 0xFFFF if wide else 127)
        ix = h.bytes("ix%d" % i, 4)
        h.assume(ix != b"\xff\xff\xff\xff")
        data = data + ix + K.varint(n) + t.encode("utf-16-le")
    data = data + b"\xff\xff\xff\xff" + K.u8(h.int("editable", 0, 1))
    both(h, "Fruity NoteBook 2", data)


def long_notebook(h, n):
    """A page of n characters, most of them filler."""
    t = "x" * (n - 2) + h.text("t", 2, 1, 0xFFFF)
    data = bytes(8) + b"\1\0\0\0" + K.varint(n) + t.encode("utf-16-le") + b"\xff\xff\xff\xff\1"
    both(h, "Fruity NoteBook 2", data)


def long_record(h, id, n):
    """A record of n bytes, most of them filler, followed by a short one."""
    d = h.bytes("a", 2) + b"x" * (n - 4) + h.bytes("b", 2)
    if id in TEXTS:
        d = b"x" * (n - 2) + h.text("t", 2, 0, 127).encode("utf-8")
    both(h, "Fruity Wrapper", K.u32(10) + rec(id, d) + record(h, "r", 53, 4))


def long_opaque(h, n):
    both(h, "Sytrus", h.bytes("a", 2) + b"x" * (n - 4) + h.bytes("b", 2))


def many_records(h, n):
    """n records of all kinds, the last one symbolic."""
    ids = (*TEXTS, *BLOBS, *UNKNOWN, 1)
    data = K.join([rec(ids[i % len(ids)], bytes([65 + i % 26] * (4 * (i % 5)))) for i in range(n - 1)])
    both(h, "Fruity Wrapper", K.u32(10) + data + record(h, "r", 53, 7))


def many_pages(h, n):
    data = bytes(8)
    for i in range(n):
        t = h.text("t", 2, 1, 0xD7FF) if i == n - 1 else "p%d" % i
        data = data + K.u32(i) + K.varint(len(t)) + t.encode("utf-16-le")
    both(h, "Fruity NoteBook 2", data + b"\xff\xff\xff\xff\1")


def several(h):
    """Payloads of different plugins in one project are told apart."""
    evs = []
    for k, (name, data) in enumerate((
            ("Fruity Balance", h.bytes("a", 8)), ("Fruity Wrapper", K.u32(8) + record(h, "b", 53, 3)),
            ("Sytrus", h.bytes("c", 7)), ("Fruity Center", b"\1\0\0\0" + K.u32(h.int("d", 0, 1))),
            ("", h.bytes("e", 5)))):
        evs += [K.E(201, K.utf16(name)), K.E(212, S.payload(h, "w%d" % k, S.WRAPPER)), K.E(213, data)]
    file = K.flp([*K.HEAD, *evs])
    h.check(K.save(h, K.pyflp.parse(h.put(file))) == file, "saved file differs")


def cases(tier):
    deep = tier != "quick"
    out = []
    for name, layouts in S.NATIVES.items():
        for i, lay in enumerate(layouts):
            out.append(Case("%s/%d bytes" % (name, S.size(lay)), native, (name, i, None)))
            for f in lay:
                if f[1] in S.HARD:
                    out.append(Case("%s/%d bytes/%s" % (name, S.size(lay), f[0]), native, (name, i, f[0]), weight=3))
    for name in ("Sytrus", "Fruity Parametric EQ 2", "", "BooBass ", "fruity balance"):
        for n in (0, 1, 8):
            out.append(Case("opaque %r/%d" % (name, n), opaque, (name, n)))
    for n in (0, 1, 4):
        out.append(Case("unnamed/%d" % n, anonymous, (n,)))
    for n in (1, 2):
        out.append(Case("any name/%d" % n, named_by_user, (n,), weight=3))
    kinds = [(1, n) for n in MIDI_CUTS] + [(2, n) for n in FLAG_CUTS]
    kinds += [(i, n) for i in TEXTS + BLOBS + UNKNOWN for n in (0, 1, 4)]
    for marker in (8, 10):
        out.append(Case("vst %d/no records" % marker, vst, (marker, ())))
    for k in kinds:
        out.append(Case("vst/%d of %d bytes" % k, vst, (10, (k,)), weight=2))
    for id in TEXTS:
        for lo, hi in ((0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0x10FFFF)):
            out.append(Case("vst/%d text %x" % (id, lo), vst_text, (id, lo, hi), weight=3))
    out.append(Case("vst/marker", vst_marker, weight=3))
    full = [(1, 12), (2, 30), (30, 4), (31, 8), (32, 8), (50, 3), (51, 4), (52, 16), (53, 12), (54, 4), (55, 5), (56, 3),
            (57, 2)]
    out.append(Case("vst/all records", vst, (10, tuple(full)), weight=6))
    out.append(Case("vst/repeated", vst, (8, ((53, 2), (53, 2), (1, 8), (1, 12))), weight=4))
    if deep:
        for a in kinds:
            for b in ((1, 8), (2, 23), (54, 2), (53, 3)):
                out.append(Case("vst/%s after %s" % (a, b), vst, (8, (b, a)), weight=2))
    for lens in ((), (0,), (1,), (3,), (1, 2), (0, 1)) + (((2, 2, 2), (1, 0, 3, 1), (130,)) if deep else ()):
        for wide in (False, True):
            out.append(Case("notebook/%s%s" % (lens, " wide" if wide else ""), notebook, (lens, wide), weight=4))
    for n in (127, 128, 300, 16384, 40000):
        out.append(Case("notebook/one page of %d" % n, long_notebook, (n,), weight=4))
    for n in (128, 300, 17000, 70000) + ((2097160,) if deep else ()):
        out.append(Case("opaque/%d bytes" % n, long_opaque, (n,), weight=4))
        for id in (51, 53, 55, 99) if n < 100000 else ():
            out.append(Case("vst/%d of %d bytes" % (id, n), long_record, (id, n), weight=4))
    for n in (40, 300):
        out.append(Case("vst/%d records" % n, many_records, (n,), weight=6))
        out.append(Case("notebook/%d pages" % n, many_pages, (n,), weight=6))
    out.append(Case("several plugins", several, weight=5))
    return out
