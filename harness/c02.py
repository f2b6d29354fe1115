"""C02: structured events survive parse + save byte for byte."""
from engine.api import Case

from . import big as B
from . import common as K
from . import spec as S

META = {
    "entry": ["pyflp.parse", "pyflp.save"],
    "bounds": "every structured event at every field-boundary length, all uninterpreted/integer/flag bytes symbolic at "
              "once, each enumeration/float/converted field symbolic in turn; lists of 0..N items (N=6 quick, 11 "
              "thorough); remote and MIDI controllers at each field boundary; automation with 0..4 points (7 thorough); lists of 5000 items (20000 thorough), three of them symbolic",
    "outside": "lengths that cut a field in two; list payloads that are not a multiple of the item size; booleans "
               "stored as anything but 0/1; signalling NaNs; track heights that are not whole percents; "
               "start/length positions whose second word is not 63",
    "assumptions": ["FL Studio writes booleans as 0 or 1", "fields are cut only at their boundaries"],
}


def roundtrip(h, id, data, *more):
    ev = K.E(id, data)
    file = K.flp([*K.HEAD, ev, *more, K.E(9, K.u8(1))])
    p = K.pyflp.parse(h.put(file))
    h.check(K.save(h, p) == file, "saved file differs")


def struct_case(h, id, length, hot):
    label, layout, _ = S.STRUCTS[id]
    roundtrip(h, id, S.payload(h, label, layout, length, hot))


def controller_case(h, id, n, m):
    """Events of controllers, once the module which describes them is imported."""
    import pyflp.controller  # noqa: F401

    data = h.bytes("c", n)
    roundtrip(h, id, data, *(K.E(id, h.bytes("d", m)),) if m is not None else ())


def list_case(h, id, layout, n, hot):
    data = K.join([S.payload(h, "i%d" % k, layout, None, hot if k == n - 1 else None) for k in range(n)])
    roundtrip(h, id, data)


def params(h, n, what):
    """Mixer parameters: the kind of one item, or the insert/slot it is about, is arbitrary."""
    data = b""
    for k in range(n):
        last = k == n - 1
        kind = K.u8(192)
        if last and what == "kind":
            kind = h.bytes("kind", 1)
        where = K.u16(k << 6 | 2)
        if last and what == "slot":
            where = h.int("where", 0, 64 * 4).to_bytes(2, "little")
        if last and what == "insert":
            where = (h.int("ins", 0, 127) << 6).to_bytes(2, "little")
        if last and what == "high":
            where = (h.int("high", 0, 7) << 13 | 65).to_bytes(2, "little")
        data = data + h.bytes("u%d" % k, 4) + kind + h.bytes("v%d" % k, 1) + where + h.bytes("m%d" % k, 4)
    roundtrip(h, 225, data)


def automation(h, n, tail):
    data = h.bytes("head", 21 - 4) + K.u32(n)
    for i in range(n):
        for part, k in (("off", 8), ("val", 8), ("ten", 4)):
            b = h.bytes("p%d.%s" % (i, part), k)
            S.no_snan(h, b)
            data = data + b
        data = data + h.bytes("p%d.u" % i, 4)
    roundtrip(h, 234, data + h.bytes("tail", tail))


def overlong(h, id, extra):
    label, layout, _ = S.STRUCTS[id]
    roundtrip(h, id, S.payload(h, label, layout) + h.bytes("more", extra))


def ragged(h, id, layout, extra):
    roundtrip(h, id, S.payload(h, "i", layout) + h.bytes("more", extra))


def bad_height(h):
    data = S.payload(h, "track", S.TRACK)
    off, _ = S.offset(S.TRACK, "height")
    b = h.bytes("height", 4)
    S.no_snan(h, b)
    h.assume(b[3] == 0x3f)
    roundtrip(h, 238, K.splice(data, off, b))


def cases(tier):
    out = []
    deep = tier != "quick"
    for id, (label, layout, cut) in S.STRUCTS.items():
        for n in S.boundaries(layout) if cut else [S.size(layout)]:
            out.append(Case("%s/%d bytes" % (label, n), struct_case, (id, n, None)))
        for f in layout:
            if f[1] in S.HARD:
                out.append(Case("%s/%s" % (label, f[0]), struct_case, (id, None, f[0]), paths=4000, weight=5))
    for n in (0, 2, 3, 4, 6, 8, 16, 20):
        for m in (None, 0, 8, 20):
            out.append(Case("remote controller/%d and %s bytes" % (n, m), controller_case, (227, n, m)))
    for n in range(0, 9):
        out.append(Case("midi controller/%d bytes" % n, controller_case, (226, n, None)))
    for n in range(1, 7 if not deep else 12):
        for what in ("kind", "slot", "insert", "high"):
            out.append(Case("mixer-parameters/%d items/%s" % (n, what), params, (n, what), weight=8))
    for id, (label, layout) in S.LISTS.items():
        if id == 225:
            continue
        for n in range(0, 12 if deep else 7):
            out.append(Case("%s/%d items" % (label, n), list_case, (id, layout, n, None), paths=3000, weight=2 + n))
        for f in layout:
            if f[1] in S.HARD:
                out.append(Case("%s/%s" % (label, f[0]), list_case, (id, layout, 2, f[0]), paths=4000, weight=5))
    for n in range(0, 8 if deep else 5):
        out.append(Case("playlist-21/%d items" % n, list_case, (233, S.PLITEM21, n, None), weight=3))
    for n in range(0, 8 if deep else 5):
        for tail in (0, 5):
            out.append(Case("automation/%d points/%d" % (n, tail), automation, (n, tail), weight=6))
    for what in B.LISTS:
        for n in (127, 300) if what == "routing" else ((1100, 5000, 20000) if deep else (1100, 5000)):
            out.append(Case("many/%s/%d" % (what, n), B.long_list, (what, n), weight=20))
    out.append(Case("many/points", B.long_points, (3000 if deep else 1100,), weight=10))
    out.append(Case("finding/tail of a longer event", overlong, (219, 4), finding="F01"))
    out.append(Case("finding/partial item", ragged, (224, S.NOTE, 3), finding="F02"))
    out.append(Case("finding/height", bad_height, (), timeout=60, finding="F03"))
    return out
