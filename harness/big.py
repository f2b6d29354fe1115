"""Large projects: collections and lists as long as real ones get, most of it fixed, the interesting items symbolic.

Shared by C01, C02, C10, C11, C12 and C13."""

from . import common as K
from . import spec as S


def fill(i, k, n):
    """n bytes which differ from item to item."""
    return bytes([(i * 37 + (i >> 7) * 5 + j * 11 + k) & 127 for j in range(n)])


LISTS = {
    "notes": (224, 24, lambda i: fill(i, 1, 24)),
    "controllers": (223, 12, lambda i: fill(i, 2, 8) + b"\0" * 4),
    "playlist": (233, 32, lambda i: fill(i, 3, 24) + b"\0" * 8),
    "playlist-21": (233, 60, lambda i: fill(i, 4, 24) + b"\0" * 8 + fill(i, 5, 28)),
    "routing": (235, 1, lambda i: K.u8(i % 3 == 0)),
    "mixer parameters": (225, 12, lambda i: fill(i, 6, 4) + K.u8((192, 193, 194, 0, 1)[i % 5]) + b"\0" + K.u16(i % 127 << 6 | i // 127 % 10)
                         + fill(i, 7, 4)),
}
HOT = {
    "notes": lambda h, t: h.bytes(t, 24),
    "controllers": lambda h, t: h.bytes(t, 8) + b"\0\0\x80\x3f",
    "playlist": lambda h, t: h.bytes(t, 24) + b"\0" * 8,
    "playlist-21": lambda h, t: h.bytes(t, 24) + b"\0" * 8 + h.bytes(t + "x", 28),
    "routing": lambda h, t: K.u8(h.choose(t, 2)),
    "mixer parameters": lambda h, t: h.bytes(t, 4) + b"\xc0" + h.bytes(t + "v", 1) + K.u16(200) + h.bytes(t + "m", 4),
}


def items(h, what, n):
    _, _, f = LISTS[what]
    out = [f(i) for i in range(n)]
    for t, i in (("first", 0), ("middle", n // 2), ("last", n - 1)):
        out[i] = HOT[what](h, t)
    return out


def long_list(h, what, n):
    """A list of n items is written back, and all of its items are there."""
    id = LISTS[what][0]
    its = items(h, what, n)
    ev = K.E(id, K.join(its))
    file = K.flp([*K.HEAD, *([K.E(65, K.u16(1))] if id in (223, 224) else []), ev, K.E(9, K.u8(1))])
    p = K.pyflp.parse(h.put(file))
    e = p.events.first(id)
    h.check(len(e) == n, "items of the event")
    if id in (223, 224):
        got = list(getattr(list(p.patterns)[0], what))
        h.check(len(got) == n, "items")
        h.check(h.all([g.position == K.le(b[:4]) for g, b in zip(got, its)]), "items in order")
    h.check(K.save(h, p) == file, "saved file differs")


def long_points(h, n):
    def pt(i):
        return b"\0" * 7 + b"\x40" + fill(i, 8, 7) + b"\x3f" + b"\0" * 4 + fill(i, 9, 4)
    pts = [pt(i) for i in range(n)]
    pts[n - 1] = h.bytes("o", 7) + b"\x40" + h.bytes("v", 7) + b"\x3f" + h.bytes("t", 3) + b"\x3e" + h.bytes("u", 4)
    data = fill(1, 1, 17) + K.u32(n) + K.join(pts) + b"\0" * 5
    file = K.flp([*K.HEAD, K.GROUP, *K.channel(4, 5, [K.E(234, data)]), K.E(9, K.u8(1))])
    p = K.pyflp.parse(h.put(file))
    got = list(p.channels[4])
    h.check(len(got) == n, "points")
    h.check(h.all([h.float_is(g.value, b[8:16]) for g, b in zip(got, pts)]), "points in order")
    h.check(K.save(h, p) == file, "saved file differs")


# ---------------------------------------------------------------- crowds: (events of item i, its name event, its ids)
def _chan(i, name):
    return K.channel(_iid(i), (0, 4, 3, 5, 2)[i % 5], [], name=name, internal="")


def _iid(i):
    return i * 7 % 2003 + 1


def crowd(kind, names):
    n = len(names)
    out = []
    if kind == "channels":
        out.append(K.GROUP)
        for i, nm in enumerate(names):
            out += _chan(i, nm)
    elif kind == "patterns":
        for i in range(n):
            out += [K.E(65, K.u16(_iid(i))), K.E(224, b"")]
        for i, nm in enumerate(names):
            out += [K.E(65, K.u16(_iid(i))), K.E(193, K.utf16(nm))]
    elif kind == "arrangements":
        for i, nm in enumerate(names):
            out += [K.E(99, K.u16(i)), K.E(241, K.utf16(nm)), K.E(233, b""), K.E(238, K.u32(1))]
        out.append(K.E(100, K.u16(n - 1)))
    elif kind == "inserts":
        for nm in names:
            out += K.insert([K.E(204, K.utf16(nm))], slots=[[]])
    elif kind == "slots":
        out += K.insert(slots=[[]])
        out += K.insert(slots=[[K.E(203, K.utf16(nm))] for nm in names])
        out += K.insert(slots=[[]])
    elif kind == "groups":
        out += [K.E(231, K.utf16(nm)) for nm in names]
        out += [e for i in range(n) for e in K.channel(i, 0, [], group=n - 1 - i)]
    elif kind == "tracks":
        out.append(K.E(99, K.u16(0)))
        for i, nm in enumerate(names):
            out += [K.E(238, K.u32(i + 1)), K.E(239, K.utf16(nm))]
        out.append(K.E(100, K.u16(0)))
    elif kind in ("markers", "pattern markers"):
        out.append(K.E(99, K.u16(0)) if kind == "markers" else K.E(65, K.u16(1)))
        for i, nm in enumerate(names):
            out += [K.E(148, K.u32(i * 96)), K.E(33, K.u8(4)), K.E(34, K.u8(4)), K.E(205, K.utf16(nm))]
    elif kind == "layer":
        out.append(K.GROUP)
        for i, nm in enumerate(names):
            out += K.channel(_iid(i), 0, [], name=nm)
            if i == n // 2:
                out += K.channel(0, 3, [K.E(94, K.u16(_iid(j))) for j in range(n - 1, -1, -1)])
    return [*K.HEAD, *out]


def look(p, kind):
    return {
        "channels": lambda: p.channels, "patterns": lambda: p.patterns, "arrangements": lambda: p.arrangements,
        "inserts": lambda: p.mixer, "slots": lambda: list(p.mixer)[1], "groups": lambda: list(p.channels.groups),
        "tracks": lambda: list(list(p.arrangements)[0].tracks), "markers": lambda: list(list(p.arrangements)[0].timemarkers),
        "pattern markers": lambda: list(list(p.patterns)[0].timemarkers), "layer": lambda: p.channels[0],
    }[kind]()


SIZES = {"channels": 130, "patterns": 130, "arrangements": 40, "inserts": 127, "slots": 10, "groups": 40, "tracks": 500,
         "markers": 70, "pattern markers": 70, "layer": 40}


def many(h, kind, n):
    """n items: all there, in order, each with its own name; the last one is looked up by its symbolic name."""
    last = h.text("last", 2, 0x21, 0xD7FF)
    names = ["%s %d" % (chr(97 + i % 26), i) for i in range(n - 1)] + [last]
    p = K.parse(h, crowd(kind, names))
    c = look(p, kind)
    got = list(c)
    h.check(len(got) == n, "number of items")
    h.check(len(c) == n, "length")
    order = names[::-1] if kind == "layer" else names
    h.check(h.all([h.eq(g.name, nm) for g, nm in zip(got, order)]), "names in order")
    if kind in ("channels", "patterns"):
        h.check([g.iid for g in got] == [_iid(i) for i in range(n)], "ids in order")
    elif kind == "layer":
        h.check([g.iid for g in got] == [_iid(i) for i in range(n - 1, -1, -1)], "ids in order")
    elif kind in ("inserts", "slots", "arrangements", "tracks"):
        d = {"inserts": -1, "tracks": 1}.get(kind, 0)
        h.check([g.iid for g in got] == [i + d for i in range(n)], "ids in order")
    elif kind == "groups":
        h.check(h.all([h.eq(ch.group.name, nm) for ch, nm in zip(p.channels, names[::-1])]), "groups of channels")
    else:
        h.check([g.position for g in got] == [i * 96 for i in range(n)], "positions in order")
    if kind in ("channels", "patterns", "arrangements", "inserts", "slots"):
        h.check(h.eq(list(c[last].events)[0] is list(got[-1].events)[0], True), "lookup by name")
        idx = {"channels": _iid(n - 1), "inserts": n - 2}.get(kind, n - 1)
        h.check(list(c[idx].events)[0] is list(got[-1].events)[0], "lookup of the last")
        s = c[n - 3::-5]
        h.check([list(x.events)[0] is list(y.events)[0] for x, y in zip(s, got[n - 3::-5])] == [True] * len(got[n - 3::-5]), "slice")


def many_saved(h, kind, n):
    """The same project saved: nothing is lost."""
    last = h.text("last", 2, 0x21, 0xD7FF)
    evs = crowd(kind, ["%s %d" % (chr(97 + i % 26), i) for i in range(n - 1)] + [last])
    file = K.flp(evs)
    p = K.pyflp.parse(h.put(file))
    h.check(K.save(h, p) == file, "saved file differs")
