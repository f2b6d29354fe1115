"""C20: size, equality and validity of events."""
from engine.api import Case

from pyflp import _events as EV
from pyflp.exceptions import EventIDOutOfRange, InvalidEventChunkSize

from . import common as K
from . import spec as S

META = {
    "entry": ["EventBase.size", "EventBase.__eq__/__ne__", "EventBase.__init__", "Project.events", "pyflp.save"],
    "bounds": "size: every id with any payload (fixed sizes), texts of 0..4 characters and around each length-prefix boundary in "
              "both encodings, before and after being replaced by a text of another length, opaque payloads of 0..8 bytes and "
              "around the boundaries, structured events at every field boundary, lists of 0..3 items, automation, all native "
              "plugins, VST state; equality: any two payloads of the same kind (one converted field at a time), any two ids; "
              "construction: 12 kinds of events, all 256 ids, payloads of 0..6 bytes",
    "outside": "NaNs (unequal to themselves); fields of unknown meaning, which equality ignores; equality across projects of "
               "different text encodings; equality of two values which are both stored on a logarithmic scale or as a track height",
    "assumptions": ["FL Studio writes booleans as 0 or 1"],
}

NEW, OLD = "20.8.4.2576", "11.4.9.100"
BOOLS = (0, 9, 10, 15, 20, 26, 28, 30, 32)


def evs_of(p, id):
    return [e for e in p.events if e.id == id]


def agrees(h, p, n_bytes):
    """Sizes sum up to the data chunk, each is the length of its bytes."""
    total = 0
    for e in p.events:
        h.check(e.size == len(bytes(e)), "size of an event")
        total += e.size
    out = K.save(h, p)
    h.check(len(out) == 22 + total, "sizes sum up to the file")
    h.check(K.le(out[18:22]) == total, "sizes sum up to the data size")
    if n_bytes is not None:
        h.check(total == n_bytes, "total size")


def body(evs):
    return K.join(evs)


def fixed(h, lo, hi, n):
    id = h.int("id", lo, hi - 1)
    data = h.bytes("v", n)
    if n == 1:
        h.assume(h.implies(h.any([id == b for b in BOOLS]), data[0] < 2))
    p = K.parse(h, [*K.HEAD, id.to_bytes(1, "little"), data])
    h.check(list(p.events)[2].size == 1 + n, "size of an event of fixed size")


def text(h, v, id, n, m):
    """A text of n characters, then of m."""
    enc = (lambda t: t.encode("utf-16-le") + b"\0\0") if v == NEW else (lambda t: t.encode("ascii") + b"\0")
    t, u = h.text("t", min(n, 3), 1, 127) + "x" * (n - 3), h.text("u", min(m, 3), 1, 127) + "y" * (m - 3)
    evs = [K.version(v), K.E(159, K.u32(1)), K.E(id, enc(t)), K.E(12, h.bytes("w", 1))]
    p = K.parse(h, evs)
    e = evs_of(p, id)[0]
    h.check(e.size == len(evs[2]), "size of a text")
    e.value = u
    evs[2] = K.E(id, enc(u))
    h.check(e.size == len(evs[2]), "size of a replaced text")
    h.check(K.save(h, p) == K.flp(evs), "saved file")
    agrees(h, p, len(body(evs)))


def opaque(h, n):
    data = h.bytes("d", min(n, 8)) + b"\x81" * (n - 8)
    evs = [*K.HEAD, K.E(210, data), K.E(12, h.bytes("w", 1))]
    agrees(h, K.parse(h, evs), len(body(evs)))


def variable(h, id, n):
    """Any event with a length of its own, whatever its id, with n bytes."""
    if id in (226, 227):
        import pyflp.controller  # noqa: F401
    data = h.bytes("d", n) if id > 207 and id not in (225, 231, 239, 241) else h.text("t", n // 2, 65, 90).encode("utf-16-le")
    evs = [*K.HEAD, K.E(id, data), K.E(12, h.bytes("w", 1))]
    try:
        p = K.parse(h, evs)
    except Exception:  # not a payload of this kind
        return h.check(True, "refused")
    e = [e for e in p.events if e.id == id][0]
    h.check(e.size == len(bytes(e)), "size of an event of its own length")
    agrees(h, p, len(body([*K.HEAD, bytes(e), evs[-1]])))


def data(h, id, layout, n):
    evs = [*K.HEAD, K.E(id, S.payload(h, "d", layout, n)), K.E(12, h.bytes("w", 1))]
    p = K.parse(h, evs)
    h.check(evs_of(p, id)[0].size == len(evs[2]), "size of a structured event")
    agrees(h, p, len(body(evs)))


def items(h, id, layout, n):
    evs = [*K.HEAD, K.E(id, K.join([S.payload(h, "i%d" % k, layout) for k in range(n)]))]
    p = K.parse(h, evs)
    h.check(evs_of(p, id)[0].size == len(evs[2]), "size of a list")
    agrees(h, p, len(body(evs)))


def automation(h, n):
    d = h.bytes("head", 17) + K.u32(n)
    for i in range(n):
        d = d + b"\0" * 20 + h.bytes("p%d" % i, 4)
    evs = [*K.HEAD, K.E(234, d + h.bytes("tail", 3))]
    agrees(h, K.parse(h, evs), len(body(evs)))


def plugin(h, name, layout):
    evs = [*K.HEAD, K.E(201, K.utf16(name)), K.E(213, S.payload(h, "f", layout))]
    agrees(h, K.parse(h, evs), len(body(evs)))


def rec(id, data):
    return K.u32(id) + len(data).to_bytes(8, "little") + data


def vst(h, n, m):
    """VST state whose name becomes longer or shorter."""
    d = lambda t: K.u32(10) + rec(1, h.bytes("midi", 12)) + rec(54, t.encode("utf-8")) + rec(53, h.bytes("st", 5))
    t, u = h.text("t", n, 1, 127), h.text("u", m, 1, 127)
    mk = lambda t: [*K.HEAD, K.GROUP, *K.channel(0, K.INSTRUMENT, [K.E(212, bytes(52)), K.E(213, d(t))], internal="Fruity Wrapper")]
    p = K.parse(h, mk(t))
    agrees(h, p, len(body(mk(t))))
    pl = list(p.channels)[0].plugin
    h.check(pl.name == t, "name of a VST plugin")
    pl.name = u
    agrees(h, p, len(body(mk(u))))
    h.check(K.save(h, p) == K.flp(mk(u)), "saved file")


# ------------------------------------------------------------------ equality
def pair(h, e, f, want, label):
    a, b = e == f, f == e
    if want is not None:
        h.check(a == want, label + " ==")
    h.check(a == b, label + " is symmetric")
    h.check((e != f) == h.lnot(a), label + " !=")
    return a


def same_fixed(h, id, n):
    a, b = h.bytes("a", n), h.bytes("b", n)
    if id == 128:  # a colour: one component at a time
        k = h.choose("k", 4)
        a = K.u8((0, 1, 127, 128, 254, 255)[h.choose("c", 6)]) * 4
        a, b = K.splice(b"\1\2\3\4", k, a[k:k + 1]), K.splice(b"\1\2\3\4", k, b[k:k + 1])
    if id in BOOLS:
        h.assume(h.all([a[0] < 2, b[0] < 2]))
    p = K.parse(h, [*K.HEAD, K.E(id, a), K.E(id, b)])
    e, f = evs_of(p, id)
    pair(h, e, f, a == b, "events of a fixed size")
    pair(h, e, e, True, "an event and itself")


def same_text(h, v, id, n, m):
    enc = (lambda t: t.encode("utf-16-le") + b"\0\0") if v == NEW else (lambda t: t.encode("ascii") + b"\0")
    t, u = h.text("t", n, 1, 127), h.text("u", m, 1, 127)
    p = K.parse(h, [K.version(v), K.E(159, K.u32(1)), K.E(id, enc(t)), K.E(id, enc(u))])
    e, f = evs_of(p, id)
    pair(h, e, f, t == u, "texts")
    f.value = t
    pair(h, e, f, True, "texts made equal")


def same_opaque(h, n, m):
    a, b = h.bytes("a", n), h.bytes("b", m)
    p = K.parse(h, [*K.HEAD, K.E(210, a), K.E(210, b)])
    e, f = evs_of(p, 210)
    pair(h, e, f, a == b, "opaque events")


def known(h, layout, a, b):
    """Every field with a name has the same bytes in both."""
    out, n = [], 0
    for f in layout:
        if not f[0].startswith("_"):
            out.append(a[n:n + f[2]] == b[n:n + f[2]])
        n += f[2]
    return h.all(out)


def floats_ok(h, layout, hot, data):
    n = 0
    for f in layout:
        if f[0] == hot and f[1] == "f":
            b = data[n:n + f[2]]
            h.assume(h.any([x & 127 != 0 for x in b]))  # 0.0 == -0.0
        n += f[2]


def same_struct(h, id, layout, hot, before=()):
    a, b = S.payload(h, "a", layout, None, hot), S.payload(h, "b", layout, None, hot)
    floats_ok(h, layout, hot, a)
    p = K.parse(h, [*K.HEAD, *before, K.E(id, a), K.E(id, b)])
    e, f = evs_of(p, id)
    eq = pair(h, e, f, None, "structured events")
    h.check(h.implies(eq, known(h, layout, a, b)), "structured events with different values")
    h.check(h.implies(a == b, eq), "structured events with equal bytes")


def same_list(h, id, layout, n, m):
    a = [S.payload(h, "a%d" % k, layout) for k in range(n)]
    b = [S.payload(h, "b%d" % k, layout) for k in range(m)]
    p = K.parse(h, [*K.HEAD, K.E(id, K.join(a)), K.E(id, K.join(b))])
    e, f = evs_of(p, id)
    eq = pair(h, e, f, None, "lists")
    if n != m:
        h.check(h.lnot(eq), "lists of different lengths")
    else:
        h.check(h.implies(eq, h.all([known(h, layout, x, y) for x, y in zip(a, b)])), "lists with different values")
        h.check(h.implies(K.join(a) == K.join(b), eq), "lists with equal bytes")


def two_ids(h, lo, hi, n):
    """Different ids, the same payload."""
    i, j = h.int("i", lo, hi - 1), lo + 12
    h.assume(i != j)
    d = K.u8(1) + b"\0" * (n - 1)
    p = K.parse(h, [*K.HEAD, i.to_bytes(1, "little"), d, K.E(j, d)])
    e, f = list(p.events)[2:]
    pair(h, e, f, False, "events with different ids")


def foreign(h):
    p = K.parse(h, [*K.HEAD, K.E(12, h.bytes("v", 1))])
    e = list(p.events)[2]
    for o in (1, "x", None, b"", h.int("o", 0, 255)):
        h.check(h.raises(lambda: e == o, TypeError) is not None, "an event compared with something else")
        h.check(h.raises(lambda: e != o, TypeError) is not None, "an event compared with something else")


# ------------------------------------------------------------------ construction
KINDS = {"BoolEvent": (0, 64, 1), "I8Event": (0, 64, 1), "U8Event": (0, 64, 1), "I16Event": (64, 128, 2), "U16Event": (64, 128, 2),
         "F32Event": (128, 192, 4), "I32Event": (128, 192, 4), "U32Event": (128, 192, 4), "U16TupleEvent": (128, 192, 4),
         "ColorEvent": (128, 192, 4), "AsciiEvent": (192, 208, None), "UnicodeEvent": (192, 208, None)}
OTHER_TEXTS = (231, 239, 241)


def construct(h, kind, n):
    cls = getattr(EV, kind)
    lo, hi, size = KINDS[kind]
    id = h.fork(h.int("id", 0, 255))
    d = bytes(n) if size is None or kind == "F32Event" else h.bytes("d", n)
    if kind == "BoolEvent" and n == 1:
        h.assume(d[0] < 2)
    here = lo <= id < hi or size is None and id in OTHER_TEXTS
    if not here:
        h.check(h.raises(lambda: cls(EV.EventEnum(id), d), EventIDOutOfRange) is not None, "an id the kind does not allow")
    elif size is not None and n != size:
        h.check(h.raises(lambda: cls(EV.EventEnum(id), d), InvalidEventChunkSize) is not None, "a payload of the wrong size")
    else:
        e = cls(EV.EventEnum(id), d)
        h.check(e.id == id, "id of a new event")
        if size is not None:
            h.check(bytes(e) == K.E(id, d), "bytes of a new event")
            h.check(e.size == 1 + size, "size of a new event")
        else:
            h.check(e.value == "", "value of a new text")


def cases(tier):
    deep = tier != "quick"
    out = [Case("size/byte events", fixed, (0, 64, 1), weight=5), Case("size/word events", fixed, (64, 128, 2), weight=5),
           Case("size/dword events", fixed, (128, 192, 4), weight=5), Case("foreign", foreign)]
    pairs = [(n, m) for n in range(4) for m in range(4)]
    edge = {NEW: (61, 62, 63, 64), OLD: (125, 126, 127, 128)}
    for v in (NEW, OLD):
        for id in ((194, 197, 201, 203, 239, 241) if not deep else [i for i in (*range(192, 208), 231, 239, 241) if i not in (199, 200)]):
            for n, m in pairs if id == 194 or deep else ((0, 2), (3, 1)):
                out.append(Case("size/text/%s/%d/%d to %d" % (v, id, n, m), text, (v, id, n, m)))
        for n in edge[v]:
            for m in (2, *edge[v]):
                out.append(Case("size/text/%s/194/%d to %d" % (v, n, m), text, (v, 194, n, m)))
    for n in (0, 1, 2, 8, 127, 128, 129, 16383, 16384) + ((2097151, 2097152) if deep else ()):
        out.append(Case("size/opaque/%d" % n, opaque, (n,)))
    for id in range(192, 256):
        if id not in (199, 200):
            for n in (0, 2, 4):
                out.append(Case("size/of %d/%d bytes" % (id, n), variable, (id, n)))
    for id, (label, layout, cut) in S.STRUCTS.items():
        for n in S.boundaries(layout) if cut else [S.size(layout)]:
            out.append(Case("size/%s/%d bytes" % (label, n), data, (id, layout, n)))
        out.append(Case("equal/%s" % label, same_struct, (id, layout, None), weight=2))
        for f in layout:
            if f[1] in ("e", "ei", "f") or (deep and f[1] == "lin"):
                out.append(Case("equal/%s/%s" % (label, f[0]), same_struct, (id, layout, f[0]), weight=3, paths=4000))
    for id, (label, layout) in S.LISTS.items():
        if id == 225:
            layout = [(f[0], f[1], f[2]) for f in layout]
        for n in range(0, 4):
            if id != 225:
                out.append(Case("size/%s/%d items" % (label, n), items, (id, layout, n)))
                for m in range(0, 3):
                    if n < 3:
                        out.append(Case("equal/%s/%d and %d items" % (label, n, m), same_list, (id, layout, n, m), weight=2))
    for n in range(3):
        out.append(Case("size/automation/%d" % n, automation, (n,)))
    for name, layouts in S.NATIVES.items():
        for lay in layouts:
            out.append(Case("size/%s/%d" % (name, S.size(lay)), plugin, (name, lay)))
            out.append(Case("equal/%s/%d" % (name, S.size(lay)), same_struct, (213, lay, None, (K.E(201, K.utf16(name)),))))
    for n, m in pairs:
        out.append(Case("size/vst/%d to %d" % (n, m), vst, (n, m), weight=2))
        out.append(Case("equal/opaque/%d and %d" % (n, m), same_opaque, (n, m)))
        for v in (NEW, OLD):
            out.append(Case("equal/text/%s/%d and %d" % (v, n, m), same_text, (v, 194, n, m)))
    for id, n in ((0, 1), (12, 1), (22, 1), (64, 2), (80, 2), (98, 2), (128, 4), (132, 4), (135, 4), (142, 4), (147, 4), (156, 4)):
        out.append(Case("equal/%d" % id, same_fixed, (id, n)))
    out += [Case("ids/byte", two_ids, (0, 64, 1)), Case("ids/word", two_ids, (64, 128, 2)), Case("ids/dword", two_ids, (128, 192, 4))]
    for kind in KINDS:
        for n in range(0, 7):
            if KINDS[kind][2] is None and n % 2:
                continue
            out.append(Case("new/%s/%d bytes" % (kind, n), construct, (kind, n), weight=2))
    return out
