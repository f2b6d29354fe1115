"""C06: every documented property reads exactly the bytes it is stored in."""
from engine.api import Case

from . import common as K
from . import model as M
from . import spec as S

META = {
    "entry": ["pyflp.parse", "Project and everything reachable from it"],
    "bounds": "426 documented properties; the event that stores the property is between decoys of the same kind in "
              "neighbouring models; all integer/flag/text bytes symbolic at once, every enumeration, float and "
              "converted field symbolic in turn; every field-boundary length of structured events; texts of 0..3 "
              "characters; second of three items of a list; 8 shorter forms of VST options, unknown VST records; 3 automation points (150 with the last 2 arbitrary; 600 thorough)",
    "outside": "derived values (C12, C13, C18, C19, C21); lengths that cut a field in two; signalling NaNs",
    "assumptions": ["booleans are stored as 0 or 1"],
}


def get(h, f, p):
    return f.get(p)


def simple(h, f):
    if f.kind == "s":
        return text(h, f)
    total = 1 if f.id < 64 else 2 if f.id < 128 else 4
    data = h.bytes("v", total) if f.kind != "b" else h.int("v", 0, 1).to_bytes(total, "little")
    p = K.parse(h, f.ctx(K.E(f.id, data), K.E(f.id, bytes(total))))
    h.check(M.decoded(h, f.kind, data[f.off:f.off + f.size], f.extra, f.get(p)), f.name)


def text(h, f):
    n = h.choose("n", 4)
    t = h.text("t", n, 1, 0xD7FF)
    p = K.parse(h, f.ctx(K.E(f.id, K.utf16(t)), K.E(f.id, K.utf16("other"))))
    h.check(f.get(p) == t, f.name)


def absent(h, f):
    """No event: the documented default."""
    p = K.parse(h, f.ctx(K.E(210, h.bytes("v", 1)), None))
    got = f.get(p)
    h.check(got is None if f.default is None else h.eq(got, f.default), f.name)


def group(h, id, ctx, fields, layout, length, hot):
    size = S.size(layout)
    data = S.payload(h, "f", layout, length, hot)
    decoy = bytes(size) if id != 213 else None
    p = K.parse(h, ctx(K.E(id, data), K.E(id, decoy) if decoy is not None else None))
    have = len(data)
    for f in fields:
        if hot is not None and f.attr != hot and not hot.endswith("." + f.attr):
            continue
        got = f.get(p)
        if f.off + f.size > have:
            h.check(got is None, f.name + " of a shorter event")
        elif f.kind == "ht":
            h.check(height(h, data[f.off:f.off + 4], got), f.name)
        else:
            h.check(M.decoded(h, f.kind, data[f.off:f.off + f.size], f.extra, got), f.name)


def no_event(h, ctx, fields):
    p = K.parse(h, ctx(K.E(210, h.bytes("v", 1)), None))
    for f in fields:
        h.check(f.get(p) is None, f.name + " without its event")


def height(h, data, got):
    """Whole percents only (see C15)."""
    import struct

    if h.symbolic:
        pct = h.int("f.height", 0, 1800) if not isinstance(data, bytes) else round(struct.unpack("<f", data)[0] * 100)
    else:
        pct = round(struct.unpack("<f", data)[0] * 100)
    return h.all([got[-1] == "%", int(got[:-1]) == pct])


def items(h, f, hot):
    n = S.size(f.layout)
    data = S.payload(h, "i", f.layout, None, hot)
    other = S.payload(h, "j", f.layout)
    p = K.parse(h, f.ctx(K.E(f.id, other + data + other), K.E(f.id, bytes(n * 2))))
    h.check(M.decoded(h, f.kind, data[f.off:f.off + f.size], f.extra, f.get(p)), f.name)


def points(h, n):
    """Automation points."""
    pts = []
    data = h.bytes("head", 4) + h.bytes("amount", 4) + h.bytes("u", 9) + K.u32(n)
    for i in range(n):
        b = [h.bytes("p%d.%s" % (i, k), m) for k, m in (("val", 8), ("ten", 4))]
        for x in b:
            S.no_snan(h, x)
        pts.append(b)
        import struct
        data = data + struct.pack("<d", 0.25 * (i + 1)) + b[0] + b[1] + h.bytes("u%d" % i, 4)
    data = data + h.bytes("tail", 3)
    p = K.parse(h, M.in_automation(K.E(234, data), K.E(234, bytes(21))))
    ch = M.ch(p)
    h.check(ch.lfo.amount == K.le(data[4:8], True), "lfo amount")
    got = list(ch)
    h.check(len(got) == n, "points")
    at = 0.0
    for i, pt in enumerate(got):
        at += 0.25 * (i + 1)
        h.check(pt.position == at, "position of a point")
        h.check(h.float_is(pt.value, pts[i][0]), "value of a point")
        h.check(h.float_is(pt.tension, pts[i][1]), "tension of a point")


def long_points(h, n):
    """n points, the last few with arbitrary values."""
    import struct

    data = bytes(17) + K.u32(n)
    tail = {}
    at, where = 0.0, []
    for i in range(n):
        d = (0.25, 0.5, 4.0, 0.0, 17.75)[i % 5]
        at += d
        where.append(at)
        v = h.bytes("v%d" % i, 8) if i > n - 3 else struct.pack("<d", 1 / (i + 2))
        if i > n - 3:
            S.no_snan(h, v)
        tail[i] = v
        data = data + struct.pack("<d", d) + v + struct.pack("<f", i / 256) + K.u32(i)
    p = K.parse(h, M.in_automation(K.E(234, data + b"end"), K.E(234, bytes(21))))
    got = list(M.ch(p))
    h.check([x.position for x in got] == where, "positions of the points")
    h.check([x.tension for x in got] == [i / 256 for i in range(n)], "tensions of the points")
    h.check(h.all([h.float_is(x.value, tail[i]) for i, x in enumerate(got) if i > n - 3]), "values of the points")


def vst(h, hot):
    """Options of a VST plugin."""
    fl = S.payload(h, "f", M.VST_FLAGS)
    mi = S.payload(h, "m", M.VST_MIDI)
    texts = {i: h.text("t%d" % i, 3) for i in (51, 54, 55, 56)}
    blobs = {i: h.bytes("b%d" % i, 4) for i in (52, 53)}
    data = K.u32(10) + M.rec(1, mi) + M.rec(2, fl)
    for i in (51, 52, 53, 54, 55, 56):
        data = data + M.rec(i, texts[i].encode("utf-8") if i in texts else blobs[i])
    p = K.parse(h, M.plugin_slot("Fruity Wrapper")(K.E(213, data)))
    pl = M.slot(p).plugin
    w1, w2 = K.le(fl[9:13]), K.le(fl[13:17])
    for sub, attr, bit, word, inv in M.VST_BITS:
        v = ((w1 if word == 1 else w2) >> bit) & 1
        h.check(getattr(getattr(pl, sub), attr) == (v != inv), "vst %s.%s" % (sub, attr))
    h.check(pl.compatibility.fast_idle == (fl[22] == 1), "vst fast_idle")
    h.check(pl.midi.input == K.le(mi[:4], True), "vst midi.input")
    h.check(pl.midi.output == K.le(mi[4:8], True), "vst midi.output")
    h.check(pl.midi.pb_range == K.le(mi[8:12]), "vst midi.pb_range")
    for a, i in (("fourcc", 51), ("name", 54), ("plugin_path", 55), ("vendor", 56)):
        h.check(getattr(pl, a) == texts[i], "vst " + a)
    for a, i in (("guid", 52), ("state", 53)):
        h.check(getattr(pl, a) == blobs[i], "vst " + a)


def vst_unknown(h, k):
    """Records of no known kind among the others."""
    id = h.int("id", 0, 2 ** 32 - 1)
    h.assume(h.all([id != x for x in (1, 2, 30, 31, 32, 50, 51, 52, 53, 54, 55, 56, 57)]))
    text = h.text("t", 3)
    recs = [(51, b"abcd"), (54, text.encode("utf-8")), (53, b"st"), (1, K.u32(1) + K.u32(2) + K.u32(3))]
    recs = [K.u32(i) + len(d).to_bytes(8, "little") + d for i, d in recs]
    recs.insert(k, id.to_bytes(4, "little") + (5).to_bytes(8, "little") + h.bytes("x", 5))
    p = K.parse(h, M.plugin_slot("Fruity Wrapper")(K.E(213, K.u32(10) + K.join(recs))))
    pl = M.slot(p).plugin
    h.check(pl.name == text, "vst name")
    h.check(pl.fourcc == "abcd" and pl.state == b"st", "vst fourcc and state")
    h.check(pl.midi.input == 1 and pl.midi.output == 2 and pl.midi.pb_range == 3, "vst midi")


def vst_short(h, nf, nm):
    """The shorter forms of the options of a VST plugin."""
    fl = S.payload(h, "f", M.VST_FLAGS, nf) if nf else b""
    mi = S.payload(h, "m", M.VST_MIDI, nm) if nm else b""
    data = K.u32(8) + M.rec(2, fl) + M.rec(53, b"\1" * 24) + M.rec(1, mi) + M.rec(54, b"\1" * 24)
    p = K.parse(h, M.plugin_slot("Fruity Wrapper")(K.E(213, data)))
    pl = M.slot(p).plugin
    for sub, attr, bit, word, inv in M.VST_BITS:
        off = 9 if word == 1 else 13
        got = getattr(getattr(pl, sub), attr)
        if nf < off + 4:
            h.check(got is None, "vst %s.%s not stored" % (sub, attr))
        else:
            h.check(got == (((K.le(fl[off:off + 4]) >> bit) & 1) != inv), "vst %s.%s" % (sub, attr))
    got = pl.compatibility.fast_idle
    h.check(got is None if nf < 23 else got == (fl[22] == 1), "vst fast_idle")
    for i, (a, signed) in enumerate((("input", True), ("output", True), ("pb_range", False))):
        got = getattr(pl.midi, a)
        if nm < 4 * i + 4:
            h.check(got is None, "vst midi.%s not stored" % a)
        else:
            h.check(got == K.le(mi[4 * i:4 * i + 4], signed), "vst midi." + a)


def vst_channel(h):
    state = h.bytes("s", 6)
    p = K.parse(h, M.plugin_channel("Fruity Wrapper")(K.E(213, K.u32(8) + M.rec(54, b"Serum") + M.rec(53, state))))
    pl = M.ch(p).plugin
    h.check(pl.state == state, "vst state of a channel")
    h.check(pl.name == "Serum", "vst name of a channel")


def notebook(h):
    t = [h.text("a", 2, 1, 0xD7FF), h.text("b", 1, 1, 127)]
    data = h.bytes("u", 4) + h.bytes("act", 4) + h.bytes("i0", 4) + K.varint(2) + t[0].encode("utf-16-le")
    h.assume(data[8:12] != b"\xff" * 4)
    data = data + h.bytes("i1", 4) + K.varint(1) + t[1].encode("utf-16-le") + b"\xff" * 4 + K.u8(h.int("ed", 0, 1))
    h.assume(data[17:21] != b"\xff" * 4)
    p = K.parse(h, M.plugin_slot("Fruity NoteBook 2")(K.E(213, data)))
    pl = M.slot(p).plugin
    h.check(pl.active_page == K.le(data[4:8]), "notebook active page")
    h.check(pl.editable == (data[-1] == 1), "notebook editable")
    pages = [x for x in pl.pages if x["index"] != -1]
    h.check(len(pages) == 2, "notebook pages")
    for i, o in ((0, 8), (1, 17)):
        h.check(pages[i]["index"] == K.le(data[o:o + 4], True), "notebook page index")
        h.check(pages[i]["value"] == t[i], "notebook page text")


def groups():
    out = {}
    for f in M.STRUCT + [f for f in M.FLAGS if f.layout is not None]:
        out.setdefault((f.id, f.ctx, id(f.layout)), []).append(f)
    return list(out.values())


def cases(tier):
    out = []
    for f in M.SIMPLE:
        out.append(Case(f.name, simple, (f,), weight=2))
        if f.ctx not in (M.in_marker, M.in_pattern_marker) and f.id not in (147, 154):
            out.append(Case(f.name + "/absent", absent, (f,)))
    for f in M.FLAGS:
        if f.layout is None:
            out.append(Case(f.name, simple, (f,)))
    for fs in groups():
        f0 = fs[0]
        label = "%s (%d)" % (f0.name.rsplit(".", 1)[0], f0.id)
        cut = f0.id != 213
        lens = S.boundaries(f0.layout) if cut else [S.size(f0.layout)]
        if tier == "quick" and len(lens) > 6 and f0.ctx is not M.in_sampler and f0.ctx is not M.in_track:
            lens = [lens[0], lens[len(lens) // 2], lens[-1]]
        for n in lens:
            out.append(Case("%s/%d bytes" % (label, n), group, (f0.id, f0.ctx, fs, f0.layout, n, None), weight=2))
        if cut and f0.ctx not in (M.in_track, M.in_insert) and f0.id not in (218, 228):
            out.append(Case(label + "/absent", no_event, (f0.ctx, fs)))
        for f in f0.layout:
            if f[1] in S.HARD and any(x.off == S.offset(f0.layout, f[0])[0] for x in fs):
                out.append(Case("%s/%s" % (label, f[0]), group, (f0.id, f0.ctx, fs, f0.layout, None, f[0]), weight=6))
    for f in M.LISTED + [M.NOTE_SLIDE]:
        out.append(Case(f.name, items, (f, f.attr if f.kind in S.HARD else None), weight=2))
    for n in (0, 1, 3):
        out.append(Case("automation/%d points" % n, points, (n,), weight=4))
    for n in (40, 150) + ((600,) if tier != "quick" else ()):
        out.append(Case("automation/%d points" % n, long_points, (n,), weight=9))
    out += [Case("vst options", vst, (None,), weight=5), Case("vst of a channel", vst_channel),
            *[Case("vst unknown record/%d" % k, vst_unknown, (k,), weight=2) for k in range(5)],
            *[Case("vst options/%d and %d" % k, vst_short, k, weight=2) for k in
              ((0, 0), (9, 4), (13, 8), (17, 12), (22, 0), (23, 4), (0, 14), (26, 8))], Case("notebook", notebook)]
    return out
