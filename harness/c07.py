"""C07: setting a property changes exactly the bytes it is stored in, and reading it back gives the value."""
from engine.api import Case

from . import common as K
from . import model as M
from . import spec as S

META = {
    "entry": ["pyflp.parse", "Project and everything reachable from it", "pyflp.save"],
    "bounds": "every documented writable property; old contents of the event and the new value both symbolic over the "
              "whole range of the field (enumerations: every member; texts of 0..3 characters replacing 2); "
              "neighbouring models hold the same kind of event; second of three list items; a second project of the same kind open at the same time",
    "outside": "converted values (C15), single bits (C08), mixer parameters (C13), version (C18), licensee (C19), "
               "derived values (C21); values outside the range of the field (C14)",
    "assumptions": ["booleans are stored as 0 or 1"],
}


def new_value(h, f, old):
    """(value to set, bytes expected in the file)"""
    n = f.size
    k = f.kind
    if k == "u":
        v = h.int("new", 0, 256 ** n - 1)
        return v, v.to_bytes(n, "little")
    if k == "i":
        v = h.int("new", -(256 ** n // 2), 256 ** n // 2 - 1)
        return v, v.to_bytes(n, "little", signed=True)
    if k in ("b", "b4"):
        v = h.bool("new")
        return v, h.ite(v, 1, 0).to_bytes(n, "little")
    if k in ("t", "t2"):
        m = n // 2
        v = [h.int("new%d" % i, 0, 256 ** m - 1) for i in (0, 1)]
        return (v[0], v[1]), v[0].to_bytes(m, "little") + v[1].to_bytes(m, "little")
    if k == "c":
        b = h.bytes("new", 4)
        return type(old)(*(h.flo(x, lambda c: c / 255) for x in b)), b
    if k == "f":
        import struct
        if h.symbolic:
            from engine.intrinsics import s_pack, s_unpack
        else:
            s_pack, s_unpack = struct.pack, struct.unpack
        b = h.bytes("new", n)
        S.no_snan(h, b)
        return s_unpack("<f" if n == 4 else "<d", b)[0], b
    if k in ("e", "ei"):
        vals = sorted(f.extra)
        v = vals[h.choose("new", len(vals))]
        if isinstance(old, str):
            return f.extra[v], v.to_bytes(n, "little")
        return type(old)(v), v.to_bytes(n, "little", signed=k == "ei")
    raise KeyError(k)


def finish(h, f, p, want, events):
    """events: the file expected after the change."""
    got = f.get(p)
    h.check(same(h, f, got, want), f.name + " right after setting it")
    expected = K.flp(events)
    out = K.save(h, p)
    h.check(out == expected, f.name + ": saved file")
    q = K.pyflp.parse(h.path("out.flp"))
    h.check(same(h, f, f.get(q), want), f.name + " after saving and loading")


def same(h, f, got, want):
    if f.kind == "f":
        return h.float_is(got, _bits(h, want, f.size))
    if f.kind in ("t", "t2", "c"):
        return h.eq(tuple(got), tuple(want))
    return got == want


def _bits(h, v, n):
    import struct
    if h.symbolic:
        from engine.intrinsics import s_pack as pack
    else:
        pack = struct.pack
    return pack("<f" if n == 4 else "<d", v)


def assign(h, f, p, v):
    """Assigned twice, looked at before and through an object obtained earlier."""
    view = f.obj(p)
    getattr(view, f.attr)
    old = f.get(p)
    f.set(p, old)
    K.save(h, p, "before.flp")  # what was saved before has no part in what is saved afterwards
    f.set(p, v)
    h.check(same(h, f, getattr(view, f.attr), v), f.name + " through an object obtained before")


def elsewhere(h, f, data, other, decoy):
    """Another project of the same kind is open: each keeps its own."""
    p = K.parse(h, f.ctx(K.E(f.id, data), decoy))
    q = K.parse(h, f.ctx(K.E(f.id, other), decoy), name="other.flp")
    a, b = f.obj(p), f.obj(q)
    getattr(a, f.attr)
    was = getattr(b, f.attr)
    again = f.get(q)
    h.check(same(h, f, again, was), f.name + " of another project")
    if f.kind == "s":
        v, new = "new", K.utf16("new")
    else:
        v, new = new_value(h, f, f.get(p))
        new = K.splice(data, f.off, new)
    f.set(p, v)
    h.check(same(h, f, getattr(b, f.attr), was), f.name + " of another project is left alone")
    h.check(same(h, f, getattr(a, f.attr), v), f.name + " right after setting it")
    h.check(K.save(h, q) == K.flp(f.ctx(K.E(f.id, other), decoy)), f.name + ": another project saved")
    h.check(K.save(h, p) == K.flp(f.ctx(K.E(f.id, new), decoy)), f.name + ": saved file")


def two_projects(h, f):
    if f.kind == "s":
        return elsewhere(h, f, K.utf16("mine"), K.utf16(h.text("o", 2)), K.E(f.id, K.utf16("x")))
    if f.layout is not None:
        return elsewhere(h, f, S.payload(h, "f", f.layout), S.payload(h, "o", f.layout),
                         K.E(f.id, bytes(S.size(f.layout))) if f.id != 213 else None)
    total = 1 if f.id < 64 else 2 if f.id < 128 else 4
    if f.kind == "b":
        mk = lambda n: h.int(n, 0, 1).to_bytes(total, "little")
    else:
        mk = lambda n: h.bytes(n, total)
    elsewhere(h, f, mk("v"), mk("o"), K.E(f.id, bytes(total)))


def simple(h, f):
    total = 1 if f.id < 64 else 2 if f.id < 128 else 4
    data = h.bytes("v", total) if f.kind != "b" else h.int("v", 0, 1).to_bytes(total, "little")
    decoy = K.E(f.id, bytes(total))
    p = K.parse(h, f.ctx(K.E(f.id, data), decoy))
    v, b = new_value(h, f, f.get(p))
    assign(h, f, p, v)
    finish(h, f, p, v, f.ctx(K.E(f.id, K.splice(data, f.off, b)), decoy))


def text(h, f, n):
    decoy = K.E(f.id, K.utf16("other"))
    p = K.parse(h, f.ctx(K.E(f.id, K.utf16(h.text("old", 2))), decoy))
    t = h.text("new", n, 1, 0xD7FF)
    assign(h, f, p, t)
    finish(h, f, p, t, f.ctx(K.E(f.id, K.utf16(t)), decoy))


def struct_field(h, f):
    data = S.payload(h, "f", f.layout)
    decoy = K.E(f.id, bytes(S.size(f.layout))) if f.id != 213 else None
    p = K.parse(h, f.ctx(K.E(f.id, data), decoy))
    v, b = new_value(h, f, f.get(p))
    assign(h, f, p, v)
    finish(h, f, p, v, f.ctx(K.E(f.id, K.splice(data, f.off, b)), decoy))


def item_field(h, f):
    n = S.size(f.layout)
    a, data, z = [S.payload(h, x, f.layout) for x in "abc"]
    decoy = K.E(f.id, bytes(n * 2))
    p = K.parse(h, f.ctx(K.E(f.id, a + data + z), decoy))
    v, b = new_value(h, f, f.get(p))
    assign(h, f, p, v)
    finish(h, f, p, v, f.ctx(K.E(f.id, a + K.splice(data, f.off, b) + z), decoy))


def two_sets(h, f, g):
    """Two properties of one event set one after the other: both stick."""
    data = S.payload(h, "f", f.layout)
    decoy = K.E(f.id, bytes(S.size(f.layout))) if f.id != 213 else None
    p = K.parse(h, f.ctx(K.E(f.id, data), decoy))
    v, b = new_value(h, f, f.get(p))
    assign(h, f, p, v)
    w = h.int("other", 0, 1000)
    g.set(p, w)
    data = K.splice(K.splice(data, f.off, b), g.off, w.to_bytes(g.size, "little"))
    finish(h, f, p, v, f.ctx(K.E(f.id, data), decoy))


def point(h, attr, i):
    n = 3
    head = h.bytes("head", 17) + K.u32(n)
    pts = [K.join([h.bytes("p%d.%s" % (k, x), m) for x, m in (("o", 8), ("v", 8), ("t", 4), ("u", 4))]) for k in range(n)]
    for x in pts:
        for a, m in ((0, 8), (8, 8), (16, 4)):
            S.no_snan(h, x[a:a + m])
    tail = h.bytes("tail", 3)
    f = M.Field("point." + attr, M.in_automation, lambda p: list(M.ch(p))[i], attr, 234, "f", 8 if attr == "value" else 16,
                8 if attr == "value" else 4)
    if h.symbolic:
        # positions are sums of offsets: keep the offsets of this case concrete
        import struct
        pts = [struct.pack("<d", 0.5) + x[8:] for x in pts]
    else:
        import struct
        pts = [struct.pack("<d", 0.5) + x[8:] for x in pts]
    p = K.parse(h, M.in_automation(K.E(234, head + K.join(pts) + tail), K.E(234, bytes(21))))
    v, b = new_value(h, f, None)
    assign(h, f, p, v)
    pts[i] = K.splice(pts[i], f.off, b)
    finish(h, f, p, v, M.in_automation(K.E(234, head + K.join(pts) + tail), K.E(234, bytes(21))))


def twins(h, attr, i, j, held):
    """Points with equal values: one changes, then another."""
    import struct
    size, off = (8, 8) if attr == "value" else (4, 16)
    pts = [struct.pack("<ddf", 0.0, 0.5, 0.25) + h.bytes("u%d" % k, 4) for k in range(3)]
    tail = h.bytes("tail", 3)
    data = lambda: M.in_automation(K.E(234, bytes(17) + K.u32(3) + K.join(pts) + tail), K.E(234, bytes(21)))
    p = K.parse(h, data())
    old = list(M.ch(p))
    v = [(h.f64 if size == 8 else h.f32)("v%d" % k) for k in range(2)]
    for k, x in zip((i, j, i), (v[0], v[1], 0.25)):
        setattr(old[k] if held else list(M.ch(p))[k], attr, x)
        pts[k] = K.splice(pts[k], off, h.float_bytes(x, size))
    h.check(K.save(h, p) == K.flp(data()), "points which were equal: saved file")


def lfo_amount(h):
    data = h.bytes("h", 17) + K.u32(0) + h.bytes("t", 2)
    f = M.Field("automation.lfo.amount", M.in_automation, lambda p: M.ch(p).lfo, "amount", 234, "i", 4, 4)
    p = K.parse(h, M.in_automation(K.E(234, data), K.E(234, bytes(21))))
    v, b = new_value(h, f, None)
    assign(h, f, p, v)
    finish(h, f, p, v, M.in_automation(K.E(234, K.splice(data, 4, b)), K.E(234, bytes(21))))


VST = {51: b"abcd", 52: b"\1" * 4, 53: b"state", 54: b"Name", 55: b"/p", 56: b"V"}


def vst_data(h, repl=None):
    fl = repl.get(2) if repl and 2 in repl else S.payload(h, "f", M.VST_FLAGS)
    mi = repl.get(1) if repl and 1 in repl else S.payload(h, "m", M.VST_MIDI)
    data = K.u32(10) + M.rec(1, mi) + M.rec(2, fl)
    for i in VST:
        data = data + M.rec(i, (repl or {}).get(i, VST[i]))
    return fl, mi, data


def vst_struct(h, sub, attr, id, off, n, kind):
    ctx = M.plugin_slot("Fruity Wrapper")
    fl, mi, data = vst_data(h)
    p = K.parse(h, ctx(K.E(213, data)))
    f = M.Field("vst %s.%s" % (sub, attr), ctx, M.slot_plugin(sub), attr, 213, kind, off, n)
    v, b = new_value(h, f, None)
    assign(h, f, p, v)
    repl = {1: mi, 2: fl}
    repl[id] = K.splice(repl[id], off, b)
    finish(h, f, p, v, ctx(K.E(213, vst_data(h, repl)[2])))


def vst_value(h, attr, id, n):
    ctx = M.plugin_slot("Fruity Wrapper")
    fl, mi, data = vst_data(h)
    p = K.parse(h, ctx(K.E(213, data)))
    f = M.Field("vst " + attr, ctx, M.slot_plugin(), attr, 213, "s")
    v = h.bytes("new", n) if id in (52, 53) else h.text("new", n, 0, 127)
    assign(h, f, p, v)
    finish(h, f, p, v, ctx(K.E(213, vst_data(h, {1: mi, 2: fl, id: v if id in (52, 53) else v.encode("utf-8")})[2])))


def channel_iid(h):
    old, new = h.int("old", 0x1FE, 0x203), h.int("new", 0xFA, 0x105)
    file = lambda i: [*K.HEAD, K.GROUP, *K.channel(2), K.E(64, i.to_bytes(2, "little")), K.E(21, K.u8(0)), K.E(145, K.u32(0)),
                      *K.channel(7)]
    p = K.parse(h, file(old))
    ch = list(p.channels)[1]
    ch.iid = new
    h.check(ch.iid == new, "channel iid right after setting it")
    h.check(K.save(h, p) == K.flp(file(new)), "channel iid: saved file")


def pattern_iid(h):
    new = h.int("new", 0xF0, 0x110)
    file = lambda i: [*K.HEAD, K.E(65, K.u16(1)), K.E(224, bytes(24)), K.E(65, i.to_bytes(2, "little")), K.E(224, bytes(48)),
                      K.E(65, K.u16(1)), K.E(193, K.utf16("a")), K.E(65, i.to_bytes(2, "little")), K.E(193, K.utf16("b"))]
    p = K.parse(h, file(4))
    list(p.patterns)[1].iid = new
    h.check(K.save(h, p) == K.flp(file(new)), "pattern iid: saved file")
    pat = list(K.pyflp.parse(h.path("out.flp")).patterns)[1]
    h.check(h.all([pat.iid == new, pat.name == "b", len(list(pat.notes)) == 2]), "pattern iid after saving and loading")


def arrangement_iid(h):
    new = h.int("new", 0, 65535)
    file = lambda i: [*K.HEAD, K.E(99, K.u16(0)), K.E(99, i.to_bytes(2, "little")), K.E(241, K.utf16("x"))]
    p = K.parse(h, file(1))
    list(p.arrangements)[1].iid = new
    h.check(K.save(h, p) == K.flp(file(new)), "arrangement iid: saved file")


def slot_index(h):
    new = h.int("new", 0, 65535)
    file = lambda i: [*K.HEAD, *K.insert(slots=[[], []])[:1], K.E(98, K.u16(0)), K.E(98, i.to_bytes(2, "little")),
                      *K.insert()[1:], *K.insert(slots=[[]])]
    p = K.parse(h, file(1))
    list(list(p.mixer)[0])[1].index = new
    h.check(K.save(h, p) == K.flp(file(new)), "slot index: saved file")


def fmt(h):
    file = [*K.HEAD, K.E(9, h.int("l", 0, 1).to_bytes(1, "little"))]
    p = K.parse(h, file)
    k = K.FORMATS[h.choose("f", len(K.FORMATS))]
    p.format = type(p.format)(k)
    h.check(K.save(h, p) == K.flp(file, k), "format: saved file")


def path(h, obj, attr, ctx, id, n):
    """A path is what is stored; an empty one is the current folder."""
    import pathlib

    t = h.text("t", n, 1, 0xD7FF)
    if n == 1:
        h.assume(t != ".")
    decoy = K.E(id, K.utf16("other"))
    p = K.parse(h, ctx(K.E(id, K.utf16("old/x")), decoy))
    h.check(getattr(obj(p), attr) == pathlib.Path("old/x"), attr)
    setattr(obj(p), attr, t if n else pathlib.Path("."))
    h.check(K.save(h, p) == K.flp(ctx(K.E(id, K.utf16(t)), decoy)), attr + ": saved file")


CONVERTED = ("lin", "log2", "ln", "ht")


def cases(tier):
    deep = tier != "quick"
    out = []
    for f in M.SIMPLE:
        if f.ro:
            continue
        if f.kind == "s":
            for n in (0, 1, 3) + ((8,) if deep else ()):
                out.append(Case("%s/%d" % (f.name, n), text, (f, n)))
        else:
            out.append(Case(f.name, simple, (f,), weight=2))
    for f in M.STRUCT:
        if f.kind not in CONVERTED:
            out.append(Case(f.name, struct_field, (f,), weight=2))
    for f in M.SIMPLE + M.STRUCT:
        if f.kind not in CONVERTED and not f.ro:
            out.append(Case("two projects/" + f.name, two_projects, (f,), weight=2))
    seen = set()
    for f in M.STRUCT:
        key = (f.id, f.ctx, id(f.layout))
        other = [g for g in M.STRUCT if (g.id, g.ctx, id(g.layout)) == key and g is not f and g.kind in ("u", "i")]
        if f.kind not in CONVERTED and other and (deep or key not in seen):
            seen.add(key)
            out.append(Case("%s then %s" % (f.name, other[-1].name), two_sets, (f, other[-1])))
    for f in M.LISTED:
        out.append(Case(f.name, item_field, (f,), weight=2))
    for a in ("value", "tension"):
        for i in (0, 1, 2):
            out.append(Case("point %d.%s" % (i, a), point, (a, i), weight=3))
            for j in range(3):
                if j != i:
                    for held in (False, True):
                        out.append(Case("twin points %d and %d.%s/%d" % (i, j, a, held), twins, (a, i, j, held), weight=3))
    out.append(Case("automation.lfo.amount", lfo_amount))
    for sub, a, ev, off, n, k in (("midi", "input", 1, 0, 4, "i"), ("midi", "output", 1, 4, 4, "i"),
                                  ("midi", "pb_range", 1, 8, 4, "u"), ("compatibility", "fast_idle", 2, 22, 1, "b")):
        out.append(Case("vst %s.%s" % (sub, a), vst_struct, (sub, a, ev, off, n, k), weight=2))
    for a, ev in (("fourcc", 51), ("guid", 52), ("state", 53), ("name", 54), ("plugin_path", 55), ("vendor", 56)):
        for n in (0, 2, 9) + ((130,) if deep else ()):
            out.append(Case("vst %s/%d" % (a, n), vst_value, (a, ev, n), weight=2))
    out += [Case("channel iid", channel_iid), Case("pattern iid", pattern_iid), Case("arrangement iid", arrangement_iid),
            Case("slot index", slot_index), Case("format", fmt)]
    for n in (0, 1, 3):
        out.append(Case("data_path/%d" % n, path, (M.project, "data_path", M.in_project, 202, n), weight=2))
        out.append(Case("sample_path/%d" % n, path, (M.ch, "sample_path", M.in_sampler, 196, n), weight=2))
    return out
