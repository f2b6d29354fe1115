"""C22: the plugin of a channel or slot is chosen by its stored internal name."""
from engine.api import Case

from . import common as K
from . import model as M
from . import spec as S

META = {
    "entry": ["pyflp.parse (choice of the layout)", "Instrument.plugin", "Slot.plugin", "their setters", "pyflp.save"],
    "bounds": "each of the 12 native plugins at its known sizes and VST plugins, as a channel's and as a slot's plugin, at each of 3 "
              "positions, next to 7 kinds of neighbours, all state bytes symbolic; every known name with any one character replaced "
              "by any other, left out, or 1 or 2 more put anywhere; names of 1..3 arbitrary characters; both text encodings; without state; without a name; each plugin "
              "assigned over each other one, and changed there or where it came from afterwards; places without state; plugins "
              "without a window",
    "outside": "state whose name is stored after it or not at all while another plugin precedes; names differing in more than one "
               "character (beyond 3 characters)",
    "assumptions": ["FL Studio writes a plugin's internal name before its state"],
}

CLASSES = {"BooBass": "BooBass", "Fruit Kick": "FruitKick", "Plucked!": "Plucked", "Fruity Balance": "FruityBalance",
           "Fruity Blood Overdrive": "FruityBloodOverdrive", "Fruity Center": "FruityCenter", "Fruity Fast Dist": "FruityFastDist",
           "Fruity NoteBook 2": "FruityNotebook2", "Fruity Send": "FruitySend", "Fruity Soft Clipper": "FruitySoftClipper",
           "Fruity Stereo Enhancer": "FruityStereoEnhancer", "Soundgoodizer": "Soundgoodizer", "Fruity Wrapper": "VSTPlugin"}
GEN = ("BooBass", "Fruit Kick", "Plucked!", "Fruity Wrapper")
FX = tuple(n for n in CLASSES if n not in GEN[:3])
NEW, OLD = "20.8.4.2576", "11.4.9.100"


def rec(id, data):
    return K.u32(id) + len(data).to_bytes(8, "little") + data


def state(h, tag, name, size=0):
    """Payload and what to look at."""
    if name == "Fruity Wrapper":
        b = h.bytes(tag, 5)
        return K.u32(10) + rec(53, b), [("state", b)]
    if name == "Fruity NoteBook 2":
        b = h.bytes(tag, 4)
        return K.u32(1) + b + b"\xff" * 4 + b"\1", [("active_page", K.le(b)), ("editable", True)]
    if name in S.NATIVES:
        lay = S.NATIVES[name][size % len(S.NATIVES[name])]
        data = S.payload(h, tag, lay)
        out, n = [], 0
        for f in lay:
            if f[1] in ("u", "i") and not f[0].startswith("_"):
                out.append((f[0], K.le(data[n:n + f[2]], f[1] == "i")))
            if f[1] in ("b", "b4"):
                out.append((f[0], K.le(data[n:n + f[2]]) != 0))
            n += f[2]
        return data, out
    return h.bytes(tag, 6), []


def events(name, data, wrapper, v=NEW):
    txt = K.utf16(name) if v == NEW else name.encode("ascii") + b"\0"
    return [K.E(201, txt), K.E(212, wrapper), K.E(213, data)]


def wrapper(h, tag):
    w = h.bytes(tag + ".w", 4)
    return bytes(44) + w + bytes(4), w


def looks(h, pl, name, want, w, label):
    cls = CLASSES.get(name)
    if cls is None:
        h.check(pl is not None and type(pl).__name__ not in CLASSES.values(), label + ": generic plugin")
    else:
        h.check(type(pl).__name__ == cls, label + ": class")
    for attr, v in want:
        h.check(getattr(pl, attr) == v, label + ": " + attr)
    if w is not None:
        h.check(pl.width == K.le(w), label + ": window width")


def build(where, parts, v=NEW):
    """Parts: lists of events of three channels or slots."""
    head = [K.version(v), K.E(159, K.u32(1))]
    group = K.E(231, K.utf16("Unsorted") if v == NEW else b"Unsorted\0")
    if where == "channel":
        out = [*head, group]
        for i, evs in enumerate(parts):
            out += [K.E(64, K.u16(i)), K.E(21, K.u8(4)), *evs, K.E(145, K.u32(0))]
        return out
    if where == "slot":
        return [*head, *K.insert(slots=[[]]), *K.insert(slots=parts), *K.insert(slots=[[]])]
    # one slot per insert
    return [*head, *[e for evs in parts for e in K.insert(slots=[evs])]]


def plugins(p, where):
    if where == "channel":
        return [c.plugin for c in p.channels]
    if where == "slot":
        return [s.plugin for s in list(p.mixer)[1]]
    return [s.plugin for i in p.mixer for s in i]


NEIGHBOURS = ("same", "other", "vst", "unknown", "empty", "no state", "nameless")


def neighbour(h, tag, kind, name, where):
    """events, expected: (name, values, wrapper) or None for no plugin"""
    names = GEN if where == "channel" else FX
    if kind == "empty":
        return [], None
    if kind == "no state":
        return [K.E(201, K.utf16(name))], None
    if kind == "nameless":
        return [K.E(201, K.utf16("")), K.E(213, b"")], ("", [], None)
    n = {"same": name, "other": names[(names.index(name) + 1) % len(names)] if name in names else names[0], "vst": "Fruity Wrapper",
         "unknown": "Fruity Parametric EQ 2"}[kind]
    data, want = state(h, tag, n)
    w, wb = wrapper(h, tag)
    return events(n, data, w), (n, want, wb)


def placed(h, where, name, size, pos, left, right):
    data, want = state(h, "me", name, size)
    w, wb = wrapper(h, "me")
    parts = [neighbour(h, "l", left, name, where), neighbour(h, "r", right, name, where)]
    parts.insert(pos, (events(name, data, w), (name, want, wb)))
    evs = build(where, [a for a, _ in parts])
    p = K.parse(h, evs)
    got = plugins(p, where)
    h.check(len(got) == 3, "number of plugins")
    for i, (pl, (_, exp)) in enumerate(zip(got, parts)):
        if exp is None:
            h.check(pl is None, "no plugin")
        else:
            looks(h, pl, *exp, "plugin" if i == pos else "neighbour")
    h.check(K.save(h, p) == K.flp(evs), "saved file")


def misplaced(h, where, name):
    """A generator in a slot, an effect in a channel: no plugin object, nothing lost."""
    data, _ = state(h, "me", name)
    w, _ = wrapper(h, "me")
    ok = GEN if where == "channel" else FX
    other, want = state(h, "ok", ok[0])
    w2, wb2 = wrapper(h, "ok")
    evs = build(where, [events(name, data, w), events(ok[0], other, w2), []])
    p = K.parse(h, evs)
    a, b, c = plugins(p, where)
    h.check(a is None, "a plugin of the wrong kind")
    looks(h, b, ok[0], want, wb2, "neighbour")
    h.check(c is None, "no plugin")
    h.check(K.save(h, p) == K.flp(evs), "saved file")


def names(h, where, name, k, v):
    """One character of a known name is any character."""
    t = h.text("c", 1, 1, 127 if v == OLD else 0xD7FF)
    full = name[:k] + t + name[k + 1:]
    data, want = state(h, "me", name)
    w, wb = wrapper(h, "me")
    same = h.fork(t == name[k])
    evs = build(where, [[], events(full, data, w, v), []], v)
    p = K.parse(h, evs)
    pl = plugins(p, where)[1]
    if same:
        looks(h, pl, name, want, wb, "known name")
    else:
        for other in CLASSES:
            h.assume(full != other)
        h.check(pl is not None and type(pl).__name__ not in CLASSES.values(), "a name one character off")
        h.check(pl.width == K.le(wb), "its window width")
    h.check(K.save(h, p) == K.flp(evs), "saved file")


def near_names(h, where, name, k, n, v):
    """A known name with a character left out (n = 0), or with n more, at k."""
    t = h.text("c", n, 1, 127 if v == OLD else 0xD7FF) if n else ""
    full = name[:k] + t + (name[k:] if n else name[k + 1:])
    data, want = state(h, "me", name)
    w, wb = wrapper(h, "me")
    evs = build(where, [[], events(full, data, w, v), []], v)
    p = K.parse(h, evs)
    pl = plugins(p, where)[1]
    h.check(pl is not None and type(pl).__name__ not in CLASSES.values(), "a name some characters off")
    h.check(pl.width == K.le(wb), "its window width")
    h.check(K.save(h, p) == K.flp(evs), "saved file")


def any_name(h, where, n, v):
    t = h.text("t", n, 1, 127 if v == OLD else 0xD7FF)
    w, wb = wrapper(h, "me")
    evs = build(where, [[], events(t, h.bytes("d", 8), w, v), []], v)
    p = K.parse(h, evs)
    a, pl, c = plugins(p, where)
    h.check(a is None and c is None, "no plugin")
    h.check(pl is not None and type(pl).__name__ not in CLASSES.values(), "an unknown name")
    h.check(pl.width == K.le(wb), "its window width")


def mixed(h, gen, fx):
    """A channel's plugin and a slot's plugin in one project."""
    d1, w1 = state(h, "gen", gen)
    d2, w2 = state(h, "fx", fx)
    a, ab = wrapper(h, "a")
    b, bb = wrapper(h, "b")
    head = build("channel", [events(gen, d1, a), [], events("Sytrus", h.bytes("s", 3), bytes(52))])
    tail = build("slot", [events(fx, d2, b), events("x", h.bytes("x", 3), bytes(52)), []])[2:]
    p = K.parse(h, [*head, *tail])
    c = plugins(p, "channel")
    s = plugins(p, "slot")
    looks(h, c[0], gen, w1, ab, "channel")
    looks(h, s[0], fx, w2, bb, "slot")
    h.check(c[1] is None and s[2] is None, "no plugin")
    h.check(c[2] is not None and s[1] is not None, "generic plugins")
    h.check(c[2].width == 0 and s[1].width == 0, "their window widths")


def assign(h, where, a, b, bare=False):
    """The plugin of one place becomes that of another."""
    da, wa = state(h, "a", a)
    db, wb = state(h, "b", b, 1)
    xa, ba = wrapper(h, "a")
    xb, bb = wrapper(h, "b")
    extra = h.bytes("s", 3)
    some = lambda evs: [e for e in evs if not bare or e[0] != 212]  # a place without a window of its own
    mk = lambda first: build(where, [some(first), events("Sytrus", extra, bytes(52)), events(b, db, xb)])
    p = K.parse(h, mk(events(a, da, xa)))
    if where == "channel":
        owner = lambda p: list(p.channels)[0]
    else:
        owner = lambda p: list(list(p.mixer)[1])[0]
    K.save(h, p, "before.flp")
    owner(p).plugin = plugins(p, where)[2]
    looks(h, plugins(p, where)[0], b, wb, None if bare else bb, "assigned plugin")
    h.check(owner(p).internal_name == b, "internal name after assigning")
    looks(h, plugins(p, where)[2], b, wb, bb, "assigned plugin at its own place")
    h.check(K.save(h, p) == K.flp(mk(events(b, db, xb))), "saved file")
    q = K.pyflp.parse(h.path("out.flp"))
    looks(h, plugins(q, where)[0], b, wb, None if bare else bb, "assigned plugin after reopening")


def owners(p, where):
    return list(p.channels) if where == "channel" else list(list(p.mixer)[1])


def apart(h, where, a, b, back):
    """Assigned plugins are independent of where they came from."""
    da, wa = state(h, "a", a)
    db, wb = state(h, "b", b)
    xa, ba = wrapper(h, "a")
    xb, bb = wrapper(h, "b")
    new = h.bytes("new.w", 4)
    mk = lambda first, second: build(where, [events(b, db, first), events("Sytrus", h.bytes("s", 3), bytes(52)), events(b, db, second)])
    p = K.parse(h, build(where, [events(a, da, xa), events("Sytrus", h.bytes("s", 3), bytes(52)), events(b, db, xb)]))
    src = owners(p, where)[2].plugin
    owners(p, where)[0].plugin = src
    xn = xb[:44] + new + xb[48:]
    if back:
        src.width = K.le(new)
    else:
        owners(p, where)[0].plugin.width = K.le(new)
    h.check(plugins(p, where)[0].width == K.le(bb if back else new), "window of the copy")
    h.check(plugins(p, where)[2].width == K.le(new if back else bb), "window of the source")
    h.check(K.save(h, p) == K.flp(mk(xb, xn) if back else mk(xn, xb)), "saved file")


def apart_state(h, where, a, b):
    """As above, for every number of the state."""
    da, wa = state(h, "a", a)
    db, wb = state(h, "b", b)
    xb, bb = wrapper(h, "b")
    p = K.parse(h, build(where, [events(a, da, xb), [], events(b, db, xb)]))
    owners(p, where)[0].plugin = plugins(p, where)[2]
    n = h.int("n", 0, 1)
    pl = owners(p, where)[0].plugin
    for attr, v in wb:
        setattr(pl, attr, h.bytes("y", 3) if attr == "state" else n == 1 if isinstance(v, bool) else n)
    looks(h, plugins(p, where)[2], b, wb, bb, "source after changing the copy")
    owners(p, where)[0].plugin = plugins(p, where)[2]
    h.check(K.save(h, p) == K.flp(build(where, [events(b, db, xb), [], events(b, db, xb)])), "saved file after assigning again")


def windowless(h, where, a, b):
    """A plugin without a window is assigned."""
    da, wa = state(h, "a", a)
    db, wb = state(h, "b", b)
    xa, ba = wrapper(h, "a")
    mk = lambda n, d: build(where, [events(n, d, xa), [], [K.E(201, K.utf16(b)), K.E(213, db)]])
    p = K.parse(h, mk(a, da))
    src = plugins(p, where)[2]
    e = h.raises(lambda: setattr(owners(p, where)[0], "plugin", src), Exception)
    if e is None:
        looks(h, plugins(p, where)[0], b, wb, None, "assigned plugin")
        h.check(K.save(h, p) == K.flp(mk(b, db)), "saved file")
    else:
        h.check(K.save(h, p) == K.flp(mk(a, da)), "saved file after a refusal")


def nowhere(h, where, b, named):
    """A place without state refuses a plugin."""
    db, wb = state(h, "b", b)
    xb, bb = wrapper(h, "b")
    evs = build(where, [[K.E(201, K.utf16("Sytrus")), K.E(212, xb)] if named else [], [], events(b, db, xb)])
    p = K.parse(h, evs)
    src = plugins(p, where)[2]
    e = h.raises(lambda: setattr(owners(p, where)[0], "plugin", src), Exception)
    h.check(e is not None, "a plugin for a place without state is refused")
    h.check(plugins(p, where)[0] is None, "no plugin")
    looks(h, plugins(p, where)[2], b, wb, bb, "source")
    h.check(K.save(h, p) == K.flp(evs), "saved file after a refusal")


def generic(h):
    """A plugin without dedicated support is assigned."""
    da, wa = state(h, "a", "Fruity Balance")
    xa, ba = wrapper(h, "a")
    xb, bb = wrapper(h, "b")
    eq = h.bytes("eq", 8)
    p = K.parse(h, build("slot", [events("Fruity Balance", da, xa), [], events("Fruity Parametric EQ 2", eq, xb)]))
    owners(p, "slot")[0].plugin = plugins(p, "slot")[2]
    h.check(owners(p, "slot")[0].internal_name == "Fruity Parametric EQ 2", "name of an assigned generic plugin")


def cases(tier):
    deep = tier != "quick"
    out = []
    for where, ns in (("channel", GEN), ("slot", FX), ("insert", FX)):
        for name in ns:
            for size in range(len(S.NATIVES.get(name, [0]))):
                for i, left in enumerate(NEIGHBOURS):
                    for j, right in enumerate(NEIGHBOURS):
                        if not deep and (i + j + size) % 3 and left != right:
                            continue
                        if where == "insert" and not deep and left != right:
                            continue
                        pos = (i + 2 * j) % 3
                        for pos in range(3) if deep else (pos,):
                            out.append(Case("%s/%s/%d/%d %s %s" % (where, name, size, pos, left, right), placed,
                                            (where, name, size, pos, left, right)))
            if where == "insert":
                continue
            for k in range(len(name)):
                for v in (NEW, OLD):
                    if deep or v == NEW or k in (0, len(name) - 1):
                        out.append(Case("name/%s/%s/%d/%s" % (where, name, k, v), names, (where, name, k, v)))
            for k in range(len(name) + 1):
                for n in (0, 1, 2):
                    if (deep or n == 1 or k in (0, len(name) - 1)) and (n or k < len(name)):
                        out.append(Case("near/%s/%s/%d/%d" % (where, name, k, n), near_names, (where, name, k, n, (NEW, OLD)[k % 2])))
            for b in ns:
                out.append(Case("assign/%s/%s to %s" % (where, b, name), assign, (where, name, b)))
                out.append(Case("assign/%s/%s to %s without a window" % (where, b, name), assign, (where, name, b, True)))
                out.append(Case("apart/%s/%s to %s/state" % (where, b, name), apart_state, (where, name, b)))
                for back in (False, True):
                    out.append(Case("apart/%s/%s to %s/%d" % (where, b, name, back), apart, (where, name, b, back)))
            out.append(Case("windowless/%s/%s" % (where, name), windowless, (where, ns[0], name)))
            for named in (False, True):
                out.append(Case("nowhere/%s/%s/%d" % (where, name, named), nowhere, (where, name, named)))
        if where != "insert":
            for n in (1, 2, 3):
                for v in (NEW, OLD):
                    out.append(Case("any name/%s/%d/%s" % (where, n, v), any_name, (where, n, v)))
            for name in CLASSES:
                if name not in ns:
                    out.append(Case("misplaced/%s/%s" % (where, name), misplaced, (where, name)))
    out.append(Case("finding/generic", generic, finding="F11"))
    for gen in GEN:
        for fx in FX:
            out.append(Case("mixed/%s/%s" % (gen, fx), mixed, (gen, fx)))
    return out
