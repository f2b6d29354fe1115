"""C17: looking at a project changes nothing."""
import inspect

from engine.api import Case

from . import c13
from . import common as K
from . import model as M
from . import spec as S

META = {
    "entry": ["every public attribute of every object reachable from Project", "len, iteration, indexing, slicing, in, repr, str, "
              "==, != of models, collections, events and event lists", "pyflp.save"],
    "bounds": "a project with every kind of object; the payload of each of its events symbolic, one kind of event at a time; the "
              "whole object graph read twice in two orders; each top-level property read alone three times",
    "outside": "private attributes; objects kept across structural changes (C09)",
    "assumptions": ["booleans are stored as 0 or 1"],
}

MODULES = ("pyflp",)


def is_model(o):
    m = type(o).__module__
    return m == "pyflp" or m.startswith("pyflp.")


def public(o):
    """Names of public attributes which are not methods, without evaluating them."""
    out = []
    t = type(o)
    for n in sorted(set(dir(t))):
        if n.startswith("_"):
            continue
        try:
            a = inspect.getattr_static(t, n)
        except AttributeError:
            continue
        if inspect.isfunction(a) or isinstance(a, (staticmethod, classmethod)) or inspect.isroutine(a):
            continue
        if inspect.isclass(a) or isinstance(a, (int, str, tuple, frozenset, list, dict)):
            continue
        out.append(n)
    return out


LEAVES = (bool, int, float, str, bytes, type(None))


class Walk:
    def __init__(self, order, deep=9):
        self.order, self.out, self.deep = order, [], deep

    def leaf(self, where, v):
        self.out.append((where, v))

    def attempt(self, where, f):
        """Value, or the error's name as a leaf."""
        try:
            return True, f()
        except (LookupError, AttributeError, TypeError, ValueError, NotImplementedError) as e:
            self.leaf(where + "!", type(e).__name__)
            return False, None

    def visit(self, where, o, depth):
        if depth > self.deep:
            return
        if isinstance(o, LEAVES) or isinstance(o, M_enum):
            return self.leaf(where, o)
        if isinstance(o, tuple):
            if hasattr(o, "_fields") or all(isinstance(x, LEAVES) for x in o):
                return self.leaf(where, tuple(o))
            for i, x in enumerate(o):
                self.visit("%s[%d]" % (where, i), x, depth + 1)
            return
        if isinstance(o, (list, range)) and not is_model(o) or inspect.isgenerator(o):
            for i, x in enumerate(o):
                self.visit("%s[%d]" % (where, i), x, depth + 1)
            return
        if isinstance(o, dict) and not is_model(o):
            for k, x in o.items():
                self.visit("%s[%r]" % (where, k), x, depth + 1)
            return
        if not is_model(o):
            return self.leaf(where, str(type(o)))
        self.model(where, o, depth)

    def model(self, where, o, depth):
        if type(o).__name__ == "EventTree":
            return self.tree(where, o)
        if type(o).__name__ == "FLVersion":
            return self.leaf(where, (o.major, o.minor, o.patch, o.build))
        names = public(o)
        if self.order == "backwards":
            names = names[::-1]
        else:
            self.around(where, o, depth)
        for n in names:
            ok, v = self.attempt(where + "." + n, lambda: getattr(o, n))
            if ok:
                self.visit(where + "." + n, v, depth + 1)
        if self.order == "backwards":
            self.around(where, o, depth)

    def around(self, where, o, depth):
        """repr, str, len, iteration, indexing, comparison."""
        self.attempt(where, lambda: repr(o))
        self.attempt(where, lambda: str(o))
        self.attempt(where, lambda: o == o)
        self.attempt(where, lambda: o != o)
        self.attempt(where, lambda: bool(o))
        if not hasattr(type(o), "__iter__"):
            return
        ok, n = self.attempt(where + ".len", lambda: len(o))
        if ok:
            self.leaf(where + ".len", n)
        ok, xs = self.attempt(where + "[*]", lambda: [x for x in o])
        if ok:
            for i, x in enumerate(xs):
                self.visit("%s[%d]" % (where, i), x, depth + 1)
        self.attempt(where, lambda: o[0])
        self.attempt(where, lambda: o[:2])
        self.attempt(where, lambda: o["nothing of that name"])
        self.attempt(where, lambda: o[12345])

    def tree(self, where, t):
        self.leaf(where + ".len", len(t))
        repr(t)
        evs = [e for e in t]
        ids = t.ids
        t.indexes
        for e in evs[:40]:
            e.size
            self.attempt(where, lambda: repr(e))
            self.attempt(where, lambda: e == evs[0])
            self.attempt(where, lambda: e != evs[-1])
            self.leaf(where + ".id", int(e.id))
            bytes(e)
        for i in list(ids)[:5]:
            i in t
            t.count(i)
            t.first(i)
            list(t.get(i))
        self.attempt(where, lambda: t == t)


import enum  # noqa: E402

M_enum = enum.Enum


def same(h, a, b):
    if type(a) is tuple and type(b) is tuple:
        return h.eq(a, b)
    if a is b:
        return True
    return h.eq(a, b)


def check_walk(h, events, orders, root=None, deep=9):
    p = K.parse(h, events)
    first = None
    for o in orders:
        w = Walk(o, deep)
        w.visit("project" if root is None else root, p if root is None else getattr(p, root), 0)
        got = sorted(w.out, key=lambda x: x[0])
        if first is None:
            first = got
            h.check(len(got) > (60 if root is None and deep > 3 else 0), "the walk sees the project")
        else:
            h.check([x[0] for x in got] == [x[0] for x in first], "the same things are there")
            h.check(h.all([same(h, a[1], b[1]) for a, b in zip(first, got)]), "values read again")
    h.check(K.save(h, p) == K.flp(events), "saved file after looking at everything")
    fresh = Walk(orders[0], deep)
    q = K.pyflp.parse(h.path("out.flp"))
    fresh.visit("project" if root is None else root, q if root is None else getattr(q, root), 0)
    got = sorted(fresh.out, key=lambda x: x[0])
    h.check([x[0] for x in got] == [x[0] for x in first], "the same things are there after reopening")
    h.check(h.all([same(h, a[1], b[1]) for a, b in zip(first, got)]), "values after reopening")


# ------------------------------------------------------------------ a project with everything
def filled(layout):
    class Z:
        symbolic = False

        def bytes(self, v, n):
            return bytes((i * 7 + 3) % 251 for i in range(n))

        def int(self, v, lo, hi):
            return lo
    return S.payload(Z(), "z", layout)


def vst():
    return K.u32(10) + M.rec(1, filled(M.VST_MIDI)) + M.rec(2, filled(M.VST_FLAGS)) + M.rec(54, b"Serum") + M.rec(53, b"state") + \
        M.rec(55, b"/x") + M.rec(56, b"V") + M.rec(51, b"abcd") + M.rec(52, b"\1" * 16)


NAME = {"balance": "Fruity Balance", "kick": "Fruit Kick"}


def everything(sym):
    """Events; those named in `sym` are replaced by symbolic ones."""
    def ev(tag, id, data):
        return K.E(id, sym[tag] if tag in sym else data)
    sampler = [
        ev("ch.enabled", 0, K.u8(1)), ev("ch.delay", 209, filled(S.DELAY)), ev("ch.delaymod", 138, b"\1\0\2\0"),
        ev("ch.reverb", 139, K.u32(65536 + 5)), ev("ch.cut", 132, b"\1\0\2\0"), ev("ch.fxflags", 70, K.u16(5)),
        ev("ch.levels", 219, K.u32(6400) + K.u32(10000) + K.u32(0) + K.u32(1) + K.u32(2) + K.u32(3)),
        ev("ch.poly", 221, filled(S.POLY)), ev("ch.params", 215, filled(S.PARAMS)),
        ev("ch.adjusts", 229, filled(S.ADJUSTS)), ev("ch.color", 128, b"\1\2\3\4"), ev("ch.icon", 155, K.u32(7)),
        *[ev("ch.env%d" % i, 218, filled(S.ENVLFO)) for i in range(5)],
        *[ev("ch.track%d" % i, 228, filled(S.TRACKING)) for i in range(2)],
        ev("ch.path", 196, K.utf16("%FLStudioData%/a.wav")), ev("ch.swing", 97, K.u16(3)), ev("ch.samflags", 143, K.u32(9)),
    ]
    mk = lambda tag, pos: [ev(tag + ".pos", 148, K.u32(pos)), ev(tag + ".num", 33, K.u8(4)), ev(tag + ".den", 34, K.u8(4)),
                           ev(tag + ".name", 205, K.utf16("mk"))]
    pl = K.u32(96) + K.u16(20480) + K.u16(20481) + K.u32(96) + K.u16(499) + bytes(18)
    pl2 = K.u32(192) + K.u16(20480) + K.u16(4) + K.u32(96) + K.u16(498) + bytes(18)
    ks = [(0, None, 192), (0, None, 193), (0, None, 194), (0, 0, 0), (0, 0, 1), (1, None, 192), (0, None, 64),
          *[(0, None, k) for k in c13.EQ]]
    params = K.join([bytes(4) + K.u8(k) + b"\x1f" + K.u16(i << 6 | (s or 0)) + K.u32(100 + k) for i, s, k in ks])
    return [
        *K.HEAD, ev("volume", 12, K.u8(5)), ev("tempo", 156, K.u32(140000)), ev("title", 194, K.utf16("title")),
        ev("comments", 195, K.utf16("c")), ev("data_path", 202, K.utf16("/data")), ev("stamp", 237, filled(S.STAMP[:0]) + bytes(
            6) + b"\xe5\x40" + bytes(8)), ev("licensee", 200, K.utf16("abc")), ev("looped", 9, K.u8(1)),
        ev("group", 231, K.utf16("Unsorted")), ev("swing", 11, K.u8(3)),
        K.E(65, K.u16(1)), ev("notes", 224, filled(S.NOTE) * 2), K.E(65, K.u16(2)), ev("controllers", 223, filled(S.CONTROLLER)),
        *K.channel(2, K.INSTRUMENT, [ev("kick", 213, filled(S.GENERATORS["Fruit Kick"][0])),
                                     ev("wrapper", 212, filled(S.WRAPPER))], internal="Fruit Kick", name="kick"),
        *K.channel(4, K.SAMPLER, sampler, name="sampler"),
        *K.channel(5, K.LAYER, [ev("child", 94, K.u16(4)), ev("layerflags", 144, K.u32(1))], name="layer"),
        *K.channel(7, K.AUTOMATION, [ev("points", 234, bytes(17) + K.u32(1) + bytes(8) + bytes(6) + b"\xe0\x3f" + bytes(8))]),
        K.E(65, K.u16(1)), ev("pat.name", 193, K.utf16("one")), ev("pat.color", 150, b"\1\2\3\4"), ev("pat.length", 164, K.u32(9)),
        *mk("pm", 5),
        ev("current", 67, K.u16(2)),
        K.E(99, K.u16(0)), ev("arr.name", 241, K.utf16("Arr")), ev("playlist", 233, pl + pl2), ev("track", 238, filled(S.TRACK)),
        ev("track.name", 239, K.utf16("t")), K.E(238, K.u32(2)), *mk("am", 96), ev("arr.current", 100, K.u16(0)),
        ev("loop", 217, K.u32(1) + K.u32(9)), ev("sig", 17, K.u8(4)),
        ev("apdc", 29, K.u8(1)),
        *[ev("routing", 235, b"\1\0") if e[0] == 235 else e for e in K.insert(
            [ev("ins.icon", 95, K.u16(3)), ev("ins.color", 149, b"\1\2\3\4"), ev("ins.name", 204, K.utf16("ins"))],
            [[K.E(201, K.utf16("Fruity Balance")), ev("balance", 213, filled(S.EFFECTS["Fruity Balance"][0])),
              ev("slot.wrapper", 212, filled(S.WRAPPER)), ev("slot.name", 203, K.utf16("sl"))],
             [K.E(201, K.utf16("Fruity Wrapper")), ev("vst", 213, vst())], []])],
        *K.insert(slots=[[], []]),
        ev("params", 225, params),
        ev("remote", 227, filled(S.REMOTE)),
    ]


def graph(h, tag, data, orders):
    check_walk(h, everything({tag: data(h)} if tag else {}), orders)


SYMS = {
    "volume": lambda h: h.bytes("v", 1), "looped": lambda h: h.int("v", 0, 1).to_bytes(1, "little"),
    "swing": lambda h: h.bytes("v", 1), "apdc": lambda h: h.bytes("v", 1), "sig": lambda h: h.bytes("v", 1),
    "title": lambda h: K.utf16(h.text("v", 3, 1, 0xD7FF)), "comments": lambda h: K.utf16(h.text("v", 2, 1, 0xD7FF)),
    "group": lambda h: K.utf16(h.text("v", 2, 1, 127)), "track.name": lambda h: K.utf16(h.text("v", 2, 1, 0xD7FF)),
    "ins.name": lambda h: K.utf16(h.text("v", 2, 1, 0xD7FF)), "slot.name": lambda h: K.utf16(h.text("v", 2, 1, 0xD7FF)),
    "arr.name": lambda h: K.utf16(h.text("v", 2, 1, 0xD7FF)), "am.name": lambda h: K.utf16(h.text("v", 2, 1, 0xD7FF)),
    "pat.name": lambda h: K.utf16(h.text("v", 2, 1, 0xD7FF)),
    "ch.enabled": lambda h: h.int("v", 0, 1).to_bytes(1, "little"), "ch.icon": lambda h: h.bytes("v", 4),
    "ch.color": lambda h: h.bytes("v", 4), "pat.color": lambda h: h.bytes("v", 4), "ins.color": lambda h: h.bytes("v", 4),
    "ins.icon": lambda h: h.bytes("v", 2), "pat.length": lambda h: h.bytes("v", 4), "ch.cut": lambda h: h.bytes("v", 4),
    "ch.delaymod": lambda h: h.bytes("v", 4), "ch.fxflags": lambda h: h.bytes("v", 2), "ch.samflags": lambda h: h.bytes("v", 4),
    "ch.swing": lambda h: h.bytes("v", 2), "ch.reverb": lambda h: h.bytes("v", 4), "layerflags": lambda h: h.bytes("v", 4),
    "ch.delay": lambda h: S.payload(h, "v", S.DELAY), "ch.levels": lambda h: S.payload(h, "v", S.LEVELS),
    "ch.poly": lambda h: S.payload(h, "v", S.POLY), "ch.params": lambda h: S.payload(h, "v", S.PARAMS),
    "ch.adjusts": lambda h: S.payload(h, "v", S.ADJUSTS), "ch.env0": lambda h: S.payload(h, "v", S.ENVLFO),
    "ch.env4": lambda h: S.payload(h, "v", S.ENVLFO), "ch.track0": lambda h: S.payload(h, "v", S.TRACKING),
    "ch.track1": lambda h: S.payload(h, "v", S.TRACKING), "wrapper": lambda h: S.payload(h, "v", S.WRAPPER),
    "slot.wrapper": lambda h: S.payload(h, "v", S.WRAPPER), "track": lambda h: S.payload(h, "v", S.TRACK),
    "notes": lambda h: notes(h),
    "controllers": lambda h: S.payload(h, "a", S.CONTROLLER) + S.payload(h, "b", S.CONTROLLER),
    "kick": lambda h: S.payload(h, "v", S.GENERATORS["Fruit Kick"][0]),
    "balance": lambda h: S.payload(h, "v", S.EFFECTS["Fruity Balance"][0]),
    "loop": lambda h: h.bytes("v", 8), "routing": lambda h: h.int("a", 0, 1).to_bytes(1, "little") + b"\1",
    "current": lambda h: h.bytes("v", 2), "arr.current": lambda h: K.u16(h.choose("v", 4)),
    "am.pos": lambda h: h.bytes("v", 4), "pm.pos": lambda h: h.bytes("v", 4), "am.num": lambda h: h.bytes("v", 1),
    "pm.den": lambda h: h.bytes("v", 1), "tempo": lambda h: h.int("v", 10000, 14000).to_bytes(4, "little"),
    "child": lambda h: K.u16(h.choose("c", 9)),
    "points": lambda h: h.bytes("h", 17) + K.u32(3) + K.join([bytes(8) + bytes(6) + x + bytes(4) + h.bytes(
        "u%d" % i, 4) for i, x in enumerate((b"\xe0\x3f", b"\xd0\x3f", b"\xe8\x3f"))]) + h.bytes("t", 3),
    "params": lambda h: K.join([c13.entry(h, k, h.bytes("m%s.%s.%s" % k, 4)) for k in [
        (0, None, 192), (0, None, 193), (0, None, 194), (0, 0, 0), (0, 0, 1), (1, None, 192), (0, None, 64),
        *[(0, None, k) for k in c13.EQ]]]),
    "remote": lambda h: S.payload(h, "v", S.REMOTE),
    "playlist": lambda h: item(h, "a", 20481) + item(h, "b", 4),
    "vst": lambda h: K.u32(10) + M.rec(2, S.payload(h, "f", M.VST_FLAGS)) + M.rec(1, S.payload(h, "m", M.VST_MIDI)) + M.rec(
        53, h.bytes("s", 4)) + M.rec(54, h.text("n", 2).encode("ascii")),
}


def notes(h):
    out = b""
    off = S.offset(S.NOTE, "key")[0]
    for x in "ab":
        out = out + K.splice(S.payload(h, x, S.NOTE), off, K.u16(61 if x == "a" else 130))
    return out


def item(h, x, index):
    return h.bytes(x + "pos", 4) + K.u16(20480) + K.u16(index) + h.bytes(x + "len", 4) + K.u16(499) + h.bytes(x + "g", 4) + h.bytes(
        x + "f", 2) + h.bytes(x + "u", 4) + bytes(8)


def alone(h, attr):
    """One property of the project, three times."""
    evs = everything({"volume": h.bytes("v", 1)})
    check_walk(h, evs, ("forwards", "forwards", "backwards"), attr, deep=3)


def untouched(h, ctx, id, layout, n):
    """Shorter forms: looking does not fill them up."""
    evs = ctx(K.E(id, S.payload(h, "f", layout, n)), K.E(id, bytes(S.size(layout))))
    p = K.parse(h, evs)
    w = Walk("forwards")
    w.visit("project", p, 0)
    h.check(K.save(h, p) == K.flp(evs), "saved file after looking at a shorter event")


def plugins(h, name, n):
    """A plugin of each kind, in every form."""
    where = "channel" if name in S.GENERATORS else "slot"
    if name == "Fruity NoteBook 2":
        data = h.bytes("u", 4) + h.bytes("act", 4)
        for i, ix in enumerate((2, 0, 1)[:n]):
            data = data + K.u32(ix) + K.varint(2) + h.text("t%d" % i, 2, 1, 127).encode("utf-16-le")
        data = data + b"\xff" * 4 + K.u8(h.int("e", 0, 1))
    else:
        data = S.payload(h, "v", S.NATIVES[name][n])
    ctx = M.plugin_slot(name) if where == "slot" else M.plugin_channel(name)
    check_walk(h, ctx(K.E(213, data)), ("forwards", "backwards", "forwards"), "mixer" if where == "slot" else "channels")


def project_attributes():
    import pyflp.project
    return [n for n in dir(pyflp.project.Project) if not n.startswith("_")]


def cases(tier):
    import pyflp.controller  # noqa: F401  (its events are decoded once it is imported)

    out = []
    for tag in SYMS:
        out.append(Case("everything/" + tag, graph, (tag, SYMS[tag], ("forwards", "backwards")),
                        weight=20))
    for a in project_attributes():
        out.append(Case("alone/" + a, alone, (a,), weight=10))
    for name in S.NATIVES:
        for n in range(len(S.NATIVES[name])):
            out.append(Case("plugin/%s/%d" % (name, n), plugins, (name, n), weight=3))
    for n in (0, 1, 3):
        out.append(Case("plugin/notebook of %d" % n, plugins, ("Fruity NoteBook 2", n), weight=3))
    for id, (label, layout, cut) in S.STRUCTS.items():
        ctx = {238: M.in_track, 236: M.in_insert, 212: M.plugin_channel("Sytrus"), 217: M.in_arrangements}.get(id, M.in_sampler)
        if not cut or id in (227, 237):
            continue
        lens = S.boundaries(layout)
        for n in lens:
            out.append(Case("short/%s/%d" % (label, n), untouched, (ctx, id, layout, n), weight=3))
    return out
