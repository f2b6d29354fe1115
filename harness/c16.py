"""C16: a save that fails leaves its destination alone; one that succeeds replaces all of it."""
from engine.api import Case

from . import c13
from . import common as K
from . import model as M
from . import spec as S

META = {
    "entry": ["pyflp.save"],
    "bounds": "every single-value integer, pair, colour and text property, every field of native plugins, notes, controllers and "
              "playlist items, every mixer parameter, channel count and format set to any value (41 bits) they cannot store; "
              "the failing event at each of 5 positions; destination absent, empty, or holding 1, 9 or 700 arbitrary bytes, or "
              "the file the project was read from, given as text or as a path object; successful saves over 0..40 bytes more or fewer than needed, and of fewer and fewer events",
    "outside": "fields of structured events which shorter events lack: what they cannot store is dropped (known finding); "
               "files of more than 4 GiB; errors of the file system itself",
    "assumptions": [],
}

WIDE = 2 ** 41


def given(path, how):
    """The destination as text or as a path object."""
    import pathlib
    return pathlib.Path(path) if how else path


def destination(h, kind):
    """(path, contents before)"""
    if kind == "absent":
        return h.path("out.flp"), None
    if kind == "source":
        return None, None
    n = {"empty": 0, "one": 1, "few": 9, "many": 700}[kind]
    old = h.bytes("old", n) if n < 100 else h.bytes("old", 9) + b"\x55" * (n - 18) + h.bytes("older", 9)
    return h.put(old, "out.flp"), old


KINDS = ("absent", "few", "many", "source", "one", "empty")


def fails(h, evs, change, kind, label, restore=None, **kw):
    """Parse, change(p), save: an error, and the destination is as it was."""
    file = K.flp(evs, **kw)
    src = h.put(file)
    p = K.pyflp.parse(src)
    path, old = destination(h, kind)
    if kind == "source":
        path, old = src, file
    change(p)
    how = h.choose("how", 2)
    e = h.raises(lambda: K.pyflp.save(p, given(path, how)), Exception)
    h.check(e is not None, label + ": error")
    got = h.get(path)
    if old is None:
        h.check(got is None, label + ": no file is left behind")
    else:
        h.check(got is not None, label + ": the destination is still there")
        h.check(got == old, label + ": the destination is as it was")
    if kind != "source":
        h.check(h.get(src) == file, label + ": the source is as it was")
    if restore is not None:
        restore(p)
        K.pyflp.save(p, given(path, how))
        h.check(h.get(path) == file, label + ": saving after putting it right")


def bad(h, f):
    """A value f cannot store."""
    n = f.size
    if f.kind == "u":
        v = h.int("v", -WIDE, WIDE)
        h.assume(h.any([v < 0, v >= 256 ** n]))
        return v
    if f.kind == "i":
        v = h.int("v", -WIDE, WIDE)
        h.assume(h.any([v < -(256 ** n // 2), v >= 256 ** n // 2]))
        return v
    if f.kind in ("t", "t2"):
        v = h.int("v", -WIDE, WIDE)
        h.assume(h.any([v < 0, v >= 256 ** (n // 2)]))
        return (v, 1) if h.choose("which", 2) else (1, v)
    if f.kind == "c":
        from pyflp.types import RGBA
        k = h.int("v", 256, 600)
        c = [0.0, 0.5, 1.0, 0.25]
        sign = (1, -1)[h.choose("sign", 2)]
        c[h.choose("which", 4)] = h.flo(k, lambda x: sign * x / 255)
        return RGBA(*c)
    if f.kind == "s":
        t = [h.text("t", 1, 0xD800, 0xDFFF), "x" + h.text("t", 1, 0xD800, 0xDFFF), h.text("t", 1, 0xD800, 0xDFFF) + "x"]
        return t[h.choose("where", 3)]
    raise KeyError(f.kind)


def put_back(f):
    def g(p):
        f.set(p, f.old)
    return g


def simple(h, f, kind):
    if f.kind == "s":
        data, decoy = K.utf16("abc"), K.utf16("other")
    else:
        total = 1 if f.id < 64 else 2 if f.id < 128 else 4
        data, decoy = h.bytes("b", total), bytes(total)
    v = bad(h, f)
    old = []

    def change(p):
        old.append(f.get(p))
        f.set(p, v)
    fails(h, f.ctx(K.E(f.id, data), K.E(f.id, decoy)), change, kind, f.name, lambda p: f.set(p, old[0]))


def field(h, f, kind):
    data = S.payload(h, "f", f.layout)
    v = bad(h, f)
    fails(h, f.ctx(K.E(f.id, data), None), lambda p: f.set(p, v), kind, f.name)


def item(h, f, kind):
    n = S.size(f.layout)
    a, b, c = [S.payload(h, x, f.layout) for x in "abc"]
    v = bad(h, f)
    fails(h, f.ctx(K.E(f.id, a + b + c), K.E(f.id, bytes(n * 2))), lambda p: f.set(p, v), kind, f.name)


def parameter(h, key, kind):
    ks = c13.keys()
    evs = c13.file(K.join([c13.entry(h, k, h.bytes("m%s.%s.%s" % k, 4)) for k in ks]))
    v = h.int("v", -WIDE, WIDE)
    h.assume(h.any([v < -2 ** 31, v >= 2 ** 31]))
    fails(h, evs, lambda p: c13.write(p, key, v), kind, "mixer parameter")


def ascii_text(h, n, kind):
    """An older project cannot store anything but ASCII."""
    evs = [K.version("9.0.0"), K.E(194, b"title\0"), K.E(197, b"url\0"), K.E(12, h.bytes("mv", 1))]
    t = h.text("t", n, 1, 0xFFFF)
    h.assume(h.any([t[i] > "\x7f" for i in range(n)]))
    fails(h, evs, lambda p: setattr(p, "url", t), kind, "url", lambda p: setattr(p, "url", "url"))


def count(h, kind):
    n = h.int("n", 65536, WIDE)
    fails(h, [*K.HEAD, K.E(12, h.bytes("mv", 1))], lambda p: setattr(p, "channel_count", n), kind, "channel count",
          lambda p: setattr(p, "channel_count", 1))


def fmt(h, kind):
    n = h.int("n", 32768, WIDE)
    fails(h, [*K.HEAD, K.E(12, h.bytes("mv", 1))], lambda p: setattr(p, "format", n), kind, "format")


def position(h, at, kind):
    """The value that cannot be stored is in one of five events."""
    ids = (12, 80, 23, 12, 23)
    evs = [*K.HEAD, *[K.E(12, h.bytes("e%d" % i, 1)) for i in range(5)]]
    v = h.int("v", -WIDE, WIDE)
    h.assume(h.any([v < 0, v > 255]))

    def change(p):
        list(p.events)[2 + at].value = v
    fails(h, evs, change, kind, "event %d" % at)


def wrong_type(h, what, kind):
    evs = [*K.HEAD, K.E(12, h.bytes("mv", 1)), K.E(194, K.utf16("t")), K.E(156, K.u32(100000))]
    v = {"main_volume": [None, "x", 1.5], "title": [None, 5, b"x"]}[what]
    v = v[h.choose("v", len(v))]
    fails(h, evs, lambda p: setattr(p, what, v), kind, what)


def succeeds(h, n, kind):
    """Whatever was there before, all of it is replaced."""
    evs = [*K.HEAD, K.E(12, h.bytes("mv", 1)), K.E(194, K.utf16(h.text("t", 2)))]
    file = K.flp(evs)
    how = h.choose("how", 2)
    p = K.pyflp.parse(h.put(file))
    if kind == "absent":
        path = h.path("out.flp")
    elif kind == "source":
        path = h.path("in.flp")
        p.title = ""
        file = K.flp([*K.HEAD, K.E(12, h.bytes("mv", 1)), K.E(194, K.utf16(""))])
    else:
        path = h.put(h.bytes("old", max(0, len(file) + n)), "out.flp")
    K.pyflp.save(p, given(path, how))
    h.check(h.get(path) == file, "the whole file is replaced")
    K.pyflp.save(p, given(path, not how))
    h.check(h.get(path) == file, "the whole file is replaced again")


def shrinking(h):
    """A longer project, then a shorter one, to the same file."""
    mv = h.bytes("mv", 1)
    long, short = [*K.HEAD, K.E(12, mv), K.E(194, K.utf16("a long title"))], [*K.HEAD, K.E(12, mv)]
    p, q = K.parse(h, long, name="a.flp"), K.parse(h, short, name="b.flp")
    path = h.path("out.flp")
    for x, want in ((p, long), (q, short), (p, long), (q, short)):
        K.pyflp.save(x, path)
        h.check(h.get(path) == K.flp(want), "one project saved over another")


def emptying(h):
    """One event fewer each time, down to none."""
    evs = [*K.HEAD, K.E(12, h.bytes("mv", 1)), K.E(194, K.utf16(h.text("t", 2)))]
    p = K.parse(h, evs)
    path = h.put(h.bytes("old", 90), "out.flp")
    while evs:
        p.events.pop(evs.pop()[0])
        K.pyflp.save(p, path)
        h.check(h.get(path) == K.flp(evs), "saved with an event fewer")


def dropped(h):
    """A field which shorter events lack."""
    f = next(f for f in M.STRUCT if f.name == "sampler.pan")
    data = S.payload(h, "f", f.layout)
    v = bad(h, f)
    fails(h, f.ctx(K.E(f.id, data), K.E(f.id, bytes(24))), lambda p: f.set(p, v), "few", f.name)


def cases(tier):
    deep = tier != "quick"
    out = []

    def add(name, fn, args, **kw):
        """To every kind of destination."""
        for k in KINDS:
            out.append(Case("%s/%s" % (name, k), fn, (*args, k), **kw))

    for f in M.SIMPLE:
        if not f.ro and f.kind in ("u", "i", "t", "c", "s"):
            add(f.name, simple, (f,))
    for f in M.STRUCT:
        if f.id == 213 and f.kind in ("u", "i"):
            add(f.name, field, (f,))
    for f in M.LISTED:
        if f.kind in ("u", "i"):
            add(f.name, item, (f,))
    for k in c13.keys():
        if k[2] not in (0, 64, 66):
            add("parameter %s-%s-%s" % k, parameter, (k,))
    for n in (1, 2, 3):
        add("old text/%d" % n, ascii_text, (n,))
    for k in KINDS:
        out += [Case("channel count/" + k, count, (k,)), Case("format/" + k, fmt, (k,))]
        for at in range(5):
            out.append(Case("event %d/%s" % (at, k), position, (at, k)))
        for w in ("main_volume", "title"):
            out.append(Case("type of %s/%s" % (w, k), wrong_type, (w, k)))
    for k in ("absent", "source"):
        out.append(Case("success/" + k, succeeds, (0, k)))
    for n in (-1000, -40, -5, -1, 0, 1, 2, 7, 40, 300, 4000) + ((70000,) if deep else ()):
        out.append(Case("success/%+d" % n, succeeds, (n, "there")))
    out.append(Case("shrinking", shrinking))
    out.append(Case("emptying", emptying))
    out.append(Case("finding/dropped", dropped, finding="F08"))
    return out
