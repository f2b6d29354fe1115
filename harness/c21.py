"""C21: properties computed from several stored values."""
import datetime
import pathlib

from engine.api import Case

import pyflp.controller
from pyflp._events import EventTree, IndexedEvent
from pyflp.channel import ReverbType
from pyflp.exceptions import ModelNotFound, PropertyCannotBeSet

from . import common as K
from . import model as M
from . import spec as S

META = {
    "entry": ["Project.tempo/created_on/time_spent/comments/data_path", "Channel.name/display_name/volume/pan/group/zipped", "class of "
              "a channel", "Sampler.envelopes/lfos/sample_path", "tracking", "Reverb.type/mix", "TimeMarker.type/position", "RemoteController",
              "Patterns.current", "Arrangements.current/loop_pos", "Insert.iid/dock/routes", "the setters among them", "pyflp.save"],
    "bounds": "tempo: any 32-bit tempo, any coarse part, any fine part below 1000, with each combination of the three present; stamps: 250 "
              "steps of 1/8 day and of 1 second from each of 4 dates; every 32-bit position of a time marker and value of reverb; "
              "every 16-bit parameter of a controller; 1..4 patterns or arrangements with any ids and any current number (of an arrangement: the first and last 120); every "
              "combination of newer and older events of volume, panning, names and comments, with any values (texts of 0..3 "
              "characters); 1..3 groups and any group number; 0..5 envelopes, 0..2 tracking events; every flag word of an insert; "
              "every channel type 0..6",
    "outside": "stamps between the steps; mixes of reverb of 65536 or more (they would change the kind); paths other than the listed texts",
    "assumptions": [],
}

T4 = b"\x01\x02\x03\x04"


# ------------------------------------------------------------------ tempo
def tempo(h, what):
    evs = [K.version("20.8.4"), K.E(12, K.u8(1))]
    coarse, fine, new = h.int("coarse", 0, 999), h.int("fine", 0, 999), h.int("new", 0, 999999)
    if "c" in what:
        evs.append(K.E(66, K.u16(coarse)))
    if "f" in what:
        evs.append(K.E(93, K.u16(fine)))
    if "n" in what:
        evs.append(K.E(156, K.u32(new)))
    p = K.parse(h, evs)
    t = p.tempo
    if "n" in what:
        # thousandths: t * 1000 is exact after rounding, compare in the file
        h.check(t == h.flo(new, lambda v: v / 1000), "tempo of a new project")
    elif what == "c":
        h.check(t == coarse, "tempo without a fine part")
    elif what == "cf":
        c = h.fork(coarse)
        h.check(t == h.flo(fine, lambda v: c + v / 1000), "tempo with a fine part")
    else:
        h.check(t is None, "no tempo")


def tempo_two(h, c):
    """A coarse part (all fine parts)."""
    fine = h.int("fine", 0, 999)
    p = K.parse(h, [K.version("5.0.0"), K.E(66, K.u16(c)), K.E(93, K.u16(fine))])
    h.check(p.tempo == h.flo(fine, lambda v: c + v / 1000), "tempo with a fine part")


def tempo_new(h, lo, hi):
    new = h.int("new", lo, hi)
    evs = [K.version("20.8.4"), K.E(66, K.u16(99)), K.E(93, K.u16(7)), K.E(156, K.u32(new))]
    if h.choose("old", 2):
        evs = [evs[0], evs[3]]
    p = K.parse(h, evs)
    h.check(p.tempo == h.flo(new, lambda v: v / 1000), "tempo of a new project")


# ------------------------------------------------------------------ dates
DATES = ((0, "1899-12-30"), (36526, "2000-01-01"), (44927, "2023-01-01"), (45350, "2024-02-28"))


def stamps(h, base, date, unit, other):
    k = h.int("k", 0, 249)
    per = {"eighth": 8, "second": 86400, "millisecond": 86400000}[unit]
    import struct
    table = [int.from_bytes(struct.pack("<d", base + i / per), "little") for i in range(250)]
    b = h.tabulate(k, lambda i: table[i]).to_bytes(8, "little")
    fixed = struct.pack("<d", 1.5)
    p = K.parse(h, [*K.HEAD, K.E(237, b + fixed if other == "created_on" else fixed + b)])
    n = h.fork(k)
    delta = {"eighth": datetime.timedelta(hours=3), "second": datetime.timedelta(seconds=1), "millisecond": datetime.timedelta(milliseconds=1)}[unit] * n
    y, m, d = map(int, date.split("-"))
    start = datetime.datetime(y, m, d)
    half = datetime.timedelta(days=1, hours=12)
    epoch = datetime.datetime(1899, 12, 30)
    us = datetime.timedelta(microseconds=20)
    if other == "created_on":
        h.check(-us <= p.created_on - (start + delta) <= us, "creation time")
        h.check(p.time_spent == half, "time spent")
    else:
        h.check(-us <= p.time_spent - (start - epoch + delta) <= us, "time spent")
        h.check(p.created_on == epoch + half, "creation time")


def no_stamp(h):
    p = K.parse(h, [*K.HEAD, K.E(12, h.bytes("v", 1))])
    h.check(p.created_on is None and p.time_spent is None, "no stamp")


# ------------------------------------------------------------------ time markers, reverb, controllers
SIG = 2 ** 27


def markers(h, where):
    """Three markers with any positions."""
    raw = [h.int("m%d" % i, 0, 2 ** 32 - 1) for i in range(3)]
    mk = [e for i, r in enumerate(raw) for e in (K.E(148, K.u32(r)), K.E(33, K.u8(i + 2)), K.E(34, K.u8(4)), K.E(205, K.utf16("m%d" % i)))]
    if where == "arrangement":
        evs = [*K.HEAD, K.E(99, K.u16(0)), *mk, K.E(100, K.u16(0))]
        p = K.parse(h, evs)
        got = list(list(p.arrangements)[0].timemarkers)
    else:
        evs = [*K.HEAD, K.E(65, K.u16(1)), *mk]
        p = K.parse(h, evs)
        got = list(list(p.patterns)[0].timemarkers)
    h.check(len(got) == 3, "number of markers")
    for i, (m, r) in enumerate(zip(got, raw)):
        if h.fork(r >= SIG):
            h.check(m.type.name == "Signature", "kind of a signature")
            h.check(m.position == r - SIG, "position of a signature")
        else:
            h.check(m.type.name == "Marker", "kind of a marker")
            h.check(m.position == r, "position of a marker")
        h.check(m.numerator == i + 2 and m.name == "m%d" % i, "its other values")


def reverb(h, what):
    v = h.int("v", 0, 2 ** 32 - 1 if what == "read" else 131071)
    mk = lambda x: M.in_sampler(K.E(139, K.u32(x)), K.E(139, K.u32(77)))
    p = K.parse(h, mk(v))
    r = M.ch(p).fx.reverb
    b = h.fork(v >= 65536)
    mix = v - 65536 if b else v
    h.check(r.type is (ReverbType.B if b else ReverbType.A), "kind of reverb")
    h.check(r.mix == mix, "mix of reverb")
    if what == "read":
        return
    if what == "mix":
        m = h.int("m", 0, 65535)
        r.mix = m
        want = m + (65536 if b else 0)
    elif what == "type":
        k = h.choose("k", 2)
        r.type = (ReverbType.A, ReverbType.B)[k]
        want = mix + (65536 if k else 0)
    else:
        k, m = h.choose("k", 2), h.int("m", 0, 65535)
        r.mix = m
        r.type = (ReverbType.A, ReverbType.B)[k]
        want = m + (65536 if k else 0)
    h.check(K.save(h, p) == K.flp(mk(want)), "saved file")
    r = M.ch(K.pyflp.parse(h.path("out.flp"))).fx.reverb
    h.check(r.type is (ReverbType.B if want_b(h, want) else ReverbType.A), "kind of reverb after reopening")
    h.check(r.mix == (want - 65536 if want_b(h, want) else want), "mix of reverb after reopening")


def want_b(h, v):
    return h.fork(v >= 65536)


def remote(h, n):
    pd = h.int("pd", 0, 65535)
    full = h.bytes("a", 4) + K.u16(pd) + h.bytes("d", 2) + h.bytes("z", 12)
    evs = [*K.HEAD, K.E(227, full[:n]), K.E(12, h.bytes("w", 1))]
    p = K.parse(h, evs)
    e = [ie for ie in p.events.lst if ie.e.id == 227]
    rc = pyflp.controller.RemoteController(EventTree(p.events, e))
    if n >= 6:
        h.check(rc.parameter == pd & 0x7FFF, "parameter")
        h.check(rc.controls_vst == (pd >= 0x8000), "whether it controls a VST")
    else:
        h.check(rc.parameter is None, "no parameter")
        h.check(rc.controls_vst is None, "no parameter")
    h.check(K.save(h, p) == K.flp(evs), "saved file")


# ------------------------------------------------------------------ what is current
def current_pattern(h, n):
    iids = [h.int("i%d" % k, 1, 5) for k in range(n)]
    for a in range(n):
        for b in range(a):
            h.assume(iids[a] != iids[b])
    cur = h.int("cur", 0, 65535)
    evs = [*K.HEAD, K.E(67, K.u16(cur))]
    for k, i in enumerate(iids):
        evs += [K.E(65, K.u16(i)), K.E(193, K.utf16("p%d" % k))]
    p = K.parse(h, evs)
    got = p.patterns.current
    for k, i in enumerate(iids):
        if h.fork(cur == i):
            h.check(got is not None and got.name == "p%d" % k, "current pattern")
            return
    h.check(got is None, "a current pattern which does not exist")


def no_current(h, what):
    p = K.parse(h, [*K.HEAD, K.E(65, K.u16(1)), K.E(224, b""), K.E(99, K.u16(0)), K.E(12, h.bytes("v", 1))])
    if what == "pattern":
        h.check(p.patterns.current is None, "no current pattern")
    else:
        h.check(p.arrangements.current is None, "no current arrangement")
        h.check(p.arrangements.loop_pos is None, "no loop position")
        h.check(h.raises(lambda: setattr(p.arrangements, "loop_pos", (1, 2)), PropertyCannotBeSet) is not None, "setting it")


def current_arrangement(h, n):
    cur = h.int("cur", 0, 65535)
    h.assume(h.any([cur < 120, cur > 65535 - 120]))
    evs = [*K.HEAD]
    for k in range(n):
        evs += [K.E(99, h.bytes("id%d" % k, 2)), K.E(241, K.utf16("a%d" % k)), K.E(238, K.u32(k + 1))]
    p = K.parse(h, [*evs, K.E(100, K.u16(cur))])
    for k in range(n):
        if h.fork(cur == k):
            h.check(p.arrangements.current.name == "a%d" % k, "current arrangement")
            return
    h.check(h.raises(lambda: p.arrangements.current, ModelNotFound) is not None, "a current arrangement which does not exist")


def loop_pos(h, what, kind):
    old = (h.int("o0", 0, 65535), h.int("o1", 0, 65535))
    new = (h.int("n0", 0, 2 ** 32 - 1), h.int("n1", 0, 2 ** 32 - 1))

    def mk(o, n):
        evs = [*K.HEAD]
        if what != "new":
            evs.append(K.E(152, K.u16(o[0]) + K.u16(o[1])))
        evs.append(K.E(12, K.u8(3)))
        if what != "old":
            evs.append(K.E(217, K.u32(n[0]) + K.u32(n[1])))
        return [*evs, K.E(99, K.u16(0)), K.E(100, K.u16(0))]
    p = K.parse(h, mk(old, new))
    h.check(h.eq(tuple(p.arrangements.loop_pos), old if what == "old" else new), "loop position")
    if kind == "read":
        return
    top = 65535 if what == "old" else 2 ** 32 - 1
    v = (h.int("v0", 0, top), h.int("v1", 0, top))
    p.arrangements.loop_pos = v
    h.check(h.eq(tuple(p.arrangements.loop_pos), v), "loop position after setting it")
    h.check(K.save(h, p) == K.flp(mk(v, new) if what == "old" else mk(old, v)), "saved file")


# ------------------------------------------------------------------ newer and older events
def levels(h, attr, where, have, kind):
    """Levels over word over byte."""
    ids = {"volume": (219, 72, 2), "pan": (219, 73, 3)}[attr]
    lev = h.bytes("lev", 24 if attr == "volume" else 24)
    lev = lev[:20] + K.u32(1)
    w, b = h.int("w", 0, 65535), h.int("b", 0, 255)

    def mk(lev, w, b):
        out = []
        if "b" in have:
            out.append(K.E(ids[2], K.u8(b)))
        if "w" in have:
            out.append(K.E(ids[1], K.u16(w)))
        if "l" in have:
            out.append(K.E(219, lev))
        if not out:
            out.append(K.E(210, b"q"))
        return where(out, None)
    p = K.parse(h, mk(lev, w, b))
    off = 0 if attr == "pan" else 4
    stored = K.le(lev[off:off + 4], attr == "pan") if "l" in have else w if "w" in have else b if "b" in have else None
    got = getattr(M.ch(p), attr)
    h.check(got is None if stored is None else got == stored, attr)
    if kind == "read":
        return
    if stored is None:
        h.check(h.raises(lambda: setattr(M.ch(p), attr, 1), PropertyCannotBeSet) is not None, "setting an absent value")
        h.check(K.save(h, p) == K.flp(mk(lev, w, b)), "saved file")
        return
    v = h.int("v", *((-2 ** 31, 2 ** 31 - 1) if "l" in have and attr == "pan" else (0, 2 ** 32 - 1) if "l" in have else
                     (0, 255) if "b" in have else (0, 65535)))
    K.save(h, p, "before.flp")
    setattr(M.ch(p), attr, v)
    h.check(getattr(M.ch(p), attr) == v, attr + " after setting it")
    out = K.save(h, p)
    if "l" in have:
        h.check(out == K.flp(mk(K.splice(lev, off, v.to_bytes(4, "little", signed=attr == "pan")), w, b)), "saved file")
    elif "w" in have and "b" in have:  # the older one may follow
        h.check(h.any([out == K.flp(mk(lev, v, b)), out == K.flp(mk(lev, v, v))]), "saved file")
    else:
        h.check(out == K.flp(mk(lev, v, v)), "saved file")
    h.check(getattr(M.ch(K.pyflp.parse(h.path("out.flp"))), attr) == v, attr + " after reopening")


def names(h, where, lens):
    """Name over older name, shown name over internal name."""
    ids = (203, 192, 201)
    t = [None if n is None else h.text("t%d" % i, n, 1, 0xD7FF) for i, n in enumerate(lens)]
    evs = [K.E(i, K.utf16(x)) for i, x in zip(ids, t) if x is not None]
    p = K.parse(h, where(evs or [K.E(210, b"q")], K.E(203, K.utf16("decoy"))))
    c = M.ch(p)
    name = t[0] if t[0] is not None else t[1]
    h.check(c.name is None if name is None else c.name == name, "name")
    shown = name if name else t[2]
    if name is not None and not lens[0 if t[0] is not None else 1]:
        shown = t[2]  # an empty name shows the internal one
    h.check(not c.display_name if shown is None else c.display_name == shown, "shown name")


def set_name(h, where, lens):
    t = [None if n is None else h.text("t%d" % i, n, 1, 0xD7FF) for i, n in enumerate(lens)]
    new = h.text("new", 2, 1, 0xD7FF)
    mk = lambda a, b: where([K.E(i, K.utf16(x)) for i, x in zip((203, 192), (a, b)) if x is not None], None)
    p = K.parse(h, mk(*t))
    M.ch(p).name = new
    h.check(M.ch(p).name == new and M.ch(p).display_name == new, "name after setting it")
    h.check(K.save(h, p) == K.flp(mk(new, t[1]) if t[0] is not None else mk(None, new)), "saved file")


def comments(h, lens, kind):
    t = [None if n is None else h.text("t%d" % i, n, 1, 0xD7FF) for i, n in enumerate(lens)]
    order = h.choose("order", 2)

    def mk(a, b):
        out = [K.E(i, K.utf16(x)) for i, x in zip((195, 198), (a, b)) if x is not None]
        return [*K.HEAD, *(out[::-1] if order else out), K.E(12, K.u8(1))]
    p = K.parse(h, mk(*t))
    want = t[0] if t[0] is not None else t[1]
    h.check(p.comments is None if want is None else p.comments == want, "comments")
    if kind == "set" and want is not None:
        new = h.text("new", 2, 1, 0xD7FF)
        p.comments = new
        h.check(p.comments == new, "comments after setting them")
        h.check(K.save(h, p) == K.flp(mk(new, t[1]) if t[0] is not None else mk(None, new)), "saved file")


def pitch_shift(h, where, n):
    lev = h.bytes("lev", 20) + K.u32(1)
    mk = lambda b: where(K.E(219, b[:n]), K.E(219, bytes(24)))
    p = K.parse(h, mk(lev))
    if n < 12:
        h.check(M.ch(p).pitch_shift is None, "no pitch shift")
        return
    h.check(M.ch(p).pitch_shift == K.le(lev[8:12], True), "pitch shift")
    v = h.int("v", -2 ** 31, 2 ** 31 - 1)
    M.ch(p).pitch_shift = v
    h.check(K.save(h, p) == K.flp(mk(K.splice(lev, 8, v.to_bytes(4, "little", signed=True)))), "saved file")


# ------------------------------------------------------------------ channels
def group(h, n):
    g = [h.int("g%d" % i, 0, n - 1) for i in range(2)]
    evs = [*K.HEAD, *[K.E(231, K.utf16("group %d" % i)) for i in range(n)]]
    for i in range(2):
        evs += [K.E(64, K.u16(i)), K.E(21, K.u8(0)), K.E(145, K.u32(g[i]))]
    p = K.parse(h, evs)
    h.check([x.name for x in p.channels.groups] == ["group %d" % i for i in range(n)], "groups")
    for i, c in enumerate(p.channels):
        h.check(c.group.name == "group %d" % h.fork(g[i]), "group of a channel")


TYPES = {0: "Sampler", 2: "Instrument", 3: "Layer", 4: "Instrument", 5: "Automation"}


def kinds(h, path, internal):
    """The class of a channel."""
    t = h.fork(h.int("t", 0, 6))
    evs = []
    if internal is not None:
        evs.append(K.E(201, K.utf16(internal)))
    if path is not None:
        evs.append(K.E(196, K.utf16(path)))
    p = K.parse(h, [*K.HEAD, K.GROUP, *K.channel(1, 3), *K.channel(2, t, evs), *K.channel(4, 5)])
    got = [type(c).__name__ for c in p.channels]
    want = TYPES.get(t, "Channel")
    if want == "Instrument" and path is not None and internal == "":
        want = "Sampler"
    h.check(got == ["Layer", want, "Automation"], "class of a channel")
    c = list(p.channels)[1]
    h.check([x.iid for x in p.channels.samplers] == ([2] if want == "Sampler" else []), "samplers")
    h.check([x.iid for x in p.channels.instruments] == ([2] if want == "Instrument" else []), "instruments")
    h.check([x.iid for x in p.channels.layers] == ([1, 2] if want == "Layer" else [1]), "layers")
    h.check([x.iid for x in p.channels.automations] == ([2, 4] if want == "Automation" else [4]), "automations")


def envelopes(h, n):
    vals = [h.bytes("e%d" % i, 4) for i in range(n)]
    pay = lambda i: K.splice(K.splice(bytes(68), 8, vals[i]), 36, vals[i])
    p = K.parse(h, M.in_sampler([K.E(218, pay(i)) for i in range(n)] or [K.E(210, b"q")], K.E(218, bytes(68))))
    c = M.ch(p)
    if not n:
        h.check(c.envelopes is None and c.lfos is None, "no envelopes")
        return
    want = list(M.ENVELOPES[:n])
    h.check(list(c.envelopes) == want and list(c.lfos) == want, "names of envelopes")
    for i, name in enumerate(want):
        h.check(c.envelopes[name].predelay == K.le(vals[i], True), "an envelope")
        h.check(c.lfos[name].predelay == K.le(vals[i]), "an LFO")


def tracking(h, where, n):
    vals = [h.bytes("e%d" % i, 16) for i in range(n)]
    p = K.parse(h, where([K.E(228, v) for v in vals] or [K.E(210, b"q")], K.E(228, bytes(16))))
    c = M.ch(p)
    if not n:
        h.check(c.tracking is None, "no tracking")
        return
    h.check(list(c.tracking) == ["volume", "keyboard"][:n], "names of tracking")
    for name, v in zip(("volume", "keyboard"), vals):
        t = c.tracking[name]
        h.check(t.middle_value == K.le(v[:4]) and t.pan == K.le(v[4:8], True), "tracking")
        h.check(t.mod_x == K.le(v[8:12], True) and t.mod_y == K.le(v[12:], True), "tracking")


PATHS = ("", "a", "a.wav", "dir/a.wav", "/abs/dir/b c.wav", "%FLStudioFactoryData%/x.wav", "x" * 70, "..", "ü/é.wav", "C:\\x\\y.wav")


def paths(h, obj, attr, ctx, id, as_path):
    a, b = PATHS[h.choose("a", len(PATHS))], PATHS[h.choose("b", len(PATHS))]
    w = h.bytes("w", 1)
    mk = lambda t: [*ctx(K.E(id, K.utf16(t)), K.E(id, K.utf16("decoy"))), K.E(12, w)]
    p = K.parse(h, mk(a))
    h.check(getattr(obj(p), attr) == pathlib.Path(a), attr)
    setattr(obj(p), attr, pathlib.Path(b) if as_path else b)
    h.check(getattr(obj(p), attr) == pathlib.Path(b), attr + " after setting it")
    h.check(K.save(h, p) == K.flp(mk(b)), "saved file")
    h.check(getattr(obj(K.pyflp.parse(h.path("out.flp"))), attr) == pathlib.Path(b), attr + " after reopening")


def zipped(h, where):
    v = h.int("v", 0, 1)
    p = K.parse(h, where(K.E(15, K.u8(v)), K.E(15, K.u8(0))))
    h.check(M.ch(p).zipped == (v == 1), "zipped")
    h.check(list(p.channels)[0].zipped == False, "a neighbour")  # noqa: E712
    p = K.parse(h, where(K.E(210, b"q"), K.E(15, K.u8(1))))
    h.check(M.ch(p).zipped is False, "not zipped")


# ------------------------------------------------------------------ mixer
def dock(h):
    f = h.int("f", 0, 2 ** 32 - 1)
    p = K.parse(h, M.in_insert(K.E(236, K.u32(0) + K.u32(f) + K.u32(0)), None))
    d = M.insert(p).dock
    if h.fork(f & 64 == 64):
        h.check(d.name == "Middle", "docked in the middle")
    elif h.fork(f & 128 == 128):
        h.check(d.name == "Right", "docked at the right")
    else:
        h.check(d.name == "Left", "docked at the left")
    short = h.bytes("short", 4)[:4 * h.choose("n", 2)]
    evs = M.in_insert(K.E(236, short), None)
    p = K.parse(h, evs)
    h.check(M.insert(p).dock is None, "dock of an insert which stores no flags")
    p = K.parse(h, [e for e in evs if e[0] != 235])
    h.check(list(M.insert(p).routes) == [], "routes of an insert which stores none")


def insert_ids(h, n):
    evs = [*K.HEAD, *[e for i in range(n) for e in K.insert([K.E(204, K.utf16("i%d" % i))] if h.choose("n%d" % i, 2) else [], slots=[[]] * 2)]]
    p = K.parse(h, evs)
    h.check([i.iid for i in p.mixer] == list(range(-1, n - 1)), "numbers of inserts")
    h.check([[s.index for s in i] for i in p.mixer] == [[0, 1]] * n, "numbers of slots")


def cases(tier):
    deep = tier != "quick"
    out = [Case("no stamp", no_stamp), Case("dock", dock)]
    for w in ("", "f", "c"):
        out.append(Case("tempo/%s" % (w or "none"), tempo, (w,)))
    for c in range(10, 523, 1 if deep else 8):
        out.append(Case("tempo/%d and a fine part" % c, tempo_two, (c,)))
    for lo in range(0, 1000000, 250000):
        out.append(Case("tempo/new %d" % lo, tempo_new, (lo, lo + 249999), weight=4))
    for base, date in DATES:
        for unit in ("eighth", "second", "millisecond"):
            for other in ("created_on", "time_spent"):
                out.append(Case("stamp/%s/%s/%s" % (other, date, unit), stamps, (base, date, unit, other), weight=8))
    for w in ("arrangement", "pattern"):
        out.append(Case("markers/" + w, markers, (w,)))
    for w in ("read", "mix", "type", "both"):
        out.append(Case("reverb/" + w, reverb, (w,)))
    for n in (0, 2, 3, 4, 6, 8, 16, 20):
        out.append(Case("remote/%d bytes" % n, remote, (n,)))
    for n in (1, 2, 3, 4) + ((5,) if deep else ()):
        out.append(Case("current pattern of %d" % n, current_pattern, (n,), weight=4 ** n, paths=20000))
        out.append(Case("current arrangement of %d" % n, current_arrangement, (n,), weight=2))
    out += [Case("no current pattern", no_current, ("pattern",)), Case("no current arrangement", no_current, ("arrangement",))]
    for w in ("old", "new", "both"):
        for k in ("read", "set"):
            out.append(Case("loop_pos/%s/%s" % (w, k), loop_pos, (w, k)))
    wheres = {"sampler": M.in_sampler, "instrument": M.in_instrument, "layer": M.in_layer, "automation": M.in_automation}
    for kind, where in wheres.items():
        for attr in ("volume", "pan"):
            for have in ("", "b", "w", "l", "bw", "bl", "wl", "bwl"):
                for k in ("read", "set"):
                    out.append(Case("%s.%s/%s/%s" % (kind, attr, have or "none", k), levels, (attr, where, have, k)))
        opts = (None, 0, 2)
        for a in opts:
            for b in opts:
                for c in opts:
                    out.append(Case("%s.name/%s %s %s" % (kind, a, b, c), names, (where, (a, b, c))))
        for a, b in ((2, None), (None, 2), (2, 2), (0, 1)):
            out.append(Case("%s.name/set %s %s" % (kind, a, b), set_name, (where, (a, b))))
        out.append(Case("%s.zipped" % kind, zipped, (where,)))
    for kind in ("sampler", "instrument"):
        for n in (0, 4, 8, 12, 24):
            out.append(Case("%s.pitch_shift/%d" % (kind, n), pitch_shift, (wheres[kind], n)))
        for n in (0, 1, 2):
            out.append(Case("%s.tracking/%d" % (kind, n), tracking, (wheres[kind], n)))
    for a in (None, 0, 2):
        for b in (None, 0, 2):
            for k in ("read", "set"):
                out.append(Case("comments/%s %s/%s" % (a, b, k), comments, ((a, b), k)))
    for n in (1, 2, 3):
        out.append(Case("groups/%d" % n, group, (n,)))
        out.append(Case("inserts/%d" % n, insert_ids, (n,)))
    for path in (None, "", "x.wav"):
        for internal in (None, "", "Sytrus"):
            out.append(Case("class/%s %s" % (path, internal), kinds, (path, internal)))
    for n in range(6):
        out.append(Case("envelopes/%d" % n, envelopes, (n,)))
    for as_path in (False, True):
        out.append(Case("sample_path/%s" % as_path, paths, (M.ch, "sample_path", M.in_sampler, 196, as_path), weight=4))
        out.append(Case("data_path/%s" % as_path, paths, (M.project, "data_path", M.in_project, 202, as_path), weight=4))
    return out
