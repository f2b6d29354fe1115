"""C11: events belong to the part FL Studio wrote them for."""
from engine.api import Case

from . import common as K

META = {
    "entry": ["Project.channels/patterns/arrangements/mixer, Insert, Arrangement.tracks/timemarkers: events and properties"],
    "bounds": "a project with 2..3 parts of each kind in the order FL Studio writes them; in the part under test every "
              "combination of its optional events present or absent for two parts at a time, with symbolic payloads; patterns "
              "in one or two places and in any order of ids (symbolic, 1..4); unknown and project events in between; plugin "
              "events in the channels and in the slots at once; each event of each kind of part alone in any of three parts, "
              "ids in several orders; 1..3 time markers with six sets of events, the last with some of them missing; 0..3 slots per insert; parts of 260 events (1500 thorough); sections missing altogether",
    "outside": "orders of events FL Studio never writes (a channel's event outside its channel, plugin events between inserts)",
    "assumptions": ["the order of events in files written by FL Studio, as listed in DESIGN.md"],
}


class Project:
    """A whole project; the sections can be replaced."""

    def __init__(self, h):
        self.h = h
        self.notes = [[K.E(65, K.u16(1)), K.E(224, b"\1" * 24)], [K.E(65, K.u16(2)), K.E(223, b"\2" * 12)]]
        self.channels = [K.channel(i, t, [K.E(0, K.u8(1)), K.E(22, K.u8(20 + i))], name="ch%d" % i)
                         for i, t in ((0, 0), (1, 4), (2, 3))]
        self.patterns = [[K.E(65, K.u16(1)), K.E(193, K.utf16("one"))], [K.E(65, K.u16(2)), K.E(164, K.u32(96))]]
        self.arrangements = [self.arrangement(0, "A"), self.arrangement(1, "B")]
        self.inserts = [K.insert([K.E(204, K.utf16("i%d" % i))], slots=[[K.E(203, K.utf16("s%d" % i))]]) for i in range(3)]
        self.before_patterns = []
        self.gap = []

    def arrangement(self, i, name):
        return [K.E(99, K.u16(i)), K.E(241, K.utf16(name)), K.E(233, b""), K.E(238, K.u32(1)), K.E(239, K.utf16("t" + name)),
                K.E(238, K.u32(2)), *marker(i * 96, "m" + name)]

    def parse(self):
        return K.parse(self.h, self.events())

    def events(self):
        out = [*K.HEAD, K.E(9, K.u8(1)), K.E(194, K.utf16("title")), K.E(67, K.u16(1)), K.E(156, K.u32(120000)), K.GROUP,
               K.E(146, K.u32(0))]
        out += flat(self.notes) + self.gap + flat(self.channels) + self.gap + flat(self.patterns) + self.gap
        out += flat(self.arrangements)
        if self.arrangements:
            out += [K.E(100, K.u16(0)), K.E(29, K.u8(1))]
        out += flat(self.inserts)
        if self.inserts:
            out += [K.E(225, b"")]
        return out + [K.E(133, K.u32(300)), *self.gap]


def flat(parts):
    return [e for p in parts for e in p]


def marker(pos, name):
    return [K.E(148, K.u32(pos)), K.E(33, K.u8(4)), K.E(34, K.u8(4)), K.E(205, K.utf16(name))]


def own(h, model, want, label):
    h.check(K.join([bytes(e) for e in model.events] or [b""]) == K.join(want or [b""]), label)


def rest(h, p, x, but):
    """The other sections are what they are, whatever the section under test does."""
    if but != "channels":
        got = [c for c in p.channels]
        h.check(len(got) == len(x.channels), "number of channels")
        for m, w in zip(got, x.channels):
            own(h, m, w, "events of a channel")
        h.check(h.all([m.name == "ch%d" % i for i, m in enumerate(got)]), "names of channels")
    if but != "patterns" and x.notes:
        for m, w in zip(list(p.patterns), [a + b for a, b in zip(x.notes, x.patterns)]):
            own(h, m, w, "events of a pattern")
    if but != "arrangements" and x.arrangements:
        got = list(p.arrangements)
        h.check(len(got) == len(x.arrangements), "number of arrangements")
        for m, w in zip(got, x.arrangements):
            own(h, m, w, "events of an arrangement")
    if but != "inserts" and x.inserts:
        got = list(p.mixer)
        h.check(len(got) == len(x.inserts), "number of inserts")
        for i, (m, w) in enumerate(zip(got, x.inserts)):
            own(h, m, w, "events of an insert")
            h.check(len(m) == 1 and list(m)[0].name == "s%d" % i and m.name == "i%d" % i, "names of inserts and slots")
    h.check(p.title == "title" and p.tempo == 120 and p.looped is True, "the project's own")


def pick(h, tag, choices):
    return [e for i, e in enumerate(choices) if h.choose("%s%d" % (tag, i), 2)]


def channel_options(h, k):
    t = "c%d" % k
    return [K.E(0, K.u8(1)), K.E(128, h.bytes(t + "color", 4)), K.E(212, h.bytes(t + "wrap", 20)), K.E(219, h.bytes(t + "lev", 24))]


def channels(h, a, b):
    x = Project(h)
    kinds = {0: 0, 1: 4, 2: 3}
    opts = {}
    for k in (a, b):
        opts[k] = pick(h, "o%d" % k, channel_options(h, k))
        x.channels[k] = K.channel(k, kinds[k], opts[k], name="ch%d" % k)
    x.inserts[0] = K.insert([K.E(204, K.utf16("i0"))], slots=[[K.E(203, K.utf16("s0")), K.E(128, h.bytes("sc", 4)), K.E(155, K.u32(3))]])
    p = x.parse()
    got = list(p.channels)
    h.check(len(got) == 3, "number of channels")
    for k, m in enumerate(got):
        own(h, m, x.channels[k], "events of a channel")
        h.check(m.iid == k and m.name == "ch%d" % k, "id and name")
        c = [e for e in x.channels[k] if e[0] == 128]
        h.check((m.color is not None) == bool(c), "color of a channel")
        if c:
            h.check(bytes(m.color) == c[0][1:], "color of a channel")
        e = [e for e in x.channels[k] if e[0] == 0]
        h.check((m.enabled is not None) == bool(e), "enabled of a channel")
        l = [e for e in x.channels[k] if e[0] == 219]
        h.check((m.volume is not None) == bool(l), "volume of a channel")
        if l:
            h.check(m.volume == K.le(l[0][6:10]), "volume of a channel")
    rest(h, p, x, "channels")


def patterns(h, order, k):
    """Patterns by any ids, with the second half in another order; optional events of pattern k."""
    x = Project(h)
    ids = [h.int("id%d" % i, 1, 4) for i in range(2)]
    h.assume(ids[0] != ids[1])
    first = [[K.E(65, K.u16(ids[i])), K.E(224, h.bytes("n%d" % i, 24))] for i in range(2)]
    if h.choose("controllers", 2):
        first[k].insert(1, K.E(223, h.bytes("ctl", 12)))
    second = []
    for i in range(2):
        o = [K.E(193, K.utf16("p%d" % i)), K.E(150, h.bytes("col%d" % i, 4)), K.E(164, h.bytes("len%d" % i, 4))]
        if i == k:
            o = pick(h, "o", o + marker(960, "pm")[:0])
            if h.choose("marker", 2):
                o += marker(960, "pm")
        second.append([K.E(65, K.u16(ids[i]))] + o if o or i != k else [])
    x.notes, x.patterns = first, [second[i] for i in order]
    p = x.parse()
    got = list(p.patterns)
    h.check(len(got) == 2 and len(p.patterns) == 2, "number of patterns")
    for i, m in enumerate(got):
        own(h, m, first[i] + second[i], "events of a pattern")
        h.check(m.iid == ids[i], "id")
        n = [e for e in second[i] if e[0] == 193]
        h.check(h.eq(m.name, "p%d" % i if n else None), "name of a pattern")
        l = [e for e in second[i] if e[0] == 164]
        h.check(h.eq(m.length, K.le(l[0][1:]) if l else None), "length of a pattern")
        h.check(len(list(m.notes)) == 1 and list(m.notes)[0].position == K.le(first[i][-1][2:6]), "notes of a pattern")
        h.check(len(list(m.controllers)) == sum(e[0] == 223 for e in first[i]), "controllers of a pattern")
        h.check(len(list(m.timemarkers)) == sum(e[0] == 148 for e in second[i]), "time markers of a pattern")
    rest(h, p, x, "patterns")


def arrangements(h, k):
    x = Project(h)
    spec = []
    for i in range(2):
        own_name = [K.E(241, K.utf16("arr%d" % i))]
        pl = [K.E(233, b"")]
        tracks = [[K.E(238, K.u32(5 + j)), K.E(239, K.utf16("t%d%d" % (i, j)))] for j in range(2)]
        marks = [marker(96 * i + j, "m%d%d" % (i, j)) for j in range(2)]
        if i == k:
            own_name = pick(h, "n", own_name)
            pl = pick(h, "pl", pl)
            tracks = [[t[0]] + pick(h, "t%d" % j, t[1:]) for j, t in enumerate(tracks)][:h.choose("nt", 3)]
            marks = marks[:h.choose("nm", 3)]
        spec.append((own_name, tracks, marks))
        x.arrangements[i] = [K.E(99, K.u16(i)), *own_name, *pl, *flat(tracks), *flat(marks)]
    p = x.parse()
    got = list(p.arrangements)
    h.check(len(got) == 2, "number of arrangements")
    for i, m in enumerate(got):
        own(h, m, x.arrangements[i], "events of an arrangement")
        n, tr, mk = spec[i]
        h.check(m.iid == i, "id")
        h.check(h.eq(m.name, "arr%d" % i if n else None), "name of an arrangement")
        ts = list(m.tracks)
        h.check(len(ts) == len(tr), "number of tracks")
        for j, (t, w) in enumerate(zip(ts, tr)):
            own(h, t, w, "events of a track")
            h.check(t.iid == 5 + j and h.eq(t.name, "t%d%d" % (i, j) if len(w) > 1 else None), "id and name of a track")
        ms = list(m.timemarkers)
        h.check(len(ms) == len(mk), "number of time markers")
        for j, (t, w) in enumerate(zip(ms, mk)):
            h.check(sorted(bytes(e) for e in t.events) == sorted(w), "events of a time marker")
            h.check(t.name == "m%d%d" % (i, j) and t.position == 96 * i + j, "time marker")
    rest(h, p, x, "arrangements")


def slot_options(h, tag, i):
    return [K.E(201, K.utf16("Fruity Balance")), K.E(128, h.bytes(tag + "c", 4)), K.E(203, K.utf16("slot%d" % i)), K.E(213, h.bytes(tag + "d", 8))]


def inserts(h, k, n):
    """Optional events of insert k, and n slots in it."""
    x = Project(h)
    spec = []
    for i in range(3):
        o = [K.E(95, h.bytes("icon%d" % i, 2)), K.E(149, h.bytes("col%d" % i, 4)), K.E(204, K.utf16("ins%d" % i))]
        if i == k:
            o = pick(h, "o", o)
        ns = n if i == k else (1, 0, 2)[i]
        slots = [slot_options(h, "s%d%d" % (i, j), j) if (i + j) % 2 else [K.E(203, K.utf16("slot%d" % j))] for j in range(ns)]
        x.inserts[i] = K.insert(o, slots=slots, output=7 + i)
        spec.append((o, slots))
    p = x.parse()
    got = list(p.mixer)
    h.check(len(got) == 3 and len(p.mixer) == 3, "number of inserts")
    for i, m in enumerate(got):
        own(h, m, x.inserts[i], "events of an insert")
        o, slots = spec[i]
        by = {e[0]: e for e in o}
        h.check(h.eq(m.name, "ins%d" % i if 204 in by else None), "name of an insert")
        h.check(h.eq(m.icon, K.le(by[95][1:], True) if 95 in by else None), "icon of an insert")
        h.check((m.color is not None) == (149 in by), "color of an insert")
        if 149 in by:
            h.check(bytes(m.color) == by[149][1:], "color of an insert")
        h.check(m.output == 7 + i and m.iid == i - 1, "output and id of an insert")
        ss = list(m)
        h.check(len(ss) == len(slots) and len(m) == len(slots), "number of slots")
        for j, (s, w) in enumerate(zip(ss, slots)):
            own(h, s, w + [K.E(98, K.u16(j))], "events of a slot")
            h.check(s.index == j and s.name == "slot%d" % j, "index and name of a slot")
    rest(h, p, x, "inserts")


def slots(h, k):
    """Optional events of slot k of 3 in the second insert."""
    x = Project(h)
    sl = [slot_options(h, "s%d" % j, j) for j in range(3)]
    for j in (k, (k + 1) % 3):
        sl[j] = pick(h, "o%d" % j, sl[j])
        ids = [e[0] for e in sl[j]]
        h.assume(201 in ids or 213 not in ids)  # FL Studio writes a plugin's state after its name
    x.inserts[1] = K.insert([], slots=sl)
    p = x.parse()
    m = list(p.mixer)[1]
    ss = list(m)
    h.check(len(ss) == 3, "number of slots")
    for j, (s, w) in enumerate(zip(ss, sl)):
        own(h, s, w + [K.E(98, K.u16(j))], "events of a slot")
        by = {e[0]: e for e in w}
        h.check(h.eq(s.name, "slot%d" % j if 203 in by else None), "name of a slot")
        h.check(h.eq(s.internal_name, "Fruity Balance" if 201 in by else None), "plugin name of a slot")
        h.check((s.color is not None) == (128 in by), "color of a slot")
        h.check((s.plugin is not None) == (201 in by and 213 in by), "plugin of a slot")
        if 201 in by and 213 in by:
            h.check(s.plugin.pan == K.le(by[213][2:6]), "state of the plugin")
    for i in (0, 2):
        own(h, list(p.mixer)[i], x.inserts[i], "events of the other inserts")


def gaps(h, id, payload):
    """Events which belong to none of the parts, between the sections."""
    x = Project(h)
    x.gap = [K.E(id, payload(h))]
    p = x.parse()
    rest(h, p, x, "")


def missing(h):
    """Sections missing altogether."""
    x = Project(h)
    if h.choose("nopat", 2):
        x.notes, x.patterns = [], []
    if h.choose("noarr", 2):
        x.arrangements = []
    if h.choose("noins", 2):
        x.inserts = []
    if h.choose("noch", 2):
        x.channels = []
    if not x.notes and x.arrangements:
        pass
    p = x.parse()
    rest(h, p, x, "")


def plugins_everywhere(h):
    """The same plugin in channels and slots: each reads its own state."""
    x = Project(h)
    st = [h.bytes("b%d" % i, 12) for i in range(2)]
    sb = [h.bytes("f%d" % i, 8) for i in range(3)]
    x.channels = [K.channel(i, 4, [K.E(213, d)], internal="BooBass", name="ch%d" % i) for i, d in enumerate(st)]
    x.inserts = [K.insert([K.E(204, K.utf16("i%d" % i))], slots=[[K.E(201, K.utf16("Fruity Balance")), K.E(203, K.utf16("s%d" % i)), K.E(213, d)]])
                 for i, d in enumerate(sb)]
    p = x.parse()
    for m, d in zip(list(p.channels), st):
        h.check(h.all([m.plugin.bass == K.le(d[:4]), m.plugin.mid == K.le(d[4:8]), m.plugin.high == K.le(d[8:])]), "plugin of a channel")
    for m, d in zip(list(p.mixer), sb):
        s = list(m)[0]
        h.check(h.all([s.plugin.pan == K.le(d[:4]), s.plugin.volume == K.le(d[4:])]), "plugin of a slot")
    rest(h, p, x, "")


def payload(h, id, tag):
    """Something this event can hold; symbolic where its bytes are free."""
    if id in (0, 15, 20, 26, 28, 32):
        return K.u8(1)
    if id < 64:
        return h.bytes(tag, 1)
    if id < 128:
        return h.bytes(tag, 2)
    if id == 140:
        return b"\0\0\x80\x3f"
    if id < 192:
        return h.bytes(tag, 4)
    if id in TEXTS:
        return K.utf16("x" + tag)
    return h.bytes(tag, {209: 20, 219: 20, 228: 16, 229: 20, 224: 24, 223: 12, 217: 8, 227: 20, 212: 16, 221: 8, 215: 9, 233: 0}.get(id, 4))


TEXTS = (*range(192, 208), 231, 239, 241)
CHANNEL = (0, 2, 3, 15, 20, 22, 32, 69, 70, 71, 72, 73, 74, 75, 76, 83, 85, 86, 89, 94, 97, 131, 132, 135, 138, 139, 140, 142,
           143, 144, 153, 192, 196, 209, 215, 218, 219, 221, 228, 229, 128, 155, 201, 203, 212, 213)
PATTERN = (26, 150, 193, 160, 161, 162, 164, 223, 224)
INSERT = (95, 149, 204)
SLOT = (128, 155, 201, 203, 212)
TRACK = (239,)


def one(h, part, id, order):
    """One event of one kind, in any one of three parts: that part has it and no other does."""
    x = Project(h)
    k = h.choose("k", 3)
    data = payload(h, id, "one")
    e = K.E(id, data)
    if part == "channel":
        ids = order
        for i in range(3):
            x.channels[i] = K.channel(ids[i], (0, 4, 3)[i], [e] if i == k else [])
    elif part == "pattern":
        x.notes = [[K.E(65, K.u16(order[i] + 1))] + ([e] if i == k else []) for i in range(3)]
        x.patterns = []
    elif part == "insert":
        x.inserts = [K.insert([e] if i == k else [], slots=[[]] * i) for i in range(3)]
    elif part == "slot":
        x.inserts = [K.insert([], slots=[[e] if i == k else [] for i in range(3)])]
    elif part == "arrangement":
        x.arrangements = [[K.E(99, K.u16(order[i]))] + ([e] if i == k else []) + [K.E(238, K.u32(1))] for i in range(3)]
    elif part == "track":
        x.arrangements = [[K.E(99, K.u16(0))] + flat([K.E(238, K.u32(1 + i))] + ([e] if i == k else []) for i in range(3))]
    p = x.parse()
    models = {"channel": lambda: p.channels, "pattern": lambda: p.patterns, "insert": lambda: p.mixer,
              "slot": lambda: list(p.mixer)[0], "arrangement": lambda: p.arrangements,
              "track": lambda: list(p.arrangements)[0].tracks}[part]()
    got = list(models)
    h.check(len(got) == 3, "number of parts")
    for i, m in enumerate(got):
        mine = [bytes(v) for v in m.events if v.id == id]
        h.check(len(mine) == (1 if i == k else 0), "the event belongs to its part alone")
        if i == k:
            h.check(mine[0] == e, "the event of its part")
    if part in ("channel", "pattern", "arrangement"):
        h.check([m.iid for m in got] == [order[i] + (part == "pattern") for i in range(3)], "ids of parts")


def markers(h, where, kinds, lacks=()):
    """Time markers which all have the same kinds of events, save that the last may lack some."""
    x = Project(h)
    n = 1 + h.choose("n", 3)
    names = ["m0", "m1", "m2"]
    if 205 in kinds and h.choose("blank", 2):
        names[h.choose("which", n)] = ""
    ms = []
    for i in range(n):
        m = {148: h.bytes("pos%d" % i, 4), 33: h.bytes("num%d" % i, 1), 34: h.bytes("den%d" % i, 1), 205: K.utf16(names[i])}
        ms.append([K.E(k, m[k]) for k in kinds if k == 148 or i < n - 1 or k not in lacks])
    if where == "pattern":
        x.patterns[0] += flat(ms)
    else:
        x.arrangements[0] = [*x.arrangements[0][:-4], *flat(ms)]
    p = x.parse()
    m = list(p.patterns)[0] if where == "pattern" else list(p.arrangements)[0]
    got = list(m.timemarkers)
    h.check(len(got) == n, "number of time markers")
    for i, (t, w) in enumerate(zip(got, ms)):
        b = {e[0]: e for e in w}
        h.check(len(t.events) == len(w), "events of a time marker")
        h.check(h.eq(t.numerator, b[33][1] if 33 in b else None), "numerator")
        h.check(h.eq(t.denominator, b[34][1] if 34 in b else None), "denominator")
        h.check(h.eq(t.name, names[i] if 205 in b else None), "name")
        for e in t.events:
            h.check(bytes(e) == b[e.id], "events of a time marker")
    other = list(p.arrangements)[1].timemarkers if where != "pattern" else list(p.patterns)[1].timemarkers
    h.check(len(list(other)) == (0 if where == "pattern" else 1), "time markers of another part")


def full(h, part, n):
    """One of three parts, any of them, has n events; the others have none of these."""
    x = Project(h)
    k = h.choose("k", 3)
    many = {"channel": lambda i: K.E(94, K.u16(i)), "pattern": lambda i: K.E(148, K.u32(i)), "arrangement": lambda i: K.E(148, K.u32(i)),
            "track": lambda i: K.E(239, K.utf16("t")), "slot": lambda i: K.E(128, K.u32(i)), "insert": lambda i: K.E(149, K.u32(i))}[part]
    evs = [many(i) for i in range(n - 1)]
    last = h.bytes("last", 2 if part == "channel" else 4)
    evs.append(K.E(94, last) if part == "channel" else K.E(239, K.utf16("u")) if part == "track" else K.E(evs[0][0], last))
    if part == "channel":
        x.channels = [K.channel(i, 3, evs if i == k else []) for i in range(3)]
    elif part == "pattern":
        x.notes = []
        x.patterns = [[K.E(65, K.u16(i + 1))] + (evs if i == k else []) for i in range(3)]
    elif part == "insert":
        x.inserts = [K.insert(evs if i == k else [], slots=[[]] * i) for i in range(3)]
    elif part == "slot":
        x.inserts = [K.insert([], slots=[evs if i == k else [] for i in range(3)])]
    elif part == "arrangement":
        x.arrangements = [[K.E(99, K.u16(i))] + (evs if i == k else []) + [K.E(238, K.u32(1))] for i in range(3)]
    else:
        x.arrangements = [[K.E(99, K.u16(0))] + flat([K.E(238, K.u32(1 + i))] + (evs if i == k else []) for i in range(3))]
    p = x.parse()
    got = list({"channel": lambda: p.channels, "pattern": lambda: p.patterns, "insert": lambda: p.mixer,
                "slot": lambda: list(p.mixer)[0], "arrangement": lambda: p.arrangements,
                "track": lambda: list(p.arrangements)[0].tracks}[part]())
    h.check(len(got) == 3, "number of parts")
    for i, m in enumerate(got):
        mine = [bytes(v) for v in m.events if v.id == evs[0][0]]
        if i == k:
            h.check(len(mine) == n and h.all([a == b for a, b in zip(mine, evs)]), "all events of a part with many")
        else:
            h.check(not mine, "none of them in another part")
            h.check(len(list(m.events)) < 8, "the other events of another part")
    h.check(sum(len(list(m.events)) for m in got) < n + 24, "nothing belongs to two parts")


def cases(tier):
    deep = tier != "quick"
    out = []
    for a, b in ((0, 1), (1, 2), (2, 0)):
        out.append(Case("channels/%d%d" % (a, b), channels, (a, b), weight=30))
    for order in ((0, 1), (1, 0)):
        for k in (0, 1):
            out.append(Case("patterns/%d%d/%d" % (*order, k), patterns, (order, k), weight=40, paths=5000))
    for k in (0, 1):
        out.append(Case("arrangements/%d" % k, arrangements, (k,), weight=30))
    for k in (0, 1, 2):
        for n in (0, 1, 2, 3) + ((10,) if deep else ()):
            out.append(Case("inserts/%d/%d" % (k, n), inserts, (k, n), weight=5))
        out.append(Case("slots/%d" % k, slots, (k,), weight=30))
    for id, f in ((12, lambda h: h.bytes("g", 1)), (80, lambda h: h.bytes("g", 2)), (166, lambda h: h.bytes("g", 4)),
                  (210, lambda h: h.bytes("g", 3)), (206, lambda h: K.utf16("x")), (11, lambda h: h.bytes("g", 1)),
                  (17, lambda h: h.bytes("g", 1)), (30, lambda h: K.u8(1)), (250, lambda h: b"")):
        out.append(Case("between/%d" % id, gaps, (id, f)))
    for part in ("channel", "pattern", "arrangement", "track", "slot", "insert"):
        out.append(Case("full/" + part, full, (part, 1500 if deep else 260), weight=20))
    out.append(Case("missing sections", missing, (), weight=5))
    out.append(Case("plugins", plugins_everywhere))
    orders = ((0, 1, 2), (7, 3, 5)) + (((2, 0, 1), (1, 0, 2)) if deep else ())
    for order in orders:
        for part, ids in (("channel", CHANNEL), ("pattern", PATTERN), ("arrangement", (241, 233))):
            for id in ids:
                out.append(Case("one/%s/%d/%d%d%d" % (part, id, *order), one, (part, id, order)))
    for part, ids in (("insert", INSERT), ("slot", SLOT), ("track", TRACK)):
        for id in ids:
            out.append(Case("one/%s/%d" % (part, id), one, (part, id, (0, 1, 2))))
    for w in ("pattern", "arrangement"):
        for kinds in ((148, 33, 34, 205), (148, 205), (148,), (148, 33, 34), (148, 33, 205), (148, 34, 205)):
            out.append(Case("markers/%s/%s" % (w, "-".join(map(str, kinds))), markers, (w, kinds), weight=2))
        for lacks in ((205,), (33, 34), (34,), (33, 34, 205)):
            out.append(Case("markers/%s/last without %s" % (w, "-".join(map(str, lacks))), markers, (w, (148, 33, 34, 205), lacks), weight=2))
    return out
