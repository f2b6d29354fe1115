"""C10: len, iteration, indexing, slicing and lookup of collections agree with what is in the file."""
from engine.api import Case

from pyflp.channel import ChannelNotFound
from pyflp.exceptions import ModelNotFound, NoModelsFound

from . import big as B
from . import common as K

META = {
    "entry": ["Project.channels/patterns/arrangements/mixer, Insert, Layer, Automation, Track: len, iter, []"],
    "bounds": "0..5 items; every present/absent combination of names; symbolic names of 0..2 characters (any BMP "
              "character in the first), a symbolic name looked up; symbolic ids (0..7, distinct) in any order; every integer "
              "index -2..n+1; every slice with bounds in -n-1..n+1 or omitted and steps -2..2 or omitted",
    "outside": "several items with the same id; negative integer indices other than the mixer's -1",
    "assumptions": [],
}

NONE = 99


class Kind:
    """How to build n items and what identifies each of them."""

    def __init__(self, build, get, mark, index=None, error=ModelNotFound, empty=None, names=True):
        self.build, self.get, self.mark = build, get, mark
        self.index, self.error, self.empty, self.names = index or (lambda i, items: i), error, empty, names


def name_or_none(h, n, k):
    """Names of n items: symbolic text of 1 or 2 characters, or no name at all (bit i of k clear)."""
    out = []
    for i in range(n):
        if not k >> i & 1:
            out.append(None)
        else:
            out.append(h.text("n%d" % i, 1 if i % 2 else 2, 1, 0xD7FF if i == 0 else 127))
    return out


def ev_name(id, name):
    return [] if name is None else [K.E(id, K.utf16(name))]


def b_channels(h, names):
    out = [K.GROUP]
    for i, nm in enumerate(names):
        out += K.channel((5, 2, 7, 0, 9)[i], (0, 4, 3, 5, 2)[i], [], name=nm, internal="")
    return [*K.HEAD, *out]


def b_channels_internal(h, names):
    """Named by the plugin they contain."""
    out = [K.GROUP]
    for i, nm in enumerate(names):
        if i % 2:
            out += K.channel((5, 2, 7, 0, 9)[i], 4, [], internal=nm)
        else:
            out += K.channel((5, 2, 7, 0, 9)[i], 4, [], internal="zzz" if nm is not None else None, name=nm)
    return [*K.HEAD, *out]


def b_patterns(h, names):
    out = []
    for i, nm in enumerate(names):
        out += [K.E(65, K.u16((3, 1, 8, 2, 6)[i])), K.E(224, b"")]
    for i, nm in enumerate(names):
        if nm is not None:
            out += [K.E(65, K.u16((3, 1, 8, 2, 6)[i])), *ev_name(193, nm)]
    return [*K.HEAD, *out]


def b_arrangements(h, names):
    out = []
    for i, nm in enumerate(names):
        out += [K.E(99, K.u16(i)), *ev_name(241, nm), K.E(233, b""), K.E(238, K.u32(1)), K.E(238, K.u32(2))]
    if names:
        out.append(K.E(100, K.u16(0)))
    return [*K.HEAD, *out]


def b_inserts(h, names):
    out = []
    for i, nm in enumerate(names):
        out += K.insert(ev_name(204, nm), slots=[[]])
    return [*K.HEAD, *out]


def b_slots(h, names):
    slots = [[K.E(201, K.utf16("ab"[:1 + i % 2])), *ev_name(203, nm)] for i, nm in enumerate(names)]
    return [*K.HEAD, *K.insert(slots=[[]]), *K.insert(slots=slots), *K.insert(slots=[[]])]


def b_layer(h, names):
    """Children of channel 1, which come before and after it."""
    iids = (5, 2, 7, 0, 9)[:len(names)]
    order = (2, 7, 1, 0, 9, 5, 12)
    out = [K.GROUP]
    for c in order:
        kids = [K.E(94, K.u16(i)) for i in iids] if c == 1 else []
        out += K.channel(c, 3 if c == 1 else 0, kids)
    return [*K.HEAD, *out]


def b_points(h, names):
    n = len(names)
    def real(tag, k):
        b = h.bytes(tag, k)
        h.assume(b[k - 1] & 0x7F != 0x7F)  # no infinities, nothing that is no number
        return b
    import struct
    offs = [struct.pack("<d", x) for x in (0.0, 0.0, 1.5, 0.0, 4.0)]
    pts = [offs[i] + real("v%d" % i, 8) + real("t%d" % i, 4) + h.bytes("u%d" % i, 4) for i in range(n)]
    pts = K.join(pts) if n else b""
    head = K.u32(1) + K.u32(64) + b"\x01" + b"\0" * 8 + K.u32(n)
    tail = b"\0" * 3
    return [*K.HEAD, K.GROUP, *K.channel(4, 5, [K.E(234, head + pts + tail)])]


def by_events(m):
    return [e for e in m.events]


def by_point(m):
    return (m.position, m.value, m.tension)


KINDS = {
    "channels": Kind(b_channels, lambda p: p.channels, by_events, error=ChannelNotFound, empty=NoModelsFound),
    "channels by plugin": Kind(b_channels_internal, lambda p: p.channels, by_events, error=ChannelNotFound, empty=NoModelsFound),
    "patterns": Kind(b_patterns, lambda p: p.patterns, by_events, empty=NoModelsFound),
    "arrangements": Kind(b_arrangements, lambda p: p.arrangements, by_events, empty=NoModelsFound),
    "inserts": Kind(b_inserts, lambda p: p.mixer, by_events, empty=NoModelsFound),
    "slots": Kind(b_slots, lambda p: list(p.mixer)[1], by_events),
    "layer": Kind(b_layer, lambda p: p.channels[1], by_events, error=ChannelNotFound, names=False),
    "points": Kind(b_points, lambda p: p.channels[4], by_point, names=False),
}


def same(h, kind, a, b):
    if kind.mark is by_point:
        return h.all([a.position == b.position, h.float_bytes(a.value, 8) == h.float_bytes(b.value, 8),
                      h.float_bytes(a.tension, 4) == h.float_bytes(b.tension, 4)])
    x, y = kind.mark(a), kind.mark(b)
    if isinstance(x, list):
        return type(a) is type(b) and len(x) == len(y) and all(i is j for i, j in zip(x, y))
    return h.eq(x, y)


def ids(kind, c, items):
    """What an integer index means: a position, except where the documentation says otherwise."""
    if kind.startswith("channels") or kind == "layer":
        return [m.iid for m in items]
    if kind == "inserts":
        return [i - 1 for i in range(len(items))]
    return list(range(len(items)))


def setup(h, name, n, present):
    k = KINDS[name]
    names = name_or_none(h, n, present)
    p = K.parse(h, k.build(h, names))
    return k, names, p


def lengths(h, name, n, present):
    k, names, p = setup(h, name, n, present)
    c = k.get(p)
    if n == 0 and k.empty:
        h.check(h.raises(lambda: len(c), k.empty) is not None, "length of nothing")
        if name not in ("arrangements", "slots"):
            h.check([m for m in c] == [], "iterating over nothing")
        return
    items = list(c)
    if name == "points":
        h.check(len(items) == n, "items")
    else:
        h.check(len(c) == n, "length")
        h.check(len(items) == n, "items")
    again = list(k.get(p))
    h.check(h.all([same(h, k, a, b) for a, b in zip(items, again)]), "iterated again")
    for i in range(n):
        for j in range(i):
            if name != "points":
                h.check(h.lnot(same(h, k, items[i], items[j])), "items are distinct")
    # the order of the file
    if k.names and not name.startswith("channels by"):
        for m, nm in zip(items, names):
            got = m.display_name if name.startswith("channels") else m.name
            if nm is None:
                h.check(not got, "no name")
            else:
                h.check(got == nm, "name in order")
    want = {"channels": (5, 2, 7, 0, 9), "channels by plugin": (5, 2, 7, 0, 9), "layer": (5, 2, 7, 0, 9),
            "patterns": (3, 1, 8, 2, 6), "arrangements": (0, 1, 2, 3, 4), "inserts": (-1, 0, 1, 2, 3),
            "slots": (0, 1, 2, 3, 4)}.get(name)
    if want:
        h.check(all(m.iid == w for m, w in zip(items, want)), "ids in order")


def indexing(h, name, n, present):
    k, names, p = setup(h, name, n, present)
    c = k.get(p)
    items = [m for m in c] if n or name not in ("arrangements",) else []
    nums = ids(name, c, items)
    i = h.int("i", -2, max(nums + [n]) + 1)
    want = None
    for m, v in zip(items, nums):
        if h.fork(i == v):
            want = m
            break
    if n == 0 and name == "arrangements":
        h.check(h.raises(lambda: c[i], LookupError, NoModelsFound) is not None, "index into nothing")
    elif want is None:
        e = h.raises(lambda: c[i], k.error)
        h.check(e is not None and isinstance(e, ModelNotFound), "index which does not exist")
    else:
        h.check(same(h, k, c[i], want), "indexed item")


def slicing(h, name, n, present):
    k, names, p = setup(h, name, n, present)
    c = k.get(p)
    items = list(c)
    lo, hi = -n - 1, n + 1
    start = h.fork(h.int("start", lo, hi + 1))
    stop = h.fork(h.int("stop", lo, hi + 1))
    step = (None, 1, 2, -1, -2)[h.choose("step", 5)]
    s = slice(None if start > hi else start, None if stop > hi else stop, step)
    got = c[s]
    want = items[s]
    h.check(len(got) == len(want), "length of the slice")
    h.check(h.all([same(h, k, a, b) for a, b in zip(got, want)]), "items of the slice")


def naming(h, name, n, present, m):
    k, names, p = setup(h, name, n, present)
    c = k.get(p)
    items = list(c)
    q = h.text("q", m, 1, 0xD7FF)
    want = None
    for it, nm in zip(items, names):
        if nm is not None and h.fork(nm == q):
            want = it
            break
    if want is None:
        e = h.raises(lambda: c[q], k.error)
        h.check(e is not None and isinstance(e, ModelNotFound), "name which does not exist")
    else:
        h.check(same(h, k, c[q], want), "item of that name")


def iids(h, n):
    """Channels found by any id, in any order."""
    v = [h.int("id%d" % i, 0, 7) for i in range(n)]
    for i in range(n):
        for j in range(i):
            h.assume(v[i] != v[j])
    p = K.parse(h, [*K.HEAD, K.GROUP, *[e for i in range(n) for e in K.channel(v[i], 0, [K.E(22, K.u8(i))])]])
    c = p.channels
    q = h.int("q", 0, 8)
    want = None
    for i in range(n):
        if h.fork(v[i] == q):
            want = i
            break
    if want is None:
        e = h.raises(lambda: c[q], ChannelNotFound)
        h.check(e is not None and isinstance(e, KeyError), "no such channel")
    else:
        h.check(c[q].insert == want, "channel by id")
    h.check(h.all([m.iid == x for m, x in zip(c, v)]), "ids")


def repeated(h, n):
    """Any n ids, with repetitions: children in the order stored."""
    v = [h.int("id%d" % i, 0, 2) for i in range(n)]
    evs = [K.GROUP]
    for c in (0, 1, 9, 2):
        evs += K.channel(c, 3 if c == 9 else 0, [K.E(94, K.u16(x)) for x in v] if c == 9 else [K.E(22, K.u8(c + 40))])
    p = K.parse(h, [*K.HEAD, *evs])
    l = p.channels[9]
    got = list(l)
    h.check(len(l) == n and len(got) == n, "number of children")
    h.check(h.all([g.insert == x + 40 for g, x in zip(got, v)]), "children in order")


def kids(h, n):
    """Children of a layer by any id."""
    v = [h.int("id%d" % i, 0, 4) for i in range(n)]
    for i in range(n):
        for j in range(i):
            h.assume(v[i] != v[j])
    lay = h.choose("where", 3)
    order = [0, 1, 2, 3, 4]
    order.insert((0, 2, 5)[lay], 9)
    evs = [K.GROUP]
    for c in order:
        evs += K.channel(c, 3 if c == 9 else 0, [K.E(94, K.u16(x)) for x in v] if c == 9 else [K.E(22, K.u8(c + 40))])
    p = K.parse(h, [*K.HEAD, *evs])
    l = p.channels[9]
    h.check(len(l) == n, "number of children")
    got = list(l)
    h.check(len(got) == n, "children")
    h.check(h.all([h.all([g.insert == x + 40, g.iid == x]) for g, x in zip(got, v)]), "children in order")
    q = h.int("q", 0, 5)
    want = None
    for x in v:
        if h.fork(x == q):
            want = x
    if want is None:
        h.check(h.raises(lambda: l[q], ChannelNotFound) is not None, "no such child")
    else:
        h.check(l[q].insert == want + 40, "child by id")


def far_kids(h, n):
    """Children with ids of two bytes."""
    ids = (3, 259, 515, 65535, 65279, 40000)[:n]
    evs = [K.GROUP, *K.channel(9, 3, [K.E(94, K.u16(x)) for x in ids])]
    for k, x in enumerate(ids):
        evs += K.channel(x, 0, [K.E(22, K.u8(k + 40))])
    p = K.parse(h, [*K.HEAD, *evs])
    l = list(p.channels.layers)[0]
    h.check([c.iid for c in l] == list(ids), "children in order")
    q = h.int("q", 0, 65535)
    for k, x in enumerate(ids):
        if h.fork(q == x):
            h.check(l[x].insert == k + 40, "child by id")
            h.check(p.channels[x].insert == k + 40, "channel by id")
            return
    h.check(h.raises(lambda: l[q], ChannelNotFound) is not None, "no such child")
    if h.fork(q != 9):
        h.check(h.raises(lambda: p.channels[q], ChannelNotFound) is not None, "no such channel")


TYPES = {0: "Sampler", 2: "Instrument", 3: "Layer", 4: "Instrument", 5: "Automation"}


def filters(h, n):
    """The kinds of channels, and the lists of each kind."""
    t = [h.int("t%d" % i, 0, 5) for i in range(n)]
    for x in t:
        h.assume(x != 1)
    t = [h.fork(x) for x in t]
    p = K.parse(h, [*K.HEAD, K.GROUP, *[e for i in range(n) for e in K.channel(i + 3, t[i], [])]])
    c = p.channels
    h.check([type(m).__name__ for m in c] == [TYPES[x] for x in t], "kind of channel")
    for attr, cls in (("samplers", "Sampler"), ("instruments", "Instrument"), ("layers", "Layer"), ("automations", "Automation")):
        got = [m.iid for m in getattr(c, attr)]
        h.check(got == [i + 3 for i in range(n) if TYPES[t[i]] == cls], attr)
    h.check(len(list(c.groups)) == 1, "groups")


def kind_by_sample(h, has_sample, has_internal):
    """Channels with a sample whose plugin is empty are samplers."""
    t = h.fork(h.int("t", 0, 5))
    h.assume(t != 1)
    evs = [K.E(196, K.utf16("a.wav"))] if has_sample else []
    name = None if not has_internal else ("" if h.choose("empty", 2) else "BooBass")
    p = K.parse(h, [*K.HEAD, K.GROUP, *K.channel(3, t, evs, internal=name)])
    want = TYPES[t]
    if want == "Instrument" and has_sample and name == "":
        want = "Sampler"
    h.check(type(p.channels[3]).__name__ == want, "kind of channel")


def groups(h, n):
    names = [h.text("g%d" % i, 2) for i in range(n)]
    k = h.int("k", -1, n - 1)
    p = K.parse(h, [*K.HEAD, *[K.E(231, K.utf16(x)) for x in names], *K.channel(4, 0, [], group=k), *K.channel(5, 0, [])])
    got = list(p.channels.groups)
    h.check(len(got) == n, "groups")
    h.check(h.all([g.name == x for g, x in zip(got, names)]), "names of groups")
    want = names[h.fork(k)]
    h.check(p.channels[4].group.name == want, "group of a channel")
    h.check(p.channels[5].group.name == names[0], "group of the other channel")


def tracks(h, n):
    names = name_or_none(h, n, h.choose("present", 1 << n))
    evs = [K.E(99, K.u16(0)), K.E(233, b"")]
    for i, nm in enumerate(names):
        evs += [K.E(238, K.u32(i + 1)), *ev_name(239, nm)]
    p = K.parse(h, [*K.HEAD, *evs, K.E(100, K.u16(0))])
    t = list(list(p.arrangements)[0].tracks)
    h.check(len(t) == n, "tracks")
    h.check([x.iid for x in t] == [i + 1 for i in range(n)], "order of tracks")
    for x, nm in zip(t, names):
        h.check(h.eq(x.name, nm), "name of a track")
        h.check(len(x) == 0 and list(x) == [], "empty track")


def track_items(h, n):
    """Items of a track: the third track has n items."""
    def item(i, rv):
        return K.u32(i * 96) + K.u16(20480) + K.u16(20481) + h.bytes("l%d" % i, 4) + K.u16(rv) + K.u16(0) + b"\0" * 16
    evs = [item(i, 499 - 2) if i < n else item(i, 499) for i in range(n + 1)]
    p = K.parse(h, [*K.HEAD, K.E(65, K.u16(1)), K.E(224, b""), K.E(99, K.u16(0)), K.E(233, K.join(evs)),
                    *[K.E(238, K.u32(i)) for i in range(3)]])
    t = list(list(p.arrangements)[0].tracks)
    h.check([len(x) for x in t] == [1, 0, n], "items of tracks")
    x = t[2]
    lens = [K.le(e[8:12]) for e in evs[:n]]
    h.check(h.all([a.length == b for a, b in zip(x, lens)]), "items in order")
    start, stop = h.fork(h.int("start", -n - 1, n + 2)), h.fork(h.int("stop", -n - 1, n + 2))
    s = slice(None if start > n + 1 else start, None if stop > n + 1 else stop)
    got, want = x[s], lens[s]
    h.check(len(got) == len(want), "length of the slice")
    h.check(h.all([a.length == b for a, b in zip(got, want)]), "items of the slice")
    i = h.fork(h.int("i", -n, n))
    if i == n:
        h.check(h.raises(lambda: x[i], IndexError) is not None, "no such item")
    else:
        h.check(x[i].length == lens[i], "item")


def items_of(h, what, n):
    """Notes, controllers, time markers: as many as stored, in order."""
    if what == "notes":
        data = [h.bytes("d%d" % i, 4) + b"\0" * 20 for i in range(n)]
        p = K.parse(h, [*K.HEAD, K.E(65, K.u16(1)), K.E(224, K.join(data) if n else b"")])
        got = list(list(p.patterns)[0].notes)
    elif what == "controllers":
        data = [h.bytes("d%d" % i, 4) + b"\0" * 8 for i in range(n)]
        p = K.parse(h, [*K.HEAD, K.E(65, K.u16(1)), K.E(223, K.join(data) if n else b"")])
        got = list(list(p.patterns)[0].controllers)
    else:
        data = [K.u32(h.int("d%d" % i, 0, 2 ** 27 - 1)) for i in range(n)]
        mk = [e for d in data for e in (K.E(148, d), K.E(33, K.u8(4)), K.E(34, K.u8(4)), K.E(205, K.utf16("m")))]
        if what == "arrangement markers":
            p = K.parse(h, [*K.HEAD, K.E(99, K.u16(0)), *mk])
            got = list(list(p.arrangements)[0].timemarkers)
        else:
            p = K.parse(h, [*K.HEAD, K.E(65, K.u16(1)), *mk])
            got = list(list(p.patterns)[0].timemarkers)
    h.check(len(got) == n, "count")
    h.check(h.all([g.position == K.le(d[:4]) for g, d in zip(got, data)]), "order")


def cases(tier):
    deep = tier != "quick"
    out = []
    for name, k in KINDS.items():
        top = 5
        for n in range(0, top + 1):
            full = (1 << n) - 1
            for present in (range(1 << n) if k.names and (deep or n <= 4) else (full,)):
                out.append(Case("length/%s/%d/%d" % (name, n, present), lengths, (name, n, present)))
            out.append(Case("index/%s/%d" % (name, n), indexing, (name, n, full)))
            if n and (deep or n <= 4):
                out.append(Case("slice/%s/%d" % (name, n), slicing, (name, n, full), weight=n ** 3, paths=5000))
            if k.names and n:
                for m in (1, 2):
                    out.append(Case("name/%s/%d/%d" % (name, n, m), naming, (name, n, full, m)))
                if n > 1:
                    out.append(Case("name/%s/%d/partly" % (name, n), naming, (name, n, full & ~2, 2)))
    for n in (1, 2, 3):
        out.append(Case("ids/%d" % n, iids, (n,), weight=8 ** n, paths=8000))
    for n in (1, 2, 3):
        out.append(Case("children/%d" % n, kids, (n,), weight=5 ** n, paths=8000))
        out.append(Case("repeated children/%d" % (n + 1), repeated, (n + 1,), weight=3 ** n, paths=8000))
    for n in (1, 2, 3):
        out.append(Case("kinds/%d" % n, filters, (n,), weight=5 ** n))
    for a in (0, 1):
        for b in (0, 1):
            out.append(Case("sample/%d%d" % (a, b), kind_by_sample, (a, b)))
    for n in (1, 2, 3):
        out.append(Case("groups/%d" % n, groups, (n,)))
        out.append(Case("tracks/%d" % n, tracks, (n,)))
        out.append(Case("track items/%d" % n, track_items, (n,), weight=n ** 3, paths=5000))
    for w in ("notes", "controllers", "arrangement markers", "pattern markers"):
        for n in (0, 1, 2, 3, 4):
            out.append(Case("%s/%d" % (w, n), items_of, (w, n)))
    for kind, n in B.SIZES.items():
        out.append(Case("many/%s" % kind, B.many, (kind, n), weight=20))
    for what in ("notes", "controllers"):
        for n in (1100,):
            out.append(Case("many/%s/%d" % (what, n), B.long_list, (what, n), weight=20))
    out.append(Case("many/points", B.long_points, (150,), weight=10))
    out += [Case("far children/%d" % n, far_kids, (n,)) for n in (1, 3, 6)]
    return out
