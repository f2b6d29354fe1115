"""C09: histories of insertions and removals, on the project and on its parts."""
from engine.api import Case

from . import common as K

META = {
    "entry": ["Project.events / Model.events: append, insert, +=, pop, remove, count, first, get, in, len, iteration",
              "pyflp.save"],
    "bounds": "1 operation at every position (including negative and past the end) on the project and on 9 kinds of part; "
              "2 operations (3 thorough) mixed between the project, a channel, a pattern, a slot and a track; symbolic "
              "payloads of the events involved; 3 new events (a byte, a text and an unknown one) and duplicates of existing "
              "ones; 2 to 4 insertions or removals in one part followed by one in another (all pairs of 4 parts); the same "
              "operations in projects of 2600 events, and 6 insertions (7 thorough) in a project emptied before; 1 or 2 operations at the end of 10 chains of parts, each obtained from "
              "the one before, or on the way, with all lists on the way held; 23 properties "
              "read again through a held object after their event was inserted and removed, twice",
    "outside": "a part that is still held after the project removed one of its events; inserting into a part without events; "
               "positions below minus the length",
    "assumptions": ["a part obtained again after an operation on the project stands for that part"],
}


def skeleton(h):
    """A project with two or three of everything; the payloads of the parts looked at are symbolic."""
    s = K.E(12, h.bytes("mv", 1))
    return [
        *K.HEAD, s, K.GROUP,
        K.E(65, K.u16(1)), K.E(224, b""), K.E(65, K.u16(2)), K.E(224, b""),
        *K.channel(2, 0, [K.E(0, K.u8(1)), K.E(22, K.u8(3))]),
        *K.channel(4, 0, [K.E(0, K.u8(1)), K.E(22, h.bytes("ci", 1)), K.E(128, h.bytes("cc", 4)), K.E(0, K.u8(0)),
                             K.E(135, h.bytes("rn", 4)), K.E(142, K.u32(1)), K.E(139, h.bytes("rv", 4)), K.E(83, K.u16(9))]),
        *K.channel(7, 3, [K.E(0, K.u8(1))]),
        K.E(65, K.u16(1)), K.E(193, K.utf16("one")), K.E(65, K.u16(2)), K.E(193, K.utf16("two")), K.E(164, h.bytes("pl", 4)),
        K.E(99, K.u16(0)), K.E(241, K.utf16("A")), K.E(238, K.u32(1)), K.E(239, K.utf16("t1")), K.E(238, h.bytes("tr", 4)), K.E(239, K.utf16("t2")),
        K.E(148, K.u32(5)), K.E(33, K.u8(4)), K.E(34, h.bytes("tm", 1)), K.E(205, K.utf16("m")),
        K.E(100, K.u16(0)),
        *K.insert([K.E(204, K.utf16("ins"))], slots=[[K.E(203, K.utf16("s1"))], [K.E(203, K.utf16("s2")), K.E(128, h.bytes("sc", 4)), K.E(212, bytes(20)), K.E(213, h.bytes("pd", 3))]]),
        *K.insert([K.E(149, h.bytes("ic", 4))], slots=[[K.E(155, K.u32(9))]]),
    ]


PARTS = {
    "project": lambda p: p,
    "rack": lambda p: p.channels,
    "channel": lambda p: p.channels[4],
    "keyboard": lambda p: p.channels[4].keyboard,
    "last channel": lambda p: p.channels[7],
    "pattern": lambda p: list(p.patterns)[1],
    "arrangement": lambda p: list(p.arrangements)[0],
    "track": lambda p: list(list(p.arrangements)[0].tracks)[1],
    "marker": lambda p: list(list(p.arrangements)[0].timemarkers)[0],
    "mixer": lambda p: p.mixer,
    "insert": lambda p: list(p.mixer)[0],
    "slot": lambda p: list(list(p.mixer)[0])[1],
}


def donors(h):
    """Events that are in no list yet, and their bytes."""
    b = [K.E(20, K.u8(1)), K.E(201, K.utf16(h.text("dt", 2))), K.E(255, h.bytes("du", 3))]
    p = K.parse(h, [*K.HEAD, *b], name="donor.flp")
    return list(zip(list(p.events)[2:], b))


class State:
    """The oracle: an ordinary list of (event, its bytes)."""

    def __init__(self, h, before=0, after=0):
        self.h = h
        evs = skeleton(h)
        evs = [*evs[:2], *[K.E(30, K.u8(i & 1)) for i in range(before)], *evs[2:], *[K.E(251, K.u16(i)) for i in range(after)]]
        self.p = K.parse(h, evs)
        got = list(self.p.events)
        h.check(len(got) == len(evs), "events read")
        self.root = list(zip(got, evs))
        self.new = donors(h)
        self.views = {}

    def view(self, name):
        """(event list of the part, the oracle's indices of its events)."""
        if name not in self.views:
            t = PARTS[name](self.p).events
            mine = list(t)
            part = [r for r in self.root if any(r[0] is m for m in mine)]
            self.h.check(len(part) == len(mine) and all(a[0] is b for a, b in zip(part, mine)), "part is a subsequence")
            self.views[name] = (t, part)
        return self.views[name]

    def agree(self, name, tree, want, full=True):
        h = self.h
        got = list(tree)
        h.check(len(tree) == len(want), name + ": length")
        h.check(len(got) == len(want) and all(a is b[0] for a, b in zip(got, want)), name + ": order")
        for e, _ in want[:3] + want[-1:]:
            same = [w for w in want if w[0].id == e.id]
            h.check(tree.count(e.id) == len(same), name + ": count")
            h.check(e.id in tree, name + ": membership")
            h.check(tree.first(e.id) is same[0][0], name + ": first")
            g = list(tree.get(e.id))
            h.check(len(g) == len(same) and all(a is b[0] for a, b in zip(g, same)), name + ": get")
        h.check(set(tree.ids) == {w[0].id for w in want}, name + ": ids")
        for absent in (63, 254):
            h.check(tree.count(absent) == 0 and absent not in tree, name + ": absent id")
            h.check(h.raises(lambda: tree.first(absent), KeyError) is not None, name + ": first of an absent id")

    def verify(self, names):
        h = self.h
        self.agree("project", self.p.events, self.root)
        for n in names:
            if n in self.views:
                t, part = self.views[n]
                self.agree(n, t, part)
        h.check(K.save(h, self.p) == K.flp([b for _, b in self.root]), "saved file")

    def at(self, item):
        return [i for i, r in enumerate(self.root) if r is item][0]

    def insert(self, name, pos, which, how="insert"):
        ev, b = self.new[which]
        t, part = self.view(name)
        if how == "insert":
            t.insert(pos, ev)
        elif how == "append":
            t.append(ev)
        else:
            u = t
            u += ev
            h = self.h
            h.check(u is not None, "the list after +=")
            h.check(len(u) == len(t) and all(a is b for a, b in zip(u, t)), "the list after +=")
        item = (ev, b)
        n = len(part)
        if how != "insert":
            pos = n
        if pos < 0:
            pos += n
        i = self.at(part[pos]) if pos < n else self.at(part[-1]) + 1
        self.root.insert(i, item)
        self.note(item, name, pos)

    def note(self, item, name, pos):
        """Which held lists got the new item: the one used and those above it."""
        for k, (t, part) in list(self.views.items()):
            if k == name:
                part.insert(pos, item)
            elif k == "project":
                part[:] = self.root
            else:
                del self.views[k]
        if name == "project":
            self.views = {}

    def pop(self, name, id, k, how):
        h = self.h
        t, part = self.view(name)
        same = [r for r in part if r[0].id == id]
        if not -len(same) <= k < len(same):
            e = h.raises(lambda: t.pop(id, k), KeyError if not same else IndexError)
            h.check(e is not None, "pop of what is not there")
            return
        if how == "pop":
            got = t.pop(id, k)
            h.check(got is same[k][0], "popped event")
        elif how == "first":
            h.check(t.pop(id) is same[0][0], "popped event")
            k = 0
        else:
            t.remove(id, k)
        del self.root[self.at(same[k])]
        for n, (t2, p2) in list(self.views.items()):
            if n == name or n == "project":
                p2[:] = [r for r in p2 if r is not same[k]]
            else:
                del self.views[n]
        if name == "project":
            self.views = {}


def one_insert(h, name, how):
    s = State(h)
    t, part = s.view(name)
    n = len(part)
    which = h.choose("which", 3)
    pos = h.int("pos", -n, n + 1) if how == "insert" else 0
    if how == "insert":
        pos = h.fork(pos)
    s.insert(name, pos, which, how)
    s.verify([name])


def one_pop(h, name, how):
    s = State(h)
    t, part = s.view(name)
    ids = sorted({r[0].id for r in part}) + [63]
    id = ids[h.choose("id", len(ids))]
    k = h.fork(h.int("k", -2, 2)) if how != "first" else 0
    s.pop(name, id, k, how)
    s.verify([name])


OPS = ("insert", "append", "iadd", "pop")


def history(h, names, n):
    s = State(h)
    for i in range(n):
        name = names[h.choose("part%d" % i, len(names))]
        t, part = s.view(name)
        h.assume(len(part) > 0)
        op = OPS[h.choose("op%d" % i, 4)]
        if op == "pop":
            ids = sorted({r[0].id for r in part})
            lim = ids[:1] + ids[-2:]
            s.pop(name, lim[h.choose("id%d" % i, len(lim))], h.fork(h.int("k%d" % i, -1, 1)), "pop")
        else:
            pos = (0, 1, len(part) - 1, len(part))[h.choose("pos%d" % i, 4)] if op == "insert" else 0
            s.insert(name, pos, i, op)
    s.verify(names)


def relay(h, a, m, pops, b):
    """Several operations in one part, then one in another part."""
    s = State(h)
    for i in range(m):
        t, part = s.view(a)
        if i < pops:
            s.pop(a, part[-1][0].id, -1, "pop")
        else:
            s.insert(a, h.choose("at%d" % i, 2) * len(part), i % 3, "insert")
            s.new.append(s.new[i % 3])
            ev, raw = donors(h)[i % 3]
            s.new[i % 3] = (ev, raw)
    s.views = {}
    t, part = s.view(b)
    n = len(part)
    if h.choose("op", 2):
        pos = sorted({0, 1, n // 2, n - 1, n})
        s.insert(b, pos[h.choose("pos", len(pos))], 2, "insert")
    else:
        x = sorted({0, n // 2, n - 1})
        id = part[x[h.choose("which", len(x))]][0].id
        s.pop(b, id, h.fork(h.int("k", -1, 0)), "pop")
    s.verify([a, b])


def long(h, name, op):
    """A project of some 2600 events: the lists are split into chunks internally."""
    s = State(h, 1200, 1350)
    t, part = s.view(name)
    n = len(part)
    pos = sorted({0, n - 1, n} | {x for x in (999, 1000, 1001, 1240, 2000, 2001) if x < n})
    pos = pos[h.choose("pos", len(pos))]
    if op == "insert":
        s.insert(name, pos, 2, "insert")
        s.insert(name, min(pos, n - 1), 0, "insert")
    else:
        item = part[min(pos, n - 1)]
        same = [r for r in part if r[0].id == item[0].id]
        s.pop(name, item[0].id, [i for i, r in enumerate(same) if r is item][0], "pop")
        s.insert(name, min(pos, n - 2), 1, "insert")
    s.verify([name])


def held(h, name, far):
    """A part is held while the project changes elsewhere; then the part is used."""
    s = State(h)
    t, part = s.view(name)
    keep = s.views[name]
    pos = (0, 2, len(s.root) - 1, len(s.root))[h.choose("rpos", 4)]
    if h.choose("what", 2):
        s.insert("project", pos, 2, "insert")
    else:
        s.pop("project", 12, 0, "pop")
    s.views[name] = keep
    s.verify([name])
    keep = s.views[name]
    if far:
        s.insert(name, h.fork(h.int("pos", 0, len(part))), 0, "insert")
    else:
        s.pop(name, part[-1][0].id, h.fork(h.int("k", -1, 0)), "pop")
    s.verify([name])


def visible(h, name, id, extra):
    """What is inserted into a part is seen by the same part obtained afresh, and after reopening the file."""
    s = State(h)
    t, part = s.view(name)
    b = K.E(id, extra(h))
    ev = list(K.parse(h, [*K.HEAD, b], name="donor2.flp").events)[2]
    s.new.append((ev, b))
    pos = h.fork(h.int("pos", 1, len(part) - 1))
    h.assume(part[pos][0].id not in (64, 65))  # before a "new" event is the end of another part
    s.insert(name, pos, 3, "insert")
    s.views = {}
    want = [r[1] for r in part]
    fresh = PARTS[name](s.p).events
    h.check(K.join([bytes(e) for e in fresh]) == K.join(want), "part obtained afresh")
    out = K.save(h, s.p)
    q = K.pyflp.parse(h.path("out.flp"))
    h.check(K.join([bytes(e) for e in PARTS[name](q).events]) == K.join(want), "part after reopening")
    h.check(out == K.flp([b for _, b in s.root]), "saved file")


def steps(p, chain):
    """The objects on the way to a part, each obtained from the one before."""
    out = [p]
    for s in chain.split("."):
        o = out[-1]
        if s.isdecimal():
            out.append(list(o)[int(s)])
        elif s.startswith("#"):
            out.append(list(getattr(o, s[1:].split("@")[0]))[int(s.split("@")[1])])
        else:
            out.append(getattr(o, s))
    return out


def chained(h, chain, n):
    """Operations at the end of a chain of parts: every list on the way follows."""
    s = State(h)
    objs = steps(s.p, chain)
    lists = []
    for o in objs:
        mine = list(o.events)
        lists.append([r for r in s.root if any(r[0] is m for m in mine)])
        h.check(len(lists[-1]) == len(mine), "part is a subsequence")
    for i in range(n):
        k = len(objs) - 1 if i == 0 else h.choose("level%d" % i, len(objs))
        t, part = objs[k].events, lists[k]
        h.assume(len(part) > 0)
        m = len(part)
        if h.choose("op%d" % i, 2):
            pos = sorted({0, m // 2, m})
            pos = pos[h.choose("pos%d" % i, len(pos))]
            item = s.new[i]
            t.insert(pos, item[0])
            s.root.insert(s.at(part[pos]) if pos < m else s.at(part[-1]) + 1, item)
            for l in lists[:k + 1]:
                l.append(item)
        else:
            x = sorted({0, m - 1})
            item = part[x[h.choose("x%d" % i, len(x))]]
            # an event which only the parts up to this one have
            h.assume(all(r is not item for l in lists[k + 1:] for r in l))
            same = [r for r in part if r[0].id == item[0].id]
            got = t.pop(item[0].id, [j for j, r in enumerate(same) if r is item][0])
            h.check(got is item[0], "popped event")
            s.root = [r for r in s.root if r is not item]
        lists = [[r for r in s.root if any(r is q for q in l)] for l in lists]
    for o, l in zip(objs[1:], lists[1:]):
        if l:
            s.agree(chain, o.events, l)
        else:
            h.check(len(o.events) == 0, "an empty part")
    s.verify([])


# part, attribute below it, id of the event behind it, payload
REREAD = [
    ("channel", "fx.cutoff", 71, 2), ("channel", "keyboard.root_note", 135, 4), ("channel", "time.swing", 97, 2),
    ("channel", "playback.ping_pong_loop", 20, 1), ("channel", "fx.reverb.mix", 139, 4), ("channel", "name", 203, 0),
    ("channel", "icon", 155, 4), ("channel", "content.keep_on_disk", 143, 4), ("pattern", "name", 193, 0), ("pattern", "length", 164, 4),
    ("track", "name", 239, 0), ("insert", "icon", 95, 2), ("insert", "name", 204, 0), ("slot", "color", 128, 4), ("slot", "icon", 155, 4),
    ("arrangement", "name", 241, 0), ("project", "arrangements.time_signature.num", 17, 1), ("project", "mixer.apdc", 29, 1),
    ("project", "channels.swing", 11, 1), ("project", "patterns.play_cut_notes", 30, 1), ("project", "title", 194, 0),
    ("rack", "height", 133, 4), ("mixer", "apdc", 29, 1),
]


def deep_get(o, attr):
    for a in attr.split("."):
        o = getattr(o, a)
    return o


def reread(h, name, attr, id, n):
    """What an object held by the caller reads follows the insertions and removals made through it."""
    evs = [e for e in skeleton(h) if e[0] != id]
    p = K.parse(h, evs)
    o = PARTS[name](p)
    none = deep_get(o, attr) if attr != "fx.reverb.mix" else o.fx.reverb.mix
    type(o).__repr__(o)
    raw = K.utf16(h.text("x", 2)) if n == 0 else K.u8(1) if n == 1 else h.bytes("x", n - 2) + b"\1\0" if n == 4 else h.bytes("x", n)
    donor = K.parse(h, [*K.HEAD, K.E(id, raw)], name="donor3.flp")
    e = list(donor.events)[2]
    pos = (1, len(o.events))[h.choose("pos", 2)]
    for _ in range(2):
        o.events.insert(pos, e)
        got = deep_get(o, attr)
        h.check(any(x is e for x in o.events) and got is not None, attr + " after inserting its event")
        if attr not in ("fx.reverb.mix", "content.keep_on_disk"):
            h.check(h.eq(got, e.value), attr + " reads the inserted event")
        o.events.remove(e.id)
        back = deep_get(o, attr)
        h.check(back is none if none is None else h.eq(back, none), attr + " after removing it again")
    h.check(K.save(h, p) == K.flp(evs), "saved file")


def emptied(h, n, part):
    """A project all of whose events were removed gets new ones, through a part and directly."""
    p = K.parse(h, list(K.HEAD))
    for e in list(p.events):
        p.events.pop(e.id)
    h.check(len(p.events) == 0 and list(p.events) == [], "emptied project")
    h.check(K.save(h, p) == K.flp([]), "saved file without events")
    t = (p.channels if part == "rack" else p.patterns).events
    new = [x for i in range(3) for x in donors(h)]
    root, mine = [], []

    def put(tree, own, pos, item):
        k = pos if own is root else [i for i, r in enumerate(root) if r is own[pos]][0] if pos < len(own) else \
            [i for i, r in enumerate(root) if r is own[-1]][0] + 1 if own else 0
        tree.insert(pos, item[0])
        if own is not root:
            own.insert(pos, item)
        root.insert(k, item)
    put(t, mine, 0, new[0])
    put(p.events, root, 0, new[1])
    for i in range(2, n):
        tree, own = ((t, mine), (p.events, root))[h.choose("who%d" % i, 2)]
        at = sorted({0, len(own) // 2, len(own)})
        put(tree, own, at[h.choose("at%d" % i, len(at))], new[i])
    h.check(len(p.events) == len(root) and all(a is b[0] for a, b in zip(p.events, root)), "project: order")
    h.check(len(t) == len(mine) and all(a is b[0] for a, b in zip(t, mine)), "part: order")
    h.check(K.save(h, p) == K.flp([b for _, b in root]), "saved file")


CHAINS = ("mixer.0.1", "mixer.0.1.plugin", "channels.1.keyboard", "channels.1.fx.reverb", "arrangements.0.#tracks@1",
          "arrangements.0.#timemarkers@0", "patterns.1", "channels.1.fx", "mixer.1.0", "channels.#groups@0")


def cases(tier):
    deep = tier != "quick"
    out = []
    for n in PARTS:
        out.append(Case("insert/" + n, one_insert, (n, "insert"), weight=20))
        out.append(Case("append/" + n, one_insert, (n, "append")))
        out.append(Case("iadd/" + n, one_insert, (n, "iadd")))
        out.append(Case("pop/" + n, one_pop, (n, "pop"), weight=15))
        out.append(Case("pop first/" + n, one_pop, (n, "first"), weight=5))
        out.append(Case("remove/" + n, one_pop, (n, "remove"), weight=15))
        if n not in ("project",):
            out.append(Case("held/%s/insert" % n, held, (n, True), weight=10))
            if n not in ("rack", "mixer"):
                out.append(Case("held/%s/pop" % n, held, (n, False), weight=10))
    for n, id, x in (("channel", 20, lambda h: K.u8(1)), ("channel", 203, lambda h: K.utf16(h.text("n", 2))),
                     ("pattern", 150, lambda h: h.bytes("n", 4)), ("insert", 95, lambda h: h.bytes("n", 2))):
        out.append(Case("visible/%s/%d" % (n, id), visible, (n, id, x), weight=5))
    for n in ("rack", "patterns"):
        out.append(Case("emptied/%s" % n, emptied, (7 if deep else 6, n), paths=20000, weight=50))
    k = 3 if deep else 2
    for names in (("project", "channel"), ("channel",), ("pattern", "project"), ("slot", "project"), ("track",), ("project",)):
        for m in range(2, k + 1):
            out.append(Case("history/%s/%d" % ("+".join(names), m), history, (names, m), paths=60000, weight=100 ** (m - 1)))
    deepest = ("track", "slot", "keyboard", "marker") if deep else ("track", "slot", "keyboard")
    for a in deepest:
        for b in ("project", "channel", "insert", *deepest):
            for m, pops in ((2, 0), (3, 0), (2, 1), *(((4, 0), (4, 1)) if deep else ())):
                if pops and a == "keyboard" and b == a:
                    continue
                out.append(Case("relay/%s/%d-%d/%s" % (a, m, pops, b), relay, (a, m, pops, b), paths=3000, weight=8))
    for x in REREAD:
        out.append(Case("reread/%s.%s" % x[:2], reread, x, weight=2))
    for c in CHAINS:
        for n in (1, 2):
            out.append(Case("chain/%s/%d" % (c, n), chained, (c, n), weight=20 ** n, paths=8000))
    for n in ("project", "channel", "slot"):
        for op in ("insert", "pop"):
            out.append(Case("long/%s/%s" % (n, op), long, (n, op), weight=60))
    return out
