"""C23: equality of projects and their parts."""
from engine.api import Case

from . import common as K
from . import model as M
from . import spec as S

META = {
    "entry": ["EventModel.__eq__", "EventTree.__eq__", "pyflp.parse", "Project and everything reachable from it"],
    "bounds": "two projects which differ in one event, with any two payloads, for every property stored in an event of its own and "
              "every structured event (all named fields); texts of 0..2 characters; event sequences of 1..3 events of 5 kinds each "
              "with any payloads; every pair of parts of a project with 3 of each kind; before and after assignments",
    "outside": "NaNs; fields of unknown meaning, which equality of events ignores; parts at different places of two projects",
    "assumptions": ["FL Studio writes booleans as 0 or 1"],
}


def pair(h, x, y, want, label):
    a, b = x == y, y == x
    h.check(a == b, label + ": symmetric")
    h.check((x != y) == h.lnot(a), label + ": !=")
    if want is not None:
        h.check(a == want, label + ": ==")
    return a


def payload(h, tag, f, n):
    if f.kind == "s":
        return K.utf16(h.text(tag, n, 1, 127))
    if f.kind == "c":
        return b"\1\2" + (h.bytes(tag, 1) if tag == "b" else K.u8((0, 127, 255)[h.choose("colour", 3)])) + b"\4"
    d = h.bytes(tag, 1 if f.id < 64 else 2 if f.id < 128 else 4)
    if f.kind == "b":
        h.assume(d[0] < 2)
    return d


def simple(h, f, n, m):
    """One event of a part differs."""
    a, b = payload(h, "a", f, n), payload(h, "b", f, m)
    p, q = K.parse(h, f.ctx(K.E(f.id, a))), K.parse(h, f.ctx(K.E(f.id, b)))
    eq = a == b
    pair(h, f.obj(p), f.obj(q), eq, f.name)
    pair(h, p, q, eq, "projects with another " + f.name)
    pair(h, p.events, q.events, eq, "events with another " + f.name)
    pair(h, f.obj(p), f.obj(p), True, "a part and itself")
    if f.ctx in (M.in_sampler, M.in_instrument, M.in_layer, M.in_automation):
        for i in (2, 7):
            pair(h, p.channels[i], q.channels[i], True, "a part without the event")
    if not f.ro:
        held = f.obj(q)
        setattr(held, f.attr, f.get(p))
        if f.off or f.kind == "u" and f.size == 2 and f.id == 138:
            return
        pair(h, f.obj(p), held, True, f.name + " made equal")
        pair(h, p, q, True, f.name + " made equal: projects")


def structured(h, f):
    lay = f.layout
    a, b = S.payload(h, "a", lay), S.payload(h, "b", lay)
    decoy = K.E(f.id, bytes(S.size(lay))) if f.id != 213 else None
    p, q = [K.parse(h, f.ctx(K.E(f.id, x), decoy)) for x in (a, b)]
    known, n = [], 0
    for x in lay:
        if not x[0].startswith("_"):
            known.append(a[n:n + x[2]] == b[n:n + x[2]])
        n += x[2]
    known = h.all(known)
    objs = [p, f.obj(p)], [q, f.obj(q)]
    for x, y in zip(*objs):
        eq = pair(h, x, y, None, f.name)
        h.check(h.implies(eq, known), f.name + ": equal with different values")
        h.check(h.implies(a == b, eq), f.name + ": different with equal bytes")


KINDS = 5


def event(h, k, tag):
    if k == 0:
        return 12, h.bytes(tag, 1)
    if k == 1:
        return 80, h.bytes(tag, 2)
    if k == 2:
        return 156, h.bytes(tag, 4)
    if k == 3:
        return 210, h.bytes(tag, 2)
    return 194, K.utf16(h.text(tag, 1, 1, 127))


def sequences(h, n, m):
    """Projects of n and m events."""
    a = [event(h, h.choose("k%d" % i, KINDS), "a%d" % i) for i in range(n)]
    b = [event(h, h.choose("l%d" % i, KINDS), "b%d" % i) for i in range(m)]
    p, q = [K.parse(h, [*K.HEAD, *[K.E(*x) for x in s]]) for s in (a, b)]
    if n != m or [x[0] for x in a] != [x[0] for x in b]:
        pair(h, p, q, False, "projects with different events")
    else:
        pair(h, p, q, h.all([x[1] == y[1] for x, y in zip(a, b)]), "projects with the same kinds of events")


def parts(p):
    """Every kind of part, as {kind: [parts]}."""
    chans, pats, arrs, mixer = list(p.channels), list(p.patterns), list(p.arrangements), list(p.mixer)
    return {
        "channel": chans, "pattern": pats, "arrangement": arrs, "insert": mixer,
        "track": [t for a in arrs for t in a.tracks], "marker": [m for a in arrs for m in a.timemarkers],
        "slot": [s for i in mixer for s in i], "keyboard": [c.keyboard for c in chans],
        "fx": [c.fx for c in chans], "polyphony": [c.polyphony for c in chans], "group": list(p.channels.groups),
        "rack": [p.channels], "patterns": [p.patterns], "arrangements": [p.arrangements], "mixer": [p.mixer], "project": [p],
    }


def skeleton(h, tag):
    """Three of each kind, all alike except for where they are."""
    v = h.bytes(tag, 1)
    evs = [*K.HEAD, K.GROUP, K.E(231, K.utf16("Unsorted")), *[e for i in (1, 2, 3) for e in (K.E(65, K.u16(i)), K.E(193, K.utf16("p")))]]
    for i in range(3):
        evs += K.channel(i, K.SAMPLER, [K.E(135, K.u32(60)), K.E(71, K.u16(9)), K.E(221, K.u32(1) + K.u32(2) + v)])
    for i in range(3):
        evs += [K.E(99, K.u16(i)), K.E(148, K.u32(5)), K.E(205, K.utf16("m")), K.E(238, K.u32(1)), K.E(238, K.u32(1))]
    evs += [K.E(100, K.u16(0))]
    for i in range(3):
        evs += K.insert(slots=[[K.E(203, K.utf16("s"))], []])
    return evs


def within(h, kind):
    """Parts of one project: equal exactly when they are the same part."""
    p = K.parse(h, skeleton(h, "v"))
    one, two = parts(p)[kind], parts(p)[kind]
    h.check(len(one) == len(two), "number of parts")
    for i, x in enumerate(one):
        for j, y in enumerate(two):
            pair(h, x, y, i == j, "two parts of a kind")


def across(h, kind):
    """Two readings of the same file, and of one which differs in the channels."""
    a = skeleton(h, "v")
    p, q = K.parse(h, a), K.parse(h, a)
    for x, y in zip(parts(p)[kind], parts(q)[kind]):
        pair(h, x, y, True, "the same part of the same file")


def other_kind(h):
    p = K.parse(h, skeleton(h, "v"))
    ps = parts(p)
    for a in ps:
        for b in ps:
            if a != b:
                h.check(h.raises(lambda: ps[a][0] == ps[b][0], TypeError) is not None, "a %s compared with a %s" % (a, b))
        for o in (1, "x", None):
            h.check(h.raises(lambda: ps[a][0] == o, TypeError) is not None, "a %s compared with something else" % a)


def edited(h, how):
    """Inserting or removing the same event keeps two projects equal; in only one of them, it does not."""
    from pyflp._events import EventEnum, U8Event

    a = skeleton(h, "v")
    p, q = K.parse(h, a), K.parse(h, a)
    k = h.choose("k", 3)
    b = h.bytes("b", 1)

    def change(x):
        ev = list(x.channels)[k].events
        if how == "insert":
            ev.insert(2, U8Event(EventEnum(12), b))
        else:
            ev.remove(EventEnum(135))
    change(p)
    pair(h, p, q, False, "only one was changed")
    pair(h, list(p.channels)[k], list(q.channels)[k], False, "only one part was changed")
    change(q)
    pair(h, p, q, True, "both were changed")
    pair(h, list(p.channels)[k], list(q.channels)[k], True, "both parts were changed")


def cases(tier):
    deep = tier != "quick"
    out = []
    for f in M.SIMPLE:
        if f.kind == "s":
            for n, m in ((1, 1), (0, 1), (2, 2)):
                out.append(Case("%s/%d and %d" % (f.name, n, m), simple, (f, n, m)))
        else:
            out.append(Case(f.name, simple, (f, 0, 0)))
    seen = set()
    for f in M.STRUCT:
        key = f.id, f.ctx, f.obj
        if key not in seen:
            seen.add(key)
            out.append(Case("fields/" + f.name, structured, (f,), weight=2, paths=4000))
    for n in range(1, 4 if deep else 3):
        for m in range(1, 4 if deep else 3):
            out.append(Case("sequences/%d and %d" % (n, m), sequences, (n, m), weight=4 ** max(n, m), paths=40000))
    for kind in ("channel", "pattern", "arrangement", "insert", "track", "marker", "slot", "keyboard", "fx", "polyphony", "group",
                 "rack", "patterns", "arrangements", "mixer", "project"):
        out.append(Case("within/" + kind, within, (kind,), weight=5))
        out.append(Case("across/" + kind, across, (kind,), weight=3))
    out += [Case("other kinds", other_kind, weight=5), Case("edited/insert", edited, ("insert",), weight=3),
            Case("edited/remove", edited, ("remove",), weight=3)]
    return out
