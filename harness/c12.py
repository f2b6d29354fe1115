"""C12: playlist items resolve to tracks, channels and patterns."""
from engine.api import Case

from . import common as K
from . import spec as S

META = {
    "entry": ["Arrangement.tracks", "Track", "ChannelPLItem/PatternPLItem properties and setters", "pyflp.save"],
    "bounds": "1..3 items of 32 and 60 bytes (up to 14 and 5 thorough), in one of two arrangements; 4 tracks (12 thorough) and "
              "every track index 0..65535 for one item, every combination of tracks for 2..3 items; channel ids 0..300 and "
              "pattern ids 1..300 in the file, any item id referring to them, any pattern base; all positions, lengths, groups "
              "and offsets, read and set; versions on both sides of 12.9.1",
    "outside": "items referring to channels or patterns which do not exist; signalling NaNs in offsets",
    "assumptions": [],
}

BASE = 20480


def item(h, i, index, rv, new, base=BASE):
    b = {"pos": h.bytes("p%d" % i, 4), "len": h.bytes("l%d" % i, 4), "grp": h.bytes("g%d" % i, 2), "so": h.bytes("s%d" % i, 4),
         "eo": h.bytes("e%d" % i, 4)}
    S.no_snan(h, b["so"])
    S.no_snan(h, b["eo"])
    raw = (b["pos"] + K.u16(base) + K.u16(index) + b["len"] + K.u16(rv) + b["grp"] + h.bytes("u%d" % i, 8) + b["so"] + b["eo"])
    return (raw + h.bytes("x%d" % i, 28) if new else raw), b


def project(h, items, tracks=4, version="20.8.4.2576", which=0, chans=(2, 5), pats=(1, 3), decoy=True,
            ids=None):
    """Two arrangements; the one under test is `which`."""
    out = [K.version(version), K.E(159, K.u32(2576)), K.GROUP]
    for p in pats:
        out += [K.E(65, K.u16(p)), K.E(224, b"")]
    for c in chans:
        out += K.channel(c, 0, [])
    for a in (0, 1):
        if a == which:
            pl = K.join(items) if items else b""
        else:
            pl = K.u32(1) + K.u16(BASE) + K.u16(2) + K.u32(9) + K.u16(499) + K.u16(0) + b"\0" * 16
            if not decoy:
                continue
        out += [K.E(99, K.u16(a)), K.E(233, pl), *[K.E(238, K.u32(i + 1) if ids is None else K.u32(ids[i])) for i in range(tracks)]]
    out.append(K.E(100, K.u16(0)))
    return out


def tracks_of(p, which):
    return list(list(p.arrangements)[which].tracks)


def about(h, it, b):
    h.check(it.position == K.le(b["pos"]), "position")
    h.check(it.length == K.le(b["len"]), "length")
    h.check(it.group == K.le(b["grp"]), "group")
    so, eo = it.offsets
    h.check(h.float_is(so, b["so"]), "start offset")
    h.check(h.float_is(eo, b["eo"]), "end offset")


def one_track(h, new, version, top, tracks, which):
    """Every track index."""
    rv = h.int("rv", 0, 65535)
    raw, b = item(h, 0, 5, rv, new)
    p = K.parse(h, project(h, [raw], tracks, version, which))
    ts = tracks_of(p, which)
    h.check(len(ts) == tracks, "tracks")
    for i, t in enumerate(ts):
        here = top - rv == i
        if h.fork(here):
            h.check(len(t) == 1, "the item is on its track")
            it = list(t)[0]
            h.check(type(it).__name__ == "ChannelPLItem", "kind of item")
            h.check(it.channel.iid == 5, "channel")
            about(h, it, b)
        else:
            h.check(len(t) == 0, "the item is on no other track")
    other = tracks_of(p, 1 - which)
    h.check([len(t) for t in other] == ([1] if top == 499 else [0]) + [0] * (tracks - 1), "items of the other arrangement")


def unsorted_tracks(h, n, new):
    """Tracks are counted as they are stored, whatever their ids."""
    ids = [h.int("id%d" % i, 0, 2 ** 32 - 1) for i in range(n)]
    where = h.choose("t", n)
    raw, b = item(h, 0, 5, 499 - where, new)
    p = K.parse(h, project(h, [raw], n, ids=ids))
    ts = tracks_of(p, 0)
    h.check(len(ts) == n, "tracks")
    h.check(h.all([t.iid == i for t, i in zip(ts, ids)]), "ids of tracks")
    h.check([len(t) for t in ts] == [int(i == where) for i in range(n)], "the item is on its track alone")
    about(h, list(ts[where])[0], b)


def whole(h, new, n, tracks):
    """A playlist of n items over all the tracks."""
    def raw(i):
        pos = h.bytes("p%d" % i, 4) if i in look else K.u32(i * 96)
        r = pos + K.u16(BASE) + K.u16((2, BASE + 3, 5, BASE + 1)[i % 4]) + K.u32(96) + K.u16(499 - i * 7 % tracks) + K.u16(i) + b"\0" * 16
        return r + b"\0" * 28 if new else r
    look = (0, 1, n // 2, n - 2, n - 1)
    raws = [raw(i) for i in range(n)]
    p = K.parse(h, project(h, raws, tracks, decoy=False))
    ts = tracks_of(p, 0)
    h.check(len(ts) == tracks, "tracks")
    for k, t in enumerate(ts):
        mine = [i for i in range(n) if i * 7 % tracks == k]
        h.check(len(t) == len(mine), "items of a track")
        for it, i in zip(t, mine):
            h.check(it.group == i and it.position == K.le(raws[i][:4]), "items in order")
            if i % 2:
                h.check(it.pattern.iid == (3, 1)[i // 2 % 2], "pattern")
            else:
                h.check(it.channel.iid == (2, 5)[i // 2 % 2], "channel")
    h.check(K.save(h, p) == K.flp(project(h, raws, tracks, decoy=False)), "saved file")


def many(h, n, new, tracks):
    """n items on any tracks: the order of the playlist is kept."""
    where = [h.choose("t%d" % i, tracks) for i in range(n)]
    refs = [(2, 5, BASE + 1, BASE + 3)[(i * 3) % 4] for i in range(n)]
    its = [item(h, i, refs[i], 499 - where[i], new) for i in range(n)]
    p = K.parse(h, project(h, [a for a, _ in its], tracks))
    ts = tracks_of(p, 0)
    for k, t in enumerate(ts):
        mine = [i for i in range(n) if where[i] == k]
        h.check(len(t) == len(mine), "items of a track")
        for it, i in zip(t, mine):
            about(h, it, its[i][1])
            if refs[i] > BASE:
                h.check(it.pattern.iid == refs[i] - BASE, "pattern")
            else:
                h.check(it.channel.iid == refs[i], "channel")


def refs(h, kind, new, lo, hi):
    """Any id."""
    cid, pid = h.int("cid", 0, hi), h.int("pid", 1, hi)
    h.assume(cid != 9)
    h.assume(pid != 9)
    lo_, hi_ = lo, hi
    (h.assume(h.all([cid >= lo_, cid <= hi_])), h.assume(pid == 4)) if kind == "channel" else (
        h.assume(h.all([pid >= max(1, lo_), pid <= hi_])), h.assume(cid == 4))
    index = cid if kind == "channel" else pid + BASE
    raw, b = item(h, 0, index, 499, new)
    p = K.parse(h, project(h, [raw], 1, chans=(9, cid), pats=(9, pid), decoy=False))
    it = list(tracks_of(p, 0)[0])[0]
    if kind == "channel":
        h.check(type(it).__name__ == "ChannelPLItem" and not hasattr(it, "pattern"), "kind of item")
        h.check(it.channel.iid == cid, "channel")
    else:
        h.check(type(it).__name__ == "PatternPLItem" and not hasattr(it, "channel"), "kind of item")
        h.check(it.pattern.iid == pid, "pattern")
    about(h, it, b)


def base(h, kind):
    """Any pattern base."""
    b0 = h.int("base", 100, 65000)
    index = 5 if kind == "channel" else b0 if kind == "edge" else b0 + 3
    if kind == "edge":
        h.assume(b0 < 200)
    chans = (2, b0) if kind == "edge" else (2, 5)
    raw, b = item(h, 0, index, 499, False, b0)
    p = K.parse(h, project(h, [raw], 1, decoy=False, chans=chans))
    it = list(tracks_of(p, 0)[0])[0]
    if kind != "pattern":
        h.check(it.channel.iid == index, "channel")
    else:
        h.check(it.pattern.iid == 3, "pattern")
        it.pattern = list(p.patterns)[0]
        out = K.save(h, p)
        h.check(out == K.flp(project(h, [K.splice(raw, 6, K.u16(b0 + 1))], 1, decoy=False)), "saved file")


FIELDS = {"position": (0, 4), "length": (8, 4), "group": (14, 2)}


def setting(h, attr, k, n, new):
    """Item k of n: a value."""
    its = [item(h, i, (2, BASE + 3, 5)[i % 3], 499 - i % 2, new) for i in range(n)]
    raws = [a for a, _ in its]
    p = K.parse(h, project(h, raws))
    items = [it for t in tracks_of(p, 0) for it in t]
    order = [i for i in range(n) if i % 2 == 0] + [i for i in range(n) if i % 2]
    it = items[order.index(k)]
    K.save(h, p, "before.flp")
    if attr == "offsets":
        a, b = h.f32("a"), h.f32("b")
        it.offsets = (a, b)
        import struct
        if h.symbolic:
            from engine.intrinsics import s_pack as pack
        else:
            pack = struct.pack
        new_raw = K.splice(raws[k], 24, pack("<f", a) + pack("<f", b))
        h.check(h.eq(tuple(it.offsets), (a, b)), "offsets after setting them")
    else:
        off, size = FIELDS[attr]
        v = h.int("v", 0, 256 ** size - 1)
        setattr(it, attr, v)
        h.check(getattr(it, attr) == v, attr + " after setting it")
        new_raw = K.splice(raws[k], off, v.to_bytes(size, "little"))
    out = K.save(h, p)
    raws[k] = new_raw
    h.check(out == K.flp(project(h, raws)), "saved file")
    again = [x for t in tracks_of(K.pyflp.parse(h.path("out.flp")), 0) for x in t][order.index(k)]
    h.check(h.eq(getattr(again, attr), getattr(it, attr)), attr + " after reopening")


def relink(h, kind, k, n, new):
    """Item k of n refers to another channel or pattern."""
    ref = (2, BASE + 3) if kind == "channel" else (BASE + 1, 5)
    its = [item(h, i, ref[0] if i == k else ref[1], 499 - i % 2, new) for i in range(n)]
    raws = [a for a, _ in its]
    to = h.choose("to", 2)
    p = K.parse(h, project(h, raws))
    items = [it for t in tracks_of(p, 0) for it in t]
    order = [i for i in range(n) if i % 2 == 0] + [i for i in range(n) if i % 2]
    it = items[order.index(k)]
    if kind == "channel":
        it.channel = list(p.channels)[to]
        idx = (2, 5)[to]
        h.check(it.channel.iid == idx, "channel after setting it")
    else:
        it.pattern = list(p.patterns)[to]
        idx = (1, 3)[to] + BASE
        h.check(it.pattern.iid == (1, 3)[to], "pattern after setting it")
    out = K.save(h, p)
    raws[k] = K.splice(raws[k], 6, K.u16(idx))
    h.check(out == K.flp(project(h, raws)), "saved file")


def relink_any(h, kind, new, lo, hi):
    """An item refers to a channel or pattern of any id."""
    base = h.int("base", 1000, 60000)
    to = h.int("to", lo, hi)
    h.assume(to != 2)
    h.assume(to != 3)
    if kind == "channel":
        h.assume(to < base)
    else:
        h.assume(to + base < 65536)
    raw, b = item(h, 0, 2 if kind == "channel" else base + 3, 499, new, base)
    mk = lambda raw: project(h, [raw], 1, decoy=False, chans=(2, to if kind == "channel" else 5), pats=(to if kind == "pattern" else 1, 3))
    p = K.parse(h, mk(raw))
    it = list(tracks_of(p, 0)[0])[0]
    if kind == "channel":
        it.channel = list(p.channels)[1]
        h.check(it.channel.iid == to, "channel after setting it")
        idx = to
    else:
        it.pattern = list(p.patterns)[0]
        h.check(it.pattern.iid == to, "pattern after setting it")
        idx = base + to
    h.check(K.save(h, p) == K.flp(mk(K.splice(raw, 6, K.u16(idx)))), "saved file")


def no_playlist(h):
    """Tracks without a playlist have no items."""
    evs = [*K.HEAD, K.E(99, K.u16(0)), *([K.E(233, b"")] if h.choose("empty", 2) else []), K.E(238, K.u32(1)), K.E(238, K.u32(2))]
    p = K.parse(h, evs)
    ts = tracks_of(p, 0)
    h.check([len(t) for t in ts] == [0, 0] and [list(t) for t in ts] == [[], []], "no items")


def muted(h):
    raw, b = item(h, 0, 2, 499, False)
    p = K.parse(h, project(h, [raw], 1))
    it = list(tracks_of(p, 0)[0])[0]
    h.check(h.raises(lambda: it.muted, KeyError) is None, "muted")


def fifteen(h):
    its = [item(h, i, 2, 499, False)[0] for i in range(15)]
    p = K.parse(h, project(h, its, 1))
    h.check(len(tracks_of(p, 0)[0]) == 15, "fifteen items")


def cases(tier):
    deep = tier != "quick"
    out = [Case("no playlist", no_playlist), Case("finding/muted", muted, finding="F05"),
           Case("finding/fifteen items", fifteen, finding="F06")]
    nt = 12 if deep else 4
    for new in (False, True):
        sz = 60 if new else 32
        for which in (0, 1):
            out.append(Case("track/%d/%d" % (sz, which), one_track, (new, "20.8.4.2576", 499, nt, which), weight=5))
        for v, top in (("12.9.1.100", 499), ("12.9.0.999", 198), ("12.9.2", 499), ("12.8.9.1", 198), ("12.10.0", 499),
                       ("13.0.0", 499), ("11.9.9", 198)):
            out.append(Case("track/%d/%s" % (sz, v), one_track, (new, v, top, 2, 0), weight=3))
        for n in (2, 3, 4):
            out.append(Case("unsorted tracks/%d/%d" % (sz, n), unsorted_tracks, (n, new), weight=3))
        out.append(Case("whole/%d" % sz, whole, (new, 61, 500), weight=40))
        for n in (4, 7, 8, 16, 24) if new else (4, 8, 14, 16, 29, 31):
            out.append(Case("whole/%d/%d" % (sz, n), whole, (new, n, 9), weight=5))
        for n in (1, 2, 3):
            out.append(Case("items/%d/%d" % (sz, n), many, (n, new, 3), weight=3 ** n))
        for n in (((5, 7, 14) if not new else (4, 5)) if deep else ()):
            out.append(Case("items/%d/%d" % (sz, n), many, (n, new, 2), weight=3 ** 4, paths=20000))
        for kind in ("channel", "pattern"):
            for lo, hi in ((0, 120), (121, 240)) if not deep else ((0, 150), (151, 300), (301, 450), (451, 600), (601, 750)):
                out.append(Case("refer/%s/%d/%d" % (kind, sz, lo), refs, (kind, new, lo, hi), weight=30))
            for lo, hi in ((1, 100), (250, 300), (1000, 1030)) + (((64000, 64100),) if kind == "pattern" else ((59900, 59999),)):
                out.append(Case("relink any/%s/%d/%d" % (kind, sz, lo), relink_any, (kind, new, lo, hi), weight=20))
            for n in (1, 2, 3):
                for k in range(n):
                    out.append(Case("relink/%s/%d/%d of %d" % (kind, sz, k, n), relink, (kind, k, n, new), weight=3))
        for attr in ("position", "length", "group", "offsets"):
            for n in (1, 2, 3):
                for k in range(n):
                    out.append(Case("set/%s/%d/%d of %d" % (attr, sz, k, n), setting, (attr, k, n, new), weight=3))
    out += [Case("base/channel", base, ("channel",)), Case("base/pattern", base, ("pattern",)), Case("base/edge", base, ("edge",))]
    return out
