"""C13: mixer parameters and the inserts and slots they are addressed to."""
from engine.api import Case

from pyflp.exceptions import PropertyCannotBeSet

from . import common as K

META = {
    "entry": ["Insert.volume/pan/stereo_separation/eq/routes", "Slot.enabled/mix", "their setters", "pyflp.save"],
    "bounds": "3 inserts with 3, 1 and 2 slots, all their parameters with symbolic messages at once, in 6 orders; each parameter "
              "missing in turn, and all of them; every parameter set in turn to any message; one of 127 inserts and any of its 10 "
              "slots addressed; 4 routes with every combination of routing flags, in any order, with and without a stored level; all "
              "unused bits of the address symbolic",
    "outside": "the same parameter stored twice; more than 126 inserts",
    "assumptions": [],
}

OWN = {192: "volume", 193: "pan", 194: "stereo_separation"}
EQ = {208: ("low", "gain"), 209: ("mid", "gain"), 210: ("high", "gain"), 216: ("low", "freq"), 217: ("mid", "freq"),
      218: ("high", "freq"), 224: ("low", "reso"), 225: ("mid", "reso"), 226: ("high", "reso")}
SLOT = {0: "enabled", 1: "mix"}
SLOTS = (3, 1, 2)


def keys():
    """(insert, slot or None, id) of everything stored for the three inserts."""
    out = []
    for i, n in enumerate(SLOTS):
        for s in range(n):
            out += [(i, s, 0), (i, s, 1)]
        out += [(i, None, k) for k in (*OWN, *EQ, 64, 66)]
    return out


ORDERS = {
    "written": lambda ks: ks,
    "reversed": lambda ks: ks[::-1],
    "by id": lambda ks: sorted(ks, key=lambda k: (k[2], k[0], k[1] or 0)),
    "by id, inserts backwards": lambda ks: sorted(ks, key=lambda k: (k[2], -k[0], k[1] or 0)),
    "odd first": lambda ks: ks[1::2] + ks[::2],
    "slots last": lambda ks: sorted(ks, key=lambda k: (k[1] is not None, -k[0])),
}


def entry(h, key, msg, high=True):
    i, s, k = key
    addr = i << 6 | (s or 0)
    tag = "%s.%s.%s" % key
    if high:
        hb = h.byte("hi" + tag) & 0xE0
        addr_b = K.u8(addr & 255) + (hb | addr >> 8).to_bytes(1, "little")
    else:
        addr_b = K.u16(addr)
    return h.bytes("u" + tag, 4) + K.u8(k) + h.bytes("v" + tag, 1) + addr_b + msg


def messages(h, ks):
    return {k: h.bytes("m%s.%s.%s" % k, 4) for k in ks}


def file(data, slots=SLOTS, routing=None, version=None):
    ins = [K.insert([], slots=[[]] * n) for n in slots]
    if routing is not None:
        ins = [[K.E(235, routing) if e[0] == 235 else e for e in x] for x in ins]
    return [*K.HEAD, K.E(29, K.u8(1)), *[e for x in ins for e in x], K.E(225, data)]


def read(p, key):
    i, s, k = key
    ins = list(p.mixer)[i]
    if s is not None:
        return getattr(list(ins)[s], SLOT[k])
    if k in OWN:
        return getattr(ins, OWN[k])
    b, a = EQ[k]
    return getattr(getattr(ins.eq, b), a)


def write(p, key, v):
    i, s, k = key
    ins = list(p.mixer)[i]
    if s is not None:
        setattr(list(ins)[s], SLOT[k], v)
    elif k in OWN:
        setattr(ins, OWN[k], v)
    else:
        b, a = EQ[k]
        setattr(getattr(ins.eq, b), a, v)


def reading(h, order):
    ks = ORDERS[order](keys())
    m = messages(h, ks)
    p = K.parse(h, file(K.join([entry(h, k, m[k]) for k in ks])))
    for k in ks:
        if k[2] not in (64, 66):
            h.check(read(p, k) == K.le(m[k], True), "value of %s" % (k,))


def missing(h, order):
    """Each of the parameters of inserts, their equalisers and slots absent in turn."""
    ks = ORDERS[order](keys())
    can = [k for k in ks if k[2] not in (64, 66)]
    gone = can[h.choose("gone", len(can))]
    left = [k for k in ks if k != gone]
    m = messages(h, left)
    evs = file(K.join([entry(h, k, m[k]) for k in left]))
    p = K.parse(h, evs)
    h.check(read(p, gone) is None, "an absent parameter")
    h.check(h.raises(lambda: write(p, gone, 1), PropertyCannotBeSet) is not None, "setting an absent parameter")
    for k in can:
        if k != gone:
            h.check(read(p, k) == K.le(m[k], True), "the others")
    h.check(K.save(h, p) == K.flp(evs), "saved file")


def setting(h, order, key):
    ks = ORDERS[order](keys())
    m = messages(h, ks)
    ents = [entry(h, k, m[k]) for k in ks]
    p = K.parse(h, file(K.join(ents)))
    K.save(h, p, "before.flp")
    if key[2] == 0:
        v = h.bool("v")
        write(p, key, v)
        b = h.ite(v, 1, 0).to_bytes(4, "little")
    else:
        v = h.int("v", -2 ** 31, 2 ** 31 - 1)
        write(p, key, v)
        b = v.to_bytes(4, "little", signed=True)
    h.check(read(p, key) == v, "value after setting it")
    for k in ks:
        if k != key and k[2] not in (64, 66):
            h.check(read(p, k) == K.le(m[k], True), "the others")
    i = ks.index(key)
    ents[i] = K.splice(ents[i], 8, b)
    h.check(K.save(h, p) == K.flp(file(K.join(ents))), "saved file")
    h.check(read(K.pyflp.parse(h.path("out.flp")), key) == v, "value after reopening")


def far(h, n, at):
    """One of n inserts (any of `at`), any of its ten slots."""
    i = h.int("i", 0, n - 1)
    s = h.int("s", 0, 9)
    addr = K.u16(i << 6 | s)
    vol, mix = h.bytes("vol", 4), h.bytes("mix", 4)
    data = b"\0" * 4 + K.u8(192) + b"\0" + K.u16(i << 6) + vol + b"\0" * 4 + K.u8(1) + b"\0" + addr + mix
    evs = [*K.HEAD, *[e for k in range(n) for e in K.insert([], slots=[[]] * (10 if k in at else 1))], K.E(225, data)]
    h.assume(h.any([i == k for k in at]))
    p = K.parse(h, evs)
    for j, ins in enumerate(p.mixer):
        if h.fork(i == j):
            h.check(ins.volume == K.le(vol, True), "volume of the addressed insert")
            for k, slot in enumerate(ins):
                if h.fork(s == k):
                    h.check(slot.mix == K.le(mix, True), "mix of the addressed slot")
                else:
                    h.check(slot.mix is None, "mix of the other slots")
        else:
            h.check(ins.volume is None, "volume of another insert")
            h.check(all(s.mix is None for s in ins), "mix of another insert's slots")


def routes(h, order):
    """Send levels of the routed inserts, by insert."""
    flags = [h.int("f%d" % k, 0, 1) for k in range(4)]
    stored = [k for k in range(4) if k % 2 == 0 or h.choose("s%d" % k, 2)]
    ks = [(0, None, 64 + k) for k in stored] + [(0, None, 192), (1, None, 64), (1, None, 65), (0, None, 208), (0, 0, 1)]
    ks = ORDERS[order](ks)
    m = messages(h, ks)
    ents = [entry(h, k, m[k]) for k in ks]
    p = K.parse(h, file(K.join(ents), routing=K.join([f.to_bytes(1, "little") for f in flags])))
    want = [K.le(m[(0, None, 64 + k)], True) for k in stored if h.fork(flags[k] == 1)]
    got = list(list(p.mixer)[0].routes)
    h.check(len(got) == len(want), "number of routes")
    h.check(h.all([a == b for a, b in zip(got, want)]), "levels of routes")


def far_routes(h, n, lo):
    """n routes, of which any one of eight is on, and whose levels are stored for three of them."""
    on = h.int("on", lo, min(lo + 7, n - 1))
    h.fork(on)
    have = sorted({lo, min(lo + 5, n - 1), n - 1})
    m = {k: h.bytes("m%d" % k, 4) for k in have}
    data = K.join([h.bytes("u%d" % k, 4) + K.u8(64 + k) + h.bytes("v%d" % k, 1) + K.u16(0) + m[k] for k in have])
    data += b"\0" * 4 + K.u8(192) + b"\0" + K.u16(0) + h.bytes("vol", 4)
    p = K.parse(h, file(data, slots=(1, 1), routing=K.join([h.ite(on == k, 1, 0).to_bytes(1, "little") for k in range(n)])))
    got = list(list(p.mixer)[0].routes)
    here = [k for k in have if h.fork(on == k)]
    h.check(len(got) == len(here), "number of routes")
    h.check(h.all([a == K.le(m[k], True) for a, k in zip(got, here)]), "levels of routes")


def none_at_all(h):
    """No parameters stored."""
    evs = file(b"") if h.choose("empty", 2) else file(b"")[:-1]
    p = K.parse(h, evs)
    for ins in p.mixer:
        h.check(ins.volume is None and ins.pan is None and ins.stereo_separation is None, "no values")
        h.check(all(s.mix is None and s.enabled is None for s in ins), "no values of slots")
        h.check(list(ins.routes) == [], "no routes")
        for b, a in EQ.values():
            band = getattr(ins.eq, b)
            h.check(getattr(band, a) is None, "no values of bands")
            h.check(h.raises(lambda: setattr(band, a, 1), PropertyCannotBeSet) is not None, "setting an absent value of a band")


def cases(tier):
    out = [Case("nothing stored", none_at_all)]
    for o in ORDERS:
        out.append(Case("read/" + o, reading, (o,), weight=5))
        out.append(Case("missing/" + o, missing, (o,), weight=20))
        out.append(Case("routes/" + o, routes, (o,), weight=20))
    sets = [k for k in keys() if k[2] not in (64, 66)]
    for o in ORDERS:
        for k in sets:
            out.append(Case("set/%s/%s" % (o, "-".join(map(str, k))), setting, (o, k), weight=3))
    for lo in range(0, 127, 16):
        at = [k for k in range(lo, min(lo + 16, 127))]
        out.append(Case("far/%d" % lo, far, (127, at), weight=50))
        for a in range(lo, lo + 16, 8):
            out.append(Case("far routes/%d" % a, far_routes, (127, a), weight=10))
    return out
