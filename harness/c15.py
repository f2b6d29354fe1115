"""C15: conversions between stored and shown values are exact inverses."""
from engine.api import Case

from . import common as K
from . import model as M
from . import spec as S

META = {
    "entry": ["Project.tempo", "Note.key", "stretching.time/multiplier", "fx.start/length", "Track.height", "every color",
              "their setters", "pyflp.save"],
    "bounds": "tempos: every thousandth of 10..999, stored in one, "
              "two or one coarse event; all 132 keys by number and by name; all musical times of 32 bits; multipliers "
              "2^-10..2^10 (2^-40..2^40 thorough) in ten-thousandths; all 61440 positions of start and length; heights "
              "0..1800%; all colours, and components in hundredths and thousandths; the event around each value symbolic",
    "outside": "values between those the stored form can represent; a start or length stored as 0 with a second number",
    "assumptions": [],
}

# ------------------------------------------------------------------ tempo
OLD, NEW = "10.0.9", "20.8.4.2576"


def tempo_file(h, form, version, k):
    """k: thousandths"""
    out = [K.version(version)]
    if form == "new":
        out.append(K.E(156, k.to_bytes(4, "little")))
    elif form == "both":
        out += [K.E(66, (k // 1000).to_bytes(2, "little")), K.E(93, (k % 1000).to_bytes(2, "little"))]
    elif form == "coarse":
        out.append(K.E(66, (k // 1000).to_bytes(2, "little")))
    elif form == "all":
        out += [K.E(66, (k // 1000).to_bytes(2, "little")), K.E(93, (k % 1000).to_bytes(2, "little")),
                K.E(156, k.to_bytes(4, "little"))]
    out.append(K.E(12, h.bytes("mv", 1)))
    return out


def tempo_back(h, form, version, lo, hi):
    k = h.int("k", lo, hi)
    evs = tempo_file(h, form, version, k)
    p = K.parse(h, evs)
    p.tempo = p.tempo
    h.check(K.save(h, p) == K.flp(evs), "tempo set to what it is")


def tempo_set(h, form, version, lo, hi):
    k = h.int("k", lo, hi)
    p = K.parse(h, tempo_file(h, form, version, 100500))
    p.tempo = h.flo(k, lambda x: x / 1000)
    h.check(K.save(h, p) == K.flp(tempo_file(h, form, version, k)), "tempo: saved file")
    # what is read back, per value of the table
    got = K.pyflp.parse(h.path("out.flp")).tempo
    if form == "new":
        h.check(got == h.flo(k, lambda x: x / 1000), "tempo after reopening")
    h.check(p.tempo == got, "tempo after setting it")
    if form != "new":
        h.check(h.all([got >= h.flo(k, lambda x: x / 1000 - 1e-9), got <= h.flo(k, lambda x: x / 1000 + 1e-9)]),
                "tempo after reopening")


def tempo_read(h, form, version, lo, hi):
    k = h.int("k", lo, hi)
    p = K.parse(h, tempo_file(h, form, version, k))
    if form == "coarse":
        h.check(p.tempo == k // 1000, "tempo")
    else:
        got = p.tempo
        h.check(h.all([got >= h.flo(k, lambda x: x / 1000 - 1e-9), got <= h.flo(k, lambda x: x / 1000 + 1e-9)]), "tempo")


# ------------------------------------------------------------------ keys
NAMES = ("C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B")
KEY = S.offset(S.NOTE, "key")[0]


def note_events(a, b, c):
    return [*K.HEAD, K.E(65, K.u16(1)), K.E(224, a + b + c)]


def note(p):
    return list(list(p.patterns)[0].notes)[1]


def key_back(h):
    a, b, c = [S.payload(h, x, S.NOTE) for x in "abc"]
    k = h.int("k", 0, 131)
    v = h.fork(k)
    evs = note_events(a, K.splice(b, KEY, K.u16(v)), c)
    p = K.parse(h, evs)
    h.check(note(p).key == NAMES[v % 12] + str(v // 12), "key")
    note(p).key = note(p).key
    h.check(K.save(h, p) == K.flp(evs), "key set to what it is")


def key_set(h, how):
    a, b, c = [S.payload(h, x, S.NOTE) for x in "abc"]
    p = K.parse(h, note_events(a, b, c))
    v = h.fork(h.int("k", 0, 131))
    name = NAMES[v % 12] + str(v // 12)
    note(p).key = v if how == "number" else name
    h.check(note(p).key == name, "key after setting it")
    h.check(K.save(h, p) == K.flp(note_events(a, K.splice(b, KEY, K.u16(v)), c)), "key: saved file")
    h.check(note(K.pyflp.parse(h.path("out.flp"))).key == name, "key after reopening")


# ------------------------------------------------------------------ fields
def field(attr):
    return next(f for f in M.STRUCT if f.name == attr)


def files(f):
    decoy = K.E(f.id, bytes(S.size(f.layout)))
    return lambda data: f.ctx(K.E(f.id, data), decoy)


def back(h, f, stored):
    """Set to what it is."""
    data = K.splice(S.payload(h, "f", f.layout), f.off, stored)
    evs = files(f)(data)
    p = K.parse(h, evs)
    f.set(p, f.get(p))
    h.check(K.save(h, p) == K.flp(evs), f.name + " set to what it is")
    f.set(p, f.get(K.pyflp.parse(h.path("out.flp"))))
    h.check(K.save(h, p) == K.flp(evs), f.name + " set to what it is after reopening")


def to(h, f, value, stored, same):
    """Set to a value: stored so, read so."""
    data = S.payload(h, "f", f.layout)
    p = K.parse(h, files(f)(data))
    K.save(h, p, "before.flp")
    f.set(p, value)
    h.check(same(f.get(p)), f.name + " after setting it")
    h.check(K.save(h, p) == K.flp(files(f)(K.splice(data, f.off, stored))), f.name + ": saved file")
    h.check(same(f.get(K.pyflp.parse(h.path("out.flp")))), f.name + " after reopening")


def musical_back(h):
    back(h, field("stretching.time"), h.bytes("t", 4))


def musical_set(h):
    from pyflp.types import MusicalTime

    bars, beats, ticks = h.int("bars", 0, 2 ** 22), h.int("beats", 0, 15), h.int("ticks", 0, 47)
    v = MusicalTime(bars, beats, h.tabulate(ticks, lambda t: t * 5))
    to(h, field("stretching.time"), v, (bars * 768 + beats * 48 + ticks).to_bytes(4, "little"),
       lambda got: h.eq(tuple(got), tuple(v)))


def log_back(h, lo, hi):
    back(h, field("stretching.multiplier"), h.int("m", lo, hi).to_bytes(4, "little", signed=True))


def log_set(h, lo, hi):
    m = h.int("m", lo, hi)
    v = h.flo(m, lambda x: 2 ** (x / 10000))
    to(h, field("stretching.multiplier"), v, m.to_bytes(4, "little", signed=True), lambda got: got == v)


def normal(h, x):
    return x.to_bytes(2, "little") + h.ite(x == 0, 0, 63).to_bytes(2, "little")


def normal_back(h, attr, lo, hi):
    back(h, field(attr), normal(h, h.int("x", lo, hi)))


def normal_set(h, attr, lo, hi):
    x = h.int("x", lo, hi)
    v = h.flo(x, lambda x: 0.0 if not x else 2 ** (x / 4096) / 32768)
    to(h, field(attr), v, normal(h, x), lambda got: got == v)


def zero(h):
    """Any second number with a stored 0."""
    f = field("fx.start")
    back(h, f, b"\0\0" + h.bytes("second", 2))


def height_back(h, lo, hi):
    back(h, field("track.height"), S.height_bytes(h, h.int("p", lo, hi)))


def height_set(h, lo, hi):
    p = h.fork(h.int("p", lo, hi))
    to(h, field("track.height"), "%d%%" % p, S.height_bytes(h, p), lambda got: got == "%d%%" % p)


# ------------------------------------------------------------------ colours
def color_back(h, f):
    b = h.bytes("c", 4)
    if f.layout is None:
        decoy = K.E(f.id, bytes(4))
        evs = f.ctx(K.E(f.id, b), decoy)
    else:
        evs = files(f)(K.splice(S.payload(h, "f", f.layout), f.off, b))
    p = K.parse(h, evs)
    f.set(p, f.get(p))
    h.check(K.save(h, p) == K.flp(evs), f.name + " set to what it is")


def color_set(h, f):
    from pyflp.types import RGBA

    c = h.bytes("c", 4)
    v = RGBA(*(h.flo(x, lambda x: x / 255) for x in c))
    if f.layout is None:
        decoy = K.E(f.id, bytes(4))
        file = lambda b: f.ctx(K.E(f.id, b), decoy)
    else:
        data = S.payload(h, "f", f.layout)
        file = lambda b: files(f)(K.splice(data, f.off, b))
    p = K.parse(h, file(b"\1\2\3\4"))
    K.save(h, p, "before.flp")
    f.set(p, v)
    h.check(h.eq(tuple(f.get(p)), tuple(v)), f.name + " after setting it")
    h.check(K.save(h, p) == K.flp(file(c)), f.name + ": saved file")
    h.check(h.eq(tuple(f.get(K.pyflp.parse(h.path("out.flp")))), tuple(v)), f.name + " after reopening")


def color_any(h, f, den):
    """Components which are no multiple of 1/255 are stored as the nearest one."""
    from pyflp.types import RGBA

    k = h.choose("component", 4)
    n = h.int("n", 0, den)
    x = h.flo(n, lambda x: x / den)
    v = [0.0, 1.0, 0.0, 1.0]
    v[k] = x
    decoy = K.E(f.id, bytes(4))
    p = K.parse(h, f.ctx(K.E(f.id, b"\1\2\3\4"), decoy))
    f.set(p, RGBA(*v))
    out = K.save(h, p)
    want = K.flp(f.ctx(K.E(f.id, b"\0\xff\0\xff"), decoy))
    at = [i for i in range(len(want) - 4) if bytes(want[i:i + 5]) == bytes([f.id]) + b"\0\xff\0\xff"][0] + 1 + k
    b = out[at]
    h.check(out == K.splice(want, at, out[at:at + 1]), f.name + ": the rest of the file")
    h.check(h.all([b * den * 2 >= n * 510 - den, b * den * 2 <= n * 510 + den]), f.name + ": nearest stored component")


def windows(lo, hi, n):
    return [(a, min(a + n - 1, hi)) for a in range(lo, hi + 1, n)]


def cases(tier):
    deep = tier != "quick"
    out = []
    for form, version, hi in (("new", NEW, 522000), ("new", OLD, 999000), ("both", OLD, 999000), ("both", NEW, 522000),
                              ("all", NEW, 522000)):
        ws = windows(10000, hi, 4000)
        if form == "new" and not deep:
            ws.append((hi - 3999, hi))
        for a, b in ws:
            tag = "tempo/%s/%s/%d..%d" % (form, version, a, b)
            out.append(Case(tag + "/back", tempo_back, (form, version, a, b), weight=5))
            out.append(Case(tag + "/set", tempo_set, (form, version, a, b), weight=5))
            out.append(Case(tag + "/read", tempo_read, (form, version, a, b), weight=5))
    out.append(Case("tempo/coarse/read", tempo_read, ("coarse", OLD, 10000, 999000), weight=5))
    out += [Case("key/back", key_back, weight=20), Case("key/number", key_set, ("number",), weight=20),
            Case("key/name", key_set, ("name",), weight=20)]
    out += [Case("musical time/back", musical_back, weight=5), Case("musical time/set", musical_set, weight=5)]
    for a, b in windows(-400000, 400000, 5000) if deep else windows(-100000, 100000, 5000):
        out.append(Case("multiplier/%d..%d/back" % (a, b), log_back, (a, b), weight=5))
        out.append(Case("multiplier/%d..%d/set" % (a, b), log_set, (a, b), weight=5))
    for attr in ("fx.start", "fx.length"):
        for a, b in windows(0, 61440, 8192):
            out.append(Case("%s/%d..%d/back" % (attr, a, b), normal_back, (attr, a, b), weight=5))
            out.append(Case("%s/%d..%d/set" % (attr, a, b), normal_set, (attr, a, b), weight=5))
    for a, b in windows(0, 1800, 300):
        out.append(Case("height/%d..%d/back" % (a, b), height_back, (a, b), weight=5))
        out.append(Case("height/%d..%d/set" % (a, b), height_set, (a, b), weight=10))
    for f in M.SIMPLE + M.STRUCT:
        if f.kind == "c":
            out.append(Case(f.name + "/back", color_back, (f,), weight=5))
            out.append(Case(f.name + "/set", color_set, (f,), weight=5))
            if f.layout is None:
                for den in (100, 1000) if tier == "quick" else (100, 1000, 510, 4096):
                    out.append(Case("%s/nearest %d" % (f.name, den), color_any, (f, den), weight=5, paths=20000))
    out.append(Case("finding/zero", zero, finding="F07"))
    return out
