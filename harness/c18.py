"""C18: versions, their order, and the limits which follow them."""
from engine.api import Case

from pyflp.types import FLVersion

from . import common as K

META = {
    "entry": ["Project.version and its setter", "FLVersion comparisons and str()", "Arrangements.max_tracks", "Mixer.max_inserts",
              "Mixer.max_slots", "Project.tempo (limits)", "text decoding", "pyflp.save"],
    "bounds": "every part any number of 1..2 digits (build 1..4 digits), alone and together; 3 and 4 parts; set as FLVersion, text, "
              "tuple and list; with and without the build event (any earlier contents); order of any two versions with parts below "
              "2^16 and any builds; each limit at every version within one step of its threshold in each part, with any "
              "build, and for all major/minor/patch 0..25 (limits of tempo, tracks, inserts and slots)",
    "outside": "versions of more than 4 digits in a part; leading zeros; the number of inserts and slots exactly at a listed version "
               "(the documentation does not say on which side it falls: either is accepted)",
    "assumptions": [],
}


def vtext(parts):
    out = str(parts[0])
    for p in parts[1:]:
        out = out + "." + str(p)
    return out


def parts_of(h, n, wide=99, build=9999):
    return [h.int("v%d" % i, 0, build if i == 3 else wide) for i in range(n)]


def project(text, tail=(), build=True, old=2576):
    out = [K.E(199, text.encode("ascii") + b"\0")]
    if build:
        out.append(K.E(159, K.u32(old)))
    return [*out, *tail]


def same(h, v, parts):
    h.check(type(v) is FLVersion, "type of the version")
    h.check(v.major == parts[0], "major")
    h.check(v.minor == parts[1], "minor")
    h.check(v.patch == parts[2], "patch")
    if len(parts) == 4:
        h.check(v.build == parts[3], "build")
    else:
        h.check(v.build is None, "no build")


def read(h, n, which):
    """One part any number, or all of them."""
    parts = [20, 8, 4, 2576][:n]
    for i in which:
        parts[i] = h.int("v%d" % i, 0, 9999 if i == 3 else 99)
    text = vtext(parts)
    evs = project(text, [K.E(156, K.u32(140000))], build=h.choose("build", 2) == 1)
    p = K.parse(h, evs)
    same(h, p.version, parts)
    h.check(str(p.version) == text, "version as text")
    h.check(K.save(h, p) == K.flp(evs), "saved file")


def shown(h, n):
    parts = parts_of(h, n)
    h.check(str(FLVersion(*parts)) == vtext(parts), "version as text")


def setting(h, n, kind, which, m, build):
    """A version of n parts replaces one of m parts."""
    old = h.int("old", 0, 2 ** 32 - 1)
    tail = [K.E(156, h.bytes("tempo", 4)), K.E(12, h.bytes("vol", 1))]
    before = ["20.8.4", "20.8.4.2576"][m - 3]
    p = K.parse(h, project(before, tail, build, old))
    parts = [21, 3, 5, 1212][:n]
    for i in which:
        parts[i] = h.int("v%d" % i, 0, 9999 if i == 3 else 99)
    if 0 in which:
        h.assume(h.any([parts[0] > 11]))  # keep the encoding of text
    if kind == "FLVersion":
        v = FLVersion(*parts)
    elif kind == "str":
        v = vtext(parts)
    elif kind == "list":
        v = list(parts)
    else:
        v = tuple(parts)
    p.version, p.mixer, p.arrangements  # looking at it first must not matter
    p.version = v
    same(h, p.version, parts)
    want = project(vtext(parts), tail, build, parts[3] if n == 4 else old)
    h.check(K.save(h, p) == K.flp(want), "saved file")
    same(h, K.pyflp.parse(h.path("out.flp")).version, parts)


def twice(h, kinds):
    """One version after another."""
    tail = [K.E(12, h.bytes("vol", 1))]
    p = K.parse(h, project("20.8.4.2576", tail))
    build = 2576
    for k, kind in enumerate(kinds):
        parts = [h.int("a%d" % k, 12, 99), 3, 5, h.int("b%d" % k, 0, 99)][:3 + (kind[0] == "4")]
        v = {"f": lambda: FLVersion(*parts), "s": lambda: vtext(parts), "t": lambda: tuple(parts)}[kind[1]]()
        p.version = v
        same(h, p.version, parts)
        if len(parts) == 4:
            build = parts[3]
    h.check(K.save(h, p) == K.flp(project(vtext(parts), tail, True, build)), "saved file")


def lex(h, a, b):
    """a < b, part by part."""
    out = a[-1] < b[-1]
    for x, y in zip(a[-2::-1], b[-2::-1]):
        out = h.any([x < y, h.all([x == y, out])])
    return out


def order(h, na, nb):
    a = [h.int("a%d" % i, 0, 2 ** 16) for i in range(na)]
    b = [h.int("b%d" % i, 0, 2 ** 16) for i in range(nb)]
    va, vb = FLVersion(*a), FLVersion(*b)
    ka = a + [0] * (3 - na) if na < 4 else a
    kb = b + [0] * (3 - nb) if nb < 4 else b
    ka = ka + [-1] if na < 4 else ka
    kb = kb + [-1] if nb < 4 else kb
    lt, gt = lex(h, ka, kb), lex(h, kb, ka)
    eq = h.all([x == y for x, y in zip(ka, kb)])
    h.check((va < vb) == lt, "<")
    h.check((va > vb) == gt, ">")
    h.check((va == vb) == eq, "==")
    h.check((va != vb) == h.lnot(eq), "!=")
    h.check((va <= vb) == h.any([lt, eq]), "<=")
    h.check((va >= vb) == h.any([gt, eq]), ">=")


def at_least(h, v, key):
    return h.lnot(lex(h, v, key))


def around(h, key, n):
    """A version whose parts are within one of the key's, with any build or none."""
    parts = []
    for i in range(3):
        parts.append(h.int("v%d" % i, max(0, key[i] - 1), key[i] + 1))
    if n == 4:
        parts.append(h.int("v3", 0, 9999))
    return parts


def anywhere(h, n, lo, hi):
    parts = [h.int("v0", lo, hi), h.int("v1", 0, 25), h.int("v2", 0, 25)]
    if n == 4:
        parts.append(h.int("v3", 0, 99))
    return parts


def version_in(h, key, n):
    return around(h, key, n) if len(key) == 3 else anywhere(h, n, *key)


def tracks(h, key, n):
    v = version_in(h, key, n)
    p = K.parse(h, project(vtext(v), [K.E(99, K.u16(0)), K.E(100, K.u16(0))]))
    new = at_least(h, v[:3], [12, 9, 1])
    h.check(p.arrangements.max_tracks == h.ite(new, 500, 199), "maximum number of tracks")


def playlist(h, key, n):
    """The index of an item's track counts from the maximum."""
    v = version_in(h, key, n)
    item = K.u32(7) + K.u16(20480) + K.u16(2) + K.u32(9)
    rv = h.ite(at_least(h, v[:3], [12, 9, 1]), 498, 197)
    item = item + rv.to_bytes(2, "little") + K.u16(0) + b"\0" * 16
    p = K.parse(h, project(vtext(v), [K.GROUP, *K.channel(2), K.E(99, K.u16(0)), K.E(233, item), K.E(238, K.u32(1)),
                                      K.E(238, K.u32(2)), K.E(238, K.u32(3)), K.E(100, K.u16(0))]))
    h.check([len(t) for t in list(p.arrangements)[0].tracks] == [0, 1, 0], "track of an item")


INSERTS = [((1, 6, 5), 5), ((2, 0, 1), 8), ((3, 0, 0), 18), ((3, 3, 0), 20), ((4, 0, 0), 64), ((9, 0, 0), 105), ((12, 9, 0), 127)]
SLOTS = [((1, 6, 5), 4), ((3, 0, 0), 8)]


def limit(h, v, table, last):
    """The number listed for the next listed version."""
    out = last
    for key, n in table[::-1]:
        out = h.ite(lex(h, v[:3], list(key)), n, out)
    return out


def exactly(h, v, table):
    return h.any([h.all([a == b for a, b in zip(v, key)]) for key, _ in table])


def mixer(h, key, n):
    v = version_in(h, key, n)
    p = K.parse(h, project(vtext(v), K.insert()))
    m = p.mixer
    up = lambda t, last: [(t[i + 1][0] if i + 1 < len(t) else (99, 0, 0), x[1]) for i, x in enumerate(t)]
    got, want = m.max_inserts, limit(h, v, INSERTS, 127)
    if h.fork(exactly(h, v, INSERTS)):
        own = 127
        for k, x in INSERTS:
            own = h.ite(h.all([a == b for a, b in zip(v, k)]), x, own)
        h.check(h.any([got == want, got == own]), "maximum number of inserts at a listed version")
    else:
        h.check(got == want, "maximum number of inserts")
    got, want = m.max_slots, limit(h, v, SLOTS, 10)
    if h.fork(exactly(h, v, SLOTS)):
        own = 10
        for k, x in SLOTS:
            own = h.ite(h.all([a == b for a, b in zip(v, k)]), x, own)
        h.check(h.any([got == want, got == own]), "maximum number of slots at a listed version")
    else:
        h.check(got == want, "maximum number of slots")


def tempo(h, key, n, what):
    """Tempos on both sides of the limit of a version."""
    v = version_in(h, key, n)
    p = K.parse(h, project(vtext(v), [K.E(156, K.u32(100000))]))
    wide = h.all([at_least(h, v[:3], [1, 4, 2]), lex(h, v[:3], [11, 0, 0])])
    if what == "int":
        t = h.int("t", 0, 1100)
        top = h.ite(wide, 999, 522)
        ok = h.all([t >= 10, t <= top])
        if h.fork(ok):
            p.tempo = t
            h.check(K.save(h, p) == K.flp(project(vtext(v), [K.E(156, (t * 1000).to_bytes(4, "little"))])), "an allowed tempo")
        else:
            h.check(h.raises(lambda: setattr(p, "tempo", t), ValueError) is not None, "a forbidden tempo")
            h.check(p.tempo == 100, "tempo after a refusal")
    else:
        frac = at_least(h, v[:3], [3, 4, 0])
        if h.fork(frac):
            p.tempo = 120.5
            h.check(p.tempo == 120.5, "a fractional tempo")
        else:
            h.check(h.raises(lambda: setattr(p, "tempo", 120.5), TypeError) is not None, "a fractional tempo in an old version")
            h.check(p.tempo == 100, "tempo after a refusal")


def codec(h, key, n):
    v = version_in(h, key, n)
    new = at_least(h, v[:2], [11, 5])
    t = h.text("t", 2, 1, 127)
    if h.fork(new):
        p = K.parse(h, project(vtext(v), [K.E(194, K.utf16(t))]))
    else:
        p = K.parse(h, project(vtext(v), [K.E(194, t.encode("ascii") + b"\0")]))
    h.check(p.title == t, "text in the encoding of the version")


def cases(tier):
    deep = tier != "quick"
    out = []
    for n in (3, 4):
        for which in [(i,) for i in range(n)] + [(0, 1), (1, 2)] + (
                [(0, 3), (2, 3)] if n == 4 else [(0, 1, 2)] if deep else []):
            out.append(Case("read/%d/%s" % (n, "".join(map(str, which))), read, (n, which), weight=len(which) * 3, paths=20000))
        out.append(Case("text/%d" % n, shown, (n,), weight=3))
        for kind in ("FLVersion", "str", "tuple", "list"):
            for which in [(i,) for i in range(n)] + [(1, 2)] + ([(2, 3)] if n == 4 else []):
                for m in (3, 4):
                    for build in (True, False):
                        out.append(Case("set/%d/%s/%s/over %d%s" % (n, kind, "".join(map(str, which)), m,
                                                                    "" if build else "/no build"),
                                        setting, (n, kind, which, m, build), weight=len(which) * 2))
    for a in ("3f", "4f", "3s", "4s", "3t", "4t"):
        for b in ("3s", "4f", "4t"):
            out.append(Case("set twice/%s %s" % (a, b), twice, ((a, b),), weight=3))
    for na in (1, 2, 3, 4):
        for nb in (1, 2, 3, 4):
            out.append(Case("order/%d %d" % (na, nb), order, (na, nb), weight=2))
    spans = [(0, 0), (1, 1), (2, 2), (3, 3), (4, 8), (9, 10), (11, 11), (12, 12), (13, 25)]
    for n in (3, 4):
        for key in [(12, 9, 1)] + spans:
            out.append(Case("tracks/%s/%d" % (key, n), tracks, (key, n)))
        for key in [(12, 9, 1)] + spans:
            out.append(Case("playlist/%s/%d" % (key, n), playlist, (key, n)))
        for key in [k for k, _ in INSERTS] + spans:
            out.append(Case("mixer/%s/%d" % (key, n), mixer, (key, n), weight=3))
        for key in [(1, 4, 2), (11, 0, 0), (3, 4, 0)] + spans:
            out.append(Case("tempo/%s/%d" % (key, n), tempo, (key, n, "int"), weight=3))
            out.append(Case("fraction/%s/%d" % (key, n), tempo, (key, n, "float"), weight=3))
        for key in [(11, 5, 0)] + spans:
            out.append(Case("codec/%s/%d" % (key, n), codec, (key, n)))
    return out
