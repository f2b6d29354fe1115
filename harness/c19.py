"""C19: the licensee."""
from engine.api import Case

from pyflp.exceptions import PropertyCannotBeSet

from . import common as K

META = {
    "entry": ["Project.licensee and its setter", "pyflp.save"],
    "bounds": "names of 0..74 characters; any letter or digit at each position 0..73 (one position at a time, and any two adjacent "
              "ones, among fixed others); both text encodings; an empty and another earlier licensee",
    "outside": "names longer than 74 characters (the format cannot hold digits there); stored texts which are no coded name; more than "
               "two symbolic characters at a time (three thorough)",
    "assumptions": [],
}

FILL = "PyFlpLicensee0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
NEW, OLD = "20.8.4.2576", "11.4.9.100"


def letter(h, name):
    t = h.text(name, 1, 48, 122)
    h.assume(h.any([t <= "9", h.all([t >= "A", t <= "Z"]), t >= "a"]))
    return t


def code(h, c, idx):
    """The stored character of a letter or digit at a position: a function of its code."""
    x = ord(c) + 26 - idx
    return h.ite(x <= 127, x, ord(c) - 49 - idx)


def alnum(h, v):
    return h.any([h.all([v >= 48, v <= 57]), h.all([v >= 65, v <= 90]), h.all([v >= 97, v <= 122])])


def decodes(h, x, idx, c):
    """The stored code x at a position stands for c."""
    a = x - 26 + idx
    b = x + 49 + idx
    return h.ite(alnum(h, a), a, b) == ord(c)


def text(codes):
    out = ""
    for c in codes:
        out = out + chr(c)
    return out


def enc(v, t):
    return t.encode("utf-16-le") + b"\0\0" if v == NEW else t.encode("ascii") + b"\0"


def file(h, v, stored, absent=False):
    return [K.version(v), K.E(159, K.u32(1)), K.E(12, h.bytes("l", 1)), *([] if absent else [K.E(200, enc(v, stored))]),
            K.E(194, enc(v, "t"))]


def name_of(h, n, where):
    name = FILL[:n]
    for k in where:
        name = name[:k] + letter(h, "c%d" % k) + name[k + 1:]
    return name


def read(h, v, n, where):
    name = name_of(h, n, where)
    codes = []
    for i in range(n):
        codes.append(code(h, name[i], i))
    evs = file(h, v, text(codes))
    p = K.parse(h, evs)
    h.check(p.licensee == name, "licensee")
    h.check(K.save(h, p) == K.flp(evs), "saved file")


def setting(h, v, n, where, old):
    name = name_of(h, n, where)
    p = K.parse(h, file(h, v, text([code(h, c, i) for i, c in enumerate(old)])))
    h.check(p.licensee == old, "licensee before setting it")
    p.licensee = name
    h.check(p.licensee == name, "licensee after setting it")
    e = [e for e in p.events if e.id == 200]
    h.check(len(e) == 1, "licensee event")
    stored = e[0].value
    h.check(len(stored) == n, "length of the stored text")
    for i in range(n):
        h.check(decodes(h, ord(stored[i]), i, name[i]), "stored character %d" % i)
    h.check(K.save(h, p) == K.flp(file(h, v, stored)), "saved file")
    h.check(K.pyflp.parse(h.path("out.flp")).licensee == name, "licensee after reopening")


def twice(h, v):
    a, b = name_of(h, 3, (1,)), name_of(h, 6, (4,))
    p = K.parse(h, file(h, v, text([code(h, c, i) for i, c in enumerate("Abc")])))
    p.licensee = b
    p.licensee = a
    h.check(p.licensee == a, "licensee after setting it twice")
    p.licensee = p.licensee
    h.check(p.licensee == a, "licensee set to itself")
    K.save(h, p)
    h.check(K.pyflp.parse(h.path("out.flp")).licensee == a, "licensee after reopening")


def none(h, v):
    evs = file(h, v, "", absent=True)
    p = K.parse(h, evs)
    h.check(p.licensee is None, "no licensee")
    name = name_of(h, 3, (1,))
    h.check(h.raises(lambda: setattr(p, "licensee", name), PropertyCannotBeSet) is not None, "setting an absent licensee")
    h.check(K.save(h, p) == K.flp(evs), "saved file")


def cases(tier):
    deep = tier != "quick"
    out = []
    for v in (NEW, OLD):
        out += [Case("none/" + v, none, (v,)), Case("twice/" + v, twice, (v,))]
        for n in range(75):
            ws = [()] if n == 0 else [(n - 1,)] + ([(n - 2, n - 1)] if n > 1 else [])
            if deep and n > 2:
                ws += [(n - 3, n - 2, n - 1), (0, n // 2, n - 1)]
            for w in ws:
                tag = "%s/%d/%s" % (v, n, "-".join(map(str, w)))
                if v == NEW or n % 8 < 2 or deep:
                    out.append(Case("read/" + tag, read, (v, n, w), weight=len(w)))
                    for old in ("", "Someone"):
                        if old or deep or n < 4:
                            out.append(Case("set/%s over %s" % (tag, old or "nothing"), setting, (v, n, w, old), weight=len(w) * 2))
        for w in ((0,), (1,), (5,), (0, 73), (40, 60)):
            out.append(Case("read/%s/74/%s" % (v, w), read, (v, 74, w)))
            out.append(Case("set/%s/74/%s" % (v, w), setting, (v, 74, w, "Someone")))
    return out
