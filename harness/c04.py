"""C04: texts are read and written in the encoding of the project's FL Studio version."""
from engine.api import Case

from . import common as K
from . import model as M
from . import spec as S

META = {
    "entry": ["pyflp.parse", "Project and everything reachable from it", "pyflp.save"],
    "bounds": "all 18 text events; texts of 0..4 characters (40 thorough) over all of Unicode (UTF-16) or ASCII; "
              "version numbers with 1..2 symbolic digits each for major and minor; payload lengths around 128 bytes, "
              "texts of 300, 5000 and 40000 characters (4 of them symbolic)",
    "outside": "several trailing NULs or a missing one, unpaired surrogates; moving a project across version 11.5 (F09); old texts "
               "which are not ASCII (F10)",
    "assumptions": ["every stored text ends in exactly one NUL"],
}

OLD = (K.version("9.1.0"),)
IDS = [*range(192, 199), *range(200, 208), 231, 239, 241]

# (label, id, events around it, how to read it) - the text events behind a documented property
TEXTS = [f for f in M.SIMPLE if f.kind == "s"]


def ascii_file(events):
    """The same project as an old version would have written it."""
    out = []
    for e in events:
        if e == K.HEAD[0]:
            out.append(OLD[0])
        elif e == K.GROUP:
            out.append(K.E(231, b"Unsorted\0"))
        elif e == K.E(205, K.utf16("one")):
            out.append(K.E(205, b"one\0"))
        elif e == K.E(205, K.utf16("last")):
            out.append(K.E(205, b"last\0"))
        else:
            out.append(e)
    return out


def roundtrip(h, id, n, mode):
    if mode == "ascii":
        t = h.text("t", n, 1, 127)
        file = K.flp([*OLD, K.E(id, t.encode("ascii") + b"\0"), K.E(12, h.bytes("w", 1))])
    else:
        t = h.text("t", n, 1, 0x10FFFF if mode == "all" else 0xD7FF)
        file = K.flp([*K.HEAD, K.E(id, K.utf16(t)), K.E(12, h.bytes("w", 1))])
    h.check(K.save(h, K.pyflp.parse(h.put(file))) == file, "saved file differs")


def read(h, f, n, mode):
    if mode == "ascii":
        t = h.text("t", n, 1, 127)
        p = K.parse(h, ascii_file(f.ctx(K.E(f.id, t.encode("ascii") + b"\0"))))
    else:
        t = h.text("t", n, 1, 0x10FFFF)
        p = K.parse(h, f.ctx(K.E(f.id, K.utf16(t))))
    h.check(f.get(p) == t, f.name)


def write(h, f, n, mode):
    t = h.text("t", n, 1, 127 if mode == "ascii" else 0x10FFFF)
    if mode == "ascii":
        ev = lambda x: ascii_file(f.ctx(K.E(f.id, x.encode("ascii") + b"\0")))
    else:
        ev = lambda x: f.ctx(K.E(f.id, K.utf16(x)))
    p = K.parse(h, ev("ab"))
    f.set(p, t)
    h.check(f.get(p) == t, f.name + " right after setting it")
    h.check(K.save(h, p) == K.flp(ev(t)), f.name + ": saved file")
    h.check(f.get(K.pyflp.parse(h.path("out.flp"))) == t, f.name + " after saving and loading")


def long_text(h, n, mode):
    """A long text is kept, and can replace another one."""
    t = h.text("t", 2, 1, 127 if mode == "ascii" else 0xD7FF) + "x" * (n - 4) + h.text("u", 2, 1, 127 if mode == "ascii" else 0xD7FF)
    if mode == "ascii":
        ev = lambda x: [*OLD, K.E(194, x.encode("ascii") + b"\0"), K.E(12, K.u8(1))]
    else:
        ev = lambda x: [*K.HEAD, K.E(194, K.utf16(x)), K.E(12, K.u8(1))]
    p = K.parse(h, ev(t))
    h.check(p.title == t, "long title")
    h.check(K.save(h, p) == K.flp(ev(t)), "saved file")
    p = K.parse(h, ev("a"))
    p.title = t
    h.check(K.save(h, p) == K.flp(ev(t)), "saved file with a long title")
    h.check(K.pyflp.parse(h.path("out.flp")).title == t, "long title after reopening")


def inner_nul(h, n, mode):
    """A NUL inside a text does not make what follows it disappear from the file."""
    t = h.text("t", n, 0, 127 if mode == "ascii" else 0xD7FF) + "z"
    ev = [*OLD, K.E(194, t.encode("ascii") + b"\0")] if mode == "ascii" else [*K.HEAD, K.E(194, K.utf16(t))]
    h.check(K.save(h, K.parse(h, ev)) == K.flp(ev), "saved file differs")


def threshold(h, nmaj, nmin, rest):
    """Unicode exactly from version 11.5 on."""
    ma, mi = h.text("major", nmaj, 48, 57), h.text("minor", nmin, 48, 57)
    num = lambda s: sum((ord(ch) - 48) * 10 ** (len(s) - 1 - i) for i, ch in enumerate(s))
    major, minor = num(ma), num(mi)
    t = h.text("t", 2, 1, 127)
    new = h.any([major > 11, h.all([major == 11, minor >= 5])])
    ver = K.E(199, (ma + "." + mi + rest).encode("ascii") + b"\0")
    if new:
        text = K.utf16(t)
    else:
        text = t.encode("ascii") + b"\0"
    file = K.flp([ver, K.E(194, text)])
    p = K.pyflp.parse(h.put(file))
    h.check(p.title == t, "title for this version")
    h.check(K.save(h, p) == file, "saved file for this version")


def version_event(h, old):
    """The version itself is ASCII in every version and survives."""
    d = h.text("d", 1, 49, 57)
    v = ("3." + d + ".0") if old else ("2" + d + ".0.0." + h.text("b", 3, 49, 57))
    file = K.flp([K.E(199, v.encode("ascii") + b"\0"), K.E(12, h.bytes("w", 1))])
    h.check(K.save(h, K.pyflp.parse(h.put(file))) == file, "saved file differs")


def not_ascii(h):
    """A character an old project cannot store is refused; the text is never stored as something else."""
    p = K.parse(h, [*OLD, K.E(194, b"ab\0")])
    t = h.text("t", 2, 1, 0xD7FF)
    p.title = t
    try:
        out = K.save(h, p)
    except Exception:
        h.check(h.any([ord(c) > 127 for c in t]), "ASCII text refused")
        return
    h.check(out == K.flp([*OLD, K.E(194, t.encode("latin-1", "replace") + b"\0")]) if h.all([ord(c) < 128 for c in t])
            else False, "text an old project cannot hold was stored")


def version_change(h):
    """A known finding: texts stay in the encoding of the version the project was opened with."""
    t = h.text("t", 2, 1, 127)
    p = K.parse(h, [*K.HEAD, K.E(194, K.utf16(t))])
    p.version = "9.1.0"
    K.save(h, p)
    q = K.pyflp.parse(h.path("out.flp"))
    h.check(q.title == t, "title after the version changed")


def high_byte(h):
    """A known finding: an old text with a byte above 127."""
    b = h.int("b", 128, 255)
    e = h.raises(lambda: K.parse(h, [*OLD, K.E(194, b.to_bytes(1, "little") + b"\0")]), Exception)
    h.check(e is None, "opening an old project with an accented title")


def order(h):
    """A project with texts before and after other events, set in some order."""
    a, b = h.text("a", 2, 1, 0xD7FF), h.text("b", 3, 1, 0xD7FF)
    ev = lambda x, y: [*K.HEAD, K.E(194, K.utf16(x)), K.E(12, K.u8(3)), K.E(207, K.utf16(y)), K.E(206, K.utf16("g"))]
    p = K.parse(h, ev("x", "y"))
    p.artists = b
    p.title = a
    h.check(h.all([p.title == a, p.artists == b, p.genre == "g"]), "texts after setting two")
    h.check(K.save(h, p) == K.flp(ev(a, b)), "saved file after setting two texts")


def cases(tier):
    deep = tier != "quick"
    out = []
    for id in IDS:
        for mode in ("ascii", "bmp") + (("all",) if id in (194, 203, 241) or deep else ()):
            for n in (0, 1, 4) if not deep else (0, 1, 4, 40):
                if n > 1 and mode == "all":
                    n = 2
                out.append(Case("%s/event %d/%d" % (mode, id, n), roundtrip, (id, n, mode)))
    for n in (62, 63, 64, 65, 126, 127, 128):
        out.append(Case("length/%d" % n, roundtrip, (194, n, "bmp"), weight=3))
        out.append(Case("length ascii/%d" % n, roundtrip, (194, n, "ascii"), weight=2))
    for n in (300, 5000, 40000):
        out.append(Case("length long/%d" % n, long_text, (n, "all"), weight=3))
        out.append(Case("length long ascii/%d" % n, long_text, (n, "ascii"), weight=3))
    for n in (2, 4):
        for mode in ("ascii", "bmp"):
            out.append(Case("length inner NUL/%s/%d" % (mode, n), inner_nul, (n, mode)))
    for f in TEXTS:
        for mode in ("ascii", "all"):
            for n in (0, 1, 3):
                if mode == "ascii" and f.id in (239, 241):
                    continue  # arrangements and named tracks came with FL 20
                if mode == "all" and n == 3 and not deep:
                    n = 2
                out.append(Case("%s read/%s %d" % (f.name, mode, n), read, (f, n, mode)))
                out.append(Case("%s write/%s %d" % (f.name, mode, n), write, (f, n, mode), weight=2))
    for nmaj in (1, 2):
        for nmin in (1, 2):
            for rest in (".0", ".12.345", ""):
                out.append(Case("version %dx%d%s" % (nmaj, nmin, rest), threshold, (nmaj, nmin, rest), weight=4))
    out += [Case("version event/new", version_event, (False,)), Case("version event/old", version_event, (True,)),
            Case("not ascii", not_ascii, weight=3), Case("two texts", order),
            Case("finding/version change", version_change, finding="F09"), Case("finding/high byte", high_byte, finding="F10")]
    seen, uniq = set(), []
    for c in out:
        if c.name not in seen:
            seen.add(c.name)
            uniq.append(c)
    return uniq
