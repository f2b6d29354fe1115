"""C14: refused assignments raise and change nothing."""
from engine.api import Case

from . import common as K
from . import model as M
from . import spec as S

META = {
    "entry": ["setters of Project, channels, patterns, notes, arrangements, mixer and plugins", "pyflp.save"],
    "bounds": "timebase and note keys: all integers of 33 bits; channel counts -2^33..2^17; tempos: all integers of 33 bits, all "
              "quarters in -64..1100 and all thousandths within 2 of each limit, for 9 versions; note names of 1..3 ASCII "
              "characters; versions of 0..6 parts and texts of 1..3 characters; 420 settable properties with an absent event; "
              "all fields absent from each shorter form of their event; 31 options of VST plugins whose record is absent or short; read-only properties",
    "outside": "values no stored field can hold (C16); replacing whole sub-objects, which has no effect on the project",
    "assumptions": [],
}


def refused(h, p, evs, fn, read, label, **kw):
    """fn() raises, and p reads (see `read`) and saves as before."""
    before = read(p)
    e = h.raises(fn, Exception)
    h.check(e is not None, label + " is refused")
    after = read(p)
    h.check(h.eq(after, before), label + ": reads as before")
    h.check(K.save(h, p) == K.flp(evs, **kw), label + ": saves as before")
    return e


# ------------------------------------------------------------------ project
def project(h, version="20.8.4.2576", tempo=b"\xe0\x22\x02\x00"):
    return [K.version(version), K.E(159, K.u32(2576)), K.E(156, tempo), K.E(12, h.bytes("mv", 1))]


def ppq(h):
    evs = project(h)
    k = h.choose("k", len(K.VALID_PPQ))
    p = K.parse(h, evs, ppq=K.VALID_PPQ[k])
    v = h.int("v", -2 ** 32, 2 ** 32 - 1)
    ok = h.any([v == x for x in K.VALID_PPQ])
    if h.fork(ok):
        p.ppq = v
        h.check(p.ppq == v, "an allowed timebase")
        h.check(K.save(h, p) == K.flp(evs, ppq=h.fork(v)), "an allowed timebase is saved")
    else:
        refused(h, p, evs, lambda: setattr(p, "ppq", v), lambda p: p.ppq, "timebase", ppq=K.VALID_PPQ[k])


def channel_count(h):
    evs = project(h)
    n = h.int("n", 0, 65535)
    p = K.parse(h, evs, nch=n)
    v = h.int("v", -2 ** 33, 2 ** 17)
    if h.fork(v < 0):
        refused(h, p, evs, lambda: setattr(p, "channel_count", v), lambda p: p.channel_count, "channel count", nch=n)
    else:
        p.channel_count = v
        h.check(p.channel_count == v, "an allowed channel count")
        if h.fork(v < 65536):
            h.check(K.save(h, p) == K.flp(evs, nch=v), "an allowed channel count is saved")


VERSIONS = {"1.4.1": 522, "1.4.2": 999, "3.3.9": 999, "3.4.0": 999, "10.9.9": 999, "10.99.0.1": 999, "11.0.0": 522,
            "11.0.1": 522, "20.8.4.2576": 522}


def parts(v):
    return tuple(int(x) for x in v.split("."))


def old_tempo(h, v, form):
    """The ways versions store a tempo of 100.5 or 100."""
    head = [K.version(v)]
    if form == "new":
        return head + [K.E(156, K.u32(100500)), K.E(12, h.bytes("mv", 1))]
    if form == "coarse":
        return head + [K.E(66, K.u16(100)), K.E(12, h.bytes("mv", 1))]
    return head + [K.E(66, K.u16(100)), K.E(93, K.u16(500)), K.E(12, h.bytes("mv", 1))]


def allowed(h, v, form, whole, thousandths, p):
    """The file holds the new tempo."""
    want = [K.version(v)]
    if form == "new":
        want.append(K.E(156, (whole * 1000 + thousandths).to_bytes(4, "little")))
    else:
        want.append(K.E(66, whole.to_bytes(2, "little")))
        if form == "both":
            want.append(K.E(93, K.u16(thousandths)))
    want.append(K.E(12, h.bytes("mv", 1)))
    h.check(K.save(h, p) == K.flp(want), "an allowed tempo")


def tempo_int(h, v, form, wide):
    evs = old_tempo(h, v, form)
    p = K.parse(h, evs)
    t = h.int("t", -2 ** 32, 2 ** 32 - 1) if wide else h.int("t", -1, 1100)
    if wide:
        h.assume(h.any([t < 10, t > VERSIONS[v]]))
    if not wide and h.fork(h.all([t >= 10, t <= VERSIONS[v]])):
        p.tempo = t
        allowed(h, v, form, t, 0, p)
    else:
        refused(h, p, evs, lambda: setattr(p, "tempo", t), lambda p: p.tempo, "tempo")


def tempo_float(h, v, form, lo, hi, div):
    evs = old_tempo(h, v, form)
    p = K.parse(h, evs)
    k = h.int("k", lo, hi)
    t = h.flo(k, lambda x: x / div)
    bad = h.any([k < 10 * div, k > VERSIONS[v] * div])
    if parts(v) < (3, 4, 0):
        e = refused(h, p, evs, lambda: setattr(p, "tempo", t), lambda p: p.tempo, "fractional tempo")
        h.check(isinstance(e, TypeError), "error for a fractional tempo")
    elif h.fork(bad):
        refused(h, p, evs, lambda: setattr(p, "tempo", t), lambda p: p.tempo, "tempo")
    else:
        p.tempo = t
        allowed(h, v, form, k // div, k % div * (1000 // div), p)


def no_tempo(h, what):
    evs = [*K.HEAD, K.E(12, h.bytes("mv", 1))] + ([K.E(93, h.bytes("fine", 2))] if what == "fine" else [])
    p = K.parse(h, evs)
    t = h.int("t", 10, 522)
    refused(h, p, evs, lambda: setattr(p, "tempo", t), lambda p: p.tempo, "tempo without an event")


def version_parts(h, n, kind):
    evs = project(h)
    p = K.parse(h, evs)
    v = [h.int("p%d" % i, 1, 20) for i in range(n)]
    v = [h.fork(x) if kind == "str" else x for x in v] if n < 2 else [v[0], *range(2, n + 1)]
    if kind == "str":
        v = ".".join(str(h.fork(x)) for x in v)
    else:
        v = tuple(v)
    refused(h, p, evs, lambda: setattr(p, "version", v), lambda p: (p.version.major, p.version.minor, p.version.patch,
                                                                    p.version.build), "version")


def version_text(h, tail, n):
    """One part is not a number."""
    evs = project(h)
    p = K.parse(h, evs)
    t = h.text("t", n, 33, 126)
    for i in range(n):
        h.assume(t[i] != ".")
    h.assume(h.any([h.any([t[i] < "0", t[i] > "9"]) for i in range(n)]))
    # int() takes signs and single underscores between digits
    h.assume(t[0] != "+")
    h.assume(t[0] != "-")
    for i in range(n):
        h.assume(t[i] != "_")
    refused(h, p, evs, lambda: setattr(p, "version", tail[0] + t + tail[1]), lambda p: p.version.major, "version")


# ------------------------------------------------------------------ notes
NAMES = ("C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B")


def note_file(h):
    a, b, c = [S.payload(h, x, S.NOTE) for x in "abc"]
    off = S.offset(S.NOTE, "key")[0]
    b = K.splice(b, off, K.u16(61))
    return [*K.HEAD, K.E(65, K.u16(1)), K.E(224, a + b + c)], off, (a, b, c)


def note(p):
    return list(list(p.patterns)[0].notes)[1]


def key_int(h):
    evs, off, (a, b, c) = note_file(h)
    p = K.parse(h, evs)
    v = h.int("v", -2 ** 32, 2 ** 32 - 1)
    if h.fork(h.all([v >= 0, v <= 131])):
        note(p).key = v
        want = [*K.HEAD, K.E(65, K.u16(1)), K.E(224, a + K.splice(b, off, v.to_bytes(2, "little")) + c)]
        h.check(K.save(h, p) == K.flp(want), "an allowed key")
    else:
        refused(h, p, evs, lambda: setattr(note(p), "key", v), lambda p: note(p).key, "key")


def valid_key(s):
    for i, n in enumerate(NAMES):
        o = s[len(n):]
        if s.startswith(n) and o and all(c in "0123456789" for c in o):
            return int(o) * 12 + i <= 131
    return False


def key_name(h, n, first):
    """Names of n ASCII characters which are not the name of a note."""
    evs, off, _ = note_file(h)
    p = K.parse(h, evs)
    t = first + h.text("t", n - len(first), 1, 127)
    good = h.any([t == x for x in VALID[n]])
    if h.fork(good):
        note(p).key = t
        h.check(h.any([h.all([t == x, note(p).key == canonical(x)]) for x in VALID[n]]), "an allowed key name")
    else:
        refused(h, p, evs, lambda: setattr(note(p), "key", t), lambda p: note(p).key, "key name")


def canonical(t):
    name = t.rstrip("0123456789")
    return name + str(int(t[len(name):]))


def key_octave(h, name):
    """Octaves too high."""
    evs, off, _ = note_file(h)
    p = K.parse(h, evs)
    o = h.int("o", 11, 40)
    t = name + str(h.fork(o))
    refused(h, p, evs, lambda: setattr(note(p), "key", t), lambda p: note(p).key, "key name")


VALID = {2: [], 3: [], 1: [], 4: []}
for _k in range(132):
    _t = NAMES[_k % 12] + str(_k // 12)
    VALID[len(_t)].append(_t)
for _z in [n + "0%d" % o for n in NAMES for o in range(10)]:
    VALID[len(_z)].append(_z)


# ------------------------------------------------------------------ absent events and fields
def value(h, f):
    k = f.kind
    if k in ("u", "i", "fl", "fli", "lin"):
        return h.int("new", 0, 127)
    if k in ("b", "b4", "bit"):
        return h.bool("new")
    if k in ("t", "t2"):
        return (h.int("new", 0, 127), 1)
    if k == "s":
        return h.text("new", 2)
    if k == "f":
        return h.f32("new")
    if k == "c":
        from pyflp.types import RGBA
        return RGBA(0.0, 1.0, 0.0, 1.0)
    if k in ("e", "ei"):
        return sorted(f.extra)[-1]
    if k in ("log2", "ln"):
        return 1.0
    if k == "ht":
        return "50%"
    raise KeyError(k)


def reading(h, fs):
    def read(p):
        out = []
        for f in fs:
            try:
                v = f.get(p)
            except KeyError:
                v = "KeyError"
            out.append(v)
        return out
    return read


def absent(h, f):
    evs = f.ctx(K.E(210, h.bytes("v", 1)), None)
    p = K.parse(h, evs)
    v = value(h, f)
    refused(h, p, evs, lambda: f.set(p, v), reading(h, [f]), f.name + " without its event")


def truncated(h, fs, f, n):
    """f is not part of the n bytes of its event."""
    data = S.payload(h, "f", f.layout, n, None)
    size = S.size(f.layout)
    evs = f.ctx(K.E(f.id, data), K.E(f.id, bytes(size)) if f.id != 213 else None)
    p = K.parse(h, evs)
    v = value(h, f)
    plain = [g for g in fs if g.kind in ("u", "i", "fl", "fli", "b", "b4", "bit")]
    refused(h, p, evs, lambda: f.set(p, v), reading(h, plain), f.name + " of a shorter event")


def readonly(h, obj, attr, ctx, ev):
    evs = ctx(ev(h), None)
    p = K.parse(h, evs)
    got = obj(p)
    n = h.int("n", 0, 1000)
    refused(h, p, evs, lambda: setattr(got, attr, n), lambda p: _show(getattr(obj(p), attr)), attr)


def _show(v):
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return type(v).__name__


def stamp(h):
    return K.E(237, bytes(16))


def flag(i):
    return lambda h: K.E(i, h.int("v", 0, 1).to_bytes(1, "little"))


def none(h):
    return K.E(210, h.bytes("v", 1))


def auto(h):
    return K.E(234, bytes(17) + K.u32(2) + bytes(6) + b"\xe0\x3f" + h.bytes("q", 4) + bytes(12)
               + bytes(6) + b"\xd0\x3f" + bytes(8) + h.bytes("r", 4) + bytes(4))


def position(h):
    return K.E(148, h.int("v", 0, 2 ** 32 - 1).to_bytes(4, "little"))


def insert_flags(h):
    return K.E(236, b"\0\0\0\0" + h.bytes("fl", 2) + b"\0\0\0\0\0\0")



RO = [
    ("position", M.point, M.in_automation, auto), ("group", M.ch, M.in_sampler, none),
    ("position", M.marker, M.in_marker, position), ("type", M.marker, M.in_marker, position),
    ("position", M.pattern_marker, M.in_pattern_marker, position),
    ("iid", M.insert, M.in_insert, insert_flags), ("dock", M.insert, M.in_insert, insert_flags),
    ("eq", M.insert, M.in_insert, insert_flags), ("routes", M.insert, M.in_insert, insert_flags),
    ("created_on", M.project, M.in_project, stamp), ("time_spent", M.project, M.in_project, stamp),
    ("channels", M.project, M.in_project, none), ("patterns", M.project, M.in_project, none),
    ("arrangements", M.project, M.in_project, none), ("mixer", M.project, M.in_project, none),
    ("zipped", M.ch, M.in_sampler, flag(15)), ("zipped", M.ch, M.in_sampler, none), ("display_name", M.ch, M.in_sampler, none),
    ("zipped", M.ch, M.in_instrument, flag(15)), ("zipped", M.ch, M.in_layer, flag(15)),
    ("display_name", M.ch, M.in_automation, none),
    ("max_tracks", M.arrangements, M.in_arrangements, none), ("current", M.arrangements, M.in_arrangements, none),
    ("current", M.patterns, M.in_patterns, none), ("max_inserts", M.mixer, M.in_mixer, none),
    ("max_slots", M.mixer, M.in_mixer, none),
]


def others(h, what):
    """Setters of computed properties without their events."""
    n = h.int("n", 0, 100)
    x = K.E(210, h.bytes("v", 1))
    if what in ("data_path", "licensee"):
        evs = M.in_project(x)
        p = K.parse(h, evs)
        refused(h, p, evs, lambda: setattr(p, what, "abc"), lambda p: getattr(p, what), what)
        return
    if what == "sample_path":
        evs = M.in_sampler(x)
        p = K.parse(h, evs)
        refused(h, p, evs, lambda: setattr(M.ch(p), what, "abc"), lambda p: M.ch(p).sample_path, what)
        return
    if what == "loop_pos":
        evs = M.in_arrangements(x)
        p = K.parse(h, evs)
        refused(h, p, evs, lambda: setattr(p.arrangements, what, (n, n)), lambda p: p.arrangements.loop_pos, what)
        return
    if what in ("pan", "volume", "pitch_shift"):
        evs = M.in_sampler(x)
        p = K.parse(h, evs)
        refused(h, p, evs, lambda: setattr(M.ch(p), what, n), lambda p: getattr(M.ch(p), what), what)
        return
    if what in ("reverb.type", "reverb.mix"):
        evs = M.in_sampler(x)
        p = K.parse(h, evs)
        a = what[7:]

        def put():
            setattr(M.ch(p).fx.reverb, a, type(M.ch(p).fx.reverb).DTYPE(0) if hasattr(type(M.ch(p).fx.reverb), "DTYPE") else n)
        refused(h, p, evs, put, lambda p: getattr(M.ch(p).fx.reverb, a), what)
        return
    raise KeyError(what)


VST_FIELDS = [(sub, a, 2, 13 if w == 1 else 17, "bit") for sub, a, bit, w, inv in M.VST_BITS] + [
    ("compatibility", "fast_idle", 2, 23, "b"), ("midi", "input", 1, 4, "i"), ("midi", "output", 1, 8, "i"),
    ("midi", "pb_range", 1, 12, "u"), ("", "fourcc", 51, 1, "s"), ("", "guid", 52, 1, "y"), ("", "state", 53, 1, "y"),
    ("", "name", 54, 1, "s"), ("", "plugin_path", 55, 1, "s"), ("", "vendor", 56, 1, "s")]
VST_RECORDS = {51: b"abcd", 52: b"\1" * 16, 53: b"state", 54: b"Name", 55: b"/p", 56: b"V"}


def vst(h, sub, attr, id, end, kind, n):
    """A property of a VST plugin whose record has n bytes, or is absent (n is None)."""
    data = K.u32(10)
    for i in (1, 2, 51, 52, 53, 54, 55, 56):
        if i != id or n is not None:
            lay = {1: M.VST_MIDI, 2: M.VST_FLAGS}.get(i)
            size = n if i == id else None
            data = data + M.rec(i, VST_RECORDS[i] if lay is None else b"" if size == 0 else S.payload(h, "r%d" % i, lay, size))
    evs = M.plugin_slot("Fruity Wrapper")(K.E(213, data))
    p = K.parse(h, evs)

    def obj(p):
        pl = M.slot(p).plugin
        return getattr(pl, sub) if sub else pl
    v = {"bit": h.bool, "b": h.bool}.get(kind, lambda name: h.int(name, 0, 127))("new") if kind in ("bit", "b", "i", "u") \
        else h.text("new", 2) if kind == "s" else h.bytes("new", 3)

    def read(p):
        pl = M.slot(p).plugin
        out = []
        for s, a, *_ in VST_FIELDS:
            try:
                out.append(getattr(getattr(pl, s) if s else pl, a))
            except AttributeError:
                out.append("absent")
        return out
    refused(h, p, evs, lambda: setattr(obj(p), attr, v), read, "vst %s.%s not stored" % (sub, attr))


def pairs(h, what, n):
    """A pair given as n values."""
    v = tuple(h.int("n%d" % i, 0, 100) for i in range(n))
    if what == "loop_pos/new":
        evs = M.in_arrangements(K.E(217, h.bytes("f", 8)))
        get, put = lambda p: p.arrangements.loop_pos, lambda p: setattr(p.arrangements, "loop_pos", v)
    else:
        item = K.u32(7) + K.u16(20480) + K.u16(2) + K.u32(9) + K.u16(499) + K.u16(0) + h.bytes("i", 8) + b"\0\0\x20\x41" + b"\0\0\xa0\x41"
        evs = [*K.HEAD, K.GROUP, *K.channel(2), K.E(99, K.u16(0)), K.E(233, item), K.E(238, K.u32(1)), K.E(100, K.u16(0))]
        it = lambda p: list(list(list(p.arrangements)[0].tracks)[0])[0]
        get, put = lambda p: it(p).offsets, lambda p: setattr(it(p), "offsets", v)
    p = K.parse(h, evs)
    refused(h, p, evs, lambda: put(p), get, what)


def cases(tier):
    from . import c06

    out = [Case("ppq", ppq, weight=8), Case("channel count", channel_count), Case("no tempo", no_tempo, ("none",)),
           Case("only fine tempo", no_tempo, ("fine",))]
    for v in VERSIONS:
        for form in ("new", "coarse", "both"):
            out.append(Case("tempo/%s/%s" % (v, form), tempo_int, (v, form, False), weight=3))
            out.append(Case("tempo/%s/%s/wide" % (v, form), tempo_int, (v, form, True), weight=3))
            if tier == "quick" and form == "both" and v not in ("3.4.0", "10.9.9"):
                continue
            m = VERSIONS[v]
            for lo, hi, div in ((-64 * 4, 1100 * 4, 4), (8000, 12000, 1000), (m * 1000 - 2000, m * 1000 + 2000, 1000)):
                out.append(Case("tempo/%s/%s/%d..%d by %d" % (v, form, lo, hi, div), tempo_float, (v, form, lo, hi, div),
                                weight=8))
    for n in (0, 1, 2, 5, 6):
        out.append(Case("version of %d parts" % n, version_parts, (n, "tuple")))
        if n:
            out.append(Case("version text of %d parts" % n, version_parts, (n, "str")))
    for tail in (("", ".1.2"), ("20.", ".2"), ("20.1.", ""), ("20.1.2.", "")):
        for n in (1, 2, 3):
            out.append(Case("version %s?%s/%d" % (*tail, n), version_text, (tail, n)))
    for f in VST_FIELDS:
        out.append(Case("vst/%s.%s/absent" % f[:2], vst, (*f, None), weight=2))
        for n in {2: (0, 9, 13, 17, 22), 1: (0, 4, 8)}.get(f[2], ()):
            if n < f[3]:
                out.append(Case("vst/%s.%s/%d bytes" % (*f[:2], n), vst, (*f, n), weight=2))
    out.append(Case("key", key_int, weight=3))
    out.append(Case("key name/1", key_name, (1, ""), weight=5))
    out.append(Case("key name/2", key_name, (2, ""), weight=20))
    for a in "CDEFGAB#c1 ":
        out.append(Case("key name/3 %r" % a, key_name, (3, a), weight=20))
    for n in NAMES:
        out.append(Case("key name/%s and 3" % n, key_name, (len(n) + 2, n), weight=20))
    for n in NAMES:
        out.append(Case("octave of " + n, key_octave, (n,)))
    for f in M.SIMPLE + [f for f in M.FLAGS if f.layout is None]:
        if f.ro or f.ctx in (M.in_marker, M.in_pattern_marker) or f.id in (147, 154):
            continue
        out.append(Case(f.name + "/absent", absent, (f,)))
    for fs in c06.groups():
        f0 = fs[0]
        if f0.id == 213:
            continue
        have = f0.ctx not in (M.in_track, M.in_insert) and f0.id not in (218, 228)
        lens = S.boundaries(f0.layout)
        for f in fs:
            if have:
                out.append(Case(f.name + "/absent", absent, (f,)))
            short = [n for n in lens if n < f.off + f.size]
            for n in short:
                out.append(Case("%s/%d bytes" % (f.name, n), truncated, (fs, f, n)))
    for a, o, c, e in RO:
        out.append(Case("read-only %s.%s/%s/%s" % (o.__name__, a, c.__name__, e.__name__), readonly, (o, a, c, e)))
    for w in ("data_path", "licensee", "sample_path", "loop_pos", "pan", "volume", "pitch_shift", "reverb.type", "reverb.mix"):
        out.append(Case(w + "/absent", others, (w,)))
    for w in ("loop_pos/new", "offsets"):
        for n in (0, 1, 3, 4):
            out.append(Case("%s of %d" % (w, n), pairs, (w, n)))
    return out
