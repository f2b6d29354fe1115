"""Where every documented property lives in the file: the table behind C06, C07, C08 and C17.

A Field says: in a project built by `ctx` around one event, `attr` of `obj(project)` is the
part of that event's payload described by (kind, offset, size). The table is written from the
documentation and files made by FL Studio, not from the code under test.
"""

import functools

from . import common as K
from . import spec as S


# ---------------------------------------------------------------- projects around one event
def in_project(ev, decoy=()):
    return [*K.HEAD, ev, K.E(210, b"x")]


def _neighbours(typ, ev, decoy, internal=None):
    """The channel in question (iid 4) between two others which have the same kind of event."""
    d = [decoy] if decoy is not None else []
    return [
        *K.HEAD, K.GROUP,
        *K.channel(2, typ, d, internal=internal),
        *K.channel(4, typ, [ev] if not isinstance(ev, list) else ev, internal=internal),
        *K.channel(7, typ, d, internal=internal),
    ]


def in_sampler(ev, decoy=None):
    return _neighbours(K.SAMPLER, ev, decoy)


def in_instrument(ev, decoy=None):
    return _neighbours(K.INSTRUMENT, ev, decoy)


def in_layer(ev, decoy=None):
    return _neighbours(K.LAYER, ev, decoy)


def in_automation(ev, decoy=None):
    return _neighbours(K.AUTOMATION, ev, decoy)


def in_rack(ev, decoy=None):
    return [*K.HEAD, K.GROUP, *K.channel(4, K.SAMPLER, []), ev]


def in_pattern(ev, decoy=None):
    d = [decoy] if decoy is not None else []
    return [*K.HEAD, K.E(65, K.u16(1)), *d, K.E(65, K.u16(3)), ev, K.E(65, K.u16(6)), *d]


def in_patterns(ev, decoy=None):
    return in_pattern(ev)


def in_arrangement(ev, decoy=None):
    d = [decoy] if decoy is not None else []
    return [*K.HEAD, K.E(99, K.u16(0)), *d, K.E(99, K.u16(1)), ev, K.E(99, K.u16(2)), *d, K.E(100, K.u16(1))]


def in_arrangements(ev, decoy=None):
    return [*K.HEAD, K.E(99, K.u16(0)), ev]


def in_marker(ev, decoy=None):
    """The event of the second of three time markers of an arrangement."""
    def mk(pos, num, den, name):
        out = [K.E(148, K.u32(pos)), K.E(33, K.u8(num)), K.E(34, K.u8(den)), K.E(205, K.utf16(name))]
        return out
    mid = [e for e in mk(960, 3, 8, "mid") if bytes(e[:1]) != bytes(ev[:1])]
    order = {148: 0, 33: 1, 34: 2, 205: 3}
    mid.insert(order[ev[0]], ev)
    return [*K.HEAD, K.E(99, K.u16(0)), *mk(0, 4, 4, "one"), *mid, *mk(1920, 5, 4, "last"), K.E(100, K.u16(0))]


def in_pattern_marker(ev, decoy=None):
    evs = in_marker(ev)
    return [*K.HEAD, K.E(65, K.u16(1)), *evs[len(K.HEAD) + 1:-1]]


def in_track(ev, decoy=None):
    d = [decoy] if decoy is not None else []
    return [*K.HEAD, K.E(99, K.u16(0)), *d, ev, *d, K.E(100, K.u16(0))]


def in_track_name(ev, decoy=None):
    t = K.E(238, K.u32(1))
    return [*K.HEAD, K.E(99, K.u16(0)), t, t, ev, t, K.E(100, K.u16(0))]


def in_insert(ev, decoy=None):
    """The event of the second of three inserts."""
    d = [decoy] if decoy is not None else []
    full = lambda e: [*e, *K.insert()]
    def ins(extra):
        ids = [x[0] for x in extra]
        base = K.insert()
        base = [b for b in base if b[0] not in ids]
        before = [x for x in extra if x[0] in (95, 149, 204, 236)]
        after = [x for x in extra if x[0] not in (95, 149, 204, 236, 147)]
        last = [x for x in extra if x[0] == 147]
        if last:
            return [*before, *base, *after, *last]
        return [*before, *base[:-1], *after, base[-1]]
    return [*K.HEAD, *ins(d), *ins([ev]), *ins(d)]


def in_mixer(ev, decoy=None):
    return [*K.HEAD, ev, *K.insert(), *K.insert()]


def in_slot(ev, decoy=None):
    """The event belongs to the second of three slots of the second insert."""
    d = [decoy] if decoy is not None else []
    return [*K.HEAD, *K.insert(slots=[d, d]), *K.insert(slots=[d, [ev], d]), *K.insert(slots=[d])]


@functools.lru_cache(None)
def plugin_slot(name):
    def build(ev, decoy=None):
        d = [K.E(201, K.utf16(name)), decoy] if decoy is not None else []
        mine = [K.E(201, K.utf16(name)), K.E(213, blank(name)), ev] if ev[0] != 213 else [K.E(201, K.utf16(name)), ev]
        return [*K.HEAD, *K.insert(slots=[d, d]), *K.insert(slots=[d, mine, d]), *K.insert(slots=[[]])]
    return build


@functools.lru_cache(None)
def plugin_channel(name):
    def build(ev, decoy=None):
        d = [decoy] if decoy is not None else []
        mine = [K.E(213, blank(name)), ev] if ev[0] != 213 else [ev]
        return [*K.HEAD, K.GROUP, *K.channel(2, K.INSTRUMENT, d, internal=name),
                *K.channel(4, K.INSTRUMENT, mine, internal=name), *K.channel(7, K.INSTRUMENT, d, internal=name)]
    return build


def blank(name):
    if name in S.NATIVES:
        return bytes(S.size(S.NATIVES[name][0]))
    if name == "Fruity Wrapper":
        return VST_BASE
    return b""


def rec(id, data):
    return K.u32(id) + len(data).to_bytes(8, "little") + data


VST_BASE = K.u32(10) + rec(53, b"st")

# ---------------------------------------------------------------- objects
def project(p):
    return p


def ch(p):
    return p.channels[4]


def sub(*names):
    def get(p):
        o = p.channels[4]
        for n in names:
            o = o[n[1:]] if n.startswith("@") else getattr(o, n)
        return o
    return get


def rack(p):
    return p.channels


def pattern(p):
    return [x for x in p.patterns][1]


def patterns(p):
    return p.patterns


def arrangement(p):
    return [x for x in p.arrangements][1]


def arrangements(p):
    return p.arrangements


def timesig(p):
    return p.arrangements.time_signature


def marker(p):
    return list(list(p.arrangements)[0].timemarkers)[1]


def pattern_marker(p):
    return list(list(p.patterns)[0].timemarkers)[1]


def track(p):
    return list(list(p.arrangements)[0].tracks)[1]


def insert(p):
    return list(p.mixer)[1]


def mixer(p):
    return p.mixer


def slot(p):
    return list(list(p.mixer)[1])[1]


def slot_plugin(*names):
    def get(p):
        o = slot(p).plugin
        for n in names:
            o = getattr(o, n)
        return o
    return get


def ch_plugin(*names):
    def get(p):
        o = ch(p).plugin
        for n in names:
            o = getattr(o, n)
        return o
    return get


def item(of, name, i):
    def get(p):
        return list(getattr(of(p), name))[i]
    return get


def point(p):
    return list(ch(p))[1]


class Field:
    def __init__(self, name, ctx, obj, attr, id, kind, off=0, size=None, extra=None, layout=None, default=None,
                 ro=False, before=b"", after=b""):
        self.name, self.ctx, self.obj, self.attr = name, ctx, obj, attr
        self.id, self.kind, self.off, self.size, self.extra = id, kind, off, size, extra
        self.layout, self.default, self.ro = layout, default, ro
        self.before, self.after = before, after

    def get(self, p):
        return getattr(self.obj(p), self.attr)

    def set(self, p, v):
        setattr(self.obj(p), self.attr, v)


SIMPLE = []  # single-value events
STRUCT = []  # fields of structured events
FLAGS = []  # single bits


def simple(ctx, obj, attr, id, kind, default=None, ro=False, off=0, size=None, name=None):
    n = {"u": 1, "i": 1, "b": 1} if id < 64 else {}
    total = 1 if id < 64 else 2 if id < 128 else 4
    SIMPLE.append(Field(name or "%s.%s" % (obj.__name__, attr), ctx, obj, attr, id, kind, off,
                        size or (total if id < 192 else None), default=default, ro=ro))


# project and rack
for a, i, k in (("looped", 9, "b"), ("show_info", 10, "b"), ("main_volume", 12, "u"), ("pan_law", 23, "u"),
                ("licensed", 28, "b"), ("main_pitch", 80, "i"), ("title", 194, "s"), ("comments", 195, "s"),
                ("url", 197, "s"), ("genre", 206, "s"), ("artists", 207, "s")):
    simple(in_project, project, a, i, k)
simple(in_project, project, "comments", 198, "s", name="project.rtf comments")
for a, i in (("swing", 11), ("fit_to_steps", 13), ("height", 133)):
    simple(in_rack, rack, a, i, "u")
# channels
for kind, where in (("sampler", in_sampler), ("instrument", in_instrument), ("layer", in_layer),
                    ("automation", in_automation)):
    for a, i, k in (("enabled", 0, "b"), ("locked", 32, "b"), ("icon", 155, "u"), ("color", 128, "c"),
                    ("internal_name", 201, "s"), ("name", 203, "s")):
        simple(where, ch, a, i, k, name="%s.%s" % (kind, a))
    simple(where, ch, "zipped", 15, "b", default=False, ro=True, name=kind + ".zipped")
    simple(where, ch, "name", 192, "s", name=kind + ".old name")
    simple(where, sub("keyboard"), "fine_tune", 142, "i", name=kind + ".fine_tune")
    simple(where, sub("keyboard"), "root_note", 135, "u", default=60, name=kind + ".root_note")
for kind, where in (("sampler", in_sampler), ("instrument", in_instrument)):
    simple(where, ch, "insert", 22, "i", name=kind + ".insert")
    simple(where, ch, "cut_group", 132, "t", name=kind + ".cut_group")
    simple(where, sub("time"), "swing", 97, "u", name=kind + ".time.swing")
    simple(where, sub("time"), "shift", 89, "u", name=kind + ".time.shift")
    for a, o in (("mod_x", 0), ("mod_y", 2)):
        SIMPLE.append(Field("%s.delay.%s" % (kind, a), where, sub("delay"), a, 138, "u", o, 2))
for a, i in (("boost", 74), ("cutoff", 71), ("fade_in", 76), ("fade_out", 75), ("freq_tilt", 69), ("pogo", 86),
             ("resonance", 83), ("stereo_delay", 85)):
    simple(in_sampler, sub("fx"), a, i, "u", name="fx." + a)
simple(in_sampler, sub("fx"), "ringmod", 131, "t", name="fx.ringmod")
simple(in_sampler, ch, "au_sample_rate", 153, "u")
simple(in_sampler, sub("playback"), "ping_pong_loop", 20, "b", name="playback.ping_pong_loop")
# patterns, arrangements
simple(in_pattern, pattern, "color", 150, "c")
simple(in_pattern, pattern, "length", 164, "u")
simple(in_pattern, pattern, "looped", 26, "b", default=False)
simple(in_pattern, pattern, "name", 193, "s")
simple(in_patterns, patterns, "play_cut_notes", 30, "b")
simple(in_arrangement, arrangement, "name", 241, "s")
simple(in_arrangements, timesig, "num", 17, "u")
simple(in_arrangements, timesig, "beat", 18, "u")
for o, w in ((marker, in_marker), (pattern_marker, in_pattern_marker)):
    simple(w, o, "numerator", 33, "u")
    simple(w, o, "denominator", 34, "u")
    simple(w, o, "name", 205, "s")
simple(in_track_name, track, "name", 239, "s")
# mixer
simple(in_insert, insert, "icon", 95, "i")
simple(in_insert, insert, "color", 149, "c")
simple(in_insert, insert, "name", 204, "s")
simple(in_insert, insert, "input", 154, "i")
simple(in_insert, insert, "output", 147, "i")
simple(in_mixer, mixer, "apdc", 29, "u")
simple(in_slot, slot, "color", 128, "c")
simple(in_slot, slot, "icon", 155, "u")
simple(in_slot, slot, "name", 203, "s")
simple(in_slot, slot, "internal_name", 201, "s")


def struct(name, ctx, obj, attr, id, layout, field, **kw):
    off, f = S.offset(layout, field)
    STRUCT.append(Field("%s.%s" % (name, attr), ctx, obj, attr, id, f[1], off, f[2], f[3] if len(f) > 3 else None,
                        layout, **kw))


both = (("sampler", in_sampler), ("instrument", in_instrument))
for kind, where in both:
    for a in ("direction", "range", "chord", "time", "gate", "slide", "repeat"):
        struct(kind + ".arp", where, sub("arp"), a, 215, S.PARAMS, "arp." + a)
    for a in ("gate", "full_porta"):
        struct(kind + ".time", where, sub("time"), a, 215, S.PARAMS, "time." + a)
    for a in ("main_pitch", "add_root", "key_region"):
        struct(kind + ".keyboard", where, sub("keyboard"), a, 215, S.PARAMS, "keyboard." + a)
    for a in ("feedback", "pan", "pitch_shift", "echoes", "time"):
        struct(kind + ".delay", where, sub("delay"), a, 209, S.DELAY, a)
    for a in ("pan", "volume", "mod_x", "mod_y"):
        struct(kind + ".level_adjusts", where, sub("level_adjusts"), a, 229, S.ADJUSTS, a)
    for a in ("max", "slide"):
        struct(kind + ".polyphony", where, sub("polyphony"), a, 221, S.POLY, a)
    for a in ("pan", "volume", "pitch_shift"):
        struct(kind, where, ch, a, 219, S.LEVELS, a)
for a in ("pan", "volume"):
    struct("layer", in_layer, ch, a, 219, S.LEVELS, a)
for a in ("remove_dc", "normalize", "inverted", "crossfade", "trim", "start", "length", "fix_trim"):
    struct("fx", in_sampler, sub("fx"), a, 215, S.PARAMS, "fx." + a)
struct("content", in_sampler, sub("content"), "declick_mode", 215, S.PARAMS, "content.declick_mode")
for a in ("time", "pitch", "multiplier", "mode"):
    struct("stretching", in_sampler, sub("stretching"), a, 215, S.PARAMS, "stretching." + a)
struct("playback", in_sampler, sub("playback"), "start_offset", 215, S.PARAMS, "playback.start_offset")
for a in ("mod_x", "mod_y", "type"):
    struct("filter", in_sampler, sub("filter"), a, 219, S.LEVELS, "filter." + a)

ENVELOPES = ("Panning", "Volume", "Mod X", "Mod Y", "Pitch")


@functools.lru_cache(None)
def nth(where, k, n, id):
    """The k-th of n events of the same kind in one channel."""
    def build(ev, decoy=None):
        other = K.E(id, bytes(S.size(S.STRUCTS[id][1])))
        return where([other] * k + [ev] + [other] * (n - 1 - k), decoy)
    return build


for i, env in enumerate(ENVELOPES):
    w = nth(in_sampler, i, 5, 218)
    for a in ("enabled", "predelay", "attack", "hold", "decay", "sustain", "release", "amount", "attack_tension",
              "decay_tension", "release_tension"):
        struct("envelopes[%s]" % env, w, sub("envelopes", "@" + env), a, 218, S.ENVLFO, "envelope." + a)
    for a in ("predelay", "attack", "amount", "speed", "shape"):
        struct("lfos[%s]" % env, w, sub("lfos", "@" + env), a, 218, S.ENVLFO, "lfo." + a)
for kind, where in both:
    for i, t in enumerate(("volume", "keyboard")):
        for a in ("middle_value", "pan", "mod_x", "mod_y"):
            struct("%s.tracking[%s]" % (kind, t), nth(where, i, 2, 228), sub("tracking", "@" + t), a, 228,
                   S.TRACKING, a)
for a in ("iid", "icon", "enabled", "height", "content_locked", "motion", "press", "trigger_sync", "queued", "tolerant",
          "position_sync", "grouped", "locked"):
    struct("track", in_track, track, a, 238, S.TRACK, a)
_off, _f = S.offset(S.TRACK, "color")
STRUCT.append(Field("track.color", in_track, track, "color", 238, "c", _off, 4, None, S.TRACK))

for name in ("Sytrus", "BooBass"):
    for a in ("width", "height", "page"):
        struct("channel plugin " + name, plugin_channel(name), ch_plugin(), a, 212, S.WRAPPER, a)
for name in ("Fruity Reeverb 2", "Fruity Balance", "Fruity Wrapper"):
    for a in ("width", "height", "page"):
        struct("slot plugin " + name, plugin_slot(name), slot_plugin(), a, 212, S.WRAPPER, a)
for table, ctxs, objs in ((S.GENERATORS, plugin_channel, ch_plugin), (S.EFFECTS, plugin_slot, slot_plugin)):
    for name, layouts in table.items():
        for lay in layouts:
            for f in lay:
                if not f[0].startswith("_"):
                    struct("%s/%d" % (name, S.size(lay)), ctxs(name), objs(), f[0], 213, lay, f[0])

# items of lists: the second of three
LISTED = []


def listed(name, ctx, obj, attr, id, layout, field):
    off, f = S.offset(layout, field)
    LISTED.append(Field("%s.%s" % (name, attr), ctx, obj, attr, id, f[1], off, f[2], f[3] if len(f) > 3 else None,
                        layout))


for a in ("position", "rack_channel", "length", "group", "fine_pitch", "release", "midi_channel", "pan", "velocity",
          "mod_x", "mod_y"):
    listed("note", in_pattern, item(pattern, "notes", 1), a, 224, S.NOTE, a)
for a in ("position", "channel", "value"):
    listed("controller", in_pattern, item(pattern, "controllers", 1), a, 223, S.CONTROLLER, a)

# bits: (name, ctx, obj, attr, id, layout or None, field, bit, inverted)


def bit(name, ctx, obj, attr, id, mask, inverted=False, layout=None, field=None, after=b""):
    if layout is None:
        off, size = 0, 1 if id < 64 else 2 if id < 128 else 4
    else:
        off, f = S.offset(layout, field)
        size = f[2]
    x = Field("%s.%s" % (name, attr), ctx, obj, attr, id, "bit", off, size, (mask, inverted), layout)
    FLAGS.append(x)


for a, m in (("fade_stereo", 1), ("reverse", 2), ("clip", 4), ("swap_stereo", 256)):
    bit("fx", in_sampler, sub("fx"), a, 70, m)
for o, a, m in (("content", "resample", 1), ("content", "load_regions", 2), ("content", "load_slices", 4),
                ("playback", "use_loop_points", 8), ("content", "keep_on_disk", 256)):
    bit(o, in_sampler, sub(o), a, 143, m)
for a, m in (("random", 1), ("crossfade", 2)):
    bit("layer", in_layer, ch, a, 144, m)
for kind, where in both:
    bit(kind + ".delay", where, sub("delay"), "ping_pong", 215, 2, False, S.PARAMS, "delay.flags")
    bit(kind + ".delay", where, sub("delay"), "fat_mode", 215, 4, False, S.PARAMS, "delay.flags")
    bit(kind + ".polyphony", where, sub("polyphony"), "mono", 221, 1, False, S.POLY, "flags")
    bit(kind + ".polyphony", where, sub("polyphony"), "porta", 221, 2, False, S.POLY, "flags")
for i, env in enumerate(ENVELOPES):
    w = nth(in_sampler, i, 5, 218)
    bit("envelopes[%s]" % env, w, sub("envelopes", "@" + env), "synced", 218, 1, False, S.ENVLFO, "flags")
    bit("lfos[%s]" % env, w, sub("lfos", "@" + env), "synced", 218, 2, False, S.ENVLFO, "flags")
    bit("lfos[%s]" % env, w, sub("lfos", "@" + env), "retrig", 218, 32, False, S.ENVLFO, "flags")
for a, m, inv in (("polarity_reversed", 1, 0), ("channels_swapped", 2, 0), ("bypassed", 4, 1), ("enabled", 8, 0),
                  ("separator_shown", 1024, 0), ("locked", 2048, 0), ("is_solo", 4096, 0)):
    bit("insert", in_insert, insert, a, 236, m, bool(inv), S.INSFLAGS, "flags")
WRAPPER_BITS = (("visible", 1), ("disabled", 2), ("detached", 4), ("generator", 16), ("smart_disable", 32),
                ("multithreaded", 64), ("demo_mode", 128), ("compact", 256), ("minimized", 512))
for a, m in WRAPPER_BITS:
    bit("channel plugin", plugin_channel("Sytrus"), ch_plugin(), a, 212, m, False, S.WRAPPER, "flags")
    bit("slot plugin", plugin_slot("Fruity Balance"), slot_plugin(), a, 212, m, False, S.WRAPPER, "flags")
NOTE_SLIDE = Field("note.slide", in_pattern, item(pattern, "notes", 1), "slide", 224, "bit", 4, 2, (8, False), S.NOTE)

# VST state: record 2 = 9 bytes, flags u32, flags2 u32, 5 bytes, fast_idle
VST_FLAGS = [("_u1", "raw", 9), ("flags", "fl", 4), ("flags2", "fl", 4), ("_u2", "raw", 5), ("fast_idle", "b", 1),
             ("_extra", "raw", 3)]
VST_MIDI = [("input", "i", 4), ("output", "i", 4), ("pb_range", "u", 4), ("_extra", "raw", 2)]
VST_BITS = (
    ("automation", "notify_changes", 6, 1, 1),
    ("compatibility", "fixed_buffers", 1, 1, 0), ("compatibility", "reset_on_transport", 25, 1, 1),
    ("compatibility", "send_loop", 11, 1, 0), ("compatibility", "use_time_offset", 31, 1, 1),
    ("compatibility", "process_maximum", 0, 2, 0), ("compatibility", "buffers_maxsize", 1, 2, 0),
    ("midi", "send_modx", 17, 1, 0), ("midi", "send_pb", 0, 1, 0), ("midi", "send_release", 5, 1, 1),
    ("processing", "allow_sd", 29, 1, 0), ("processing", "bridged", 18, 1, 0), ("processing", "external", 21, 1, 0),
    ("processing", "keep_state", 16, 1, 1), ("processing", "multithreaded", 12, 1, 0),
    ("processing", "notify_render", 2, 1, 0), ("processing", "process_inactive", 3, 1, 0),
    ("ui", "accept_drop", 28, 1, 0), ("ui", "always_update", 23, 1, 0), ("ui", "dpi_aware", 26, 1, 0),
    ("ui", "scale_editor", 30, 1, 0),
)


# ---------------------------------------------------------------- values
def decoded(h, kind, data, extra, got):
    """`got` is what a field with these bytes means."""
    if kind in ("u", "fl"):
        return got == K.le(data)
    if kind in ("i", "fli"):
        return got == K.le(data, True)
    if kind in ("b", "b4"):
        return got == (K.le(data) != 0)
    if kind == "t":
        return h.eq(got, (K.le(data[:2]), K.le(data[2:])))
    if kind == "t2":
        return h.eq(got, (K.le(data[:4]), K.le(data[4:])))
    if kind == "f":
        return h.float_is(got, data)
    if kind == "c":
        return h.eq(tuple(got), tuple(h.flo(b, lambda v: v / 255) for b in data))
    if kind in ("e", "ei"):
        v = h.fork(K.le(data, kind == "ei"))
        name = extra[v]
        return h.all([getattr(got, "name", None) == name or got == name,
                      getattr(got, "value", None) == v or int(got) == v])
    if kind == "bit":
        mask, inv = extra
        r = (K.le(data) & mask) == mask
        return got == (h.lnot(r) if inv else r)
    if kind == "lin":
        v = K.le(data)
        return h.eq(tuple(got), (v // 768, v % 768 // 48, v % 48 * 5))
    if kind == "log2":
        return got == h.flo(K.le(data, True), lambda v: 2 ** (v / 10000))
    if kind == "ln":
        return got == h.flo(K.le(data[:2]), lambda v: 0.0 if not v else min(1.0, 2 ** (v / 4096) / 32768))
    raise KeyError(kind)
