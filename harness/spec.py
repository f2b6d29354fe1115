"""The file format as documented and observed: where each field lives. Frozen here, not
derived from the code under test.

Field: (name, kind, size[, extra]).  Kinds:
 u i    little-endian integer          f      IEEE float (4 or 8 bytes)
 raw    bytes PyFLP does not interpret  b b4   boolean in 1 / 4 bytes (0 or 1)
 e ei   enumeration (extra: value -> member name), stored unsigned / signed
 fl fli flags, unsigned / signed        t2     two u32
 lin    musical time                   log2   10000 * log2(value), signed
 ln     two u16 (v, 63)                ht     track height, fraction as f32
"""

ARP_DIR = {0: "Off", 1: "Up", 2: "Down", 3: "UpDownBounce", 4: "UpDownSticky", 5: "Random"}
DECLICK = {0: "OutOnly", 1: "TransientNoBleeding", 2: "Transient", 3: "Generic", 4: "Smooth", 5: "Crossfade"}
STRETCH = {-1: "Stretch", 0: "Resample", 1: "E3Generic", 2: "E3Mono", 3: "SliceStretch", 4: "SliceMap", 5: "Auto",
           6: "E2Generic", 7: "E2Transient", 8: "E2Mono", 9: "E2Speech"}
LFO_SHAPE = {0: "Sine", 1: "Triangle", 2: "Pulse"}
FILTER = {0: "FastLP", 1: "LP", 2: "BP", 3: "HP", 4: "BS", 5: "LPx2", 6: "SVFLP", 7: "SVFLPx2"}
MOTION = {0: "Stay", 1: "OneShot", 2: "MarchWrap", 3: "MarchStay", 4: "MarchStop", 5: "Random", 6: "ExclusiveRandom"}
PRESS = {0: "Retrigger", 1: "HoldStop", 2: "HoldMotion", 3: "Latch"}
SYNC = {0: "Off", 1: "QuarterBeat", 2: "HalfBeat", 3: "Beat", 4: "TwoBeats", 5: "FourBeats", 6: "Auto"}
PAGE = {0: "Editor", 1: "Settings", 3: "Sample", 4: "Envelope", 5: "Miscellaneous"}
AB = {0: "A", 1: "B"}
ABCD = {0: "A", 1: "B", 2: "C", 3: "D"}
PREPOST = {0: "pre", 1: "post"}
PHASE = {0: "none", 1: "left", 2: "right"}

DELAY = [("feedback", "u", 4), ("pan", "i", 4), ("pitch_shift", "i", 4), ("echoes", "u", 4), ("time", "u", 4)]
PARAMS = [
    ("_u1", "raw", 9), ("fx.remove_dc", "b", 1), ("delay.flags", "fl", 1), ("keyboard.main_pitch", "b", 1),
    ("_u2", "raw", 28), ("arp.direction", "e", 4, ARP_DIR), ("arp.range", "u", 4), ("arp.chord", "u", 4),
    ("arp.time", "f", 4), ("arp.gate", "f", 4), ("arp.slide", "b", 1), ("_u3", "raw", 1),
    ("time.full_porta", "b", 1), ("keyboard.add_root", "b", 1), ("time.gate", "u", 2), ("_u4", "raw", 2),
    ("keyboard.key_region", "t2", 8), ("_u5", "raw", 4), ("fx.normalize", "b", 1), ("fx.inverted", "b", 1),
    ("_u6", "raw", 1), ("content.declick_mode", "e", 1, DECLICK), ("fx.crossfade", "u", 4), ("fx.trim", "u", 4),
    ("arp.repeat", "u", 4), ("stretching.time", "lin", 4), ("stretching.pitch", "i", 4),
    ("stretching.multiplier", "log2", 4), ("stretching.mode", "ei", 4, STRETCH), ("_u7", "raw", 21),
    ("fx.start", "ln", 4), ("_u8", "raw", 4), ("fx.length", "ln", 4), ("_u9", "raw", 3),
    ("playback.start_offset", "u", 4), ("_u10", "raw", 5), ("fx.fix_trim", "b", 1), ("_extra", "rest", 3),
]
ENVLFO = [
    ("flags", "fli", 4), ("envelope.enabled", "i", 4), ("envelope.predelay", "i", 4), ("envelope.attack", "i", 4),
    ("envelope.hold", "i", 4), ("envelope.decay", "i", 4), ("envelope.sustain", "i", 4), ("envelope.release", "i", 4),
    ("envelope.amount", "i", 4), ("lfo.predelay", "u", 4), ("lfo.attack", "u", 4), ("lfo.amount", "i", 4),
    ("lfo.speed", "u", 4), ("lfo.shape", "ei", 4, LFO_SHAPE), ("envelope.attack_tension", "i", 4),
    ("envelope.decay_tension", "i", 4), ("envelope.release_tension", "i", 4),
]
LEVELS = [("pan", "i", 4), ("volume", "u", 4), ("pitch_shift", "i", 4), ("filter.mod_x", "u", 4),
          ("filter.mod_y", "u", 4), ("filter.type", "e", 4, FILTER)]
POLY = [("max", "u", 4), ("slide", "u", 4), ("flags", "fl", 1)]
TRACKING = [("middle_value", "u", 4), ("pan", "i", 4), ("mod_x", "i", 4), ("mod_y", "i", 4)]
ADJUSTS = [("pan", "i", 4), ("volume", "u", 4), ("_u1", "raw", 4), ("mod_x", "i", 4), ("mod_y", "i", 4)]
WRAPPER = [("_u1", "raw", 16), ("flags", "fl", 2), ("_u2", "raw", 2), ("page", "e", 1, PAGE), ("_u3", "raw", 23),
           ("width", "u", 4), ("height", "u", 4), ("_extra", "rest", 4)]
PLSEL = [("start", "u", 4), ("end", "u", 4)]
TRACK = [
    ("iid", "u", 4), ("color", "raw", 4), ("icon", "u", 4), ("enabled", "b", 1), ("height", "ht", 4),
    ("locked_height", "i", 4), ("content_locked", "b", 1), ("motion", "e", 4, MOTION), ("press", "e", 4, PRESS),
    ("trigger_sync", "e", 4, SYNC), ("queued", "b4", 4), ("tolerant", "b4", 4), ("position_sync", "e", 4, SYNC),
    ("grouped", "b", 1), ("locked", "b", 1), ("_u1", "rest", 4),
]
INSFLAGS = [("_u1", "raw", 4), ("flags", "fl", 4), ("_u2", "raw", 4)]
STAMP = [("created_on", "f", 8), ("time_spent", "f", 8)]
REMOTE = [("_u1", "raw", 2), ("_u2", "raw", 1), ("_u3", "raw", 1), ("parameter_data", "u", 2),
          ("destination_data", "i", 2), ("_u4", "raw", 8), ("_u5", "raw", 4)]

# event id -> (label, layout, may be cut short at any field boundary)
STRUCTS = {
    209: ("delay", DELAY, True),
    215: ("parameters", PARAMS, True),
    218: ("envelope-lfo", ENVLFO, True),
    219: ("levels", LEVELS, True),
    221: ("polyphony", POLY, True),
    228: ("tracking", TRACKING, True),
    229: ("level-adjusts", ADJUSTS, True),
    212: ("wrapper", WRAPPER, True),
    217: ("playlist-selection", PLSEL, True),
    238: ("track", TRACK, True),
    236: ("insert-flags", INSFLAGS, True),
    237: ("timestamp", STAMP, False),
}

CONTROLLER = [("position", "u", 4), ("_u1", "raw", 2), ("channel", "u", 1), ("_flags", "raw", 1), ("value", "f", 4)]
NOTE = [("position", "u", 4), ("flags", "fl", 2), ("rack_channel", "u", 2), ("length", "u", 4), ("key", "u", 2),
        ("group", "u", 2), ("fine_pitch", "u", 1), ("_u1", "raw", 1), ("release", "u", 1), ("midi_channel", "u", 1),
        ("pan", "u", 1), ("velocity", "u", 1), ("mod_x", "u", 1), ("mod_y", "u", 1)]
PLITEM = [("position", "u", 4), ("pattern_base", "u", 2), ("item_index", "u", 2), ("length", "u", 4),
          ("track_rvidx", "u", 2), ("group", "u", 2), ("_u1", "raw", 2), ("item_flags", "raw", 2), ("_u2", "raw", 4),
          ("start_offset", "f", 4), ("end_offset", "f", 4)]
PLITEM21 = PLITEM + [("_u3", "raw", 28)]
ROUTE = [("route", "b", 1)]
MIXPARAM_IDS = (0, 1, 64, 192, 193, 194, 208, 209, 210, 216, 217, 218, 224, 225, 226)
MIXPARAM = [("_u4", "raw", 4), ("id", "raw", 1), ("_u1", "raw", 1), ("channel_data", "raw", 2), ("msg", "i", 4)]

LISTS = {
    223: ("controllers", CONTROLLER),
    224: ("notes", NOTE),
    233: ("playlist", PLITEM),
    235: ("routing", ROUTE),
    225: ("mixer-parameters", MIXPARAM),
}

# native plugins: internal name -> [(total size, layout)]
BOOBASS = [("bass", "u", 4), ("mid", "u", 4), ("high", "u", 4)]
BLOOD = [("pre_band", "u", 4), ("color", "u", 4), ("pre_amp", "u", 4), ("x100", "b4", 4), ("post_filter", "u", 4),
         ("post_gain", "u", 4), ("_u1", "raw", 4), ("_u2", "raw", 4)]
CENTER = [("enabled", "b4", 4)]
GOODIZER = [("mode", "e", 4, ABCD), ("amount", "u", 4)]
MARK = [("_marker", "raw", 4)]
GENERATORS = {
    "BooBass": [BOOBASS, MARK + BOOBASS],
    "Fruit Kick": [[("_u1", "raw", 4), ("max_freq", "i", 4), ("min_freq", "i", 4), ("freq_decay", "u", 4),
                    ("amp_decay", "u", 4), ("click", "u", 4), ("distortion", "u", 4), ("_u2", "raw", 4)]],
    "Plucked!": [[("decay", "u", 4), ("color", "u", 4), ("normalize", "b4", 4), ("gate", "b4", 4),
                  ("widen", "b4", 4)]],
}
EFFECTS = {
    "Fruity Balance": [[("pan", "u", 4), ("volume", "u", 4)]],
    "Fruity Blood Overdrive": [BLOOD, MARK + BLOOD],
    "Fruity Center": [CENTER, MARK + CENTER],
    "Fruity Fast Dist": [[("pre", "u", 4), ("threshold", "u", 4), ("kind", "e", 4, AB), ("mix", "u", 4),
                          ("post", "u", 4)]],
    "Fruity Send": [[("pan", "i", 4), ("dry", "u", 4), ("volume", "u", 4), ("send_to", "i", 4)]],
    "Fruity Soft Clipper": [[("threshold", "u", 4), ("post", "u", 4)]],
    "Fruity Stereo Enhancer": [[("pan", "i", 4), ("volume", "u", 4), ("stereo_separation", "u", 4),
                                ("phase_offset", "u", 4), ("effect_position", "e", 4, PREPOST),
                                ("phase_inversion", "e", 4, PHASE)]],
    "Soundgoodizer": [GOODIZER, MARK + GOODIZER],
}
NATIVES = dict(GENERATORS)
NATIVES.update(EFFECTS)

# mixer parameter items: id byte -> what it is
P_SLOT_ENABLED, P_SLOT_MIX, P_ROUTE, P_VOLUME, P_PAN, P_SEP = 0, 1, 64, 192, 193, 194
EQ = {"low": {"gain": 208, "freq": 216, "reso": 224}, "mid": {"gain": 209, "freq": 217, "reso": 225},
      "high": {"gain": 210, "freq": 218, "reso": 226}}


def size(layout):
    return sum(f[2] for f in layout)


def boundaries(layout):
    out, n = [0], 0
    for f in layout:
        n += f[2]
        out.append(n)
    return out


def offset(layout, name):
    n = 0
    for f in layout:
        if f[0] == name:
            return n, f
        n += f[2]
    raise KeyError(name)


HARD = ("e", "ei", "lin", "log2", "ln", "ht", "f")


def field_bytes(h, label, f, hot):
    """Symbolic contents of one field under the documented preconditions. Fields whose decoding is
    expensive to encode are symbolic only when hot; otherwise they hold a fixed valid value."""
    name, kind, n = f[0], f[1], f[2]
    v = label + "." + name
    if kind in ("u", "i", "raw", "fl", "fli", "t2", "rest"):
        return h.bytes(v, n)
    if kind == "b" or kind == "b4":
        return h.int(v, 0, 1).to_bytes(n, "little")
    if not hot:
        return default_bytes(f)
    if kind in ("e", "ei"):
        vals = sorted(f[3])
        x = h.int(v, vals[0], vals[-1])
        for k in range(vals[0], vals[-1] + 1):
            if k not in f[3]:
                h.assume(x != k)
        return x.to_bytes(n, "little", signed=kind == "ei")
    if kind == "f":
        b = h.bytes(v, n)
        no_snan(h, b)
        return b
    if kind == "lin":
        return h.bytes(v, n)
    if kind == "log2":
        return h.int(v, -30000, 30000).to_bytes(4, "little", signed=True)
    if kind == "ln":
        x = h.int(v, 0, 61440)
        return x.to_bytes(2, "little") + h.ite(x == 0, 0, 63).to_bytes(2, "little")
    if kind == "ht":
        return height_bytes(h, h.int(v, 0, 1800))
    raise KeyError(kind)


def height_bytes(h, pct):
    import struct

    table = [int.from_bytes(struct.pack("<f", p / 100), "little") for p in range(1801)]
    return h.tabulate(pct, lambda p: table[p]).to_bytes(4, "little")


def no_snan(h, b):
    """Signalling NaNs do not survive a conversion to Python's float on every platform."""
    if len(b) == 4:
        e_all = h.all([b[3] & 127 == 127, b[2] & 128 == 128])
    else:
        e_all = h.all([b[7] & 127 == 127, b[6] & 240 == 240])
    h.assume(h.lnot(e_all))


def default_bytes(f):
    import struct

    name, kind, n = f[0], f[1], f[2]
    if kind in ("e", "ei"):
        vals = sorted(f[3])
        return vals[-1].to_bytes(n, "little", signed=kind == "ei")
    if kind == "f":
        return struct.pack("<f" if n == 4 else "<d", 0.75)
    if kind == "lin":
        return (768 + 48 * 2 + 7).to_bytes(4, "little")
    if kind == "log2":
        return (-1234).to_bytes(4, "little", signed=True)
    if kind == "ln":
        return (40000).to_bytes(2, "little") + (63).to_bytes(2, "little")
    if kind == "ht":
        return struct.pack("<f", 1.29)
    return bytes(n)


def payload(h, label, layout, length=None, hot=None):
    """hot: name of the one hard field that is symbolic ("*" for all)."""
    out, n = b"", 0
    for f in layout:
        if length is not None and n >= length:
            break
        out = out + field_bytes(h, label, f, hot == "*" or f[0] == hot)
        n += f[2]
    return out
