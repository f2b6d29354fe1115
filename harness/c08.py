"""C08: a yes/no option changes its own bit and no other."""
from engine.api import Case

from . import common as K
from . import model as M
from . import spec as S

META = {
    "entry": ["pyflp.parse", "Project and everything reachable from it", "pyflp.save"],
    "bounds": "all 81 documented single-bit options; the whole old flag word, the rest of its event and the new value "
              "symbolic; histories of two sets of two options of the same word",
    "outside": "the DirectX option of a plugin (its bit does not exist in the stored 16-bit word); flag words absent from "
               "shorter events",
    "assumptions": [],
}


def word(h, f):
    """(payload, offset of the word, size)"""
    if f.layout is None:
        return h.bytes("v", f.size)
    return S.payload(h, "f", f.layout)


def changed(h, data, f, v):
    mask, inv = f.extra
    old = K.le(data[f.off:f.off + f.size])
    want = h.lnot(v) if inv else v
    new = h.ite(want, old | mask, old & ((1 << 8 * f.size) - 1 - mask))
    return K.splice(data, f.off, new.to_bytes(f.size, "little"))


def decoy(f):
    if f.id == 213:
        return None
    return K.E(f.id, bytes(f.size if f.layout is None else S.size(f.layout)))


def one(h, f):
    data = word(h, f)
    p = K.parse(h, f.ctx(K.E(f.id, data), decoy(f)))
    h.check(M.decoded(h, "bit", data[f.off:f.off + f.size], f.extra, f.get(p)), f.name + " read")
    v = h.bool("new")
    K.save(h, p, "before.flp")
    f.set(p, v)
    h.check(f.get(p) == v, f.name + " right after setting it")
    out = K.save(h, p)
    h.check(out == K.flp(f.ctx(K.E(f.id, changed(h, data, f, v)), decoy(f))), f.name + ": saved file")
    h.check(f.get(K.pyflp.parse(h.path("out.flp"))) == v, f.name + " after saving and loading")


def two(h, f, g):
    """Set one option, then another of the same word, then the first again."""
    data = word(h, f)
    p = K.parse(h, f.ctx(K.E(f.id, data), decoy(f)))
    a, b, c = h.bool("a"), h.bool("b"), h.bool("c")
    f.set(p, a)
    K.save(h, p, "between.flp")
    g.set(p, b)
    h.check(f.get(p) == a, "%s disturbed by %s" % (f.name, g.name))
    f.set(p, c)
    h.check(g.get(p) == b, "%s disturbed by %s" % (g.name, f.name))
    want = changed(h, changed(h, changed(h, data, f, a), g, b), f, c)
    h.check(K.save(h, p) == K.flp(f.ctx(K.E(f.id, want), decoy(f))), "%s and %s: saved file" % (f.name, g.name))


def slide(h):
    f = M.NOTE_SLIDE
    a, data, z = [S.payload(h, x, S.NOTE) for x in "abc"]
    p = K.parse(h, f.ctx(K.E(224, a + data + z)))
    v = h.bool("new")
    K.save(h, p, "before.flp")
    f.set(p, v)
    h.check(f.get(p) == v, "note.slide right after setting it")
    h.check(K.save(h, p) == K.flp(f.ctx(K.E(224, a + changed(h, data, f, v) + z))), "note.slide: saved file")


def vst(h, sub, attr, bit, wordno, inv):
    fl = S.payload(h, "f", M.VST_FLAGS)
    tail = M.rec(54, b"Name") + M.rec(53, h.bytes("s", 3))
    ctx = M.plugin_slot("Fruity Wrapper")
    ev = lambda x: ctx(K.E(213, K.u32(10) + M.rec(1, bytes(12)) + M.rec(2, x) + tail))
    p = K.parse(h, ev(fl))
    f = M.Field("vst %s.%s" % (sub, attr), ctx, M.slot_plugin(sub), attr, 213, "bit", 9 if wordno == 1 else 13, 4,
                (1 << bit, bool(inv)))
    v = h.bool("new")
    K.save(h, p, "before.flp")
    f.set(p, v)
    h.check(f.get(p) == v, f.name + " right after setting it")
    h.check(K.save(h, p) == K.flp(ev(changed(h, fl, f, v))), f.name + ": saved file")
    h.check(f.get(K.pyflp.parse(h.path("out.flp"))) == v, f.name + " after saving and loading")


def directx(h):
    f = M.Field("directx", M.plugin_slot("Fruity Balance"), M.slot_plugin(), "directx", 212, "bit", 16, 2, (0, False))
    data = S.payload(h, "f", S.WRAPPER)
    p = K.parse(h, f.ctx(K.E(212, data)))
    f.set(p, True)
    out = K.save(h, p)
    h.check(len(out) == len(K.flp(f.ctx(K.E(212, data)))), "directx: saved file")


def cases(tier):
    deep = tier != "quick"
    out = [Case(f.name, one, (f,), weight=2) for f in M.FLAGS]
    words = {}
    for f in M.FLAGS:
        words.setdefault((f.id, f.ctx, f.off), []).append(f)
    for fs in words.values():
        for i, f in enumerate(fs):
            others = fs[:i] + fs[i + 1:] if deep else fs[(i + 1) % len(fs):(i + 1) % len(fs) + 1]
            for g in others:
                if g is not f:
                    out.append(Case("%s, %s" % (f.name, g.name), two, (f, g), weight=3))
    out.append(Case("note.slide", slide))
    out.append(Case("finding/directx", directx, finding="F04"))
    for b in M.VST_BITS:
        out.append(Case("vst %s.%s" % b[:2], vst, b, weight=2))
    return out
