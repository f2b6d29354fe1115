"""Shared by the harnesses: an independent writer of FLP files and skeleton projects.

Everything goes through the public entry points: a file is written byte by byte here,
parsed with pyflp.parse, looked at through Project, saved with pyflp.save.
"""

import pyflp

VALID_PPQ = (24, 48, 72, 96, 120, 144, 168, 192, 384, 768, 960)
FORMATS = (-1, 0, 16, 24, 32, 48, 49, 50, 64, 80)


def u8(v):
    return bytes([v])


def u16(v):
    return v.to_bytes(2, "little")


def u32(v):
    return v.to_bytes(4, "little")


def varint(n):
    out = []
    while True:
        b = n & 127
        n >>= 7
        if n:
            out.append(b | 128)
        else:
            out.append(b)
            return bytes(out)


def E(id, payload):
    """One event, framed the way FL Studio does."""
    if id < 64:
        assert len(payload) == 1
        return bytes([id]) + payload
    if id < 128:
        assert len(payload) == 2
        return bytes([id]) + payload
    if id < 192:
        assert len(payload) == 4
        return bytes([id]) + payload
    return bytes([id]) + varint(len(payload)) + payload


def header(fmt=0, nch=1, ppq=96):
    return b"FLhd" + u32(6) + fmt.to_bytes(2, "little", signed=True) + u16(nch) + u16(ppq)


def join(parts):
    return b"".join(list(parts))


def flp(events, fmt=0, nch=1, ppq=96):
    body = events if not isinstance(events, (list, tuple)) else join(events)
    return header(fmt, nch, ppq) + b"FLdt" + u32(len(body)) + body


def utf16(s):
    return s.encode("utf-16-le") + b"\0\0"


def version(v="20.8.4.2576"):
    return E(199, v.encode("ascii") + b"\0")


HEAD = (version(), E(159, u32(2576)))
GROUP = E(231, utf16("Unsorted"))


def parse(h, events, fmt=0, nch=1, ppq=96, name="in.flp"):
    return pyflp.parse(h.put(flp(events, fmt, nch, ppq), name))


def save(h, project, name="out.flp"):
    path = h.path(name)
    pyflp.save(project, path)
    return h.get(path)


def channel(iid=0, typ=0, events=(), group=0, name=None, internal=None):
    out = [E(64, u16(iid)), E(21, u8(typ))]
    if internal is not None:
        out.append(E(201, utf16(internal)))
    if name is not None:
        out.append(E(203, utf16(name)))
    out.extend(events)
    out.append(E(145, group.to_bytes(4, "little", signed=True)))
    return out


SAMPLER, NATIVE, LAYER, INSTRUMENT, AUTOMATION = 0, 2, 3, 4, 5


def insert(events=(), slots=(), output=-1, flags=12):
    out = list(events)
    out.append(E(236, u32(0) + u32(flags) + u32(0)))
    for i, s in enumerate(slots):
        out.extend(s)
        out.append(E(98, u16(i)))
    out.append(E(235, b"\0"))
    out.append(E(154, b"\xff" * 4))
    out.append(E(147, output.to_bytes(4, "little", signed=True)))
    return out


def splice(data, off, new):
    return data[:off] + new + data[off + len(new):]


def le(b, signed=False):
    return int.from_bytes(b, "little", signed=signed)
