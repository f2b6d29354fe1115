"""What calls, `in`, f-strings and bitwise operators mean when symbolic values are involved."""

import builtins
import collections
import enum
import functools
import io
import itertools
import math
import operator
import struct
import types

from . import ctx as C
from . import terms as T
from . import values as V
from .values import (LazyStr, Sym, SymBool, SymBytearray, SymBytes, SymFloat, SymInt, SymStr, SymStream,
                     all_true, any_true, as_int, bnode, cps_of, elems_of, int_of, is_sym, mkbool, mkbytes,
                     mkint, mkstr, mkuint)

real_compile = builtins.compile
real_open = builtins.open
_type = type


def rsub(x, cls):
    return issubclass(_type(x), cls)


# ---------------------------------------------------------------------------- struct
def _fmt(fmt):
    """[(count-expanded code, size)], byteorder — native alignment is expanded to pad bytes."""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    fmt = str(fmt)
    key = fmt
    r = _fmt_cache.get(key)
    if r is not None:
        return r
    order = "little"
    native = True
    s = fmt
    if s and s[0] in "@=<>!":
        native = s[0] == "@"
        order = "big" if s[0] in ">!" else "little"
        s = s[1:]
    out = []
    i = 0
    pos = 0
    mode = "@" if native else "<"
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        n = ""
        while s[i].isdigit():
            n += s[i]
            i += 1
        ch = s[i]
        i += 1
        cnt = int(n) if n else 1
        if ch in "sp":
            items = [(ch, cnt)]
        else:
            items = [(ch, struct.calcsize(mode + ch))] * cnt
        if native and ch not in "sxpcbB?":
            al = struct.calcsize("@" + ch)
            pad = -pos % al
            if pad:
                out.extend([("x", 1)] * pad)
                pos += pad
        out.extend(items)
        pos += sum(x[1] for x in items)
    r = _fmt_cache[key] = (out, order, pos)
    return r


_fmt_cache = {}
_UNS = set("BHILQNP")
_SGN = set("bhilqn")


def s_unpack(fmt, data):
    items, order, size = _fmt(fmt)
    e = elems_of(data)
    if e is None:
        raise TypeError("a bytes-like object is required")
    if len(e) != size:
        raise struct.error("unpack requires a buffer of %d bytes" % size)
    out = []
    pos = 0
    for ch, k in items:
        part = e[pos:pos + k]
        pos += k
        if ch == "x":
            continue
        if all(_type(b) is int for b in part):
            if ch in "sp":
                out.append(struct.unpack("%d%s" % (k, ch), bytes(part))[0])
            else:
                out.append(struct.unpack(("<" if order == "little" else ">") + ch, bytes(part))[0]
                           if k == struct.calcsize("<" + ch if ch not in "nNP" else ch) else
                           int.from_bytes(bytes(part), order, signed=ch in _SGN))
            continue
        if ch == "s" or ch == "c":
            out.append(mkbytes(part))
            continue
        if ch == "p":
            raise C.Gap("struct p")
        nodes = [V.enode(b) for b in part]
        if order == "little":
            nodes.reverse()
        n = T.mk_concat(*nodes)
        if ch in _UNS:
            out.append(mkuint(n))
        elif ch in _SGN:
            out.append(mkint(n))
        elif ch == "?":
            out.append(mkbool(T.mk_not(T.mk_eq(n, T.bv(0, 8)))))
        elif ch in "fd":
            out.append(SymFloat.from_bits(n))
        else:
            raise C.Gap("struct code " + ch)
    return tuple(out)


def s_pack(fmt, *vals):
    items, order, size = _fmt(fmt)
    need = sum(1 for ch, _ in items if ch != "x")
    if need != len(vals):
        raise struct.error("pack expected %d items for packing (got %d)" % (need, len(vals)))
    out = []
    it = iter(vals)
    for ch, k in items:
        if ch == "x":
            out.append(0)
            continue
        v = next(it)
        if _type(v) is LazyStr:
            v = v.force()
        if ch in "sc":
            e = elems_of(v)
            if e is None:
                raise struct.error("argument for 's' must be a bytes object")
            if ch == "c" and len(e) != 1:
                raise struct.error("char format requires a bytes object of length 1")
            out.extend((e + [0] * k)[:k])
            continue
        if not is_sym(v):
            if ch == "?":
                out.append(int(bool(v)))
            else:
                code = {"n": "q", "N": "Q", "P": "Q"}.get(ch, ch)
                if k == 8 and ch in "lL":
                    code = {"l": "q", "L": "Q"}[ch]
                out.extend(struct.pack(("<" if order == "little" else ">") + code, v))
            continue
        if ch == "?":
            out.append(V.int_elem(mkbool(bnode(v))))
            continue
        if ch in "fd":
            out.extend(_pack_float(v, ch, order))
            continue
        if _type(v) is SymFloat or _type(v) in (SymStr, SymBytes, SymBytearray):
            raise struct.error("required argument is not an integer")
        v = as_int(v)
        if is_sym(v):
            lo = -(1 << (8 * k - 1)) if ch in _SGN else 0
            hi = (1 << (8 * k - 1)) - 1 if ch in _SGN else (1 << (8 * k)) - 1
            if (v.lo < lo or v.hi > hi) and any_true([v < lo, v > hi]):
                raise struct.error("argument out of range")
            b = V.int_bytes(v, k, order)
        else:
            b = int(v).to_bytes(k, order, signed=ch in _SGN)
        out.extend(elems_of(b))
    return mkbytes(out)


def _pack_float(v, ch, order):
    w = 32 if ch == "f" else 64
    if _type(v) is SymBool:
        v = as_int(v)
    if _type(v) is SymInt:
        v = SymFloat.of_int(v)
    if not is_sym(v):
        return struct.pack(("<" if order == "little" else ">") + ch, v)
    if _type(v) is not SymFloat:
        raise struct.error("required argument is not a float")
    if v.bits is not None and v.bw == w:
        n = v.bits
    elif v.tab is not None:
        bits = [V._try(lambda x: int.from_bytes(struct.pack("<" + ch, x), "little"), x) for x in v.tab]
        r = V._tab(v.base, bits)
        k = int_of(r)
        n = T.mk_extract(w - 1, 0, T.resize_s(k.n, w + 1))
    else:
        x = v.value("packing a float term")
        return struct.pack(("<" if order == "little" else ">") + ch, x)
    out = [T.mk_extract(8 * i + 7, 8 * i, n) for i in range(w // 8)]
    if order == "big":
        out.reverse()
    return out


def s_unpack_from(fmt, buf, offset=0):
    size = _fmt(fmt)[2]
    return s_unpack(fmt, buf[offset:offset + size])


def s_iter_unpack(fmt, buf):
    size = _fmt(fmt)[2]
    if not size or len(buf) % size:
        raise struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % size)
    return iter([s_unpack(fmt, buf[i:i + size]) for i in range(0, len(buf), size)])


# ---------------------------------------------------------------------------- builtins
def b_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    if _type(x) is LazyStr:
        x = x.force()
    if len(a) == 1 and not k:
        t = _type(x)
        if t is SymInt:
            return x.plain()
        if t is SymBool:
            return x.as_int()
        if t is SymFloat:
            return x.to_int()
        f = getattr(t, "__int__", None)
        if not is_sym(x) and f is not None and not rsub(x, (int, float, str, bytes)):
            return f(x)
    if _type(x) is SymStr:
        base = a[1] if len(a) > 1 else k.get("base", 10)
        if base == 10:
            return parse_int(x)
        return int(x.conc("int(text, base)"), base)
    if _type(x) in (SymBytes, SymBytearray):
        return parse_int(x.decode("ascii"))
    return int(x, *a[1:], **k)


def parse_int(s):
    """int(text) for decimal text: whitespace, sign, digits, underscores."""
    s = s.strip()
    if not is_sym(s):
        return int(s)
    src = V.DIGITS.get(tuple(s.c))
    if src is not None:
        return src
    c = [V._cp_int(x) for x in s.c]
    if not all_true([x < 128 for x in c]):
        return int(s.conc("int(non-ascii text)"))
    sign = 1
    if c and any_true([c[0] == 43, c[0] == 45]):
        if c[0] == 45:
            sign = -1
        c = c[1:]
    if not c:
        raise ValueError("invalid literal for int()")
    v = 0
    prev_us = True
    for i, x in enumerate(c):
        if all_true([x >= 48, x <= 57]):
            d = x - 48
            v = v * 10 + (V.mkint(d.n, 0, 9) if is_sym(d) else d)
            prev_us = False
        elif not prev_us and x == 95 and i + 1 < len(c):
            prev_us = True
        else:
            raise ValueError("invalid literal for int()")
    if prev_us:
        raise ValueError("invalid literal for int()")
    return v * sign


def b_bool(*a):
    if a and is_sym(a[0]):
        x = a[0]
        if _type(x) in (SymBool, SymInt):
            return mkbool(bnode(x))
        if _type(x) is SymFloat:
            return x != 0.0
        return bool(x)
    return bool(*a)


def b_float(*a):
    if a and is_sym(a[0]):
        x = a[0]
        if _type(x) is SymFloat:
            return x
        if _type(x) in (SymInt, SymBool):
            return SymFloat.of_int(x)
        return float(V.plain_value(x))
    if a and not rsub(a[0], (int, float, str, bytes)) and hasattr(_type(a[0]), "__float__"):
        return _type(a[0]).__float__(a[0])
    return float(*a)


def b_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = _type(x)
        if t in (SymStr, LazyStr):
            return x
        if is_sym(x):
            return LazyStr([(x, 115, "")])
        if has_sym(x):
            return LazyStr([(x, 115, "")])
        f = getattr(t, "__str__", None)
        if isinstance(f, types.FunctionType):
            return f(x)
        return str(x)
    if a and is_sym(a[0]):
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


def b_repr(x):
    if is_sym(x):
        return LazyStr([(x, 114, "")])
    return repr(x)


def b_bytes(*a, **k):
    if len(a) != 1 or k:
        if a and is_sym(a[0]):
            return a[0].encode(*a[1:], **k)
        return bytes(*a, **k)
    x = a[0]
    t = _type(x)
    if t is SymBytes:
        return x
    if t is SymBytearray:
        return mkbytes(x.e)
    if t is SymInt:
        return bytes(x.conc())
    if rsub(x, (bytes, bytearray, str, int, memoryview)):
        return bytes(x)
    f = getattr(t, "__bytes__", None)
    if f is not None:
        return f(x)
    return mkbytes([V._chk_elem(v) for v in x])


def b_bytearray(*a, **k):
    if not a:
        return SymBytearray([])
    r = b_bytes(*a, **k)
    return SymBytearray(list(elems_of(r)))


def b_len(x):
    if is_sym(x):
        return x.__len__()
    return len(x)


def b_round(x, *a, **k):
    if is_sym(x):
        return x.__round__(*a, **k)
    return round(x, *a, **k)


def b_abs(x):
    return x.__abs__() if is_sym(x) else abs(x)


def b_minmax(is_min):
    base = min if is_min else max

    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if "key" in k:
            k["key"] = lifted(k["key"])
        if (set(k) - {"default"}) or not xs or not any(is_sym(x) for x in xs):
            if len(a) == 1:
                return base(xs, **k)
            return base(*xs, **k)
        r = xs[0]
        for x in xs[1:]:
            less = (x < r) if is_min else (x > r)
            if _type(less) is SymBool and _num(x) and _num(r):
                r = V.ite(less.n, x, r)
            elif _type(less) is SymBool and _type(r) is SymFloat and r.tab is not None and _type(x) in (float, int):
                r = r.map(lambda v, x=x: base(v, x))
            elif _type(less) is SymBool and _type(x) is SymFloat and x.tab is not None and _type(r) in (float, int):
                r = x.map(lambda v, r=r: base(r, v))
            elif less:
                r = x
        return r

    return f


def _num(x):
    return int_of(x) is not None


def b_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def b_divmod(a, b):
    if is_sym(a):
        return a.__divmod__(b)
    if is_sym(b):
        return b.__rdivmod__(a)
    return divmod(a, b)


def b_chr(x):
    if is_sym(x):
        x = as_int(x)
        if any_true([x < 0, x > 0x10FFFF]):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr([V.int_cp(x)])
    return chr(x)


def b_ord(x):
    if _type(x) is LazyStr:
        x = x.force()
    if _type(x) is SymStr:
        if len(x.c) != 1:
            raise TypeError("ord() expected a character")
        return V._cp_int(x.c[0])
    if _type(x) is SymBytes:
        return x[0]
    return ord(x)


def b_type(*a):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    return _type(*a)


def b_hash(x):
    return hash(x)


def b_any(it):
    for x in it:
        if x:
            return True
    return False


def b_format(x, spec=""):
    if is_sym(x):
        return LazyStr([(x, -1, spec)])
    return format(x, spec)


def b_pow(a, b, m=None):
    return a ** b if m is None else pow(V.plain_value(a), V.plain_value(b), m)


def int_from_bytes(data, byteorder="big", *, signed=False):
    e = elems_of(data)
    if e is None:
        e = [V._chk_elem(x) for x in data]
    if all(_type(x) is int for x in e):
        return int.from_bytes(bytes(e), byteorder, signed=signed)
    nodes = [V.enode(x) for x in e]
    if byteorder == "little":
        nodes.reverse()
    n = T.mk_concat(*nodes)
    return mkint(n) if signed else mkuint(n)


def m_float(f):
    def g(x, *a):
        if is_sym(x):
            if _type(x) in (SymInt, SymBool):
                x = SymFloat.of_int(x)
            if is_sym(x):
                return x.map(lambda v: f(v, *a))
        return f(x, *a)

    return g


def m_isclose(a, b, **k):
    if is_sym(a) and _type(a) is SymFloat and a.tab is not None and _type(b) in (int, float):
        return a.map(lambda v: math.isclose(v, b, **k))
    return math.isclose(V.plain_value(a), V.plain_value(b), **k)


def b_compile(source, filename="", mode="exec", *a, **k):
    if rsub(source, str) and mode == "exec":
        from . import rewrite

        return real_compile(rewrite.rewrite_source(source, "<construct-generated>"), filename, mode, *a, **k)
    return real_compile(source, filename, mode, *a, **k)


def b_open(file, mode="r", *a, **k):
    cx = C.CX
    vfs = cx.state.get("vfs") if cx is not None and cx.state else None
    if vfs is not None:
        return vfs.open(file, mode, *a, **k)
    return real_open(file, mode, *a, **k)


def b_BytesIO(*a, **k):
    return SymStream(a[0] if a else k.get("initial_bytes", b""))


def b_set(*a):
    return set(*a)


def op_wrap(f):
    return f


TABLE = {}


def reg(obj, f):
    TABLE[id(obj)] = (obj, f)


for _o, _f in ((int, b_int), (bool, b_bool), (float, b_float), (str, b_str), (bytes, b_bytes),
               (bytearray, b_bytearray), (len, b_len), (round, b_round), (abs, b_abs),
               (min, b_minmax(True)), (max, b_minmax(False)), (sum, b_sum), (divmod, b_divmod),
               (chr, b_chr), (ord, b_ord), (type, b_type), (compile, b_compile), (open, b_open),
               (io.open, b_open), (io.BytesIO, b_BytesIO), (pow, b_pow), (format, b_format), (repr, b_repr),
               (struct.unpack, s_unpack), (struct.pack, s_pack), (struct.unpack_from, s_unpack_from),
               (struct.iter_unpack, s_iter_unpack), (math.isclose, m_isclose)):
    reg(_o, _f)
for _n in ("log2", "log", "log10", "sqrt", "exp", "floor", "ceil", "pow", "fabs", "trunc", "isnan", "isinf",
           "sin", "cos", "isfinite"):
    reg(getattr(math, _n), m_float(getattr(math, _n)))

# natively safe with symbolic arguments: they only store, compare or hash them
SAFE = {isinstance, issubclass, getattr, setattr, hasattr, id, print, iter, next, enumerate, zip, list, tuple,
        dict, set, frozenset, sorted, any, all, map, filter, reversed, range, slice, object, callable, hash,
        super, property, vars, dir}
SAFE_IDS = {id(x) for x in SAFE}
CONTAINERS = (list, dict, set, frozenset, tuple)

_builtin_fn = _type(len)
_fn = types.FunctionType


def install_builtins():
    builtins.__sx_call__ = sx_call
    builtins.__sx_in__ = sx_in
    builtins.__sx_notin__ = sx_notin
    builtins.__sx_fstr__ = sx_fstr
    builtins.__sx_mod__ = sx_mod
    builtins.__sx_and__ = bitop(operator.and_, "__rand__")
    builtins.__sx_or__ = bitop(operator.or_, "__ror__")
    builtins.__sx_xor__ = bitop(operator.xor, "__rxor__")
    builtins.__sx_iand__ = bitop(operator.iand, "__rand__")
    builtins.__sx_ior__ = bitop(operator.ior, "__ror__")
    builtins.__sx_ixor__ = bitop(operator.ixor, "__rxor__")
    builtins.__sx_iadd__ = sx_iadd
    builtins.__sx_item__ = sx_item
    builtins.__sx_is__ = sx_is
    builtins.__sx_isnot__ = lambda a, b: V.neg(sx_is(a, b))


def sx_is(a, b):
    """`x is True` and `x is False`."""
    if _type(a) is SymBool:
        return a == b
    return a is b


def sx_iadd(a, b):
    if is_sym(b) and rsub(a, (bytes, str)):
        return b.__radd__(a)
    return operator.iadd(a, b)


def bitop(f, rname):
    def g(a, b):
        if is_sym(b) and not is_sym(a) and rsub(a, int):
            return getattr(b, rname)(a)
        return f(a, b)

    return g


def sx_mod(a, b):
    if rsub(a, (str, Sym)) and isinstance(a, str):
        if is_sym(a) or has_sym(b):
            return LazyStr([PctFormat(a, b)])
    return a % b


class PctFormat(str):
    """Deferred % formatting (messages)."""

    def __new__(cls, fmt, args):
        o = str.__new__(cls, "<fmt>")
        o.fa = (fmt, args)
        return o


def has_sym(x):
    if is_sym(x):
        return True
    if _type(x) in (tuple, list):
        return any(has_sym(y) for y in x)
    if _type(x) is dict:
        return any(has_sym(y) for y in x.values())
    return False


def sx_fstr(*parts):
    if not any(_type(p) is tuple and (is_sym(p[0]) or is_sym(p[2])) for p in parts):
        out = []
        for p in parts:
            if _type(p) is tuple:
                v, conv, spec = p
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                v = format(v, spec)
                out.append(v)
            else:
                out.append(p)
        return "".join(out)
    return LazyStr(parts)


def sx_notin(a, b):
    return V.neg(sx_in(a, b))


def sx_in(a, b):
    sa = is_sym(a)
    if is_sym(b):
        r = b.__contains__(a)
        return r
    if sa:
        t = _type(b)
        if t in (tuple, list) and int_of(a) is not None:
            rs = []
            for x in b:
                r = a == x
                if r is NotImplemented:
                    r = False
                rs.append(r)
            return any_true(rs)
        if t is range and int_of(a) is not None:
            if b.step == 1:
                return all_true([a >= b.start, a < b.stop])
            return any_true([a == x for x in b])
        if t in (bytes, bytearray) and int_of(a) is not None:
            return any_true([a == x for x in b])
        if t in (set, frozenset) and int_of(a) is not None:
            return any_true([a == x for x in b if rsub(x, int)])
        if rsub(b, str):
            return SymStr([ord(ch) for ch in b]).__contains__(a if _type(a) is SymStr else a.force())
        if t in (bytes, bytearray):
            return SymBytes(list(b)).__contains__(a)
        if t is dict and int_of(a) is not None:
            return any_true([a == x for x in b if rsub(x, int)])
        if t in DICTS or t in (set, frozenset):
            return find_key(b, a) is not MISSING
        if t in (tuple, list) and _type(a) in (SymStr, SymBytes):
            return any_true([bool(a == x) for x in b])
    return a in b


DICTS = {dict, collections.defaultdict, collections.OrderedDict}
MISSING = object()


def find_key(d, key):
    """The key of a native dict or set that equals the symbolic one (the path forks), or MISSING."""
    for k in d:
        if key is k:
            return k
        r = key == k
        if r is not NotImplemented and r:
            return k
    return MISSING


def sx_item(o, i):
    if is_sym(i) and _type(o) in DICTS:
        k = find_key(o, i)
        if k is not MISSING:
            return o[k]
        if _type(o) is not collections.defaultdict or o.default_factory is None:
            raise KeyError(i)
    return o[i]


def dict_method(d, name, a):
    k = find_key(d, a[0])
    if name == "get":
        return d[k] if k is not MISSING else (a[1] if len(a) > 1 else None)
    if name == "__contains__":
        return k is not MISSING
    if name == "pop":
        if k is MISSING:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        return d.pop(k)
    if name == "setdefault" and k is not MISSING:
        return d[k]
    return getattr(d, name)(*a)


def enum_call(cls, x, rest):
    if rest or _type(x) is LazyStr or not _type(x) in (SymInt, SymBool):
        return cls(V.plain_value(x), *rest)
    x = as_int(x)
    if not is_sym(x):
        return cls(x)
    if x.cls is cls:
        return x
    if issubclass(cls, enum.Flag):
        # IntFlag accepts every int (Python 3.9: pseudo-members)
        if issubclass(cls, int):
            return SymInt(x.n, x.lo, x.hi, cls)
        return cls(x.conc())
    mod = cls.__mro__
    if any(c.__module__.startswith("construct_typed") for c in mod) and issubclass(cls, int):
        # construct_typed.EnumBase: unknown values become pseudo-members
        return SymInt(x.n, x.lo, x.hi, cls)
    vals = [m.value for m in cls if rsub(m.value, int)]
    if hasattr(cls, "_missing_") and cls._missing_.__func__ is not enum.Enum._missing_.__func__:
        return cls(x.conc())
    if not any_true([x == v for v in vals]):
        raise ValueError("not a valid %s" % cls.__name__)
    return cls(x.conc())


def lifted(f):
    """A callable to hand to native code which will call it: builtins see symbolic arguments."""
    if f is None or _type(f) in (_fn, Lifted):
        return f
    return Lifted(f)


class Lifted:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return sx_call(self.f, *a, **k)


def higher(base, at):
    """A native function which calls its argument number `at` (or its `key`)."""

    def f(*a, **k):
        if at is not None and len(a) > at:
            a = a[:at] + (lifted(a[at]),) + a[at + 1:]
        for n in ("key", "func", "function", "predicate"):
            if n in k:
                k[n] = lifted(k[n])
        return base(*a, **k)

    return f


for _o, _at in ((map, 0), (filter, 0), (sorted, None), (functools.reduce, 0), (itertools.starmap, 0), (itertools.takewhile, 0),
                (itertools.dropwhile, 0), (itertools.filterfalse, 0), (itertools.accumulate, 1), (itertools.groupby, 1)):
    reg(_o, higher(_o, _at))

_struct_unpack = {}


def sx_call(f, *a, **k):
    t = _type(f)
    ent = TABLE.get(id(f))
    if ent is not None and ent[0] is f:
        return ent[1](*a, **k)
    if t is _fn:
        return f(*a, **k)
    if t is functools.partial:
        return sx_call(f.func, *f.args, *a, **{**f.keywords, **k})
    if issubclass(t, type):
        if issubclass(t, enum.EnumMeta) and a and is_sym(a[0]):
            return enum_call(f, a[0], a[1:])
        return f(*a, **k)
    if t is types.MethodType:
        s = f.__self__
        if _type(s) in DICTS and a and is_sym(a[0]):
            return dict_method(s, f.__name__, a)
        if "key" in k and f.__name__ == "sort" and _type(s) is list:
            k["key"] = lifted(k["key"])
        if s is int or rsub(s, type) and s is int:
            if f.__name__ == "from_bytes":
                return int_from_bytes(*a, **k)
        ts = _type(s)
        if ts is struct.Struct:
            name = f.__name__
            if name == "unpack":
                return s_unpack(s.format, *a)
            if name == "pack":
                return s_pack(s.format, *a)
            if name == "unpack_from":
                return s_unpack_from(s.format, *a, **k)
            if name == "iter_unpack":
                return s_iter_unpack(s.format, *a)
        if rsub(s, pathlib.PurePath):
            r = path_method(s, f.__name__, a, k)
            if r is not NotImplemented:
                return r
        if ts in PRIM and (any(has_sym(x) for x in a) or f.__name__ == "join"):
            return prim_method(s, f.__name__, a, k)
        if ts is bytearray or s is bytes or s is str or s is bytearray:
            if any(has_sym(x) for x in a):
                if s is bytes or s is bytearray or s is str:
                    return getattr(s, f.__name__)(*[V.plain_value(x) for x in a], **k)
        return f(*a, **k)
    if id(f) in SAFE_IDS:
        return f(*a, **k)
    if t is _builtin_fn or t is types.BuiltinFunctionType:
        s = getattr(f, "__self__", None)
        if _type(s) in DICTS and a and is_sym(a[0]):
            return dict_method(s, f.__name__, a)
        if s is not None and _type(s) in PRIM and any(has_sym(x) for x in a):
            return prim_method(s, f.__name__, a, k)
        if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
            mod = getattr(f, "__module__", "") or ""
            if mod in ("operator", "_operator", "itertools", "functools", "_functools", "copy", "warnings",
                       "_warnings", "types"):
                return f(*a, **k)
            C.CX.note("builtin %s on one value" % getattr(f, "__name__", "?"))
            return f(*[real(x) for x in a], **{n: real(x) for n, x in k.items()})
    return f(*a, **k)


def real(x):
    t = _type(x)
    if t is SymInt:
        return x.realise("argument of a builtin")
    return V.plain_value(x)


PRIM = {str, bytes, int, float, bool}


def prim_method(s, name, a, k):
    t = _type(s)
    if t is bytes:
        if name == "join":
            parts = list(a[0])
            if any(is_sym(p) for p in parts):
                return V.join_bytes(s, parts)
            return s.join(parts)
        return getattr(SymBytes(list(s)), name)(*a, **k)
    if t is str:
        if name == "join":
            parts = list(a[0])
            if any(is_sym(p) for p in parts):
                return V.join_str(s, parts)
            return s.join(parts)
        if name == "format":
            return LazyStr([(FormatCall(s, a, k), 115, "")])
        return getattr(SymStr([ord(ch) for ch in s]), name)(*a, **k)
    return getattr(s, name)(*[V.plain_value(x) for x in a], **k)


class FormatCall:
    def __init__(self, s, a, k):
        self.s, self.a, self.k = s, a, k

    def __str__(self):
        return self.s.format(*[V.plain_value(x) for x in self.a],
                             **{n: V.plain_value(x) for n, x in self.k.items()})


# ---------------------------------------------------------------------------- files
import os  # noqa: E402
import pathlib  # noqa: E402
import shutil  # noqa: E402
import tempfile  # noqa: E402


def _vfs():
    cx = C.CX
    return cx.state.get("vfs") if cx is not None and getattr(cx, "state", None) else None


def _vf(real_f, name):
    def f(*a, **k):
        v = _vfs()
        if v is None:
            return real_f(*a, **k)
        return getattr(v, name)(*a, **k)

    return f


for _o, _n in ((os.replace, "replace"), (os.rename, "replace"), (os.remove, "remove"), (os.unlink, "remove"),
               (os.path.exists, "exists"), (os.path.isfile, "exists"), (os.path.lexists, "exists"),
               (os.fdopen, "fdopen"), (os.fsync, "nothing"), (os.close, "nothing"), (os.path.getsize, "size"),
               (os.stat, "stat"), (os.open, "os_open"), (os.access, "access"), (os.chmod, "nothing"),
               (tempfile.NamedTemporaryFile, "temporary"), (tempfile.TemporaryFile, "temporary"),
               (tempfile.mkstemp, "mkstemp"), (tempfile.mktemp, "mktemp"),
               (shutil.copyfile, "copy"), (shutil.copy, "copy"), (shutil.copy2, "copy"), (shutil.move, "replace"),
               (shutil.copymode, "nothing"), (shutil.copystat, "nothing"), (shutil.copyfileobj, "copyfileobj")):
    reg(_o, _vf(_o, _n))


def path_method(p, name, a, k):
    """pathlib.Path methods that touch files, on the virtual file system."""
    v = _vfs()
    if v is None:
        return NotImplemented
    if name == "open":
        return v.open(p, *a, **k)
    if name == "read_bytes":
        with v.open(p, "rb") as f:
            return f.read()
    if name == "write_bytes":
        with v.open(p, "wb") as f:
            return f.write(*a)
    if name in ("exists", "is_file"):
        return v.exists(p)
    if name == "unlink":
        if k.get("missing_ok") and not v.exists(p):
            return None
        return v.remove(p)
    if name in ("replace", "rename"):
        v.replace(p, *a)
        return type(p)(*a)
    if name == "stat":
        return v.stat(p)
    if name == "touch":
        return v.open(p, "ab").close()
    return NotImplemented
