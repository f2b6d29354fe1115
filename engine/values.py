"""Symbolic stand-ins for int, bool, float, bytes, bytearray, str and in-memory files.

Every operation either builds a term that equals Python's result for all values, forks,
or (Gap / realise) says that it did not cover all values.
"""

import enum
import math
import struct

from . import ctx as C
from . import terms as T

TABLE_LIMIT = 1 << 20


def width(lo, hi):
    return max(lo.bit_length(), hi.bit_length(), 1) + 1 if lo < 0 or hi >= 0 else 1


def bits_for(lo, hi):
    """Signed width holding [lo, hi]."""
    n = max((~lo if lo < 0 else lo).bit_length(), (~hi if hi < 0 else hi).bit_length())
    return n + 1


class Sym:
    """Marker base. Values, never mutated in place (bytearrays have their own copies)."""

    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def is_sym(x):
    return isinstance_real(x, Sym)


def isinstance_real(x, cls):
    return issubclass(type(x), cls)


# ---------------------------------------------------------------------------- bool
def mkbool(n):
    if n is T.TRUE:
        return True
    if n is T.FALSE:
        return False
    return SymBool(n)


def bnode(x):
    """Bool node of any truthy-testable value (no fork)."""
    if type(x) is SymBool:
        return x.n
    if type(x) is SymInt:
        return T.mk_not(T.mk_eq(x.n, T.bv(0, x.n.w)))
    if isinstance_real(x, Sym):
        return T.mk_bool(bool(x))
    return T.mk_bool(bool(x))


class SymBool(Sym):
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return C.CX.branch(self.n)

    def as_int(self):
        return mkint(T.mk_ite(self.n, T.bv(1, 2), T.bv(0, 2)), 0, 1)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(T.mk_eq(self.n, o.n))
        if isinstance(o, bool):
            return mkbool(self.n if o else T.mk_not(self.n))
        return self.as_int() == o

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def _bit(self, o, f):
        if type(o) is SymBool or type(o) is bool:
            return mkbool(f(self.n, bnode(o)))
        return None

    def __and__(self, o):
        r = self._bit(o, T.mk_and)
        return r if r is not None else self.as_int() & o

    def __or__(self, o):
        r = self._bit(o, T.mk_or)
        return r if r is not None else self.as_int() | o

    def __xor__(self, o):
        r = self._bit(o, lambda a, b: T.mk_not(T.mk_eq(a, b)))
        return r if r is not None else self.as_int() ^ o

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def to_bytes(self, *a, **k):
        return as_int(self).to_bytes(*a, **k)

    @property
    def real(self):
        return self.as_int()


def _deleg(name):
    def f(self, *a):
        return getattr(self.as_int(), name)(*a)

    f.__name__ = name
    setattr(SymBool, name, f)


def neg(x):
    if x is NotImplemented:
        return x
    if type(x) is SymBool:
        return mkbool(T.mk_not(x.n))
    return not x


# ---------------------------------------------------------------------------- int
def mkint(n, lo=None, hi=None, cls=None):
    """Python int whose value is the signed reading of n; interval [lo, hi] must be sound."""
    a, b = T.srange(n)
    lo = a if lo is None or lo < a else lo
    hi = b if hi is None or hi > b else hi
    if n.op == "const":
        v = T.signed(n.p, n.w)
        return cls(v) if cls is not None else v
    if RANGES and n.op in ("var", "zext", "sext", "extract"):
        k = ranged(n)
        if k is not None:
            lo, hi, n = max(lo, k.lo), min(hi, k.hi), k.n
    if lo == hi:
        return cls(lo) if cls is not None else lo
    w = bits_for(lo, hi)
    if w < n.w:
        n = T.mk_extract(w - 1, 0, n)
    return SymInt(n, lo, hi, cls)


RANGES = {}  # declared interval of a variable (signed reading), on this path


def ranged(n):
    """The declared variable whose value n is, if it is just a resized one."""
    r = RANGES.get(n)
    if r is not None:
        return SymInt(n, r[0], r[1])
    if n.op == "zext" or n.op == "sext":
        k = ranged(n.a[0])
        return k if k is not None and (n.op == "sext" or k.lo >= 0) else None
    if n.op == "extract" and n.p[1] == 0:
        k = ranged(n.a[0])
        return k if k is not None and bits_for(k.lo, k.hi) <= n.w else None
    return None


def mkuint(n):
    """Unsigned reading of n."""
    if n.op == "const":
        return n.p
    return mkint(T.mk_zext(n, 1), 0, T.urange_hi(n))


def int_of(x):
    """(node, lo, hi) of an int-like, or None."""
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        y = x.as_int()
        return y if type(y) is SymInt else _const(int(y))
    if t is int or t is bool:
        return _const(int(x))
    if isinstance_real(x, int):
        return _const(int.__int__(x))
    return None


_cc = {}


class _K:
    __slots__ = ("n", "lo", "hi")


def _const(v):
    k = _cc.get(v)
    if k is None:
        k = _K()
        k.n = T.bv(v, bits_for(v, v))
        k.lo = k.hi = v
        if len(_cc) < 100000:
            _cc[v] = k
    return k


def as_int(x):
    return x.as_int() if type(x) is SymBool else x


class SymInt(Sym):
    __slots__ = ("n", "lo", "hi", "cls")

    def __init__(self, n, lo, hi, cls=None):
        self.n, self.lo, self.hi, self.cls = n, lo, hi, cls

    @property
    def __class__(self):
        return self.cls or int

    def plain(self):
        return SymInt(self.n, self.lo, self.hi) if self.cls else self

    def conc(self):
        return T.signed(C.CX.concretise(self.n), self.n.w)

    def realise(self, why):
        return T.signed(C.CX.realise(self.n, why), self.n.w)

    def __bool__(self):
        return C.CX.branch(T.mk_not(T.mk_eq(self.n, T.bv(0, self.n.w))))

    def __hash__(self):
        return hash(self.conc())

    def __index__(self):
        return self.conc()

    __int__ = __index__

    def __trunc__(self):
        return self.plain()

    def __float__(self):
        return float(self.conc())

    def __repr__(self):
        return "<symint>"

    def __format__(self, spec):
        return "<symint>"

    def __getattr__(self, name):
        cls = self.cls
        if cls is not None:
            if name == "value" or name == "_value_":
                return self.plain()
            if name == "name" or name == "_name_" or hasattr(cls, name):
                return getattr(cls(self.conc()), name)
            raise AttributeError(name)
        if name in ("real", "numerator"):
            return self
        if name == "imag":
            return 0
        if name == "denominator":
            return 1
        if hasattr(int, name):
            return getattr(self.conc(), name)
        raise AttributeError(name)

    def __contains__(self, o):
        if self.cls is None:
            raise TypeError("argument of type 'int' is not iterable")
        k = int_of(o)
        if k is None or not isinstance(o, self.cls):
            raise TypeError("unsupported operand type(s) for 'in'")
        k = o.plain() if type(o) is SymInt else int.__int__(o)
        return (self.plain() & k) == k

    # ---- arithmetic
    def _bin(self, o, f):
        k = int_of(o)
        if k is None:
            return NotImplemented
        return f(self, k)

    def __add__(self, o):
        if isinstance(o, float):
            return SymFloat.of_int(self) + o
        return self._bin(o, _add)

    def __radd__(self, o):
        if isinstance(o, float):
            return o + SymFloat.of_int(self)
        return self._bin(o, _add)

    def __sub__(self, o):
        if isinstance(o, float):
            return SymFloat.of_int(self) - o
        return self._bin(o, _sub)

    def __rsub__(self, o):
        if isinstance(o, float):
            return o - SymFloat.of_int(self)
        return self._bin(o, lambda a, b: _sub(b, a))

    def __mul__(self, o):
        if isinstance(o, float):
            return SymFloat.of_int(self) * o
        if isinstance_real(o, (bytes, str, list, tuple)):
            return o * self.conc()
        return self._bin(o, _mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return SymFloat.of_int(self) / o

    def __rtruediv__(self, o):
        return o / SymFloat.of_int(self)

    def __floordiv__(self, o):
        if isinstance(o, float):
            return SymFloat.of_int(self) // o
        return self._bin(o, lambda a, b: _divmod(a, b)[0])

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: _divmod(b, a)[0])

    def __mod__(self, o):
        if isinstance(o, float):
            return SymFloat.of_int(self) % o
        return self._bin(o, lambda a, b: _divmod(a, b)[1])

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: _divmod(b, a)[1])

    def __divmod__(self, o):
        return self._bin(o, _divmod)

    def __rdivmod__(self, o):
        return self._bin(o, lambda a, b: _divmod(b, a))

    def __pow__(self, o, m=None):
        if m is None and isinstance_real(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(int(o)):
                r = r * self
            return r
        if isinstance(o, float) or self.lo < 0:
            return SymFloat.of_int(self) ** o
        return self.conc() ** o

    def __rpow__(self, o):
        if isinstance_real(o, int):
            return o ** self.conc()
        return o ** SymFloat.of_int(self)

    def __neg__(self):
        return _sub(_const(0), self)

    def __pos__(self):
        return self.plain()

    def __abs__(self):
        if self.lo >= 0:
            return self.plain()
        return ite(T.mk_slt(self.n, T.bv(0, self.n.w)), -self, self.plain())

    def __invert__(self):
        return mkint(T.mk_bnot(self.n), ~self.hi, ~self.lo, self.cls if _is_flag(self.cls) else None)

    def __lshift__(self, o):
        if is_sym(o):
            o = o.conc()
        if o < 0:
            raise ValueError("negative shift count")
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.conc()

    def __rshift__(self, o):
        if is_sym(o):
            o = o.conc()
        if o < 0:
            raise ValueError("negative shift count")
        return mkint(T.mk_ashr(self.n, T.bv(min(o, self.n.w - 1), self.n.w)), self.lo >> o, self.hi >> o)

    def __rrshift__(self, o):
        return o >> self.conc()

    def _flagcls(self, o):
        for c in (self.cls, getattr(o, "cls", None) if type(o) is SymInt else type(o)):
            if c is not None and _is_flag(c):
                return c
        return None

    def __and__(self, o):
        r = self._bin(o, _and)
        return _recls(r, self._flagcls(o))

    def __or__(self, o):
        r = self._bin(o, _or)
        return _recls(r, self._flagcls(o))

    def __xor__(self, o):
        r = self._bin(o, _xor)
        return _recls(r, self._flagcls(o))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    # ---- comparison
    def __eq__(self, o):
        if isinstance(o, float) and not isinstance_real(o, int):
            return SymFloat.of_int(self) == o
        k = int_of(o)
        if k is None:
            return NotImplemented if is_sym(o) or not isinstance_real(o, (type(None), str, bytes, tuple, list)) else False
        if k.lo > self.hi or k.hi < self.lo:
            return False
        w = max(self.n.w, k.n.w)
        return mkbool(T.mk_eq(T.resize_s(self.n, w), T.resize_s(k.n, w)))

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __lt__(self, o):
        if isinstance(o, float):
            return SymFloat.of_int(self) < o
        return self._bin(o, _lt)

    def __gt__(self, o):
        if isinstance(o, float):
            return SymFloat.of_int(self) > o
        return self._bin(o, lambda a, b: _lt(b, a))

    def __le__(self, o):
        if isinstance(o, float):
            return SymFloat.of_int(self) <= o
        return self._bin(o, lambda a, b: neg(_lt(b, a)))

    def __ge__(self, o):
        if isinstance(o, float):
            return SymFloat.of_int(self) >= o
        return self._bin(o, lambda a, b: neg(_lt(a, b)))

    # ---- int methods
    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if is_sym(length):
            length = length.conc()
        if not signed and self.lo < 0:
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
        lim_lo = -(1 << (8 * length - 1)) if signed and length else 0
        lim_hi = (1 << (8 * length - 1)) - 1 if signed and length else (1 << (8 * length)) - 1
        if self.hi > lim_hi and (self > lim_hi) or self.lo < lim_lo and (self < lim_lo):
            raise OverflowError("int too big to convert")
        return int_bytes(self, length, byteorder)

    def bit_length(self):
        return self.conc().bit_length()

    def __round__(self, nd=None):
        if nd is None or nd >= 0:
            return self.plain()
        return round(self.conc(), nd)

    def __floor__(self):
        return self.plain()

    __ceil__ = __floor__

    def is_integer(self):
        return True


def _is_flag(c):
    return isinstance_real(c, type) and issubclass(c, enum.Flag)


def _recls(r, cls):
    if cls is None or r is NotImplemented:
        return r
    if type(r) is SymInt:
        return SymInt(r.n, r.lo, r.hi, cls)
    return cls(r)


def int_bytes(x, length, order="little"):
    """Two's-complement bytes of an int known to fit."""
    k = int_of(x)
    n = T.resize_s(k.n, max(8 * length, 1))
    out = [T.mk_extract(8 * i + 7, 8 * i, n) for i in range(length)]
    t = _table_of(k.n) if is_sym(x) else None
    if t is not None and all(0 <= v < 1 << 8 * length for v in t[1]):
        TABLES[T.mk_concat(*out[::-1])] = t
    if order == "big":
        out.reverse()
    return mkbytes(out)


def _wide(a, b, lo, hi):
    w = bits_for(lo, hi)
    return T.resize_s(a.n, max(w, a.n.w)), T.resize_s(b.n, max(w, b.n.w)), w


def _arith(op, a, b, lo, hi):
    w = bits_for(min(lo, a.lo, b.lo), max(hi, a.hi, b.hi))
    return mkint(op(T.resize_s(a.n, w), T.resize_s(b.n, w)), lo, hi)


def _add(a, b):
    return _arith(T.mk_add, a, b, a.lo + b.lo, a.hi + b.hi)


def _sub(a, b):
    return _arith(T.mk_sub, a, b, a.lo - b.hi, a.hi - b.lo)


def _mul(a, b):
    c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
    return _arith(T.mk_mul, a, b, min(c), max(c))


def _divmod(a, b):
    if b.lo <= 0 <= b.hi:
        bz = mkbool(T.mk_eq(b.n, T.bv(0, b.n.w))) if type(b) is not _K else b.lo == 0
        if bz:
            raise ZeroDivisionError("integer division or modulo by zero")
    if b.lo < 0 < b.hi or b.lo == 0 or b.hi == 0:
        pos = mkbool(T.mk_slt(T.bv(0, b.n.w), b.n))
        if pos:
            b = _narrow(b, max(b.lo, 1), b.hi)
        else:
            b = _narrow(b, b.lo, min(b.hi, -1))
    if b.hi < 0:
        q, r = _divmod(_as_k(-_as_s(a)), _as_k(-_as_s(b)))
        return q, -r
    if a.lo < 0:
        if type(b) is _K or b.lo == b.hi:
            k = -(a.lo // b.lo)
            q, r = _divmod(_as_k(_add(a, _const(k * b.lo))), b)
            return q - k, r
        if mkbool(T.mk_slt(a.n, T.bv(0, a.n.w))):
            # floor division of a negative by a positive
            q, r = _divmod(_as_k(-_as_s(a) - 1), b)
            return -q - 1, b_minus(b, r)
        a = _narrow(a, 0, max(a.hi, 0))
    if type(b) is _K and type(a) is SymInt:
        t = _table_of(a.n)
        if t is None and a.n in RANGES and a.hi - a.lo < 1 << 14:
            t = a, range(a.lo, a.hi + 1)
        if t is not None and (t[1][-1] - t[1][0]) // b.lo < 100:
            qs = [_recls(int_table(t[0], [f(v, b.lo) for v in t[1]]), None)
                  for f in (lambda v, k: v // k, lambda v, k: v % k)]
            return qs[0], qs[1]
    w = max(bits_for(0, max(a.hi, 0)), bits_for(0, b.hi))
    an, bn = T.resize_s(a.n, w), T.resize_s(b.n, w)
    q = mkint(T.mk_udiv(an, bn), max(a.lo, 0) // b.hi, max(a.hi, 0) // b.lo)
    r = mkint(T.mk_urem(an, bn), 0, min(b.hi - 1, max(a.hi, 0)))
    return q, r


def b_minus(b, r):
    return _as_s(b) - 1 - r


def _as_s(k):
    return mkint(k.n, k.lo, k.hi)


def _as_k(x):
    return int_of(x)


def _narrow(a, lo, hi):
    r = mkint(a.n, lo, hi)
    return int_of(r)


def _bitw(op, a, b, lo, hi):
    w = max(a.n.w, b.n.w)
    return mkint(op(T.resize_s(a.n, w), T.resize_s(b.n, w)), lo, hi)


def _bound(a, b):
    w = max(bits_for(a.lo, a.hi), bits_for(b.lo, b.hi))
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def _and(a, b):
    lo, hi = _bound(a, b)
    if a.lo >= 0 or b.lo >= 0:
        lo = 0
    if a.lo >= 0:
        hi = min(hi, a.hi)
    if b.lo >= 0:
        hi = min(hi, b.hi)
    return _bitw(T.mk_band, a, b, lo, hi)


def _or(a, b):
    lo, hi = _bound(a, b)
    if a.lo >= 0 and b.lo >= 0:
        lo = max(a.lo, b.lo)
    return _bitw(T.mk_bor, a, b, lo, hi)


def _xor(a, b):
    lo, hi = _bound(a, b)
    if a.lo >= 0 and b.lo >= 0:
        lo = 0
    return _bitw(T.mk_bxor, a, b, lo, hi)


def _lt(a, b):
    if a.hi < b.lo:
        return True
    if a.lo >= b.hi:
        return False
    w = max(a.n.w, b.n.w)
    return mkbool(T.mk_slt(T.resize_s(a.n, w), T.resize_s(b.n, w)))


for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __floordiv__ "
           "__rfloordiv__ __mod__ __rmod__ __divmod__ __rdivmod__ __pow__ __rpow__ __neg__ __pos__ __abs__ "
           "__invert__ __lshift__ __rlshift__ __rshift__ __rrshift__ __lt__ __gt__ __le__ __ge__ "
           "__round__").split():
    _deleg(_n)


def ite(c, a, b):
    """Merged conditional for ints/bools; falls back to a fork."""
    if c is T.TRUE:
        return a
    if c is T.FALSE:
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        return mkbool(T.mk_ite(c, bnode(a), bnode(b)))
    ka, kb = int_of(a), int_of(b)
    if ka is not None and kb is not None:
        w = max(ka.n.w, kb.n.w)
        return mkint(T.mk_ite(c, T.resize_s(ka.n, w), T.resize_s(kb.n, w)), min(ka.lo, kb.lo), max(ka.hi, kb.hi))
    return a if C.CX.branch(c) else b


# ---------------------------------------------------------------------------- float
class SymFloat(Sym):
    """Either a tabulated function of one bounded int (tab[i] for base value lo + i, None where
    Python would raise), or a Float64 term (bits: the raw IEEE bits it was read from)."""

    __slots__ = ("base", "tab", "fp", "bits", "bw")

    def __init__(self, base=None, tab=None, fp=None, bits=None, bw=0):
        self.base, self.tab, self.fp, self.bits, self.bw = base, tab, fp, bits, bw

    @property
    def __class__(self):
        return float

    @staticmethod
    def of_int(x):
        x = as_int(x)
        if not is_sym(x):
            return float(x)
        t = _table_of(x.n)
        if t is not None:
            return SymFloat(t[0], [float(v) for v in t[1]])
        if x.hi - x.lo < TABLE_LIMIT:
            return SymFloat(x.plain(), [float(v) for v in range(x.lo, x.hi + 1)])
        if -(1 << 53) <= x.lo and x.hi <= 1 << 53:
            return SymFloat(fp=T.fp_from_sbv(x.n))
        return float(x.realise("int too wide for float conversion"))

    @staticmethod
    def from_bits(n):
        if n.op == "const":
            return struct.unpack("<f" if n.w == 32 else "<d", n.p.to_bytes(n.w // 8, "little"))[0]
        t = _table_of(n)
        if t is not None:  # bits of an integer-valued table packed before
            k = n.w // 8
            return SymFloat(t[0], [struct.unpack("<f" if k == 4 else "<d", v.to_bytes(k, "little"))[0]
                                   for v in t[1]])
        return SymFloat(fp=T.fp_from32(n) if n.w == 32 else T.fp_from64(n), bits=n, bw=n.w)

    def __repr__(self):
        return "<symfloat>"

    def __format__(self, spec):
        return "<symfloat>"

    def node(self):
        if self.fp is None:
            raise C.Gap("table float used as a term")
        return self.fp

    def value(self, why="float"):
        if self.tab is not None:
            v = self.base.conc() if self.base.hi - self.base.lo < C.CX.conc_limit else self.base.realise(why)
            return self.tab[v - self.base.lo]
        if self.bits is not None:
            v = C.CX.realise(self.bits, why)
            return struct.unpack("<f" if self.bw == 32 else "<d", v.to_bytes(self.bw // 8, "little"))[0]
        raise C.Gap("concrete value of a float term")

    __float__ = value

    def __hash__(self):
        return hash(self.value("hash of a float"))

    def __bool__(self):
        return bool(self != 0.0)

    def _op(self, o, f, name):
        if isinstance(o, bool) or isinstance_real(o, int) and not is_sym(o):
            try:
                o = float(o)
            except OverflowError:
                return NotImplemented
        if type(o) in (SymInt, SymBool):
            if self.tab is not None and type(o) is SymInt and o.n is self.base.n:
                o = SymFloat(self.base, [float(v) for v in range(self.base.lo, self.base.hi + 1)])
            else:
                o = SymFloat.of_int(o)
        if type(o) is not float and type(o) is not SymFloat:
            return NotImplemented
        if self.tab is not None:
            if type(o) is float:
                return _tab(self.base, [_try(f, v, o) for v in self.tab])
            if o.tab is not None and o.base.n is self.base.n and o.base.lo == self.base.lo \
                    and len(o.tab) == len(self.tab):
                return _tab(self.base, [_try(f, v, w) for v, w in zip(self.tab, o.tab)])
            return f(self.value("float op over two inputs"), o)
        b = T.fp_const(_dbits(o)) if type(o) is float else None
        if b is None:
            if o.fp is None:
                return f(self, o.value("float op over two inputs"))
            b = o.fp
        if name in ("add", "sub", "mul", "div"):
            return SymFloat(fp=T.fp_op(name, self.fp, b))
        if name in ("rsub", "rdiv"):
            return SymFloat(fp=T.fp_op(name[1:], b, self.fp))
        if name == "lt":
            return mkbool(T.fp_cmp("lt", self.fp, b))
        if name == "le":
            return mkbool(T.fp_cmp("leq", self.fp, b))
        if name == "gt":
            return mkbool(T.fp_cmp("lt", b, self.fp))
        if name == "ge":
            return mkbool(T.fp_cmp("leq", b, self.fp))
        if name == "eq":
            if self.fp is b:
                return mkbool(T.mk_not(T.fp_isnan(b)))
            return mkbool(T.fp_cmp("eq", self.fp, b))
        return f(self.value("float " + name), o if type(o) is float else o.value("float " + name))

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b, "add")

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b, "sub")

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a, "rsub")

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b, "mul")

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) in (int, float) and o == 0:
            raise ZeroDivisionError("float division by zero")
        return self._op(o, lambda a, b: a / b, "div")

    def __rtruediv__(self, o):
        if self == 0.0:
            raise ZeroDivisionError("float division by zero")
        return self._op(o, lambda a, b: b / a, "rdiv")

    def __floordiv__(self, o):
        return self._op(o, lambda a, b: a // b, "floordiv")

    def __mod__(self, o):
        return self._op(o, lambda a, b: a % b, "mod")

    def __pow__(self, o):
        return self._op(o, lambda a, b: a ** b, "pow")

    def __rpow__(self, o):
        return self._op(o, lambda a, b: b ** a, "rpow")

    def __neg__(self):
        return self.map(lambda a: -a)

    def __pos__(self):
        return self

    def __abs__(self):
        return self.map(abs)

    def __lt__(self, o):
        return self._op(o, lambda a, b: a < b, "lt")

    def __le__(self, o):
        return self._op(o, lambda a, b: a <= b, "le")

    def __gt__(self, o):
        return self._op(o, lambda a, b: a > b, "gt")

    def __ge__(self, o):
        return self._op(o, lambda a, b: a >= b, "ge")

    def __eq__(self, o):
        r = self._op(o, lambda a, b: a == b, "eq")
        return False if r is NotImplemented and o is None else r

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def map(self, f):
        if self.tab is not None:
            return _tab(self.base, [_try(f, v) for v in self.tab])
        return f(self.value("float function"))

    def to_int(self, f=int, rm="RTZ"):
        if self.tab is not None:
            return self.map(f)
        bad = T.mk_or(T.fp_isnan(self.fp), T.fp_isinf(self.fp))
        if mkbool(bad):
            raise ValueError("cannot convert float NaN or infinity to integer")
        if mkbool(T.mk_and(T.fp_cmp("lt", T.fp_const(_dbits(-2.0 ** 40)), self.fp),
                           T.fp_cmp("lt", self.fp, T.fp_const(_dbits(2.0 ** 40))))):
            return mkint(T.fp_to_sbv(rm, self.fp, 48), -(1 << 41), 1 << 41)
        return f(self.value("int() of a huge float"))

    def __trunc__(self):
        return self.to_int()

    def __round__(self, nd=None):
        if nd is None:
            return self.to_int(round, "RNE")
        return self.map(lambda v: round(v, nd))

    def __floor__(self):
        return self.map(math.floor)

    def __ceil__(self):
        return self.map(math.ceil)

    def is_integer(self):
        return self.map(lambda v: v.is_integer())

    def __getattr__(self, name):
        if name == "real":
            return self
        if hasattr(float, name):
            return getattr(self.value("float." + name), name)
        raise AttributeError(name)


class _Err:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


def _try(f, *a):
    for x in a:
        if type(x) is _Err:
            return x
    try:
        return f(*a)
    except Exception as e:  # noqa: BLE001
        return _Err(e)


def _ranges(base, idx):
    """Bool node: base value (offset from lo) is one of the sorted offsets idx."""
    parts = []
    i = 0
    w = base.n.w
    lo = base.lo
    while i < len(idx):
        j = i
        while j + 1 < len(idx) and idx[j + 1] == idx[j] + 1:
            j += 1
        a, b = lo + idx[i], lo + idx[j]
        if a == b:
            parts.append(T.mk_eq(base.n, T.bv(a, w)))
        else:
            parts.append(T.mk_and(T.mk_sle(T.bv(a, w), base.n), T.mk_sle(base.n, T.bv(b, w))))
        i = j + 1
    if len(parts) > 4000:
        raise C.Gap("table with more than 4000 pieces")
    return T.mk_or(*parts) if parts else T.FALSE


def _tab(base, vals):
    """Fold a table of Python results into a symbolic value of the right type."""
    errs = [i for i, v in enumerate(vals) if type(v) is _Err]
    if errs:
        kinds = {}
        for i in errs:
            kinds.setdefault(type(vals[i].e), []).append(i)
        for k, idx in kinds.items():
            if C.CX.branch(_ranges(base, idx)):
                raise vals[idx[0]].e
        ok = [i for i, v in enumerate(vals) if type(v) is not _Err]
        if not ok:
            raise C.Abandon()
        # keep the table total with a value that this path cannot take
        fill = vals[ok[0]]
        vals = [fill if type(v) is _Err else v for v in vals]
    v0 = vals[0]
    if type(v0) is bool:
        idx = [i for i, v in enumerate(vals) if v]
        if len(idx) == len(vals):
            return True
        if not idx:
            return False
        return mkbool(_ranges(base, idx))
    if isinstance_real(v0, int):
        return int_table(base, vals)
    return SymFloat(base, vals)


def int_table(base, vals):
    """Int-valued table as nested conditionals over affine segments."""
    segs = []  # (start offset, slope, value at start)
    n = len(vals)
    i = 0
    while i < n:
        j = i
        if i + 1 < n:
            s = vals[i + 1] - vals[i]
            j = i + 1
            while j + 1 < n and vals[j + 1] - vals[j] == s:
                j += 1
            # a two-element slope may just be a step: prefer constants of length >= 2
            if s != 0 and j == i + 1 and j + 1 < n and vals[j + 1] == vals[j]:
                j, s = i, 0
        else:
            s = 0
        segs.append((i, s, vals[i]))
        i = j + 1
    if len(segs) > 5000:
        raise C.Gap("table with more than 5000 affine pieces")
    lo, hi = min(vals), max(vals)

    def build(a, b):
        if b - a == 1:
            st, s, v = segs[a]
            if s == 0:
                return v
            if s == 1:
                return base + (v - base_lo - st)
            return (base - (base_lo + st)) * s + v
        m = (a + b) // 2
        c = T.mk_slt(base.n, T.bv(base_lo + segs[m][0], base.n.w))
        return ite(c, build(a, m), build(m, b))

    base_lo = base.lo
    r = build(0, len(segs))
    if type(r) is SymInt:
        r = mkint(r.n, lo, hi)
        if is_sym(r):
            TABLES[r.n] = (base, vals)
    return r


TABLES = {}  # node of an int_table -> what it tabulates


def _table_of(n):
    """The table behind a node, looking through widening and narrowing."""
    t = TABLES.get(n)
    if t is not None:
        return t
    if n.op in ("zext", "sext", "extract") and (n.op != "extract" or n.p[1] == 0):
        t = _table_of(n.a[0])
        if t is None:
            return None
        w = n.w
        if all(0 <= v < 1 << w for v in t[1]):
            return t
    return None


def _dbits(v):
    return int.from_bytes(struct.pack("<d", v), "little")


# ---------------------------------------------------------------------------- bytes
def enode(e):
    return T.bv(e, 8) if type(e) is int else e


def mkbytes(elems, mutable=False):
    """elems: ints or 8-bit nodes."""
    out = []
    sym = False
    for e in elems:
        if type(e) is not int:
            if e.op == "const":
                e = e.p
            else:
                sym = True
        out.append(e)
    if mutable:
        return SymBytearray(out)
    if not sym:
        return bytes(out)
    return SymBytes(out)


def elems_of(x):
    if isinstance_real(x, SymBytes):
        return x.e
    if isinstance_real(x, (bytes, bytearray, memoryview)):
        return list(bytes(x))
    return None


def _elem_int(e):
    return e if type(e) is int else mkuint(e)


def int_elem(v):
    """8-bit element of an int known to be in 0..255."""
    if is_sym(v):
        k = int_of(v)
        return T.mk_extract(7, 0, T.resize_s(k.n, max(9, k.n.w)))
    return int(v)


class SymBytes(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = list(e)

    @property
    def __class__(self):
        return bytes

    def _mk(self, e):
        return mkbytes(e)

    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return bool(self.e)

    def __iter__(self):
        return iter([_elem_int(e) for e in self.e])

    def __bytes__(self):
        return self

    def conc(self, why="bytes"):
        return bytes([e if type(e) is int else C.CX.realise(e, why) for e in self.e])

    def __hash__(self):
        return hash(bytes([e if type(e) is int else C.CX.concretise(e) for e in self.e]))

    def __repr__(self):
        return "<symbytes %d>" % len(self.e)

    def __format__(self, s):
        return repr(self)

    def __getitem__(self, i):
        if isinstance_real(i, slice):
            return self._mk(self.e[slice(*[x.conc() if is_sym(x) else x for x in (i.start, i.stop, i.step)])])
        return _elem_int(self.e[i])

    def __add__(self, o):
        o = elems_of(o)
        if o is None:
            return NotImplemented
        return self._mk(self.e + o)

    def __radd__(self, o):
        o = elems_of(o)
        if o is None:
            return NotImplemented
        return mkbytes(o + self.e)

    def __mul__(self, k):
        return self._mk(self.e * int(k))

    __rmul__ = __mul__

    def __eq__(self, o):
        oe = elems_of(o)
        if oe is None:
            return False
        if len(oe) != len(self.e):
            return False
        return mkbool(T.mk_and(*[T.mk_eq(enode(a), enode(b)) for a, b in zip(self.e, oe)
                                 if not (type(a) is int and type(b) is int and a == b)]))

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def _cmp(self, o, lt):
        oe = elems_of(o)
        if oe is None:
            return NotImplemented
        return lt(list(self), [_elem_int(x) for x in oe])

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __contains__(self, o):
        k = int_of(o)
        if k is not None:
            return any_true([_elem_int(e) == o for e in self.e])
        return self.find(o) >= 0

    def find(self, sub, start=0, end=None):
        if isinstance(sub, int):
            sub = mkbytes([int_elem(sub)])
        n = len(sub)
        end = len(self.e) if end is None else min(end, len(self.e))
        for i in range(start, end - n + 1):
            if SymBytes(self.e[i:i + n]) == sub:
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("subsection not found")
        return i

    def rfind(self, sub):
        if isinstance(sub, int):
            sub = mkbytes([int_elem(sub)])
        n = len(sub)
        for i in range(len(self.e) - n, -1, -1):
            if SymBytes(self.e[i:i + n]) == sub:
                return i
        return -1

    def count(self, sub):
        if isinstance(sub, int):
            sub = mkbytes([int_elem(sub)])
        c = i = 0
        while i + len(sub) <= len(self.e):
            if SymBytes(self.e[i:i + len(sub)]) == sub:
                c += 1
                i += len(sub)
            else:
                i += 1
        return c

    def startswith(self, p, start=0):
        if isinstance_real(p, tuple):
            return any_true([self.startswith(x, start) for x in p])
        if len(p) > len(self.e) - start:
            return False
        return SymBytes(self.e[start:start + len(p)]) == p

    def endswith(self, p):
        if isinstance_real(p, tuple):
            return any_true([self.endswith(x) for x in p])
        if len(p) > len(self.e):
            return False
        return SymBytes(self.e[len(self.e) - len(p):]) == p

    def _strip(self, chars, left, right):
        chars = b" \t\n\r\x0b\x0c" if chars is None else chars
        e = list(self.e)
        while left and e and any_true([_elem_int(e[0]) == c for c in chars]):
            e.pop(0)
        while right and e and any_true([_elem_int(e[-1]) == c for c in chars]):
            e.pop()
        return self._mk(e)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, b"", b""
        return self[:i], sep, self[i + len(sep):]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.conc("bytes.split").split(None, maxsplit)
        out, cur, i = [], [], 0
        while i < len(self.e):
            if maxsplit != 0 and i + len(sep) <= len(self.e) and SymBytes(self.e[i:i + len(sep)]) == sep:
                out.append(self._mk(cur))
                cur = []
                i += len(sep)
                maxsplit -= 1
            else:
                cur.append(self.e[i])
                i += 1
        out.append(self._mk(cur))
        return out

    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self.e, encoding, errors)

    def ljust(self, n, fill=b" "):
        return self._mk(self.e + [fill[0]] * max(0, int(n) - len(self.e)))

    def rjust(self, n, fill=b" "):
        return self._mk([fill[0]] * max(0, int(n) - len(self.e)) + self.e)

    def join(self, parts):
        return join_bytes(self, parts)

    def tobytes(self):
        return mkbytes(self.e)

    def _case(self, lo, hi, d):
        out = []
        for x in self.e:
            v = _elem_int(x)
            out.append(int_elem(ite(bnode(all_true([v >= lo, v <= hi])), v + d, v)))
        return self._mk(out)

    def lower(self):
        return self._case(65, 90, 32)

    def upper(self):
        return self._case(97, 122, -32)

    def isascii(self):
        return all_true([_elem_int(x) < 128 for x in self.e])

    def rindex(self, sub):
        i = self.rfind(sub)
        if i < 0:
            raise ValueError("subsection not found")
        return i

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return b"", b"", self
        return self[:i], sep, self[i + len(sep):]

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.e) - len(p)] if len(p) and self.endswith(p) else self

    def replace(self, a, b, count=-1):
        out, i = [], 0
        bc = elems_of(b)
        while i < len(self.e):
            if count != 0 and len(a) and i + len(a) <= len(self.e) and SymBytes(self.e[i:i + len(a)]) == a:
                out.extend(bc)
                i += len(a)
                count -= 1
            else:
                out.append(self.e[i])
                i += 1
        return self._mk(out)

    def hex(self, *a):
        if a:
            return self.conc("bytes.hex").hex(*a)
        out = []
        for x in self.e:
            v = _elem_int(x)
            for d in (v >> 4, v & 15):
                out.append(int_cp(ite(bnode(d < 10), d + 48, d + 87)) if is_sym(d) else ord("%x" % d))
        return mkstr(out)

    def __getattr__(self, name):
        if hasattr(bytes, name):
            return getattr(self.conc("bytes." + name), name)
        raise AttributeError(name)


def any_true(xs):
    """Disjunction without forking."""
    return mkbool(T.mk_or(*[bnode(x) for x in xs])) if xs else False


def all_true(xs):
    return mkbool(T.mk_and(*[bnode(x) for x in xs])) if xs else True


def join_bytes(sep, parts):
    out = []
    s = elems_of(sep)
    first = True
    for p in parts:
        if not first:
            out.extend(s)
        first = False
        e = elems_of(p)
        if e is None:
            raise TypeError("sequence item: expected a bytes-like object")
        out.extend(e)
    return mkbytes(out)


class SymBytearray(SymBytes):
    __slots__ = ()

    @property
    def __class__(self):
        return bytearray

    def _mk(self, e):
        return SymBytearray([x if type(x) is int or x.op != "const" else x.p for x in e])

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")

    def __bytes__(self):
        return mkbytes(self.e)

    def __copy__(self):
        return self._mk(list(self.e))

    def __deepcopy__(self, memo):
        return self._mk(list(self.e))

    def __setitem__(self, i, v):
        if isinstance_real(i, slice):
            i = slice(*[x.conc() if is_sym(x) else x for x in (i.start, i.stop, i.step)])
            ve = elems_of(v)
            if ve is None:
                ve = [_chk_elem(x) for x in v]
            self.e[i] = ve
        else:
            self.e[i] = _chk_elem(v)

    def __delitem__(self, i):
        del self.e[i]

    def __iadd__(self, o):
        self.extend(o)
        return self

    def extend(self, o):
        oe = elems_of(o)
        if oe is None:
            oe = [_chk_elem(x) for x in o]
        self.e.extend(oe)

    def append(self, v):
        self.e.append(_chk_elem(v))

    def insert(self, i, v):
        self.e.insert(i, _chk_elem(v))

    def pop(self, i=-1):
        return _elem_int(self.e.pop(i))

    def clear(self):
        del self.e[:]

    def copy(self):
        return SymBytearray(self.e)

    def reverse(self):
        self.e.reverse()


def _chk_elem(v):
    if is_sym(v):
        v = as_int(v)
        if is_sym(v) and (v.lo < 0 or v.hi > 255):
            if any_true([v < 0, v > 255]):
                raise ValueError("bytes must be in range(0, 256)")
        return int_elem(v)
    if not isinstance_real(v, int):
        raise TypeError("an integer is required")
    if not 0 <= v <= 255:
        raise ValueError("bytes must be in range(0, 256)")
    return int(v)


# ---------------------------------------------------------------------------- str
CPW = 21


def cnode(c):
    return T.bv(c, CPW) if type(c) is int else c


def mkstr(cps):
    out = []
    sym = False
    for c in cps:
        if type(c) is not int:
            if c.op == "const":
                c = c.p
            else:
                sym = True
        out.append(c)
    if not sym:
        return "".join(map(chr, out))
    return SymStr(out)


def cps_of(x):
    if type(x) is SymStr:
        return x.c
    if isinstance_real(x, str):
        return [ord(ch) for ch in x]
    if type(x) is LazyStr:
        return cps_of(x.force())
    return None


_WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"


class SymStr(Sym):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = list(c)

    @property
    def __class__(self):
        return str

    def conc(self, why="str"):
        return "".join([chr(x if type(x) is int else C.CX.realise(x, why)) for x in self.c])

    def fork(self):
        return "".join([chr(x if type(x) is int else C.CX.concretise(x)) for x in self.c])

    def __str__(self):
        return "<symstr>"

    __repr__ = __str__

    def __format__(self, s):
        return "<symstr>"

    def __hash__(self):
        return hash(self.fork())

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return bool(self.c)

    def __iter__(self):
        return iter([mkstr([x]) for x in self.c])

    def __getitem__(self, i):
        if isinstance_real(i, slice):
            return mkstr(self.c[slice(*[x.conc() if is_sym(x) else x for x in (i.start, i.stop, i.step)])])
        return mkstr([self.c[i]])

    def __add__(self, o):
        o = cps_of(o)
        return NotImplemented if o is None else mkstr(self.c + o)

    def __radd__(self, o):
        o = cps_of(o)
        return NotImplemented if o is None else mkstr(o + self.c)

    def __mul__(self, k):
        return mkstr(self.c * int(k))

    __rmul__ = __mul__

    def __mod__(self, o):
        return self.conc("%") % o

    def __eq__(self, o):
        oc = cps_of(o)
        if oc is None or len(oc) != len(self.c):
            return False
        return mkbool(T.mk_and(*[T.mk_eq(cnode(a), cnode(b)) for a, b in zip(self.c, oc)
                                 if not (type(a) is int and type(b) is int and a == b)]))

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def _cmp(self, o, f):
        oc = cps_of(o)
        if oc is None:
            return NotImplemented
        return f([_cp_int(x) for x in self.c], [_cp_int(x) for x in oc])

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __contains__(self, o):
        n = len(o)
        return any_true([SymStr(self.c[i:i + n]) == o for i in range(len(self.c) - n + 1)]) if n else True

    def find(self, sub, start=0, end=None):
        n = len(sub)
        end = len(self.c) if end is None else min(end, len(self.c))
        for i in range(start, end - n + 1):
            if SymStr(self.c[i:i + n]) == sub:
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rfind(self, sub):
        n = len(sub)
        for i in range(len(self.c) - n, -1, -1):
            if SymStr(self.c[i:i + n]) == sub:
                return i
        return -1

    def count(self, sub):
        c = i = 0
        while i + len(sub) <= len(self.c):
            if SymStr(self.c[i:i + len(sub)]) == sub:
                c += 1
                i += len(sub)
            else:
                i += 1
        return c

    def startswith(self, p, start=0):
        if isinstance_real(p, tuple):
            return any_true([self.startswith(x, start) for x in p])
        if len(p) > len(self.c) - start:
            return False
        return SymStr(self.c[start:start + len(p)]) == p

    def endswith(self, p):
        if isinstance_real(p, tuple):
            return any_true([self.endswith(x) for x in p])
        if len(p) > len(self.c):
            return False
        return SymStr(self.c[len(self.c) - len(p):]) == p

    def _strip(self, chars, left, right):
        chars = [ord(x) for x in _WS] if chars is None else cps_of(chars)
        c = list(self.c)

        def hit(x):
            return any_true([_cp_int(x) == _cp_int(k) for k in chars])

        while left and c and hit(c[0]):
            c.pop(0)
        while right and c and hit(c[-1]):
            c.pop()
        return mkstr(c)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.conc("str.split").split(None, maxsplit)
        out, cur, i = [], [], 0
        while i < len(self.c):
            if maxsplit != 0 and i + len(sep) <= len(self.c) and SymStr(self.c[i:i + len(sep)]) == sep:
                out.append(mkstr(cur))
                cur = []
                i += len(sep)
                maxsplit -= 1
            else:
                cur.append(self.c[i])
                i += 1
        out.append(mkstr(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep):]

    def join(self, parts):
        return join_str(self, parts)

    def encode(self, encoding="utf-8", errors="strict"):
        return encode(self.c, encoding, errors)

    def isascii(self):
        return all_true([_cp_int(x) < 128 for x in self.c])

    def isdigit(self):
        if not self.isascii():
            return self.conc("isdigit").isdigit()
        return all_true([all_true([_cp_int(x) >= 48, _cp_int(x) <= 57]) for x in self.c])

    isdecimal = isnumeric = isdigit

    def isalnum(self):
        if not self.isascii():
            return self.conc("isalnum").isalnum()
        return all_true([any_true([all_true([_cp_int(x) >= a, _cp_int(x) <= b])
                                   for a, b in ((48, 57), (65, 90), (97, 122))]) for x in self.c])

    def isalpha(self):
        if not self.isascii():
            return self.conc("isalpha").isalpha()
        return all_true([any_true([all_true([_cp_int(x) >= a, _cp_int(x) <= b])
                                   for a, b in ((65, 90), (97, 122))]) for x in self.c])

    def _case(self, lo, hi, d, name):
        if not self.isascii():
            return getattr(self.conc(name), name)()
        out = []
        for x in self.c:
            v = _cp_int(x)
            r = ite(bnode(all_true([v >= lo, v <= hi])), v + d, v)
            out.append(int_cp(r))
        return mkstr(out)

    def lower(self):
        return self._case(65, 90, 32, "lower")

    casefold = lower

    def upper(self):
        return self._case(97, 122, -32, "upper")

    def replace(self, a, b, count=-1):
        out, i = [], 0
        bc = cps_of(b)
        while i < len(self.c):
            if count != 0 and len(a) and i + len(a) <= len(self.c) and SymStr(self.c[i:i + len(a)]) == a:
                out.extend(bc)
                i += len(a)
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return mkstr(out)


    def rindex(self, sub):
        i = self.rfind(sub)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep):]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.conc("str.rsplit").rsplit(None, maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        out, rest = [], self
        while maxsplit > 0:
            i = rest.rfind(sep)
            if i < 0:
                break
            out.insert(0, rest[i + len(sep):])
            rest = rest[:i]
            maxsplit -= 1
            if not is_sym(rest):
                return rest.rsplit(sep, maxsplit) + out
        return [rest] + out

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.c) - len(p)] if len(p) and self.endswith(p) else self

    def ljust(self, n, fill=" "):
        return mkstr(list(self.c) + [ord(fill)] * max(0, int(n) - len(self.c)))

    def rjust(self, n, fill=" "):
        return mkstr([ord(fill)] * max(0, int(n) - len(self.c)) + list(self.c))

    def isspace(self):
        return all_true([any_true([_cp_int(x) == ord(k) for k in _WS]) for x in self.c])

    def __getattr__(self, name):
        if hasattr(str, name):
            return getattr(self.conc("str." + name), name)
        raise AttributeError(name)


def _cp_int(x):
    return x if type(x) is int else mkuint(x)


def int_cp(v):
    if is_sym(v):
        k = int_of(v)
        return T.mk_extract(CPW - 1, 0, T.resize_s(k.n, max(CPW + 1, k.n.w)))
    return int(v)


def join_str(sep, parts):
    parts = list(parts)
    if any(type(p) is LazyStr for p in parts) or type(sep) is LazyStr:
        out = []
        for i, p in enumerate(parts):
            if i and sep:
                out.append(sep)
            out.append(p)
        return LazyStr(out)
    out = []
    s = cps_of(sep)
    for i, p in enumerate(parts):
        if i:
            out.extend(s)
        c = cps_of(p)
        if c is None:
            raise TypeError("sequence item %d: expected str instance" % i)
        out.extend(c)
    return mkstr(out)


class LazyStr(Sym):
    """Formatted text with symbolic parts; forks over its numbers only if somebody looks at it."""

    __slots__ = ("parts", "val")

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if type(p) is LazyStr:
                self.parts.extend(p.parts)
            else:
                self.parts.append(p)
        self.val = None

    @property
    def __class__(self):
        return str

    def force(self):
        if self.val is None:
            out = []
            for p in self.parts:
                if isinstance_real(p, tuple):
                    v, conv, spec = p
                    if type(v) is LazyStr and not spec and conv != 114:
                        v = v.force()
                    if type(v) is SymStr and not spec and conv != 114:
                        out.extend(v.c)
                        continue
                    if type(v) is SymInt and v.cls is None and not spec and v.hi - v.lo > 9 \
                            and max(abs(v.lo), abs(v.hi)) < 10 ** 10:
                        out.extend(digits(v))
                        continue
                    v = plain_value(v)
                    v = repr(v) if conv == 114 else str(v) if conv == 115 else v
                    out.extend(cps_of(format(v, spec)))
                elif hasattr(p, "fa"):
                    fmt, args = p.fa
                    fmt = plain_value(fmt)
                    args = tuple(plain_value(x) for x in args) if type(args) is tuple else plain_value(args)
                    out.extend(cps_of(fmt % args))
                else:
                    out.extend(cps_of(p))
            self.val = mkstr(out)
        return self.val

    def __str__(self):
        return "<lazystr>"

    __repr__ = __str__

    def __format__(self, s):
        return "<lazystr>"

    def __hash__(self):
        return hash(self.force())

    def __eq__(self, o):
        return self.force() == (o.force() if type(o) is LazyStr else o)

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __len__(self):
        return len(self.force())

    def __bool__(self):
        return bool(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, i):
        return self.force()[i]

    def __contains__(self, o):
        return o in self.force()

    def __add__(self, o):
        return LazyStr([self, o]) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return LazyStr([o, self]) if isinstance(o, str) else NotImplemented

    def __mod__(self, o):
        return self.force() % o

    def __lt__(self, o):
        return self.force() < o

    def __gt__(self, o):
        return self.force() > o

    def __getattr__(self, name):
        if hasattr(str, name):
            return getattr(self.force(), name)
        raise AttributeError(name)


def digits(v):
    """Code points of str(v): forks over the sign and the number of digits only."""
    out = []
    src = v
    if v.lo < 0 and v < 0:
        out.append(45)
        v = -v
    if not is_sym(v):
        return out + [ord(x) for x in str(abs(v))]
    n = 1
    while 10 ** n <= v.hi and not v < 10 ** n:
        n += 1
    for k in range(n - 1, -1, -1):
        d = v // 10 ** k if k else v
        if k < n - 1:
            d = d % 10
        d = d + 48
        out.append(int_cp(mkint(d.n, 48, 57)) if is_sym(d) else d)
    DIGITS[tuple(out)] = src
    return out


DIGITS = {}  # decimal text -> the int it was made from (on paths where it has that many digits)


def plain_value(v):
    """Concrete Python value (forking on ints, one value for the rest)."""
    t = type(v)
    if t is SymInt:
        r = v.conc()
        return v.cls(r) if v.cls else r
    if t is SymBool:
        return bool(v)
    if t is SymFloat:
        return v.value("text of a float")
    if t is SymBytes or t is SymBytearray:
        return v.conc("text of bytes")
    if t is SymStr:
        return v.conc("text of str")
    if t is LazyStr:
        return plain_value(v.force())
    return v


# ---------------------------------------------------------------------------- codecs
def norm_enc(e):
    e = e.lower().replace("_", "-")
    return {"us-ascii": "ascii", "latin-1": "latin1", "iso-8859-1": "latin1", "utf8": "utf-8",
            "utf16": "utf-16", "utf-16le": "utf-16-le", "utf-16be": "utf-16-be"}.get(e, e)


def decode(e, encoding, errors):
    enc = norm_enc(encoding)
    if errors != "strict" and enc != "latin1" and not (enc == "ascii" and errors in ("ignore", "replace")):
        return SymBytes(e).conc("decode errors=" + errors).decode(encoding, errors)
    if enc == "ascii" or enc == "utf-8":
        out = []
        for i, x in enumerate(e):
            if type(x) is int and x < 128:
                out.append(x)
                continue
            if type(x) is int or C.CX.branch(T.mk_eq(T.mk_extract(7, 7, x), T.bv(1, 1))):
                if enc == "ascii" and errors == "ignore":
                    continue
                if enc == "ascii" and errors == "replace":
                    out.append(0xFFFD)
                    continue
                if enc == "ascii":
                    raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
                return _decode_utf8(e)
            out.append(T.mk_zext(x, CPW - 8))
        return mkstr(out)
    if enc == "latin1":
        return mkstr([x if type(x) is int else T.mk_zext(x, CPW - 8) for x in e])
    if enc in ("utf-16-le", "utf-16-be"):
        if len(e) % 2:
            # the error depends on the last unit only if it is truncated: always raises
            raise UnicodeDecodeError("utf-16-le", b"\0", 0, 1, "truncated data")
        units = []
        for i in range(0, len(e), 2):
            a, b = e[i], e[i + 1]
            if enc == "utf-16-be":
                a, b = b, a
            if type(a) is int and type(b) is int:
                units.append(a | b << 8)
            else:
                u = T.mk_concat(enode(b), enode(a))
                units.append(u.p if u.op == "const" else u)
        out = []
        i = 0
        while i < len(units):
            u = units[i]
            if not _in(u, 0xD800, 0xDFFF):
                out.append(u if type(u) is int else T.mk_zext(u, CPW - 16))
                i += 1
                continue
            if not _in(u, 0xD800, 0xDBFF):
                raise UnicodeDecodeError("utf-16-le", b"\0\0", 0, 2, "illegal encoding")
            if i + 1 >= len(units):
                raise UnicodeDecodeError("utf-16-le", b"\0\0", 0, 2, "unexpected end of data")
            v = units[i + 1]
            if not _in(v, 0xDC00, 0xDFFF):
                raise UnicodeDecodeError("utf-16-le", b"\0\0", 0, 2, "illegal UTF-16 surrogate")
            hi = T.mk_extract(9, 0, u if type(u) is not int else T.bv(u, 16))
            lo = T.mk_extract(9, 0, v if type(v) is not int else T.bv(v, 16))
            out.append(T.mk_add(T.mk_zext(T.mk_concat(hi, lo), CPW - 20), T.bv(0x10000, CPW)))
            i += 2
        return mkstr(out)
    return SymBytes(e).conc("decode " + enc).decode(encoding, errors)


def _in(u, lo, hi):
    if type(u) is int:
        return lo <= u <= hi
    v = mkuint(u)
    return bool(all_true([v >= lo, v <= hi]))


def encode(c, encoding, errors):
    enc = norm_enc(encoding)
    if errors != "strict" and not (enc in ("ascii", "latin1") and errors in ("ignore", "replace")):
        return SymStr(c).conc("encode errors=" + errors).encode(encoding, errors)
    if enc in ("ascii", "latin1", "utf-8"):
        lim = 255 if enc == "latin1" else 127
        out = []
        for x in c:
            v = _cp_int(x)
            if v > lim:
                if enc == "utf-8":
                    out.extend(_utf8(x))
                    continue
                if errors == "ignore":
                    continue
                if errors == "replace":
                    out.append(63)
                    continue
                raise UnicodeEncodeError(enc, "\ud800", 0, 1, "ordinal not in range(%d)" % (lim + 1))
            out.append(x if type(x) is int else T.mk_extract(7, 0, x))
        return mkbytes(out)
    if enc in ("utf-16-le", "utf-16-be"):
        out = []
        for x in c:
            if type(x) is int:
                out.extend(chr(x).encode(enc))
                continue
            v = mkuint(x)
            if all_true([v >= 0xD800, v <= 0xDFFF]):
                raise UnicodeEncodeError("utf-16", "\ud800", 0, 1, "surrogates not allowed")
            if v > 0xFFFF:
                y = T.mk_sub(x, T.bv(0x10000, CPW))
                hi = T.mk_concat(T.bv(0b110110, 6), T.mk_extract(19, 10, y))
                lo = T.mk_concat(T.bv(0b110111, 6), T.mk_extract(9, 0, y))
                us = [hi, lo]
            else:
                us = [T.mk_extract(15, 0, x)]
            for u in us:
                p = [T.mk_extract(7, 0, u), T.mk_extract(15, 8, u)]
                out.extend(p if enc == "utf-16-le" else p[::-1])
        return mkbytes(out)
    return SymStr(c).conc("encode " + enc).encode(encoding, errors)


def _utf8(x):
    if type(x) is int:
        return list(chr(x).encode("utf-8"))
    v = mkuint(x)

    def tail(hi, lo):
        return T.mk_concat(T.bv(0b10, 2), T.mk_extract(hi, lo, x))

    if v <= 0x7FF:
        return [T.mk_concat(T.bv(0b110, 3), T.mk_extract(10, 6, x)), tail(5, 0)]
    if v <= 0xFFFF:
        if all_true([v >= 0xD800, v <= 0xDFFF]):
            raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
        return [T.mk_concat(T.bv(0b1110, 4), T.mk_extract(15, 12, x)), tail(11, 6), tail(5, 0)]
    return [T.mk_concat(T.bv(0b11110, 5), T.mk_extract(20, 18, x)), tail(17, 12), tail(11, 6), tail(5, 0)]


def _decode_utf8(e):
    """RFC 3629 (no overlong forms, surrogates or values past 10FFFF), as CPython's strict decoder."""
    out, i, n = [], 0, len(e)

    def bad(why="invalid start byte"):
        raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, why)

    while i < n:
        x = e[i]
        if _in(x, 0, 0x7F):
            out.append(x if type(x) is int else T.mk_zext(x, CPW - 8))
            i += 1
            continue
        if _in(x, 0xC2, 0xDF):
            k, bits = 1, 4
        elif _in(x, 0xE0, 0xEF):
            k, bits = 2, 3
        elif _in(x, 0xF0, 0xF4):
            k, bits = 3, 2
        else:
            bad()
        acc = T.mk_extract(bits, 0, enode(x))
        for j in range(1, k + 1):
            if i + j >= n:
                bad("unexpected end of data")
            y = e[i + j]
            if not _in(y, 0x80, 0xBF):
                bad("invalid continuation byte")
            acc = T.mk_concat(acc, T.mk_extract(5, 0, enode(y)))
        cp = T.mk_zext(acc, CPW - acc.w) if acc.w < CPW else acc
        v = mkuint(cp)
        if k == 2 and (v < 0x800 or all_true([v >= 0xD800, v <= 0xDFFF])):
            bad("invalid continuation byte")
        if k == 3 and (v < 0x10000 or v > 0x10FFFF):
            bad("invalid continuation byte")
        out.append(cp.p if cp.op == "const" else cp)
        i += k + 1
    return mkstr(out)


# ---------------------------------------------------------------------------- streams
class SymStream:
    """io.BytesIO / binary file contents; on_close receives the final elements of a file."""

    def __init__(self, data=b"", mode="rb+", on_close=None, hook=None):
        self.e = list(elems_of(data)) if data is not None else []
        self.pos = 0
        self.closed = False
        self.mode = mode
        self.on_close = on_close
        self.hook = hook

    @property
    def __class__(self):
        import io

        return io.BytesIO

    def __deepcopy__(self, memo):
        r = SymStream(None, self.mode)
        r.e, r.pos, r.closed = list(self.e), self.pos, self.closed
        return r

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, n=-1):
        self._open()
        left = len(self.e) - self.pos
        if n is None:
            n = left
        elif is_sym(n):
            n = as_int(n)
            if is_sym(n):
                # only min(n, left) matters
                if n < 0:
                    n = left
                elif n >= left:
                    n = left
                else:
                    n = n.conc()
        elif n < 0:
            n = left
        r = self.e[self.pos:self.pos + n]
        self.pos += len(r)
        return mkbytes(r)

    read1 = read

    def readinto(self, buf):
        d = self.read(len(buf))
        buf[:len(d)] = d
        return len(d)

    def peek(self, n=0):
        return mkbytes(self.e[self.pos:])

    def write(self, b):
        self._open()
        e = elems_of(b)
        if e is None:
            raise TypeError("a bytes-like object is required")
        if self.hook:
            self.hook(self, e)
        if self.pos > len(self.e):
            self.e.extend([0] * (self.pos - len(self.e)))
        self.e[self.pos:self.pos + len(e)] = e
        self.pos += len(e)
        return len(e)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def seek(self, off, whence=0):
        self._open()
        if is_sym(off):
            off = as_int(off)
            off = off.conc() if is_sym(off) else off
        p = off if whence == 0 else self.pos + off if whence == 1 else len(self.e) + off
        if p < 0:
            raise ValueError("negative seek value %d" % p)
        self.pos = p
        return p

    def tell(self):
        self._open()
        return self.pos

    def getvalue(self):
        return mkbytes(self.e)

    getbuffer = getvalue

    def truncate(self, n=None):
        n = self.pos if n is None else n
        del self.e[n:]
        return n

    def seekable(self):
        return True

    readable = writable = seekable

    def flush(self):
        pass

    def fileno(self):
        return 0

    def close(self):
        if not self.closed:
            self.closed = True
            if self.on_close:
                self.on_close(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        raise C.Gap("iteration over a binary stream")

    readall = read
