"""Hash-consed Bool / bit-vector / floating-point term DAG with local rewriting.

A node's ``w`` is 0 for Bool, n > 0 for (_ BitVec n), -64 for Float64.
Every rewrite below is a width-preserving identity of SMT-LIB's FixedSizeBitVectors.
"""

import struct

_table = {}


class Node:
    __slots__ = ("op", "a", "p", "w", "nid", "rng")

    def __repr__(self):
        return "n%d:%s" % (self.nid, self.op)


def mk(op, a, w, p=None):
    key = (op, a, w, p)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.a, n.w, n.p = op, a, w, p
        n.nid = len(_table)
        n.rng = None
        _table[key] = n
    return n


TRUE = mk("true", (), 0)
FALSE = mk("false", (), 0)


def mk_bool(b):
    return TRUE if b else FALSE


def bv(v, w):
    return mk("const", (), w, v & ((1 << w) - 1))


def var(name, w):
    return mk("var", (), w, name)


def is_const(n):
    return n.op == "const" or n is TRUE or n is FALSE


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- booleans
def mk_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.a[0]
    return mk("not", (a,), 0)


def mk_and(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in seen:
            continue
        if x.op == "and":
            for y in x.a:
                if y not in seen:
                    seen.add(y)
                    out.append(y)
            continue
        seen.add(x)
        out.append(x)
    for x in out:
        if x.op == "not" and x.a[0] in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), 0)


def mk_or(*xs):
    return mk_not(mk_and(*[mk_not(x) for x in xs]))


def mk_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.w == 0:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return mk_not(c)
        if a is TRUE:
            return mk_or(c, b)
        if a is FALSE:
            return mk_and(mk_not(c), b)
        if b is TRUE:
            return mk_or(mk_not(c), a)
        if b is FALSE:
            return mk_and(c, a)
    if c.op == "not":
        return mk_ite(c.a[0], b, a)
    return mk("ite", (c, a, b), a.w)


def mk_eq(a, b):
    if a is b:
        return TRUE
    if a.w == 0:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return mk_not(b)
        if b is FALSE:
            return mk_not(a)
        return mk("eq", (a, b) if a.nid < b.nid else (b, a), 0)
    if a.op == "const" and b.op == "const":
        return FALSE
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        v = b.p
        if a.op == "zext":
            x = a.a[0]
            if v >> x.w:
                return FALSE
            return mk_eq(x, bv(v, x.w))
        if a.op == "sext":
            x = a.a[0]
            if signed(v, a.w) != signed(v & ((1 << x.w) - 1), x.w):
                return FALSE
            return mk_eq(x, bv(v, x.w))
        if a.op == "concat":
            out = []
            pos = a.w
            for x in a.a:
                pos -= x.w
                out.append(mk_eq(x, bv(v >> pos, x.w)))
            return mk_and(*out)
        if a.op == "ite" and (a.a[1].op == "const" or a.a[2].op == "const"):
            c, x, y = a.a
            return mk_ite(c, mk_eq(x, b), mk_eq(y, b))
        if a.op == "bxor" and a.a[1].op == "const":
            return mk_eq(a.a[0], bv(v ^ a.a[1].p, a.w))
        if a.op == "add" and a.a[1].op == "const":
            return mk_eq(a.a[0], bv(v - a.a[1].p, a.w))
    else:
        if a.op == b.op and a.op in ("zext", "sext") and a.a[0].w == b.a[0].w:
            return mk_eq(a.a[0], b.a[0])
        if a.op == "concat" and b.op == "concat" and [x.w for x in a.a] == [x.w for x in b.a]:
            return mk_and(*[mk_eq(x, y) for x, y in zip(a.a, b.a)])
        if a.op == "ite" and b.op == "ite" and a.a[0] is b.a[0]:
            return mk_ite(a.a[0], mk_eq(a.a[1], b.a[1]), mk_eq(a.a[2], b.a[2]))
    return mk("eq", (a, b) if a.nid < b.nid else (b, a), 0)


# ---------------------------------------------------------------- bit-vectors
def mk_concat(*xs):
    """First argument is the most significant."""
    flat = []
    for x in xs:
        if x.op == "concat":
            flat.extend(x.a)
        elif x.op == "zext":
            flat.append(bv(0, x.w - x.a[0].w))
            flat.extend(x.a[0].a if x.a[0].op == "concat" else (x.a[0],))
        else:
            flat.append(x)
    out = []
    for x in flat:
        if out:
            y = out[-1]
            if x.op == "const" and y.op == "const":
                out[-1] = bv((y.p << x.w) | x.p, y.w + x.w)
                continue
            # adjacent extracts of one term
            if x.op == "extract" and y.op == "extract" and x.a[0] is y.a[0] and y.p[1] == x.p[0] + 1:
                out[-1] = mk_extract(y.p[0], x.p[1], x.a[0])
                continue
            # sign-extended upper part followed by a low part of the narrow term
            if y.op == "extract" and y.a[0].op == "sext":
                v = y.a[0].a[0]
                if x is v and y.p[1] == v.w:
                    out[-1] = mk_extract(y.p[0], 0, y.a[0])
                    continue
                if x.op == "extract" and x.a[0] is v and x.p[0] + 1 == y.p[1]:
                    out[-1] = mk_extract(y.p[0], x.p[1], y.a[0])
                    continue
        out.append(x)
    if len(out) == 1:
        return out[0]
    if out[0].op == "const" and out[0].p == 0:
        rest = mk_concat(*out[1:])
        return mk_zext(rest, out[0].w)
    w = sum(x.w for x in out)
    return mk("concat", tuple(out), w)


def mk_extract(hi, lo, x):
    w = hi - lo + 1
    if w == x.w:
        return x
    op = x.op
    if op == "const":
        return bv(x.p >> lo, w)
    if op == "extract":
        return mk_extract(hi + x.p[1], lo + x.p[1], x.a[0])
    if op == "concat":
        parts = []
        pos = x.w
        for y in x.a:
            pos -= y.w
            h, l = min(hi, pos + y.w - 1), max(lo, pos)
            if h >= l:
                parts.append(mk_extract(h - pos, l - pos, y))
        return mk_concat(*parts)
    if op in ("zext", "sext"):
        y = x.a[0]
        if hi < y.w:
            return mk_extract(hi, lo, y)
        if op == "zext":
            if lo >= y.w:
                return bv(0, w)
            return mk_zext(mk_extract(y.w - 1, lo, y), hi - y.w + 1)
        if lo == 0:
            return mk_sext(y, hi - y.w + 1)
        # reaches into the sign bits: keep canonical so concat can merge pieces again
        return mk("extract", (x,), w, (hi, lo))
    if op in ("band", "bor", "bxor") and (x.a[1].op == "const" or x.a[0].op == "const"):
        f = {"band": mk_band, "bor": mk_bor, "bxor": mk_bxor}[op]
        return f(mk_extract(hi, lo, x.a[0]), mk_extract(hi, lo, x.a[1]))
    if op == "ite":
        c, y, z = x.a
        if y.op == "const" or z.op == "const":
            return mk_ite(c, mk_extract(hi, lo, y), mk_extract(hi, lo, z))
    if lo == 0 and op in ("add", "sub", "mul"):
        f = {"add": mk_add, "sub": mk_sub, "mul": mk_mul}[op]
        return f(mk_extract(hi, 0, x.a[0]), mk_extract(hi, 0, x.a[1]))
    return mk("extract", (x,), w, (hi, lo))


def mk_zext(x, n):
    if n == 0:
        return x
    if x.op == "const":
        return bv(x.p, x.w + n)
    if x.op == "zext":
        return mk_zext(x.a[0], n + x.w - x.a[0].w)
    return mk("zext", (x,), x.w + n)


def mk_sext(x, n):
    if n == 0:
        return x
    if x.op == "const":
        return bv(signed(x.p, x.w), x.w + n)
    if x.op == "zext":
        return mk_zext(x.a[0], n + x.w - x.a[0].w)
    if x.op == "sext":
        return mk_sext(x.a[0], n + x.w - x.a[0].w)
    return mk("sext", (x,), x.w + n)


def resize_s(x, w):
    """Signed resize (truncation is used only where the value is known to fit)."""
    if w == x.w:
        return x
    if w > x.w:
        return mk_sext(x, w - x.w)
    return mk_extract(w - 1, 0, x)


def _bin(op, f, comm):
    def g(a, b):
        w = a.w
        if a.op == "const" and b.op == "const":
            return bv(f(a.p, b.p), w)
        if comm and a.op == "const":
            a, b = b, a
        return _special(op, a, b, w)

    return g


def _special(op, a, b, w):
    ones = (1 << w) - 1
    if b.op == "const":
        v = b.p
        if v == 0:
            if op in ("add", "sub", "bor", "bxor", "shl", "lshr", "ashr"):
                return a
            if op in ("mul", "band"):
                return b
        if v == 1 and op == "mul":
            return a
        if v == ones:
            if op == "band":
                return a
            if op == "bor":
                return b
            if op == "bxor":
                return mk_bnot(a)
        if op == "sub":
            return _special("add", a, bv(-v, w), w)
        if op == "add" and a.op == "add" and a.a[1].op == "const":
            return mk_add(a.a[0], bv(a.a[1].p + v, w))
        if op in ("band", "bor", "bxor") and a.op == op and a.a[1].op == "const":
            f = {"band": mk_band, "bor": mk_bor, "bxor": mk_bxor}[op]
            return f(a.a[0], {"band": mk_band, "bor": mk_bor, "bxor": mk_bxor}[op](a.a[1], b))
        if op == "band":
            # contiguous low mask -> zext(extract)
            if v & (v + 1) == 0:
                k = v.bit_length()
                return mk_zext(mk_extract(k - 1, 0, a), w - k)
            if a.op == "zext":
                x = a.a[0]
                return mk_zext(mk_band(x, bv(v, x.w)), w - x.w)
        if op in ("bor", "bxor") and a.op == "zext" and not v >> a.a[0].w:
            x = a.a[0]
            f = mk_bor if op == "bor" else mk_bxor
            return mk_zext(f(x, bv(v, x.w)), w - x.w)
        if op == "shl" and v < w:
            return mk_concat(mk_extract(w - 1 - v, 0, a), bv(0, v))
        if op == "lshr" and v < w:
            return mk_zext(mk_extract(w - 1, v, a), v)
        if op == "ashr" and v < w:
            return mk_sext(mk_extract(w - 1, v, a), v)
        if op in ("shl", "lshr") and v >= w:
            return bv(0, w)
        if op == "mul" and v and v & (v - 1) == 0:
            return mk_shl(a, bv(v.bit_length() - 1, w))
        if op == "udiv" and v and v & (v - 1) == 0:
            return mk_lshr(a, bv(v.bit_length() - 1, w))
        if op == "urem" and v and v & (v - 1) == 0:
            return mk_band(a, bv(v - 1, w))
    if op in ("band", "bor") and a is b:
        return a
    if op in ("bxor", "sub") and a is b:
        return bv(0, w)
    # disjoint-bits or/add of zext/concat pieces -> concat
    if op in ("bor", "add"):
        r = _merge_disjoint(a, b)
        if r is not None:
            return r
    if op in ("add", "mul", "band", "bor", "bxor") and b.op != "const" and a.nid > b.nid:
        a, b = b, a
    return mk(op, (a, b), w)


def _low_zeros(x):
    if x.op == "concat" and x.a[-1].op == "const" and x.a[-1].p == 0:
        return x.a[-1].w
    if x.op == "zext":
        k = _low_zeros(x.a[0])
        return x.w if k == x.a[0].w else k
    if x.op == "const" and x.p == 0:
        return x.w
    return 0


def _high_zeros(x):
    if x.op == "zext":
        return x.w - x.a[0].w + _high_zeros(x.a[0])
    if x.op == "const":
        return x.w - x.p.bit_length()
    return 0


def _merge_disjoint(a, b):
    w = a.w
    for x, y in ((a, b), (b, a)):
        z = _low_zeros(x)
        if z and w - _high_zeros(y) <= z:
            return mk_concat(mk_extract(w - 1, z, x), mk_extract(z - 1, 0, y))
    return None


def _udiv(a, b):
    return a // b if b else -1


mk_add = _bin("add", lambda a, b: a + b, True)
mk_sub = _bin("sub", lambda a, b: a - b, False)
mk_mul = _bin("mul", lambda a, b: a * b, True)
mk_band = _bin("band", lambda a, b: a & b, True)
mk_bor = _bin("bor", lambda a, b: a | b, True)
mk_bxor = _bin("bxor", lambda a, b: a ^ b, True)
mk_udiv = _bin("udiv", _udiv, False)
mk_urem = _bin("urem", lambda a, b: a % b if b else a, False)


def mk_shl(a, b):
    if a.op == "const" and b.op == "const":
        return bv(a.p << b.p if b.p < a.w else 0, a.w)
    return _special("shl", a, b, a.w)


def mk_lshr(a, b):
    if a.op == "const" and b.op == "const":
        return bv(a.p >> b.p if b.p < a.w else 0, a.w)
    return _special("lshr", a, b, a.w)


def mk_ashr(a, b):
    if a.op == "const" and b.op == "const":
        return bv(signed(a.p, a.w) >> min(b.p, a.w), a.w)
    return _special("ashr", a, b, a.w)


def mk_bnot(a):
    if a.op == "const":
        return bv(~a.p, a.w)
    if a.op == "bnot":
        return a.a[0]
    return mk("bnot", (a,), a.w)


def mk_neg(a):
    return mk_sub(bv(0, a.w), a)


def mk_ult(a, b):
    if a is b:
        return FALSE
    if a.op == "const" and b.op == "const":
        return mk_bool(a.p < b.p)
    if b.op == "const" and b.p == 0:
        return FALSE
    return mk("ult", (a, b), 0)


def mk_slt(a, b):
    if a is b:
        return FALSE
    if a.op == "const" and b.op == "const":
        return mk_bool(signed(a.p, a.w) < signed(b.p, b.w))
    la, ha = srange(a)
    lb, hb = srange(b)
    if ha < lb:
        return TRUE
    if la >= hb:
        return FALSE
    return mk("slt", (a, b), 0)


def mk_sle(a, b):
    return mk_not(mk_slt(b, a))


def srange(n):
    """Sound signed interval of a bit-vector node."""
    if n.rng is None:
        n.rng = _srange(n)
    return n.rng


def _srange(n):
    w = n.w
    if n.op == "const":
        v = signed(n.p, w)
        return v, v
    if n.op == "zext":
        return 0, urange_hi(n.a[0])
    if n.op == "sext":
        return srange(n.a[0])
    if n.op == "ite":
        a, b = srange(n.a[1]), srange(n.a[2])
        return min(a[0], b[0]), max(a[1], b[1])
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def urange_hi(n):
    if n.op == "const":
        return n.p
    if n.op == "zext":
        return urange_hi(n.a[0])
    if n.op == "ite":
        return max(urange_hi(n.a[1]), urange_hi(n.a[2]))
    if n.op == "concat":
        return (urange_hi(n.a[0]) << (n.w - n.a[0].w)) | ((1 << (n.w - n.a[0].w)) - 1)
    if n.op == "band" and n.a[1].op == "const":
        return n.a[1].p
    if n.op == "urem" and n.a[1].op == "const" and n.a[1].p:
        return n.a[1].p - 1
    return (1 << n.w) - 1


# ---------------------------------------------------------------- floating point (Float64)
def fp_const(bits):
    return mk("fpconst", (), -64, bits)


def fp_from32(n):
    return mk("fp32", (n,), -64)


def fp_from64(n):
    return mk("fp64", (n,), -64)


def fp_op(op, a, b):
    return mk("fp." + op, (a, b), -64)


def fp_cmp(op, a, b):  # lt leq eq
    return mk("fp." + op, (a, b), 0)


def fp_from_sbv(n):
    return mk("fp.sbv", (n,), -64)


def fp_to_sbv(rm, n, w):
    return mk("fp.to_sbv", (n,), w, rm)


def fp_isnan(n):
    return mk("fp.isNaN", (n,), 0)


def fp_isinf(n):
    return mk("fp.isInfinite", (n,), 0)


# ---------------------------------------------------------------- evaluation under a model
def evaluate(n, model, memo):
    """Value of n under model (name -> unsigned int). None if it cannot be evaluated here."""
    r = memo.get(n)
    if r is not None:
        return r
    stack = [n]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        todo = [y for y in x.a if y not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        memo[x] = _ev(x, model, memo)
    return memo[n]


class Unevaluable(Exception):
    pass


def _ev(x, model, memo):
    op = x.op
    w = x.w
    if op == "const":
        return x.p
    if op == "true":
        return 1
    if op == "false":
        return 0
    if op == "var":
        return model.get(x.p, 0)
    a = [memo[y] for y in x.a]
    m = (1 << w) - 1 if w > 0 else 1
    if op == "not":
        return 1 - a[0]
    if op == "and":
        return 1 if all(a) else 0
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op == "eq":
        return 1 if a[0] == a[1] else 0
    if op == "ult":
        return 1 if a[0] < a[1] else 0
    if op == "slt":
        k = x.a[0].w
        return 1 if signed(a[0], k) < signed(a[1], k) else 0
    if op == "add":
        return (a[0] + a[1]) & m
    if op == "sub":
        return (a[0] - a[1]) & m
    if op == "mul":
        return (a[0] * a[1]) & m
    if op == "band":
        return a[0] & a[1]
    if op == "bor":
        return a[0] | a[1]
    if op == "bxor":
        return a[0] ^ a[1]
    if op == "bnot":
        return ~a[0] & m
    if op == "udiv":
        return a[0] // a[1] if a[1] else m
    if op == "urem":
        return a[0] % a[1] if a[1] else a[0]
    if op == "shl":
        return (a[0] << a[1]) & m if a[1] < w else 0
    if op == "lshr":
        return a[0] >> a[1] if a[1] < w else 0
    if op == "ashr":
        return (signed(a[0], w) >> min(a[1], w)) & m
    if op == "extract":
        hi, lo = x.p
        return (a[0] >> lo) & m
    if op == "concat":
        r = 0
        for y, v in zip(x.a, a):
            r = (r << y.w) | v
        return r
    if op == "zext":
        return a[0]
    if op == "sext":
        return signed(a[0], x.a[0].w) & m
    if op == "fpconst":
        return struct.unpack("<d", x.p.to_bytes(8, "little"))[0]
    if op == "fp64":
        return struct.unpack("<d", a[0].to_bytes(8, "little"))[0]
    if op == "fp32":
        return struct.unpack("<f", a[0].to_bytes(4, "little"))[0]
    if op == "fp.sbv":
        return float(signed(a[0], x.a[0].w))
    if op == "fp.isNaN":
        return int(a[0] != a[0])
    if op == "fp.isInfinite":
        return int(a[0] in (float("inf"), float("-inf")))
    if op == "fp.lt":
        return int(a[0] < a[1])
    if op == "fp.leq":
        return int(a[0] <= a[1])
    if op == "fp.eq":
        return int(a[0] == a[1])
    if op == "fp.to_sbv":
        if a[0] != a[0] or a[0] in (float("inf"), float("-inf")):
            return 0
        return (int(a[0]) if x.p == "RTZ" else round(a[0])) & m
    if op in ("fp.add", "fp.sub", "fp.mul", "fp.div"):
        try:
            if op == "fp.add":
                return a[0] + a[1]
            if op == "fp.sub":
                return a[0] - a[1]
            if op == "fp.mul":
                return a[0] * a[1]
            return a[0] / a[1]
        except ZeroDivisionError:
            nan = a[0] != a[0] or a[0] == 0
            neg = (str(a[0])[0] == "-") != (str(a[1])[0] == "-")
            return float("nan") if nan else float("-inf" if neg else "inf")
    raise Unevaluable(op)


def support(nodes):
    """Names and widths of variables below the nodes."""
    seen = set()
    out = {}
    stack = list(nodes)
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "var":
            out[x.p] = x.w
        stack.extend(x.a)
    return out
