"""What harnesses see. The same harness runs symbolically (SymH) and natively (NativeH)."""

import os
import shutil
import struct
import tempfile

from . import ctx as C
from . import terms as T
from . import values as V


class Skip(Exception):
    """Native replay: an assumption does not hold for these inputs."""


class Failed(Exception):
    pass


class Base:
    symbolic = False

    def le(self, data, signed=False):
        raise NotImplementedError

    def raises(self, fn, *exc):
        """The exception fn raises (one of exc), or None if it returns."""
        try:
            fn()
        except exc as e:
            return e
        return None


class Descriptor:
    """What mkstemp and os.open return for a virtual file."""

    def __init__(self, name):
        self.name = name


class VFS:
    """In-memory files for the code under test; written data is visible as soon as it is written."""

    def __init__(self):
        self.files = {}
        self.log = []

    def key(self, f):
        return os.fspath(f) if not isinstance(f, str) else f

    def open(self, file, mode="r", *_a, **_k):
        if type(file) is Descriptor:
            return self.fdopen(file, mode)
        if isinstance(file, int):
            raise C.Gap("open of a descriptor")
        f = self.key(file)
        if "b" not in mode:
            raise C.Gap("text mode open")
        if "r" in mode:
            if f not in self.files:
                raise FileNotFoundError(2, "No such file", f)
            s = V.SymStream(None, mode)
            s.e = self.files[f] if "+" in mode else list(self.files[f])
            return s
        if "x" in mode and f in self.files:
            raise FileExistsError(17, "File exists", f)
        if "a" in mode:
            s = V.SymStream(None, mode)
            s.e = self.files.setdefault(f, [])
            s.pos = len(s.e)
            return s
        self.log.append(("truncate", f))
        s = V.SymStream(None, mode)
        s.e = self.files[f] = []
        return s

    def fdopen(self, fd, mode="r", *a, **k):
        if type(fd) is not Descriptor:
            raise C.Gap("fdopen of a descriptor")
        if "w" in mode:
            mode = mode.replace("w", "a")
            self.files[fd.name][:] = []
        return self.open(fd.name, mode)

    def os_open(self, f, flags=0, *a, **k):
        f = self.key(f)
        if f not in self.files:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(2, "No such file", f)
            self.files[f] = []
        elif flags & os.O_EXCL:
            raise FileExistsError(17, "File exists", f)
        if flags & os.O_TRUNC:
            self.log.append(("truncate", f))
            self.files[f] = []
        return Descriptor(f)

    def nothing(self, *a, **k):
        return None

    def access(self, f, *a, **k):
        return self.exists(f)

    def size(self, f):
        return self.stat(f).st_size

    def stat(self, f, *a, **k):
        f = self.key(f)
        if f not in self.files:
            raise FileNotFoundError(2, "No such file", f)
        return os.stat_result((0o100644, 0, 0, 1, 0, 0, len(self.files[f]), 0, 0, 0))

    def mktemp(self, suffix="", prefix="tmp", dir=None):
        n = 0
        while True:
            f = os.path.join(os.fspath(dir or "/tmp"), "%s%d%s" % (prefix or "tmp", n, suffix or ""))
            if f not in self.files:
                return f
            n += 1

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        f = self.mktemp(suffix, prefix, dir)
        self.files[f] = []
        return Descriptor(f), f

    def temporary(self, mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None,
                  delete=True, **k):
        f = self.mktemp(suffix, prefix, dir)
        s = self.open(f, mode)
        s.name = f
        if delete:
            s.on_close = lambda _: self.files.pop(f, None)
        return s

    def copy(self, a, b, **k):
        a, b = self.key(a), self.key(b)
        if a not in self.files:
            raise FileNotFoundError(2, "No such file", a)
        self.files[b] = list(self.files[a])
        return b

    def copyfileobj(self, src, dst, length=0):
        dst.write(src.read())

    def exists(self, f):
        return self.key(f) in self.files

    def remove(self, f, *a, **k):
        f = self.key(f)
        if f not in self.files:
            raise FileNotFoundError(2, "No such file", f)
        self.log.append(("remove", f))
        del self.files[f]

    def replace(self, a, b, **k):
        a, b = self.key(a), self.key(b)
        if a not in self.files:
            raise FileNotFoundError(2, "No such file", a)
        self.log.append(("replace", b))
        self.files[b] = self.files.pop(a)


class SymH(Base):
    symbolic = True

    def __init__(self, cx):
        self.cx = cx
        self.vfs = VFS()
        cx.state["vfs"] = self.vfs
        V.TABLES.clear()
        V.RANGES.clear()

    def byte(self, name):
        return V.mkuint(self.cx.fresh(name, 8))

    def bytes(self, name, n):
        return V.mkbytes([self.cx.fresh("%s.%d" % (name, i), 8) for i in range(n)])

    def int(self, name, lo, hi):
        w = V.bits_for(lo, hi)
        n = self.cx.fresh(name, w)
        if lo == 0 and hi == (1 << (w - 1)) - 1:
            self.cx.assume(T.mk_eq(T.mk_extract(w - 1, w - 1, n), T.bv(0, 1)))
        else:
            self.cx.assume(T.mk_and(T.mk_sle(T.bv(lo, w), n), T.mk_sle(n, T.bv(hi, w))))
        if n.op != "const":
            V.RANGES[n] = lo, hi
        return V.mkint(n, lo, hi)

    def bool(self, name):
        return V.mkbool(T.mk_eq(self.cx.fresh(name, 1), T.bv(1, 1)))

    def text(self, name, n, lo=1, hi=127):
        out = []
        for i in range(n):
            v = self.cx.fresh("%s.%d" % (name, i), V.CPW)
            self.cx.assume(T.mk_and(T.mk_not(T.mk_ult(v, T.bv(lo, V.CPW))), T.mk_not(T.mk_ult(T.bv(hi, V.CPW), v))))
            if hi > 0xDFFF:
                self.cx.assume(T.mk_not(T.mk_and(T.mk_not(T.mk_ult(v, T.bv(0xD800, V.CPW))),
                                                 T.mk_ult(v, T.bv(0xE000, V.CPW)))))
            out.append(v)
        return V.mkstr(out)

    def choose(self, name, n):
        """Fork over 0..n-1."""
        if n == 1:
            return 0
        v = self.int(name, 0, n - 1)
        return v.conc() if V.is_sym(v) else v

    def f32(self, name):
        """A float that a 4-byte field can hold exactly (no NaN)."""
        n = self.cx.fresh(name, 32)
        self.cx.assume(T.mk_not(T.mk_eq(T.mk_extract(30, 23, n), T.bv(255, 8))))
        return V.SymFloat.from_bits(n)

    def f64(self, name):
        n = self.cx.fresh(name, 64)
        self.cx.assume(T.mk_not(T.mk_eq(T.mk_extract(62, 52, n), T.bv(2047, 11))))
        return V.SymFloat.from_bits(n)

    def assume(self, c):
        self.cx.assume(V.bnode(c))

    def check(self, c, label):
        if type(c) in (V.SymBytes, V.SymStr):
            raise C.Gap("check of a non-boolean")
        self.cx.check(V.bnode(c), label)

    def fail(self, label):
        self.cx.check(T.FALSE, label)
        raise C.Abandon()

    def all(self, xs):
        return V.all_true(list(xs))

    def any(self, xs):
        return V.any_true(list(xs))

    def implies(self, a, b):
        return V.mkbool(T.mk_or(T.mk_not(V.bnode(a)), V.bnode(b)))

    def ite(self, c, a, b):
        return V.ite(V.bnode(c), a, b)

    def lnot(self, a):
        return V.neg(a) if V.is_sym(a) else not a

    def eq(self, a, b):
        """== without forking inside tuples and lists."""
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not V.is_sym(a) and not V.is_sym(b):
            if len(a) != len(b):
                return False
            return V.all_true([self.eq(x, y) for x, y in zip(a, b)])
        if a is None or b is None:
            return a is b
        r = a == b
        return False if r is NotImplemented else r

    def float_is(self, a, bits):
        """a is the float with these little-endian IEEE bytes (as the field would store it)."""
        from .intrinsics import s_pack

        return s_pack("<f" if len(bits) == 4 else "<d", a) == bits

    def float_bytes(self, a, n):
        """The n little-endian IEEE bytes of a float."""
        from .intrinsics import s_pack

        return s_pack("<f" if n == 4 else "<d", a)

    def flo(self, x, f):
        """Exact f over a float/int value (tabulated)."""
        if V.is_sym(x):
            if type(x) in (V.SymInt, V.SymBool):
                x = V.SymFloat.of_int(x)
            if V.is_sym(x):
                return x.map(f)
        return f(x)

    def tabulate(self, x, f):
        """f applied to an int of bounded range (f is the oracle's own function)."""
        if V.is_sym(x):
            return V._tab(x, [V._try(f, v) for v in range(x.lo, x.hi + 1)])
        return f(x)

    def fork(self, x):
        return V.plain_value(x)

    def put(self, data, name="in.flp"):
        p = "/vfs/" + name
        self.vfs.files[p] = list(V.elems_of(data))
        return p

    def path(self, name):
        return "/vfs/" + name

    def get(self, path):
        e = self.vfs.files.get(path)
        return None if e is None else V.mkbytes(e)

    def fault(self, kind):
        pass

    def done(self):
        pass


class NativeH(Base):
    def __init__(self, model):
        self.model = model
        self.dir = None
        self.failed = []

    def _v(self, name):
        return self.model.get(name, 0)

    def byte(self, name):
        return self._v(name)

    def bytes(self, name, n):
        return bytes(self._v("%s.%d" % (name, i)) for i in range(n))

    def int(self, name, lo, hi):
        w = V.bits_for(lo, hi)
        v = T.signed(self._v(name), w)
        if not lo <= v <= hi:
            raise Skip(name)
        return v

    def bool(self, name):
        return bool(self._v(name))

    def text(self, name, n, lo=1, hi=127):
        out = []
        for i in range(n):
            v = self._v("%s.%d" % (name, i))
            if not lo <= v <= hi:
                raise Skip(name)
            out.append(chr(v))
        return "".join(out)

    def choose(self, name, n):
        return 0 if n == 1 else self.int(name, 0, n - 1)

    def f32(self, name):
        return struct.unpack("<f", self._v(name).to_bytes(4, "little"))[0]

    def f64(self, name):
        return struct.unpack("<d", self._v(name).to_bytes(8, "little"))[0]

    def assume(self, c):
        if not c:
            raise Skip("assumption")

    def check(self, c, label):
        if not c:
            self.failed.append(label)
            raise Failed(label)

    def fail(self, label):
        self.check(False, label)

    def all(self, xs):
        return all(list(xs))

    def any(self, xs):
        return any(list(xs))

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def lnot(self, a):
        return not a

    def eq(self, a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if a is None or b is None:
            return a is b
        return bool(a == b)

    def float_is(self, a, bits):
        try:
            return struct.pack("<f" if len(bits) == 4 else "<d", a) == bits
        except (struct.error, OverflowError, TypeError):
            return False

    def float_bytes(self, a, n):
        return struct.pack("<f" if n == 4 else "<d", a)

    def flo(self, x, f):
        return f(x)

    def tabulate(self, x, f):
        return f(x)

    def fork(self, x):
        return x

    def _dir(self):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix="verif-replay-")
        return self.dir

    def put(self, data, name="in.flp"):
        p = os.path.join(self._dir(), name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def path(self, name):
        return os.path.join(self._dir(), name)

    def get(self, path):
        if not os.path.exists(path):
            return None
        with open(path, "rb") as f:
            return f.read()

    def done(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


class Case:
    def __init__(self, name, fn, args=(), paths=2000, bounds="", finding=None, timeout=None, weight=1):
        self.name, self.fn, self.args = name, fn, tuple(args)
        self.paths, self.bounds, self.finding, self.timeout = paths, bounds, finding, timeout
        self.weight = weight
