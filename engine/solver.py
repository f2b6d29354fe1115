"""One persistent SMT-LIB2 process (z3), kept in step with the current path by push/pop."""

import os
import select
import subprocess
import time

from . import terms as T

Z3 = [p for p in ("/usr/local/bin/z3-new", "/usr/bin/z3", "/usr/local/bin/z3") if os.path.exists(p)]
CVC5 = "/usr/bin/cvc5"

_OPS = {
    "not": "not", "and": "and", "ite": "ite", "eq": "=", "ult": "bvult", "slt": "bvslt",
    "add": "bvadd", "sub": "bvsub", "mul": "bvmul", "band": "bvand", "bor": "bvor",
    "bxor": "bvxor", "bnot": "bvnot", "udiv": "bvudiv", "urem": "bvurem", "shl": "bvshl",
    "lshr": "bvlshr", "ashr": "bvashr", "concat": "concat",
    "fp.lt": "fp.lt", "fp.leq": "fp.leq", "fp.eq": "fp.eq", "fp.isNaN": "fp.isNaN",
    "fp.isInfinite": "fp.isInfinite",
}


def sort(w):
    if w == 0:
        return "Bool"
    if w == -64:
        return "Float64"
    return "(_ BitVec %d)" % w


class Printer:
    """Names every non-leaf node once per scope with define-fun."""

    def __init__(self, emit):
        self.emit = emit
        self.levels = [set()]
        self.known = set()
        self.declared = set()

    def push(self):
        self.levels.append(set())

    def pop(self):
        self.known -= self.levels.pop()

    def ref(self, n):
        op = n.op
        if op == "const":
            if n.w % 4 == 0:
                return "#x" + format(n.p, "0%dx" % (n.w // 4))
            return "#b" + format(n.p, "0%db" % n.w)
        if op == "true" or op == "false":
            return op
        if op == "var":
            return "|%s|" % n.p
        return "n%d" % n.nid

    def define(self, root):
        stack = [root]
        while stack:
            x = stack[-1]
            if x in self.known or x.op in ("const", "true", "false"):
                stack.pop()
                continue
            if x.op == "var":
                if x.p not in self.declared:
                    raise RuntimeError("undeclared " + x.p)
                stack.pop()
                continue
            todo = [y for y in x.a if y not in self.known and y.op not in ("const", "true", "false", "var")]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.known.add(x)
            self.levels[-1].add(x)
            self.emit("(define-fun n%d () %s %s)\n" % (x.nid, sort(x.w), self.body(x)))
        return self.ref(root)

    def body(self, x):
        a = [self.ref(y) for y in x.a]
        op = x.op
        if op in _OPS:
            return "(%s %s)" % (_OPS[op], " ".join(a))
        if op == "extract":
            return "((_ extract %d %d) %s)" % (x.p[0], x.p[1], a[0])
        if op == "zext":
            return "((_ zero_extend %d) %s)" % (x.w - x.a[0].w, a[0])
        if op == "sext":
            return "((_ sign_extend %d) %s)" % (x.w - x.a[0].w, a[0])
        if op == "fpconst":
            return "((_ to_fp 11 53) #x%016x)" % x.p
        if op == "fp64":
            return "((_ to_fp 11 53) %s)" % a[0]
        if op == "fp32":
            return "((_ to_fp 11 53) RNE ((_ to_fp 8 24) %s))" % a[0]
        if op == "fp.sbv":
            return "((_ to_fp 11 53) RNE %s)" % a[0]
        if op == "fp.to_sbv":
            return "((_ fp.to_sbv %d) %s %s)" % (x.w, x.p, a[0])
        if op in ("fp.add", "fp.sub", "fp.mul", "fp.div"):
            return "(%s RNE %s)" % (op, " ".join(a))
        raise RuntimeError("no printer for " + op)


class SolverError(Exception):
    pass


class Solver:
    def __init__(self, timeout_ms=20000, binary=None):
        self.binary = binary or Z3[0]
        self.timeout_ms = timeout_ms
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.sat = self.unsat = 0
        self.errors = 0
        self.cross = 0
        self.cross_disagree = 0
        self.max_query = 0.0
        self.proc = None
        self.log = None
        self.start()

    def start(self):
        self.proc = subprocess.Popen(
            [self.binary, "-in", "-smt2"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, bufsize=0,
        )
        self.buf = []
        self.script = []  # live script for a cross-check with another solver
        self.marks = []
        self.pr = Printer(self._emit)
        self._emit("(set-option :print-success false)\n(set-option :produce-models true)\n"
                   "(set-option :timeout %d)\n" % self.timeout_ms, False)
        self.out = b""
        self.depth = 0

    def _emit(self, s, keep=True):
        self.buf.append(s)
        if keep:
            self.script.append(s)

    def close(self):
        if self.proc:
            try:
                self.proc.kill()
                self.proc.wait()
            except Exception:
                pass
            self.proc = None

    def flush(self):
        if self.buf:
            data = "".join(self.buf).encode()
            self.buf = []
            self.proc.stdin.write(data)

    def push(self):
        self.marks.append(len(self.script))
        self._emit("(push 1)\n", False)
        self.pr.push()
        self.depth += 1

    def pop(self):
        self._emit("(pop 1)\n", False)
        self.pr.pop()
        self.depth -= 1
        del self.script[self.marks.pop():]

    def declare(self, name, w):
        if name not in self.pr.declared:
            if self.depth:
                raise RuntimeError("declare inside a scope: " + name)
            self.pr.declared.add(name)
            self._emit("(declare-const |%s| %s)\n" % (name, sort(w)))

    def declare_scoped(self, name, w):
        """Declarations inside the path scope are re-issued for every path."""
        self._emit("(declare-const |%s| %s)\n" % (name, sort(w)))
        self.pr.declared.add(name)

    def forget(self, name):
        self.pr.declared.discard(name)

    def add(self, n):
        if n is T.TRUE:
            return
        self._emit("(assert %s)\n" % self.pr.define(n))

    def _line(self, deadline):
        while b"\n" not in self.out:
            left = deadline - time.time()
            if left <= 0:
                raise SolverError("timeout")
            r, _, _ = select.select([self.proc.stdout], [], [], left)
            if not r:
                raise SolverError("timeout")
            chunk = os.read(self.proc.stdout.fileno(), 65536)
            if not chunk:
                raise SolverError("solver died")
            self.out += chunk
        line, self.out = self.out.split(b"\n", 1)
        return line.decode().strip()

    def check(self, extra=None, want_model=None):
        """'sat' | 'unsat' | 'unknown'; want_model: list of (name, w) to read back on sat."""
        t0 = time.time()
        self.queries += 1
        if extra is not None:
            self.push()
            self.add(extra)
        self._emit("(check-sat)\n", False)
        self.flush()
        model = None
        try:
            ans = self._line(time.time() + self.timeout_ms / 1000.0 + 10)
            if ans.startswith("(error"):
                self.errors += 1
                raise SolverError(ans)
            if ans not in ("sat", "unsat", "unknown"):
                if ans == "timeout":
                    ans = "unknown"
                else:
                    raise SolverError(ans)
            if ans == "sat" and want_model:
                model = self._model(want_model)
        finally:
            if extra is not None:
                self.pop()
            dt = time.time() - t0
            self.time += dt
            self.max_query = max(self.max_query, dt)
        if ans == "sat":
            self.sat += 1
        elif ans == "unsat":
            self.unsat += 1
        else:
            self.unknown += 1
        return ans, model

    def _model(self, names):
        model = {}
        for i in range(0, len(names), 200):
            part = names[i:i + 200]
            self._emit("(get-value (%s))\n" % " ".join("|%s|" % n for n, _ in part), False)
            self.flush()
            text = ""
            bal = 0
            dl = time.time() + 60
            while True:
                line = self._line(dl)
                if line.startswith("(error"):
                    self.errors += 1
                    raise SolverError(line)
                text += " " + line
                bal += line.count("(") - line.count(")")
                if bal <= 0:
                    break
            toks = text.replace("(", " ").replace(")", " ").split()
            # names may contain no blanks (enforced by ctx.fresh)
            for k in range(0, len(toks), 2):
                name = toks[k].strip("|")
                v = toks[k + 1]
                model[name] = int(v[2:], 16) if v[1] == "x" else int(v[2:], 2) if v[1] == "b" else int(v == "true")
        return model

    def cross_check(self, extra):
        """Ask cvc5 the same question (negated goal); returns its answer."""
        with_extra = len(self.script)
        self.push()
        self.add(extra)
        text = "(set-logic ALL)\n" + "".join(self.script) + "(check-sat)\n"
        self.pop()
        assert len(self.script) == with_extra
        self.cross += 1
        try:
            p = subprocess.run([CVC5, "--lang=smt2", "--tlimit=30000"], input=text.encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40)
            out = p.stdout.decode().strip().split("\n")
            return out[-1] if out else "unknown"
        except Exception:
            return "unknown"
