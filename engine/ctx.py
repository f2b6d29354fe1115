"""Path exploration: the current path's constraints, decisions, model and obligations.

Exploration is model-guided depth-first re-execution: a pending path is a list of
decision records plus a model satisfying them, so replaying needs no solver; every new
decision asks the solver whether the other side is feasible too.
"""

import time

from . import terms as T
from .solver import SolverError


class Control(BaseException):
    """Never caught by the code under test (bare excepts are rewritten to Exception)."""


class Abandon(Control):
    """The path's assumptions are unsatisfiable."""


class Gap(Control):
    """Something the engine cannot encode."""


class OutOfBudget(Control):
    pass


class Violation:
    def __init__(self, label, model, kind, detail=""):
        self.label, self.model, self.kind, self.detail = label, model, kind, detail


CX = None  # the active context


def cur():
    return CX


class Ctx:
    def __init__(self, solver, max_paths=2000, deadline=None, conc_limit=300):
        self.solver = solver
        self.max_paths = max_paths
        self.deadline = deadline
        self.conc_limit = conc_limit
        self.reset_stats()

    def reset_stats(self):
        self.paths = 0
        self.abandoned = 0
        self.incomplete = []      # reasons why some behaviours were left out
        self.obl_solver = 0       # obligations decided by the solver
        self.obl_folded = 0       # obligations whose negation reduced to false in the encoder
        self.obl_unknown = 0
        self.reached = 0
        self.violations = []
        self.gaps = {}
        self.witness = []         # models of completed paths, run on the real code afterwards
        self.decisions = 0

    # ------------------------------------------------------------------ path
    def begin(self, trail, model):
        global CX
        CX = self
        self.trail = list(trail)
        self.given = len(trail)
        self.pos = 0
        self.model = dict(model)
        self.memo = {}
        self.pc = []
        self.sent = 0
        self.known = {}
        self.vars = {}
        self.obl = []
        self.incomplete_here = False
        self.files = {}
        self.state = {}
        from . import values

        values.DIGITS.clear()
        self.solver.push()

    def end(self):
        self.solver.pop()
        for n in self.vars:
            self.solver.forget(n)

    def note(self, why):
        self.incomplete_here = True
        if why not in self.incomplete:
            self.incomplete.append(why)

    def fresh(self, name, w):
        if name in self.vars:
            if self.vars[name] != w:
                raise Gap("variable reused at another width: " + name)
        else:
            self.vars[name] = w
            self.solver.declare_scoped(name, w)
        return T.var(name, w)

    def ev(self, n):
        return T.evaluate(n, self.model, self.memo)

    def _sync(self):
        pc = self.pc
        while self.sent < len(pc):
            self.solver.add(pc[self.sent])
            self.sent += 1

    def query(self, extra):
        if self.deadline and time.time() > self.deadline:
            raise OutOfBudget("time")
        self._sync()
        try:
            return self.solver.check(extra, list(self.vars.items()))
        except SolverError as e:
            self.note("solver: " + str(e)[:80])
            raise Gap("solver " + str(e)[:80])

    def add(self, n):
        if n is T.TRUE:
            return
        self.pc.append(n)
        self._learn(n, True)

    def _learn(self, n, v):
        self.known[n] = v
        if n.op == "not":
            self.known[n.a[0]] = not v
        elif n.op == "and" and v:
            for x in n.a:
                self._learn(x, True)

    def assume(self, n):
        if n is T.TRUE:
            return
        if n is T.FALSE:
            raise Abandon()
        if self.ev(n):
            self.add(n)
            return
        ans, m = self.query(n)
        if ans == "unsat":
            raise Abandon()
        if ans != "sat":
            self.note("assumption undecided")
            raise Abandon()
        if self.pos < self.given:
            raise Gap("assume inside a replayed prefix contradicts its model")
        self.model, self.memo = m, {}
        self.add(n)

    def branch(self, n):
        if n is T.TRUE:
            return True
        if n is T.FALSE:
            return False
        k = self.known.get(n)
        if k is not None:
            return k
        if n.op == "not":
            return not self.branch(n.a[0])
        side = bool(self.ev(n))
        self.decisions += 1
        i = self.pos
        self.pos += 1
        if i >= self.given:
            self.trail.append(None)
            other = T.mk_not(n) if side else n
            ans, m = self.query(other)
            if ans == "sat":
                self.push_pending(self.trail[:i] + [None], m)
            elif ans != "unsat":
                self.note("branch feasibility undecided")
                self.obl_unknown += 1
        if side:
            self.add(n)
        else:
            self.add(T.mk_not(n))
        return side

    def concretise(self, n, limit=None):
        """Fork over every feasible value of n; returns the unsigned value on this path."""
        if n.op == "const":
            return n.p
        if n is T.TRUE or n is T.FALSE:
            return int(n is T.TRUE)
        k = self.known.get(("val", n))
        if k is not None:
            return k
        v = self.ev(n)
        self.decisions += 1
        i = self.pos
        self.pos += 1
        if i < self.given:
            excl = self.trail[i] or ()
        else:
            excl = ()
            self.trail.append(())
        same = (lambda x: T.mk_eq(n, T.bv(x, n.w))) if n.w else (lambda x: n if x else T.mk_not(n))
        for e in excl:
            self.add(T.mk_not(same(e)))
        if i >= self.given - 1:
            eq = same(v)
            if eq is not T.TRUE:
                if len(excl) + 1 >= (limit or self.conc_limit):
                    ans, m = self.query(T.mk_not(eq))
                    if ans != "unsat":
                        self.note("more than %d values where a concrete one is needed"
                                  % (limit or self.conc_limit))
                else:
                    ans, m = self.query(T.mk_not(eq))
                    if ans == "sat":
                        self.push_pending(self.trail[:i] + [excl + (v,)], m)
                    elif ans != "unsat":
                        self.note("value feasibility undecided")
        self.add(same(v))
        self.known[("val", n)] = v
        return v

    def realise(self, n, why):
        """One model value only: what the other values do is outside the claim."""
        if n.op == "const":
            return n.p
        k = self.known.get(("val", n))
        if k is not None:
            return k
        v = self.ev(n)
        eq = T.mk_eq(n, T.bv(v, n.w)) if n.w else (n if v else T.mk_not(n))
        if eq is not T.TRUE and not self.known.get(eq):
            ans, _ = self.query(T.mk_not(eq))
            if ans != "unsat":
                self.note("one value only: " + why)
                self.gaps[why] = self.gaps.get(why, 0) + 1
        self.add(eq)
        self.known[("val", n)] = v
        return v

    def push_pending(self, trail, model):
        self.work.append((trail, model))

    # ------------------------------------------------------------------ obligations
    def check(self, n, label):
        self.reached += 1
        if n is T.TRUE:
            self.obl_folded += 1
            return
        self.obl.append((n, label))

    def settle(self):
        """Discharge the obligations met on this path against its whole path condition."""
        obl, self.obl = self.obl, []
        seen = set()
        todo = []
        for n, label in obl:
            if n not in seen:
                seen.add(n)
                todo.append((n, label))
        bad = None
        for n, label in todo:
            if not self.ev(n):
                bad = (label, dict(self.model))
                break
        if bad is None and todo:
            goal = T.mk_or(*[T.mk_not(n) for n, _ in todo])
            ans, m = self.query(goal)
            if ans == "unsat":
                self.obl_solver += len(todo)
            elif ans == "sat":
                memo = {}
                label = todo[0][1]
                for n, lb in todo:
                    if not T.evaluate(n, m, memo):
                        label = lb
                        break
                bad = (label, m)
            else:
                # one at a time
                for n, lb in todo:
                    ans, m = self.query(T.mk_not(n))
                    if ans == "unsat":
                        self.obl_solver += 1
                    elif ans == "sat":
                        bad = (lb, m)
                        break
                    else:
                        self.obl_unknown += 1
                        self.note("obligation undecided: " + lb)
        if bad:
            self.violations.append(Violation(bad[0], bad[1], "check"))

    def keep_witness(self):
        if len(self.witness) < 2:
            self.witness.append(dict(self.model))
        else:
            self.witness[1] = dict(self.model)

    # ------------------------------------------------------------------ driver
    def explore(self, fn, max_violations=3):
        """Run fn(self) over every path; fn raises only for what the harness did not expect."""
        self.work = [([], {})]
        while self.work:
            if self.paths >= self.max_paths:
                self.note("path budget %d" % self.max_paths)
                break
            if self.deadline and time.time() > self.deadline:
                self.note("time budget")
                break
            trail, model = self.work.pop()
            self.begin(trail, model)
            self.paths += 1
            try:
                try:
                    fn()
                except Control:
                    raise
                except Exception as e:  # noqa: BLE001
                    import traceback

                    self.settle()
                    self.violations.append(Violation(
                        "unexpected %s: %s" % (type(e).__name__, safe_str(e)), dict(self.model), "exception",
                        traceback.format_exc()[-1500:]))
                else:
                    self.settle()
                    if len(self.violations) == 0:
                        self.keep_witness()
            except Abandon:
                self.abandoned += 1
            except OutOfBudget:
                self.note("time budget")
                self.end()
                break
            except Gap as g:
                why = "gap: " + str(g)[:120]
                self.note(why)
                self.keep_witness()
                self.gaps[why] = self.gaps.get(why, 0) + 1
            except RecursionError:
                self.note("recursion")
            self.end()
            if len(self.violations) >= max_violations:
                break


def safe_str(e):
    try:
        return str(e)[:200]
    except BaseException:  # noqa: BLE001
        return "?"
