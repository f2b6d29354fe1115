"""Runs one property's cases over forked workers, replays candidates natively, writes evidence."""

import json
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PREFIXES = ("pyflp", "construct", "construct_typed", "harness")


def setup_native():
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True


def setup_symbolic():
    setup_native()
    import warnings

    warnings.simplefilter("ignore")
    sys.setrecursionlimit(20000)
    from . import rewrite

    rewrite.install(PREFIXES)
    import pyflp

    want = os.path.join(os.path.realpath(REPO), "pyflp") + os.sep
    if not os.path.realpath(pyflp.__file__).startswith(want):
        raise RuntimeError("pyflp was imported from " + pyflp.__file__)


def load_cases(prop, tier):
    import importlib

    m = importlib.import_module("harness." + prop.lower())
    from harness import borrow

    return m, m.cases(tier) + borrow.cases(prop.lower(), tier)


def replay_native(prop, tier, case, model, keep=None):
    """(reproduced, text): run the same harness on the uninstrumented code."""
    data = {"property": prop, "tier": tier, "case": case, "model": model, "repo": REPO}
    text = json.dumps(data)
    env = dict(os.environ, PYTHONPATH="", PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, "replay.py"), "-"], input=text.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, env=env)
    except subprocess.TimeoutExpired:
        return False, "replay timed out"
    out = p.stdout.decode(errors="replace")
    return p.returncode == 1, out[-3000:]


def replay_witnesses(prop, tier, cases, results, jobs, deadline):
    """Run the models of completed (or abandoned) paths on the uninstrumented code, in batches.

    This validates the encoding: the solver's verdict on a path must agree with the real run."""
    skip = {c.name for c in cases if c.finding}
    todo = []
    for r in results:
        if r.get("skipped") or r["confirmed"] or r["case"] in skip:
            continue
        for m in r.get("witness") or []:
            todo.append({"case": r["case"], "model": m})
    todo.sort(key=lambda t: t["case"])
    env = dict(os.environ, PYTHONPATH="", PYTHONDONTWRITEBYTECODE="1")
    procs = []
    n = max(1, min(jobs, len(todo) // 20 + 1))
    for j in range(n):
        part = todo[j::n]
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, "replay.py"), "--batch"], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        procs.append((p, json.dumps({"property": prop, "tier": tier, "repo": REPO, "runs": part}).encode()))
    import threading

    outs = [b""] * n

    def talk(j):
        p, text = procs[j]
        try:
            outs[j] = p.communicate(text, timeout=max(30, deadline + 30 - time.time()))[0]
        except subprocess.TimeoutExpired:
            p.kill()

    ts = [threading.Thread(target=talk, args=(j,)) for j in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    ran, bad = 0, []
    for o in outs:
        for line in o.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            ran += 1
            if d["result"] == "violated":
                bad.append(d)
    return ran, bad


def run_case(prop, tier, case, solver, deadline, verbose):
    from . import ctx as C
    from .api import SymH

    cx = C.Ctx(solver, max_paths=case.paths, deadline=deadline)
    res = {"case": case.name, "bounds": case.bounds, "finding": case.finding}
    t0 = time.time()
    q0 = (solver.queries, solver.time, solver.sat, solver.unsat, solver.unknown)
    confirmed = []
    spurious = []

    def body():
        case.fn(SymH(cx), *case.args)

    class VList(list):
        """Each candidate is replayed against the real code as soon as it appears."""

        def append(self, v):
            if len(confirmed) >= 1:
                return
            if len(spurious) >= 6:
                spurious.append({"label": v.label, "text": "not replayed"})
                return
            ok, text = replay_native(prop, tier, case.name, v.model)
            (confirmed if ok else spurious).append(
                {"label": v.label, "model": v.model, "text": text, "detail": v.detail})
            if ok:
                list.append(self, v)

    cx.violations = VList()
    try:
        cx.explore(body, max_violations=1)
    except BaseException as e:  # noqa: BLE001
        cx.note("engine error %s: %s" % (type(e).__name__, C.safe_str(e)))
        res["engine_error"] = traceback.format_exc()[-2000:]
        solver.close()
        solver.start()
    for s in spurious:
        cx.note("candidate not reproduced on the real code: " + s["label"][:100])
    res.update(paths=cx.paths, abandoned=cx.abandoned, incomplete=cx.incomplete, solver_obl=cx.obl_solver,
               folded=cx.obl_folded, unknown=cx.obl_unknown, reached=cx.reached,
               witness=cx.witness, decisions=cx.decisions,
               confirmed=confirmed, spurious=spurious, wall=time.time() - t0,
               queries=solver.queries - q0[0], solver_s=solver.time - q0[1], sat=solver.sat - q0[2],
               unsat=solver.unsat - q0[3], unk=solver.unknown - q0[4])
    return res


def main(prop, tier, only=None, jobs=8, verbose=False, budget=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = budget or (240 if tier == "quick" else 3000)
    deadline = t0 + budget
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    repdir = os.path.join(evdir, "replays")
    os.makedirs(repdir, exist_ok=True)
    load_error = None
    try:
        setup_symbolic()
        mod, cases = load_cases(prop, tier)
    except Exception:  # the code under test no longer imports or a harness anchor is gone
        load_error = traceback.format_exc()
        mod, cases = None, []
    if load_error:
        sys.stderr.write(load_error)
    if only:
        cases = [c for c in cases if any(o in c.name for o in only)]
    t_load = time.time() - t0
    results = run_pool(prop, tier, cases, jobs, deadline, verbose) if cases else []
    ran, bad = replay_witnesses(prop, tier, cases, results, jobs, deadline) if results else (0, [])
    by = {r["case"]: r for r in results}
    for d in bad:
        r = by[d["case"]]
        if r["confirmed"]:
            continue
        ok, text = replay_native(prop, tier, d["case"], d["model"])
        if ok:
            r["confirmed"].append({"label": "on the real code: " + d["text"][:200], "model": d["model"], "text": text,
                                   "detail": ""})
        else:
            r["incomplete"].append("a witness failed once on the real code")
    return report(prop, tier, seed, mod, cases, results, load_error, t0, t_load, verbose, ran)


def run_pool(prop, tier, cases, jobs, deadline, verbose):
    import tempfile

    tmp = tempfile.mkdtemp(prefix="verif-run-")
    order = sorted(range(len(cases)), key=lambda i: -cases[i].weight)
    r, w = os.pipe()
    pids = []
    jobs = max(1, min(jobs, len(cases)))
    # job tokens: all written up front (2 bytes each, far below the pipe capacity for our sizes)
    for i in order:
        os.write(w, i.to_bytes(2, "little"))
    os.close(w)
    for j in range(jobs):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                from .solver import Solver

                solver = Solver(timeout_ms=20000)
                with open(os.path.join(tmp, "out%d" % j), "w") as f:
                    while True:
                        b = os.read(r, 2)
                        if len(b) < 2:
                            break
                        c = cases[int.from_bytes(b, "little")]
                        if time.time() > deadline:
                            f.write(json.dumps({"case": c.name, "skipped": True}) + "\n")
                            f.flush()
                            continue
                        dl = deadline
                        if c.timeout:
                            dl = min(dl, time.time() + c.timeout)
                        res = run_case(prop, tier, c, solver, dl, verbose)
                        f.write(json.dumps(res, default=str) + "\n")
                        f.flush()
                solver.close()
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    os.close(r)
    for pid in pids:
        left = deadline + 60 - time.time()
        end = time.time() + max(5, left)
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                break
            time.sleep(0.02)
    out = []
    for j in range(jobs):
        p = os.path.join(tmp, "out%d" % j)
        if os.path.exists(p):
            with open(p) as f:
                for line in f:
                    try:
                        out.append(json.loads(line))
                    except ValueError:
                        pass
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)
    return out


def report(prop, tier, seed, mod, cases, results, load_error, t0, t_load, verbose, ran=0):
    from . import rewrite

    with open(os.path.join(VERIF, "known_findings.json")) as f:
        known = json.load(f)["findings"]
    by = {r["case"]: r for r in results}
    viol = []
    findings = []
    incon = []
    vac = []
    tot = dict(paths=0, solver_obl=0, folded=0, unknown=0, reached=0, queries=0, sat=0, unsat=0, unk=0, solver_s=0.0, decisions=0)
    percase = []
    for c in cases:
        r = by.get(c.name)
        if r is None or r.get("skipped"):
            incon.append({"case": c.name, "why": ["not run: time budget"]})
            continue
        for k in tot:
            tot[k] += r[k]
        if r["confirmed"]:
            known_as = known.get(c.finding or "")
            if known_as and known_as["property"] == prop and known_as["case"] == c.name \
                    and (r["confirmed"][0]["label"] == known_as["label"]
                         or r["confirmed"][0]["text"].startswith("VIOLATED: " + known_as["label"] + "\n")):
                findings.append((known_as["what"], r))
            else:
                viol.append((c, r))
        if r["incomplete"]:
            incon.append({"case": c.name, "why": r["incomplete"][:6]})
        if not r["reached"] and not r["confirmed"]:
            vac.append(c.name)
        percase.append({"case": c.name, "bounds": c.bounds, "paths": r["paths"], "obligations": r["reached"],
                        "queries": r["queries"], "solver_s": round(r["solver_s"], 2),
                        "complete": not r["incomplete"], "wall_s": round(r["wall"], 2)})
        if verbose:
            print("%-46s paths=%-5d reached=%-6d q=%-5d solver=%.1fs wall=%.1fs %s" % (
                c.name[:46], r["paths"], r["reached"], r["queries"], r["solver_s"], r["wall"],
                "INCOMPLETE " + "; ".join(r["incomplete"][:3]) if r["incomplete"] else ""))
            for s in r["spurious"][:2]:
                print("   spurious:", s["label"], (s.get("detail") or "")[-900:], s["text"][-300:])
            if r.get("engine_error"):
                print("   ", r["engine_error"])
    lines = []
    for c, r in viol:
        v = r["confirmed"][0]
        path = os.path.join(VERIF, "evidence", "replays", "%s-%s.json" % (prop, "".join(
            ch if ch.isalnum() or ch in "._-" else "_" for ch in c.name)))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "case": c.name, "label": v["label"], "model": v["model"],
                       "observed": v["text"][-1500:],
                       "replay": "%s %s/replay.py %s" % (sys.executable, VERIF, path)}, f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("violated: %s: %s" % (c.name, v["label"]))
        if verbose:
            print(v["text"])
    for what, r in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    meta = getattr(mod, "META", {}) if mod else {}
    funcs = {k[len(REPO) + 1:] if k.startswith(REPO) else os.path.basename(k): v
             for k, v in rewrite.FUNCS.items() if "harness" not in k}
    proved = tot["solver_obl"] + tot["folded"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "explanation": "bounded symbolic execution of the real code; every obligation on every feasible path "
                           "within the bounds is decided by the SMT solver (or reduced to false by the encoder's "
                           "bit-vector identities before reaching it)",
            "states": tot["paths"], "states_are": "feasible symbolic paths explored to their end",
            "transitions": tot["decisions"], "transitions_are": "symbolic branch decisions taken on those paths",
            "traces_validated_against_impl": ran,
            "exhaustive_within_bounds": not incon and not load_error and not vac,
            "functions_encoded": funcs,
            "entry_points": meta.get("entry", []),
            "bounds": meta.get("bounds", ""),
            "outside": meta.get("outside", ""),
            "obligations_met": tot["reached"],
            "obligations_decided_by_solver": tot["solver_obl"], "obligations_folded_by_encoder": tot["folded"],
            "obligations_undecided": tot["unknown"],
            "queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unk"],
            "solver_s": round(tot["solver_s"], 2), "solver": "z3 (SMT-LIB2, one process per worker)",
            "encode_s": round(t_load, 2),
            "cases": percase[:400],
            "inconclusive": incon[:100], "vacuous_cases": vac,
            "load_error": (load_error or "")[-1500:],
            "samples": [{"case": r["case"], "model": (r.get("witness") or [{}])[0]} for r in results[:4]],
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d paths, %d obligations (%d solver, %d folded, %d undecided), %d queries, "
          "solver %.1fs, wall %.1fs, %d inconclusive, %d vacuous" % (
              prop, tier, len(cases), tot["paths"], tot["reached"], tot["solver_obl"], tot["folded"],
              tot["unknown"], tot["queries"], tot["solver_s"], time.time() - t0, len(incon), len(vac)))
    if load_error:
        # nothing could be encoded: say so; only a reproduced counterexample is a violation
        ok = import_ok()
        if not ok:
            path = os.path.join(VERIF, "evidence", "replays", prop + "-import.txt")
            with open(path, "w") as f:
                f.write(load_error)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    for ln in lines:
        print(ln)
    return 1 if lines else 0


def import_ok():
    """Whether the package and each of its modules can be imported at all."""
    code = ("import sys, os, glob, importlib; sys.path.insert(0, %r); import pyflp\n"
            "for f in sorted(glob.glob(os.path.join(os.path.dirname(pyflp.__file__), '[!_]*.py'))):\n"
            "    importlib.import_module('pyflp.' + os.path.basename(f)[:-3])\n" % REPO)
    p = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode == 0
