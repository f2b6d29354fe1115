#!/opt/venv/bin/python
"""replay.py FILE|-  : run a counterexample against the uninstrumented code in /repo.

Exit 1 if the property is violated by it, 0 if not."""
import json
import os
import sys
import traceback
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def run(cases, case, model):
    from engine.api import Failed, NativeH, Skip

    case = cases[case]
    h = NativeH(model)
    try:
        case.fn(h, *case.args)
    except Skip as e:
        return "skipped", "inputs outside the assumptions: %s" % e
    except Failed as e:
        return "violated", "%s" % e
    except Exception:
        return "violated", "unexpected exception\n" + traceback.format_exc()
    finally:
        h.done()
    return "holds", ""


def main():
    batch = sys.argv[1] == "--batch"
    data = json.load(sys.stdin if sys.argv[1] in ("-", "--batch") else open(sys.argv[1]))
    if data.get("repo"):
        os.environ["VERIF_REPO"] = data["repo"]
    from engine import runner

    runner.setup_native()
    warnings.simplefilter("ignore")
    _, cases = runner.load_cases(data["property"], data["tier"])
    cases = {c.name: c for c in cases}
    if batch:
        for r in data["runs"]:
            res, text = run(cases, r["case"], r["model"])
            line = {"case": r["case"], "result": res}
            if res == "violated":
                line.update(model=r["model"], text=text[-600:])
            print(json.dumps(line), flush=True)
        return 0
    res, text = run(cases, data["case"], data["model"])
    print({"violated": "VIOLATED: ", "skipped": "", "holds": "holds"}[res] + text)
    return int(res == "violated")


if __name__ == "__main__":
    sys.exit(main())
