"""Cases one property's check shares with another's: the broad properties (reading, assigning, reproducing the file)
are also decided by the cases written for the special parts of the project.

Findings are never shared: each is listed under the property it belongs to."""

import re

# property -> [(harness, pattern of the names it takes)]
SHARE = {
    "c01": [("c02", ""), ("c03", ""), ("c04", r"^(ascii|bmp|all|length)"), ("c04", " read/")],
    "c02": [("c01", r"^(?!length/16777216)"), ("c12", r"^items/")],
    "c03": [("c22", r"0/0 ")],
    "c06": [("c01", r"^header"), ("c04", " read/"), ("c12", r"^(items|track|no playlist|refer|base)"), ("c13", r"^(?!set)"),
            ("c15", r"/read$"), ("c18", r"^(read|text)"), ("c19", r"^(none|read/20)"), ("c21", r"^(?!.*(/set|new ))"),
            ("c22", r"^(?!assign)")],
    "c07": [("c01", r"^set header"), ("c04", " write/"), ("c08", ""), ("c12", r"^(set|relink)"), ("c13", r"^set"), ("c15", r"/(back|set|number|name|nearest 100)$"),
            ("c18", r"^set"), ("c19", r"^(twice|set/20)"), ("c21", r"(/set|new |/mix$|/type$|/both$|_path/)"), ("c22", r"^assign")],
    "c15": [("c21", r"^(tempo|stamp|reverb|markers|remote|loop_pos|sample_path|data_path)"), ("c21", r"/set")],
    "c16": [("c01", r"^(?!length/16777216)")],
    "c21": [("c15", r"^tempo"), ("c13", r"^(routes|read)"), ("c04", r"comments ")],
    "c22": [("c03", r""), ("c06", r"plugin")],
}


def cases(prop, tier):
    import importlib

    seen = set()
    out = []
    for other, pat in SHARE.get(prop, ()):
        m = importlib.import_module("harness." + other)
        for c in m.cases("quick"):
            if c.finding or not re.search(pat, c.name):
                continue
            c.name = "%s:%s" % (other.upper(), c.name)
            if c.name not in seen:
                seen.add(c.name)
                out.append(c)
    return out
