#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: design_head.md, the table of families (from the property modules), the notes of design_tail.md with
the tables of planted bugs and repaired defects."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
os.environ["JAX_PLATFORMS"] = "cpu"
from harness import engine  # noqa: E402

sys.path.append(engine.HYP)


def families():
    out = ["| check | family | quick | thorough | a case is non-trivial when |", "|---|---|---|---|---|"]
    for i in range(1, 39):
        m = engine.load_prop("C%02d" % i)
        for f in m.FAMILIES:
            out.append("| C%02d | %s | %d | %d | %s |" % (i, f.name, f.quick, f.thorough, f.rule))
    return "\n".join(out)


def seeded():
    out = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
    d = os.path.join(V, "seeded")
    rows = []
    for b in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, b, "meta.json")))
        rows.append((m["property"], "| %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"])))
    return "\n".join(out + [r for _, r in sorted(rows)])


def fixed():
    out = ["| property | commit | what failed |", "|---|---|---|"]
    for x in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]:
        a = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
        out.append("| %s | %s | %s |" % a.groups())
    return "\n".join(out)


T = os.path.join(V, "tools", "")
tail = open(T + "design_tail.md").read().replace("%SEEDED%", seeded()).replace("%FIXED%", fixed())
text = open(T + "design_head.md").read().rstrip() + "\n\n## 3. Families\n\n" + families() + "\n\n" + tail
open(os.path.join(V, "DESIGN.md"), "w").write(text)
