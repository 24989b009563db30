"""Rewrite the numbers of cases in section 2 of DESIGN.md from the workloads of the modules."""
import importlib
import os
import re
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here, os.environ.get("VERIF_REPO", "/repo")]
path = os.path.join(here, "DESIGN.md")
text = open(path).read()


def number(p):
    m = importlib.import_module("props." + p.lower())
    return "%d/%d" % (sum(w.quick for w in m.WORKLOADS), sum(w.thorough for w in m.WORKLOADS))


def header(m):
    ids = re.findall(r"P\d\d", m.group(1))
    old = re.findall(r"\d+/\d+", m.group(2))
    assert len(ids) == len(old), m.group(0)
    inner = m.group(2)
    for p, o in zip(ids, old):
        inner = inner.replace(o, number(p), 1)
    return "**" + m.group(1) + "** (" + inner + ")"


new = re.sub(r"\*\*(P\d\d[^*]*)\*\* \(([^)]*\d+/\d+[^)]*)\)", header, text)
open(path, "w").write(new)
print(sum(a != b for a, b in zip(text.split("\n"), new.split("\n"))), "lines changed")
