"""Prints the table of planted changes for DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DESIGN = os.path.join(HERE, "DESIGN.md")
MISSED = {
    "loss-change-of-small-targets": "targets of very small scale",
    "ones-of-wide-distributions": "distributions reaching below zero",
    "price-limit-of-single-features": "price effects beyond the limits",
    "scores-of-class-labels": "more than two classes",
    "tied-probabilities": "probabilities of exactly one half",
    "uncertainty-of-light-targets": "the same update without and with smoothing",
    "divergence-counted-over-trainings": "trainings that overshoot and are repeated",
    "bin-count-remembered": "histories of binners",
    "odd-cell-of-grouped-smoothing": "group weights on different scales",
    "light-categories-dropped": "weights scaled by powers of two",
    "quantile-costs-heavy-rows": "weights over several decades",
    "closest-categories": "categories at very uneven distances",
    "middle-column-of-a-group": "groups of three columns",
    "nearly-straight-shapes": "shape parameters close to zero",
    "output-over-the-first-column": "output columns that exist already",
    "prior-of-priced-groups": "interactions after other price features",
    "smoother-of-the-outer-column": "smoothers given for columns and groups",
    "tables-of-unpriced-rows": "tables of price features",
    "cells-of-wide-groups": "groups with more than 16 million cells",
}
rows = ["| planted change | check | missed at first; what was added |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    name = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s |" % (name, json.load(open(f))["property"], MISSED.get(name, "")))
text = open(DESIGN).read()
head = text[: text.index("## 5. What the checks catch")]
open(DESIGN, "w").write(head + "## 5. What the checks catch\n\n" + "\n".join(rows) + "\n")
