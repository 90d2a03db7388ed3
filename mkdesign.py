"""writes DESIGN.md from design.tmpl, the contracts and the planted bugs"""
import glob
import json
import os
import sys
sys.path.insert(0, "/verif")
from pyvc import verify
ld, lemmas = verify.load("/verif/contracts", "/repo")
WHY = {
    "C04": "whole histories over tracker objects, cross-check of the proved lemmas",
    "C05": "whole requests through sketches and Venn dictionaries keyed by tuples built with itertools",
    "C06": "the full request including the sketch; the proof covers every estimate the sketch may give",
    "C07": "regions are dictionaries keyed by variable-length tuples built with itertools.combinations and Counter",
    "C09": "agreement with a brute-force search; overflow behaviour",
    "C10": "fit loop over scipy distributions",
    "C11": "scipy special functions and optimisers",
    "C12": "cvxopt least squares and constraint matrices built by NumPy stacking",
    "C13": "NumPy vector algebra with in-place updates and random initialisation",
    "C14": "cvxpy/scipy optimisation",
    "C15": "files; the line format itself is proved",
    "C16": "NumPy random streams, pandas-free generators with numpy set algebra",
    "C17": "pyDOE/scipy sampling, n-dimensional meshgrid",
    "C18": "pandas data frame assembly",
    "C19": "pandas result rows, files, string rendering of nested parameter tuples",
    "C20": "curves and surfaces fitted by scipy/cvxopt",
    "C21": "the same with real pandas, real files and real partial texts (below)",
}
rows = []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)
    mine = [x for x in lemmas if p["id"] in x.props]
    if not mine:
        continue
    f = lambda x: f"`{x.mod.short}.{x.name}`"
    pr, bd = [f(x) for x in mine if x.symbolic], [f(x) for x in mine if not x.symbolic]
    rows.append(f"| {p['id']} {p['title']} | {', '.join(pr) or '-'} | {', '.join(bd) or '-'}{' - ' + WHY[p['id']] if bd else ''} |")
caught = json.load(open("/verif/caught.json"))
seeds = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m, i = json.load(open(d)), os.path.basename(os.path.dirname(d))
    seeds.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '?')} |")
t = open("/verif/design.tmpl").read()
open("/verif/DESIGN.md", "w").write(t.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(seeds)))
