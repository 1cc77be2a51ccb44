"""Rewrites the section "Planted bugs" of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "C03-names": "variables in changing name orders", "C04-infneg": "exact infinite bounds", "C04-name": "clashing constraint names",
    "C12-corr": "encodings of the user's own", "C15-chain": "any triangle of the correlation matrix",
    "C09-cache": "programs with a past, objectives that pull against the constraints, more cases",
    "C13-sortraw": "objectives with more digits than the penalties", "C07-tinyrange": "ranges up to 14 bits",
    "C20-adj": "tiny weights", "C21-digraph": "tiny weights", "C12-intname": "numerals as names", "C15-lowprob": "many rare samples",
    "C01-gap": "programs with many variables", "C09-latch": "a converter that has seen an unusual program", "C13-near": "finer values",
    "C20-prefix": "larger graphs, comparison with the unreduced list of cuts",
}
rows = []
for path in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(path))
    name = os.path.basename(os.path.dirname(path))
    hit = m.get("caught_by", m["property"])
    rows.append("| {} | {} | {} | {} |".format(name, m["what_it_breaks"], m["needs"],
                hit + (" (missed at first; now: " + MISSED[name] + ")" if name in MISSED else "")))
path = os.path.join(ROOT, "DESIGN.md")
head = open(path).read().split("## Planted bugs")[0].rstrip()
open(path, "w").write(head + """

## Planted bugs

Each change below compiles, passes the existing tests and has a demonstration; `tools/plant.py` confirms this in a scratch copy,
`tools/try.sh ID` runs the check of its property against it. The last column names the check that reports it and, where it was
missed at first, what was added. This table is written by `tools/planted_table.py`.

| Change | What it breaks | Needs | Caught by |
|-|-|-|-|
""" + "\n".join(rows) + "\n")
