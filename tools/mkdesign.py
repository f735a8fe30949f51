"""Write DESIGN.md from tools/design_head.md, the check modules, tools/design_tail.md and the seeded bugs."""
import importlib, json, pathlib, sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(ROOT), "/repo/src"]
WHY = {
    "P01": "tests fix a few graph shapes; a stale, doubly drawn or wrongly ordered value needs sharing, history or caller-fixed values to show",
    "P02": "tests compare one seed once; leaks into or out of process-wide generators only show when something else runs between",
    "P03": "aliasing and broadcasting errors need particular sequences of copies, writes and slices",
    "P04": "losses appear only for particular values (integers above 2^53, denormals, text) and chains of conversions",
    "P05": "needs graphs with shared nodes and re-assigned parameters, compared with real propagation of forced values",
    "P06": "completeness and exclusivity over every survey row, with poles, wrap, windows and masks",
    "P07": "an object's values swapped with another's need objects that differ in everything",
    "P08": "a statistical property: independence and scale of noise over thousands of residuals",
    "P09": "borders, poles, wrap and row labels; brute-force over all rows",
    "P10": "rotation and projection errors vanish at the equator or for symmetric shapes",
    "P11": "a history property: caches and labels going stale after edits",
    "P12": "exact value round trips over all column types, and overwriting",
    "P13": "formula and locality (a visit's value independent of others) over twelve decades",
    "P14": "inverse pairs over the whole numeric range",
    "P15": "must hold for every table spacing, unit, step and trim",
    "P16": "a history property of the merged wavelength grid",
    "P17": "per-sample redshift mix-ups need many samples and every model",
    "P18": "order, frame and multiplicity only show with non-commuting effects",
    "P19": "a relational property between differently batched requests",
    "P20": "pointwise rule over all placements of the request relative to the range",
    "P21": "sums of every kind of member, nested, with shared nodes",
    "P22": "identical or unlabelled components make a wrong pick invisible to sampled tests",
    "P23": "interpolation, wrap and baselines at every phase",
    "P24": "values at every time and wavelength, independent of the request's shape",
    "P25": "contacts, tangency and many cycles away; rounding-aware",
    "P26": "a distribution cannot be settled by an example",
    "P27": "a history property of the cursor",
    "P28": "uniformity on the sphere, poles and wrap",
    "P29": "any expression, any backend; and every forbidden construct",
    "P30": "pointwise agreement with the reference definitions on random grids and templates",
    "P31": "labels of any table history, any row labels",
    "P32": "every format, every corruption",
    "P33": "formulas over cosmologies and batches; counts by integration; the whole example re-derived",
    "P34": "the walk's law is only visible in the recovered innovations",
    "P35": "per-sample positions, both hemispheres, poles",
    "P36": "provenance of every derived row",
    "P37": "magnification at every time, per sample, on every source",
    "P38": "derivatives at random points of random graphs, against double-precision dual numbers",
    "P40": "whole runs over random surveys, re-derived visit by visit, and populations of 2000 judged by their distributions",
    "P39": "artists read back from the figure; the tests never look at what was drawn",
}
out = [(ROOT / "tools/design_head.md").read_text().rstrip(), "", "## Properties", ""]
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    d = json.loads(line)
    m = importlib.import_module("checks." + d["id"].lower())
    out += [f"### {d['id']} {d['title']}", "", d["statement"], ""]
    out += [f"*Monitored.* {m.RULE}", ""]
    if getattr(m, "ASSUMPTIONS", None):
        out += ["*Bounds and assumptions.* " + " ".join(m.ASSUMPTIONS), ""]
    sc = ", ".join(f"{s.func.__name__} {s.quick}/{s.thorough}" for s in m.SCENARIOS)
    out += [f"*Cases (quick/thorough).* {sc}.", ""]
    out += [f"*Why beyond the tests.* {WHY[d['id']][0].upper() + WHY[d['id']][1:]}.", ""]
out += [(ROOT / "tools/design_tail.md").read_text().rstrip(), ""]
rows = []
res = json.loads((ROOT / "tools/seeded_results.json").read_text()) if (ROOT / "tools/seeded_results.json").exists() else {}
for d in sorted((ROOT / "seeded").glob("*/meta.json")) if (ROOT / "seeded").exists() else []:
    meta = json.loads(d.read_text())
    rows.append(f"| {d.parent.name} | {meta['property']} | {meta['what_it_breaks']} | {meta['needs']} | {res.get(d.parent.name, '')} |")
out += ["## Planted bugs", "", "Each is a patch that builds and passes the existing tests, with a demonstration. \"Caught by\" lists the checks that exit 1 with it (quick tier, seed 1).", "", "| id | property | breaks | needs | caught by |", "|---|---|---|---|---|", *rows, ""]
(ROOT / "DESIGN.md").write_text("\n".join(out))
