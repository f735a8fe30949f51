"""P31 - post-processing of result tables."""

import math

import numpy as np
import pandas as pd
from nested_pandas import NestedFrame

from lclmon import gen, sources
from lclmon.core import Scenario
from lclmon.sims import Setup, light_curve, null
from lightcurvelynx.astro_utils.mag_flux import flux2mag, mag2flux
from lightcurvelynx.utils.post_process_results import (
    augment_single_lightcurve,
    lightcurve_compute_mag,
    lightcurve_compute_snr,
    results_augment_lightcurves,
    results_drop_empty,
)

RULE = (
    "Result tables from real simulations and hand-built ones (unobserved objects, zero, negative, missing and denormal fluxes, zero and missing uncertainties, integer columns, empty tables) are taken through random histories of filtering, slicing, re-ordering, re-labelling "
    "(repeated, string and gapped labels), concatenation, nested queries and repeated augmentation with different thresholds. A plain-Python record kept alongside gives every observation's expected signal-to-noise, flag, magnitude, error and relative time; all "
    "other columns must come out unchanged. Non-trivial: at least one observation. Distinct by the table content and history."
)
REQUIRED = [
    "table:simulated", "table:built", "object:unobserved", "flux:zero", "flux:negative", "flux:nan", "err:zero", "err:nan", "flux:integer", "step:filter", "step:slice", "step:permute", "step:relabel", "step:duplicate_labels", "step:string_labels", "step:concat", "step:nested_query", "step:drop_empty",
    "step:augment_again", "detect:yes", "detect:no", "detect:boundary", "threshold:zero", "threshold:high", "time_rel", "time_rel:missing_t0", "time_rel:no_column", "time_rel:zero", "single", "single:index", "single:no_mjd", "functions", "functions:scalar_list", "inverse", "refused", "empty_table", "unchanged", "drop_empty:none", "drop_empty:all",
]
ASSUMPTIONS = ["A missing magnitude, error or signal-to-noise may read as null, NaN or masked."]


def good(f, e):
    return not (f is None or e is None or math.isnan(f) or math.isnan(e)) and f > 0 and e > 0


def expect(lc, t0, thr):
    """Expected extra columns of one object's observations."""
    out = {"snr": [], "detection": [], "mag": [], "magerr": []}
    for f, e in zip(lc["flux"], lc["fluxerr"]):
        if good(f, e):
            s = f / e
            out["snr"].append(s)
            out["detection"].append(s >= thr)
            out["mag"].append(31.4 - 2.5 * math.log10(f))
            out["magerr"].append(1.0857362047581294 * e / f)
        else:
            out["snr"].append(None)
            out["detection"].append(False)
            out["mag"].append(None)
            out["magerr"].append(None)
    if t0 is not None:
        out["time_rel"] = [m - t0 for m in lc["mjd"]]
    return out


def missing(x):
    return x is np.ma.masked or null(x) or (isinstance(x, float) and math.isnan(x))


def compare(c, got, want, name):
    for col, vals in want.items():
        c.ok(col in got, "column", f"{name}: column {col} present", have=list(got))
        g = got[col]
        c.equal(len(g), len(vals), "length", f"{name}: {col}")
        for i, (a, b) in enumerate(zip(g, vals)):
            if col == "detection":
                c.ok(not missing(a) and bool(a) == b, "detection", f"{name} observation {i}: flag {a} instead of {b}")
                c.seen("detect", "yes" if b else "no")
            elif b is None:
                c.ok(missing(a), "missing", f"{name} observation {i}: {col} is {a}, should be missing")
            else:
                c.ok(not missing(a) and abs(float(a) - b) <= 1e-12 * abs(b) + 1e-11 * (col != "snr"), "value", f"{name} observation {i}: {col} is {a} instead of {b}")


def snap(res):
    """All base values and light curves as plain lists (positional)."""
    base = {col: res[col].tolist() for col in res.columns if col != "lightcurve"}
    return base, [light_curve(res, i) for i in range(len(res))], list(res.index)


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple, np.ndarray)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if missing(a) or missing(b):
        return missing(a) and missing(b)
    return a == b


def build(c):
    """A hand-made result table."""
    rng = c.rng
    n = int(rng.integers(1, 9))
    integer = rng.uniform() < 0.15
    idx, rows = [], {"mjd": [], "filter": [], "flux": [], "fluxerr": [], "obs": []}
    labels = list(range(n))
    k = 0
    for i in labels:
        m = int(rng.choice([0, 1, 2, 6]))
        for _ in range(m):
            idx.append(i)
            rows["mjd"].append(60000.0 + float(np.round(rng.uniform(0, 30), 6)))
            rows["filter"].append(str(rng.choice(list("gri"))))
            f = float(rng.choice([rng.normal(50, 40), rng.uniform(1, 1e6), 0.0, -3.0, np.nan, 1e-12, 40.0]))
            e = float(rng.choice([rng.uniform(0.1, 30), rng.uniform(0.1, 30), 8.0, 0.0, -1.0, np.nan]))
            if integer:
                f, e = int(rng.integers(-5, 100)), int(rng.integers(0, 10))
            rows["flux"].append(f)
            rows["fluxerr"].append(e)
            rows["obs"].append(k)
            k += 1
    if k == 0:
        return None
    base = {"id": labels, "ra": rng.uniform(0, 360, n), "nobs": [idx.count(i) for i in labels]}
    style = rng.uniform()
    if style < 0.6:
        base["t0"] = np.where(rng.uniform(size=n) < 0.2, 0.0, rng.uniform(59990, 60010, n))
    elif style < 0.75:
        t = rng.uniform(59990, 60010, n)
        t[int(rng.integers(n))] = np.nan
        base["t0"] = t
    elif style < 0.85:
        base["t0"] = [None] * n
    if integer:
        c.seen("flux", "integer")
    res = NestedFrame(data=base, index=labels)
    return res.add_nested(pd.DataFrame(rows, index=idx), "lightcurve")


def simulated(c):
    rng = c.rng
    S = int(rng.integers(1, 7))
    su = Setup(rng, S, rows=None)
    src = sources.sed_source(rng, S, position=su.position())
    return su.run(src.model)


def history(c, res):
    """A random sequence of table operations, mirrored on the plain record."""
    rng = c.rng
    for _ in range(int(rng.integers(0, 5))):
        if len(res) == 0:
            break
        op = str(rng.choice(["filter", "slice", "permute", "relabel", "duplicate_labels", "string_labels", "concat", "nested_query", "drop_empty", "augment"]))
        base, lcs, idx = snap(res)
        n = len(res)
        if op == "filter":
            keep = rng.uniform(size=n) < 0.7
            res = res[keep]
            pos = np.flatnonzero(keep)
        elif op == "slice":
            a, b = sorted(rng.integers(0, n + 1, 2))
            step = int(rng.choice([1, 1, 2]))
            res = res.iloc[a:b:step]
            pos = np.arange(n)[a:b:step]
        elif op == "permute":
            pos = rng.permutation(n)
            res = res.iloc[pos]
        elif op == "relabel":
            res = res.reset_index(drop=True) if rng.uniform() < 0.5 else res.set_axis(rng.permutation(1000)[:n], axis=0)
            pos = np.arange(n)
        elif op == "duplicate_labels":
            res = res.set_axis(rng.integers(0, 2, n), axis=0)
            pos = np.arange(n)
        elif op == "string_labels":
            res = res.set_axis([f"obj{q}" for q in rng.permutation(n)], axis=0)
            pos = np.arange(n)
        elif op == "concat":
            res = pd.concat([res, res.iloc[: max(1, n // 2)]])
            pos = np.concatenate([np.arange(n), np.arange(max(1, n // 2))])
            if not isinstance(res, NestedFrame):
                res = NestedFrame(res)
        elif op == "nested_query":
            if len(set(idx)) < n or any(len(l["flux"]) == 0 for l in lcs):
                continue  # the library's own nested queries are not under test here
            cut = float(rng.choice([0.0, 20.0]))
            res = res.query(f"lightcurve.flux > {cut}")
            lcs = [{k: [v for v, f in zip(l[k], l["flux"]) if not missing(f) and f > cut] for k in l} for l in lcs]
            pos = np.arange(n)
            if len(res) != n:
                continue
        elif op == "drop_empty":
            full = [i for i in range(n) if len(lcs[i]["flux"]) > 0]
            res = results_drop_empty(res)
            pos = np.array(full, int)
            c.seen("drop_empty", "none" if len(full) == n else "all" if not full else "some")
        else:
            results_augment_lightcurves(res, min_snr=float(rng.uniform(0, 9)))
            c.seen("step", "augment_again")
            continue
        c.seen("step", op)
        b2, l2, idx2 = snap(res)
        if op == "drop_empty":
            c.ok(list(idx2) == [idx[i] for i in pos], "history_labels", f"dropping keeps the labels of the objects left: {list(idx2)[:6]}")
        c.ok(len(res) == len(pos), "history", f"{op}: {len(res)} rows, expected {len(pos)}")
        c.ok(same(b2, {k: [v[i] for i in pos] for k, v in base.items()}), "history_base", f"{op} keeps the object columns")
        c.ok(all(same({k: x.get(k, []) for k in ("mjd", "flux", "fluxerr")}, {k: lcs[i].get(k, []) for k in ("mjd", "flux", "fluxerr")}) for x, i in zip(l2, pos)), "history_curves", f"{op} keeps each object's own observations")
    return res


def tables(c):
    """Result tables under any history."""
    rng = c.rng
    real = rng.uniform() < 0.3
    res = simulated(c) if real else build(c)
    if res is None:
        return
    c.seen("table", "simulated" if real else "built")
    res = history(c, res)
    if len(res) == 0:
        c.seen("empty_table")
    res = res.copy() if rng.uniform() < 0.5 else res
    style = rng.uniform()
    thr = 0.0 if style < 0.2 else 5.0 if style < 0.5 else float(rng.choice([1e3, rng.uniform(0, 20)]))
    c.seen("threshold", "zero" if thr == 0 else "high" if thr >= 1e3 else "some")
    base, lcs, idx = snap(res)
    extra = ("snr", "detection", "mag", "magerr", "time_rel")
    if rng.uniform() < 0.1 and thr == 0.0:
        out = results_augment_lightcurves(res)
    else:
        out = results_augment_lightcurves(res, min_snr=thr)
    res = res if out is None else out
    b2, l2, i2 = snap(res)
    c.ok(same(b2, base), "unchanged", "object columns are unchanged", before=str(base)[:300], after=str(b2)[:300])
    c.equal([str(x) for x in i2], [str(x) for x in idx], "unchanged", "row labels are unchanged")
    c.seen("unchanged")
    has_t0 = "t0" in base and all(not missing(t) for t in base["t0"])
    total = 0
    for i, lc in enumerate(lcs):
        got = l2[i]
        total += len(lc["flux"])
        if not lc["flux"]:
            c.seen("object", "unobserved")
        for k in lc:
            if k not in extra:
                c.ok(same(got[k], lc[k]), "unchanged", f"object {i}: {k} is unchanged", before=str(lc[k])[:200], after=str(got[k])[:200])
        t0 = float(base["t0"][i]) if has_t0 else None
        compare(c, got, expect(lc, t0, thr), f"object {i}")
        if has_t0 and lc["flux"]:
            c.seen("time_rel", "zero" if t0 == 0 else "")
            c.seen("time_rel")
        if not has_t0:
            c.ok("time_rel" not in got or "time_rel" in lc, "no_time_rel", "no relative time without reference times")
            c.seen("time_rel", "missing_t0" if "t0" in base else "no_column")
        for f, e in zip(lc["flux"], lc["fluxerr"]):
            if missing(f) or missing(e):
                c.seen("flux", "nan") if missing(f) else c.seen("err", "nan")
                continue
            if f == 0:
                c.seen("flux", "zero")
            if f < 0:
                c.seen("flux", "negative")
            if e == 0:
                c.seen("err", "zero")
            if e > 0 and f / e == thr:
                c.seen("detect", "boundary")
    if total:
        c.nontrivial(str(lcs)[:400], str(idx), thr)


def single(c):
    """One light curve as a plain table."""
    rng = c.rng
    n = int(rng.integers(1, 12))
    df = pd.DataFrame({
        "mjd": 60000 + rng.uniform(0, 9, n), "flux": rng.choice([rng.normal(20, 30), 0.0, -2.0, 40.0, np.nan, 7.5], n), "fluxerr": rng.choice([8.0, 1.5, 0.0, np.nan, 3.0], n), "band": rng.choice(list("gr"), n)})
    if rng.uniform() < 0.4:
        df.index = rng.integers(0, 3, n) if rng.uniform() < 0.5 else [f"r{i}" for i in rng.permutation(n)]
        c.seen("single", "index")
    if rng.uniform() < 0.2:
        df = df.drop(columns="mjd")
        c.seen("single", "no_mjd")
    t0 = [None, 0.0, 60003.5, float(rng.uniform(59990, 60010))][int(rng.integers(4))]
    thr = float(rng.choice([0.0, 5.0, rng.uniform(0, 9)]))
    before = df.copy(deep=True)
    lc = {k: df[k].tolist() for k in df.columns}
    augment_single_lightcurve(df, min_snr=thr, t0=t0)
    c.seen("single")
    c.nontrivial(str(lc), thr, t0)
    got = {k: df[k].tolist() for k in df.columns}
    compare(c, got, expect(lc, t0 if "mjd" in lc else None, thr), "light curve")
    for k in before.columns:
        c.ok(same(df[k].tolist(), before[k].tolist()), "unchanged", f"column {k} unchanged")
    if t0 is None or "mjd" not in lc:
        c.ok("time_rel" not in got, "no_time_rel", "no relative time without a reference")
    c.equal(list(df.index), list(before.index), "unchanged", "labels")
    if rng.uniform() < 0.2:
        c.raises(ValueError, lambda: augment_single_lightcurve(before.drop(columns="flux")), "refused", "no flux")
        c.raises(ValueError, lambda: results_augment_lightcurves(before), "refused", "not a result table")
        c.raises(ValueError, lambda: results_augment_lightcurves(NestedFrame({"id": [1, 2]})), "refused", "no light curves")
        nf = NestedFrame({"id": [1]}, index=[0]).add_nested(pd.DataFrame({"mjd": [1.0], "flux": [2.0]}, index=[0]), "lightcurve")
        c.raises(ValueError, lambda: results_augment_lightcurves(nf), "refused", "no uncertainties")
        c.seen("refused")


def functions(c):
    """The building blocks."""
    rng = c.rng
    n = int(rng.integers(1, 20))
    f = rng.choice([0.0, -1.0, 1e-30, 1e30, 12.5, np.nan] + list(rng.uniform(0.01, 1e5, 6)), n)
    e = rng.choice([0.0, -1.0, 2.5, np.nan] + list(rng.uniform(0.01, 100, 6)), n)
    arg = (f.tolist(), e.tolist()) if rng.uniform() < 0.4 else (pd.Series(f, index=rng.permutation(n)), pd.Series(e, index=rng.permutation(n))) if rng.uniform() < 0.4 else (f, e)
    if isinstance(arg[0], list):
        c.seen("functions", "scalar_list")
    want = expect({"flux": f.tolist(), "fluxerr": e.tolist()}, None, 0.0)
    mag, err = lightcurve_compute_mag(*arg)
    compare(c, {"snr": list(lightcurve_compute_snr(*arg)), "mag": list(mag), "magerr": list(err)}, {k: want[k] for k in ("snr", "mag", "magerr")}, "arrays")
    c.seen("functions")
    c.nontrivial(*f, *e)
    x = 10 ** rng.uniform(-8, 8, 10)
    c.close(mag2flux(flux2mag(x)), x, "inverse", 1e-12, 0, "flux to magnitude and back")
    m = rng.uniform(-5, 40, 10)
    c.close(flux2mag(mag2flux(m)), m, "inverse", 1e-12, 1e-12, "magnitude to flux and back")
    c.close(mag2flux(m), 10 ** (-0.4 * (m - 31.4)), "definition", 1e-12, 0, "AB definition")
    c.seen("inverse")


QUICK_SCALE = 7
SCENARIOS = [
    Scenario(tables, quick=400, thorough=9000),
    Scenario(single, quick=200, thorough=5000),
    Scenario(functions, quick=150, thorough=4000),
]
