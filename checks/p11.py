"""P11 - observation tables against a plain-column shadow under random edit/query histories."""

import copy

import numpy as np

from lclmon import gen, surveys
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint
from lightcurvelynx.obstable.obs_table import ObsTable

RULE = (
    "Random histories (8-30 steps) of filterings, column additions and overwrites (accepted and refused), radius and "
    "footprint changes, searches, look-ups, noise queries and column accesses on each table class, mirrored on plain "
    "arrays; every answer is compared with the mirror. A case is non-trivial when it has at least one successful "
    "filtering followed by a row-addressed query; distinct by operation sequence and table."
)
REQUIRED = [
    "op:mask", "op:index_list", "op:bad_mask", "op:bad_index", "op:add", "op:add_existing", "op:overwrite",
    "op:overwrite_position", "op:overwrite_filter", "op:overwrite_time", "op:overwrite_conditions", "op:add_bad_length", "op:radius", "op:caller", "op:bad_radius", "op:clear_footprint", "op:search",
    "op:observations", "op:noise", "op:column", "op:time_bounds", "op:missing_column", "op:search_footprint",
    "class:ObsTable", "class:OpSim", "class:FakeObsTable", "class:ZTFObsTable", "colmap:custom", "after_filter",
    "empty_table", "empty:list", "empty:array", "empty:mask", "filter_found:some", "filter_found:none", "bad_colmap",
    "survey_values", "no_filters",
]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" or b.dtype.kind == "f":
        return bool(np.array_equal(a.astype(float), b.astype(float), equal_nan=True))
    return bool(np.all(a == b))


def history(c):
    rng = c.rng
    kind = ["ObsTable", "OpSim", "FakeObsTable", "ZTFObsTable"][int(rng.integers(0, 4))]
    n = int(rng.choice([1, 2, 6, 25, 120]))
    custom = bool(rng.uniform() < 0.3)
    s = surveys.make(rng, kind, n, radius=float(rng.uniform(0.5, 8)), colmap_custom=custom)
    c.seen("class", kind)
    if custom:
        c.seen("colmap", "custom")
    t = s.table
    radius = s.ctor["radius"]
    foot = None
    has_rot = False
    if rng.uniform() < 0.3:
        half = radius * 0.6
        fp = DetectorFootprint.from_rect(2 * half, 2 * half, pixel_scale=half / 100)
        t = type(t)(s.source, detector_footprint=fp, **s.ctor)
        foot = half
    added = {}
    filtered = False
    ops = []
    c.fact(kind=kind, n=n, custom=custom, footprint=foot is not None)
    # every column the class derives for itself follows the rows as well
    derived = {col: np.array(t[col]) for col in t.columns if col not in s.cols}
    for col in s.cols:
        c.ok(same(t[col], s.cols[col]), "constructed", f"column {col} changed at construction")

    def rows_ok(tag):
        m = len(s.cols["ra"])
        c.equal(len(t), m, tag + "_len")
        for src in (s.cols, added, derived):
            for col, v in src.items():
                c.ok(same(t[col], v), tag, f"column {col} differs after {ops[-6:]}", got=np.asarray(t[col])[:6], want=v[:6])

    def std(col):
        return col if col in t.columns else s.native.get(col, col)

    def reference_rows(qra, qdec, r, tmin, tmax):
        sep = gen.separation(qra, qdec, s.cols["ra"], s.cols["dec"])
        okt = np.ones(len(sep), bool)
        if tmin is not None:
            okt &= s.cols["time"] >= tmin
        if tmax is not None:
            okt &= s.cols["time"] <= tmax
        must, may = okt & (sep < r - 1e-9), okt & (sep < r + 1e-9)
        if foot is not None:
            pa = np.radians(gen.position_angle(s.cols["ra"], s.cols["dec"], qra, qdec))
            rad = np.where(sep < 89.9, np.degrees(np.tan(np.radians(np.minimum(sep, 89.9)))), np.inf)
            with np.errstate(all="ignore"):
                marg = foot - np.maximum(np.abs(rad * np.sin(pa)), np.abs(rad * np.cos(pa)))
            marg = np.where(np.isfinite(marg), marg, -np.inf)
            must &= marg > 1e-6 * foot
            may &= marg > -1e-6 * foot
        return must, may

    def query():
        m = len(s.cols["ra"])
        if m and rng.uniform() < 0.8:
            i = int(rng.integers(0, m))
            a, b = gen.destination(s.cols["ra"][i], s.cols["dec"][i], rng.uniform(0, 360), rng.uniform(0, radius))
            a, b = float(a), float(b)
        else:
            a, b = (float(v[0]) for v in gen.sky_points(rng, 1))
        r = None if rng.uniform() < 0.6 else float(rng.uniform(0.3, 20))
        tmin = float(rng.choice(s.cols["time"])) if m and rng.uniform() < 0.3 else None
        tmax = float(rng.choice(s.cols["time"])) if m and rng.uniform() < 0.3 else None
        return a, b, r, tmin, tmax

    names = ["mask", "index_list", "add", "overwrite", "search", "observations", "noise", "column", "radius",
             "time_bounds", "bad_mask", "bad_index", "add_existing", "add_bad_length", "bad_radius",
             "missing_column", "clear_footprint", "overwrite_position", "empty", "found", "caller", "overwrite_filter", "overwrite_time", "overwrite_conditions"]
    weights = np.array([3, 3, 3, 2, 6, 4, 4, 3, 1.5, 1.5, 1, 1, 1, 1, 1, 1, 0.7, 1, 0.15, 0.3, 0.6, 0.6, 0.8, 0.8])
    edited = False
    weights = weights / weights.sum()
    for step in range(int(rng.integers(8, 30))):
        op = str(rng.choice(names, p=weights))
        m = len(s.cols["ra"])
        ops.append(op)
        keep = None
        if op in ("mask", "index_list", "empty", "found") and m:
            if op == "empty":
                keep = np.zeros(m, bool)
                how = int(rng.integers(0, 3))
                t2 = t.filter_rows([keep, [], np.zeros(0, dtype=int)][how])
                c.seen("empty_table")
                c.seen("empty", ("mask", "list", "array")[how])
            elif op == "found":
                # Keep what a cone search returned (sometimes nothing at all).
                a, b, r, tmin, tmax = query()
                if r is None:
                    r = radius
                hit = t.range_search(a, b, radius=r * float(rng.choice([1.0, 3.0])), t_min=tmin, t_max=tmax)
                if len(hit) == 0 and rng.uniform() < 0.8:
                    continue
                keep = np.zeros(m, bool)
                keep[np.asarray(hit, dtype=int)] = True
                t2 = t.filter_rows(hit)
                c.seen("filter_found", "some" if keep.any() else "none")
            elif op == "mask":
                keep = rng.uniform(size=m) < rng.uniform(0.5, 1.0)
                keep[int(rng.integers(0, m))] = True
                t2 = t.filter_rows(keep if rng.uniform() < 0.5 else list(keep))
            else:
                k = int(rng.integers(1, m + 1))
                idx = rng.integers(0, m, k)
                keep = np.zeros(m, bool)
                keep[idx] = True
                t2 = t.filter_rows(idx if rng.uniform() < 0.5 else [int(v) for v in idx])
            c.ok(t2 is t, "filter_returns_self", "filter_rows must return the filtered table")
            for src in (s.cols, added, derived):
                for col in src:
                    src[col] = np.asarray(src[col])[keep]
            filtered = True
            rows_ok("filter")
            if "filter" in s.cols:
                c.equal(sorted(t.filters), sorted(set(s.cols["filter"])), "filters")
        elif op == "bad_mask":
            bad = np.ones(m + int(rng.integers(1, 4)), bool)
            c.raises(ValueError, lambda: t.filter_rows(bad), "bad_mask")
            rows_ok("bad_mask_unchanged")
        elif op == "bad_index":
            c.raises(IndexError, lambda: t.filter_rows([m + int(rng.integers(0, 5))]), "bad_index")
            rows_ok("bad_index_unchanged")
        elif op == "add":
            name = f"new{step}"
            w = int(rng.integers(0, 4))
            if w == 0:
                val, want = 3.5, np.full(m, 3.5)
            elif w == 1:
                val = rng.normal(size=m)
                want = val.copy()
            elif w == 2:
                want = rng.integers(0, 9, m)
                val = [int(v) for v in want]
            else:
                val, want = "txt", np.full(m, "txt", dtype=object)
            t.add_column(name, val)
            added[name] = want
            c.ok(name in t and name in t.columns, "added_visible", "added column is not visible")
            rows_ok("add")
        elif op == "add_existing":
            name = str(rng.choice(list(s.cols)))
            c.raises(KeyError, lambda: t.add_column(name, np.zeros(m)), "add_existing")
            rows_ok("add_existing_unchanged")
        elif op == "add_bad_length" and m:
            c.raises(ValueError, lambda: t.add_column("bad", np.zeros(m + 2)), "add_bad_length")
            c.ok("bad" not in t, "bad_column_absent", "a refused column must not appear")
            rows_ok("bad_length_unchanged")
        elif op == "overwrite" and added:
            name = str(rng.choice(list(added)))
            want = rng.normal(size=m)
            t.add_column(name, want.copy(), overwrite=True)
            added[name] = want
            rows_ok("overwrite")
        elif op == "overwrite_filter" and m and kind == "ObsTable":
            # The same filters dealt out again, some new, or one for all.
            pool = sorted(set(s.cols["filter"])) + ["fresh"] * int(rng.integers(0, 2))
            if rng.uniform() < 0.3:
                val = str(rng.choice(pool))
                want = np.full(m, val, dtype=object)
            else:
                val = np.array([str(v) for v in rng.choice(pool, m)], dtype=object)
                want = val.copy()
            t.add_column(s.native.get("filter", "filter") if "filter" not in t.columns else "filter", val, overwrite=True)
            s.cols["filter"] = want
            rows_ok("overwrite_filter")
            c.equal(sorted(t.filters), sorted(set(want)), "filters", "after overwriting the filter column")
        elif op == "overwrite_position" and m:
            ra, dec = gen.sky_points(rng, m)
            t.add_column("ra", ra.copy(), overwrite=True)
            t.add_column("dec", dec.copy(), overwrite=True)
            s.cols["ra"], s.cols["dec"] = ra, dec
            rows_ok("overwrite_position")
        elif op == "overwrite_time" and m:
            # Before and after: what was looked up earlier does not stay.
            c.equal(tuple(t.time_bounds()), (s.cols["time"].min(), s.cols["time"].max()), "time_bounds")
            want = s.cols["time"][rng.permutation(m)] + float(rng.choice([0.0, rng.uniform(-50, 50)])) if rng.uniform() < 0.5 else 60000 + rng.uniform(-500, 500, m)
            t.add_column(std("time"), want.copy(), overwrite=True)
            s.cols["time"] = want
            rows_ok("overwrite_time")
            c.equal(tuple(t.time_bounds()), (want.min(), want.max()), "time_bounds", "after overwriting the times")
        elif op == "overwrite_conditions" and m and kind in ("OpSim", "ZTFObsTable"):
            col = str(rng.choice(["seeing", "skybrightness"] if kind == "OpSim" else ["sky", "fwhm"]))
            want = s.cols[col][rng.permutation(m)] * float(rng.uniform(0.97, 1.03))
            t.add_column(std(col), want.copy(), overwrite=True)
            s.cols[col] = want
            rows_ok("overwrite_conditions")
            k = int(rng.integers(1, 6))
            idx = rng.integers(0, m, k)
            flux = rng.uniform(0, 1e4, k)
            want = s._noise(flux, {**s.cols, **{k2: v for k2, v in derived.items() if k2 == "zp"}}, idx, s.settings)
            c.close(np.asarray(t.bandflux_error_point_source(flux, idx), float), want, "noise", rtol=2e-4, msg=f"after overwriting {col}")
        elif op == "radius":
            radius = float(rng.uniform(0.2, 30))
            t.radius = radius
            c.equal(t.radius, radius, "radius")
        elif op == "bad_radius":
            c.raises(ValueError, lambda: setattr(t, "radius", float(rng.choice([0.0, -1.0]))), "bad_radius")
            c.equal(t.radius, radius, "radius_unchanged")
        elif op == "clear_footprint":
            t.clear_detector_footprint()
            foot = None
        elif op == "time_bounds" and m:
            c.equal(tuple(t.time_bounds()), (s.cols["time"].min(), s.cols["time"].max()), "time_bounds")
        elif op == "missing_column":
            c.ok("nope" not in t, "missing_column_in", "a missing column is reported present")
            c.raises(KeyError, lambda: t["nope"], "missing_column")
        elif op == "column":
            name = str(rng.choice(list(s.cols)))
            nat = s.native.get(name, name)
            c.ok(name in t and nat in t, "column_names", f"{name}/{nat} must both be known")
            c.ok(same(t[name], s.cols[name]), "column_std", name)
            c.ok(same(t[nat], s.cols[name]), "column_native", nat)
        elif op in ("search", "observations"):
            a, b, r, tmin, tmax = query()
            must, may = reference_rows(a, b, radius if r is None else r, tmin, tmax)
            got = t.range_search(a, b, radius=r, t_min=tmin, t_max=tmax)
            gs = set(int(v) for v in got)
            miss = [int(i) for i in np.flatnonzero(must) if int(i) not in gs]
            extra = [i for i in gs if not (i < len(may) and may[i])]
            c.ok(not miss and not extra, "search", f"wrong rows after {ops[-8:]}", missing=miss[:8], extra=extra[:8])
            if foot is not None:
                c.seen("op", "search_footprint")
            if op == "observations":
                pool = list(s.cols) + list(added) + [s.native.get(k, k) for k in s.cols]
                ask = [str(v) for v in rng.choice(pool, min(4, len(pool)), replace=False)]
                obs = t.get_observations(a, b, radius=r, t_min=tmin, t_max=tmax, cols=ask)
                back = {v: k for k, v in s.native.items()}
                gi = np.asarray(got, dtype=int)
                for col in ask:
                    src = added[col] if col in added else s.cols[back.get(col, col)]
                    c.ok(same(obs[col], np.asarray(src)[gi]), "observations", f"{col} after {ops[-8:]}", got=obs[col])
                for col in set(ask):
                    # An answer is the caller's own.
                    if len(gi) and isinstance(obs[col], np.ndarray) and obs[col].flags.writeable:
                        obs[col][:] = obs[col][::-1].copy() if obs[col].dtype.kind not in "fi" else 77
                rows_ok("answer_edit")
                every = t.get_observations(a, b, radius=r, t_min=tmin, t_max=tmax)
                c.ok(set(every) == set(t.columns), "observations_all", "all columns expected", got=list(every))
                for col in added:
                    c.ok(same(every[col], np.asarray(added[col])[gi]), "observations_all_values", col)
            if filtered:
                c.seen("after_filter")
        elif op == "caller" and not edited:
            # The caller goes on working with the data the table was made from.
            c.ok(s.source_untouched(), "source_untouched", f"the caller's table was modified by {ops}")
            edited = True
            for col in list(s.source):
                old = np.asarray(s.source[col])
                new = old[::-1] if old.dtype.kind not in "f" else old * 0.5 + 1.25
                if isinstance(s.source, dict):
                    s.source[col][:] = new
                else:
                    s.source.loc[:, col] = new
            rows_ok("caller_edit")
        elif op == "noise" and m and kind != "ObsTable":
            k = int(rng.integers(1, 6))
            idx = rng.integers(0, m, k)
            flux = rng.uniform(0, 1e4, k)
            cols = {**s.cols, **{k2: v for k2, v in derived.items() if k2 == "zp"}}
            want = s._noise(flux, cols, idx, s.settings)
            got = np.asarray(t.bandflux_error_point_source(flux, idx), float)
            c.close(got, want, "noise", rtol=2e-4, msg=f"after {ops[-8:]}")
            if filtered:
                c.seen("after_filter")
        else:
            continue
        c.seen("op", op)
    c.ok(edited or s.source_untouched(), "source_untouched", f"the caller's table was modified by {ops}")
    if filtered:
        c.nontrivial(kind, n, tuple(ops), round(radius, 6))


def isolation(c):
    """Two tables of one class never share settings; the class defaults never change."""
    rng = c.rng
    kind = ["OpSim", "FakeObsTable", "ZTFObsTable", "ObsTable"][int(rng.integers(0, 4))]
    a = surveys.make(rng, kind, 6)
    cls = type(a.table)
    before = copy.deepcopy(cls._default_survey_values)
    b = cls(a.source, **a.ctor)
    a.table.radius = 17.0
    a.table.survey_values["extra"] = 4
    a.table.filter_rows([0, 1])
    a.table.add_column("only_a", 1.0)
    c.equal(len(b), 6, "isolated_rows")
    c.ok("only_a" not in b and "extra" not in b.survey_values, "isolated_columns", "tables share state")
    c.equal(b.radius, a.ctor["radius"], "isolated_radius")
    c.equal(before, cls._default_survey_values, "class_defaults")
    for k, v in a.ctor.items():
        if k in b.survey_values:
            c.equal(b.safe_get_survey_value(k) if v is not None else v, v, "survey_value")
    c.raises(ValueError, lambda: b.safe_get_survey_value("never_defined"), "undefined_survey_value")
    c.seen("survey_values")
    cols = dict(a.cols)
    # A plain table need not know filters at all.
    bare = ObsTable({k: cols[k] for k in ("ra", "dec", "time")}, radius=3.0)
    keep = [int(i) for i in np.sort(rng.choice(6, 3, replace=False))]
    c.ok(len(bare.filters) == 0 and len(bare) == 6, "no_filters")
    bare.filter_rows(keep)
    c.ok(len(bare.filters) == 0 and same(bare["time"], np.asarray(cols["time"])[keep]), "no_filters", "rows of a table without filters")
    bare.add_column("filter", ["g", "r", "g"])
    c.equal([str(f) for f in bare.filters], ["g", "r"], "no_filters", "filters given later")
    c.seen("no_filters")
    # metadata in the table gives settings; explicit arguments win
    import pandas as pd

    df = pd.DataFrame({k: v for k, v in cols.items()})
    df.attrs["lightcurvelynx_survey_data"] = {"radius": 3.25, "custom": 5}
    t = ObsTable(df)
    c.equal((t.radius, t.survey_values["custom"]), (3.25, 5), "metadata")
    t = ObsTable(df, radius=9.0)
    c.equal((t.radius, t.survey_values["custom"]), (9.0, 5), "metadata_override")
    c.raises(ValueError, lambda: ObsTable(df, colmap={"time": "ra"}), "bad_colmap")
    c.raises(KeyError, lambda: ObsTable(df.drop(columns=["time"])), "missing_required")
    c.seen("bad_colmap")
    c.nontrivial(kind, len(df.columns), float(a.cols["ra"][0]))


QUICK_SCALE = 8
SCENARIOS = [Scenario(history, quick=500, thorough=10000), Scenario(isolation, quick=40, thorough=400)]
