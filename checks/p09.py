"""P09 - sky searches against a brute-force spherical-distance and time-window reference."""

import numpy as np
import pandas as pd

from lclmon import gen
from lclmon.core import Scenario
from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
from lightcurvelynx.obstable.obs_table import ObsTable
from lightcurvelynx.obstable.opsim import OpSim
from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

RULE = (
    "Random survey tables (1-600 rows in clusters, near poles and the RA wrap, arbitrary row labels, four table "
    "classes) searched from points placed just inside, just outside and far from every radius, with every form of "
    "time bound; every answer is compared with a brute-force great-circle/time reference. A case is non-trivial "
    "when the reference selects at least one row and rejects at least one; distinct by (rows, radius, selected set)."
)
REQUIRED = [
    "hit", "miss", "edge:inside", "edge:outside", "time:equal_min", "time:equal_max", "region:pole", "region:wrap",
    "form:scalar", "form:batch", "bounds:scalar_batch", "bounds:array", "bounds:min_only", "bounds:max_only",
    "class:ObsTable", "class:OpSim", "class:FakeObsTable", "class:ZTFObsTable", "radius:default", "radius:given", "radius:zero",
    "empty_answer", "rejected",
]
ASSUMPTIONS = ["Rows within 1e-10 deg (1e-5 deg for radii above 170 deg) of the exact border may go either way."]


def make_table(c, cols, radius):
    n = len(cols["ra"])
    kind = ["ObsTable", "OpSim", "FakeObsTable", "ZTFObsTable"][int(c.rng.integers(0, 4))]
    df = pd.DataFrame(cols, index=gen.weird_index(c.rng, n))
    kw = {} if radius is None else {"radius": radius}
    if kind == "ObsTable":
        t = ObsTable(df, **kw)
    elif kind == "OpSim":
        df = df.rename(columns={"ra": "fieldRA", "dec": "fieldDec", "time": "observationStartMJD"})
        df["zp_nJy"] = 1.0
        t = OpSim(df, **kw)
    elif kind == "ZTFObsTable":
        df = df.rename(columns={"time": "obsmjd"})
        df["zp_nJy"] = 1.0
        t = ZTFObsTable(df, **kw)
    else:
        t = FakeObsTable(df, zp_per_band={f: 1.0 for f in gen.FILTERS}, const_flux_error=1.0, **kw)
    c.seen("class", kind)
    return kind, t


def reference(cols, qra, qdec, radius, tmin, tmax):
    sep = gen.separation(qra, qdec, cols["ra"], cols["dec"])
    tol = 1e-10 if radius < 170 else 1e-5
    t_ok = np.ones(len(sep), bool)
    if tmin is not None:
        t_ok &= cols["time"] >= tmin
    if tmax is not None:
        t_ok &= cols["time"] <= tmax
    must = t_ok & (sep <= radius - tol)
    may = t_ok & (sep <= radius + tol)
    return must, may


def judge(c, got, must, may, tag, **data):
    got = np.asarray(got)
    c.ok(got.ndim == 1, tag + "_shape", "row numbers must be one-dimensional", got=got)
    if got.size and not np.issubdtype(got.dtype, np.integer):
        c.fail(tag + "_dtype", "row numbers must be integers", got=got)
        return
    gs = set(int(v) for v in got)
    c.ok(len(gs) == got.size, tag + "_dup", "a row was returned twice", got=got)
    missing = [int(i) for i in np.flatnonzero(must) if int(i) not in gs]
    extra = [i for i in gs if not (0 <= i < len(may) and may[i])]
    c.ok(not missing, tag + "_missing", "rows in range were not returned", missing=missing[:10], **data)
    c.ok(not extra, tag + "_extra", "rows out of range were returned", extra=extra[:10], **data)
    c.seen("hit" if gs else "empty_answer")
    c.seen("miss", n=int((~may).sum()))


def pick_queries(c, cols, cra, cdec, radius, k):
    """Query points: on pointings, at cluster centres, just inside/outside the radius, anywhere."""
    rng = c.rng
    ra, dec = [], []
    n = len(cols["ra"])
    for _ in range(k):
        w = int(rng.integers(0, 6))
        i = int(rng.integers(0, n))
        if w == 0:
            ra.append(float(cols["ra"][i])), dec.append(float(cols["dec"][i]))
        elif w == 1:
            j = int(rng.integers(0, len(cra)))
            ra.append(float(cra[j])), dec.append(float(cdec[j]))
        elif w in (2, 3) and radius < 179:
            inside = rng.uniform() < 0.5
            eps = 10.0 ** rng.uniform(-8 if radius < 170 else -4, -2)
            d = radius * (1 - eps if inside else 1 + eps)
            a, b = gen.destination(cols["ra"][i], cols["dec"][i], rng.uniform(0, 360), min(d, 180.0))
            ra.append(float(a)), dec.append(float(b))
            c.seen("edge", "inside" if inside else "outside")
        else:
            a, b = gen.sky_points(rng, 1)
            ra.append(float(a[0])), dec.append(float(b[0]))
    ra, dec = np.array(ra), np.array(dec)
    if rng.uniform() < 0.2:
        ra = np.where(rng.uniform(size=k) < 0.5, ra - 360.0, ra)
    c.seen("region", "pole", int(np.sum(np.abs(dec) > 89)))
    c.seen("region", "wrap", int(np.sum((ra % 360 < 0.01) | (ra % 360 > 359.99))))
    return ra, dec


def pick_bound(c, times, which):
    """None, a value equal to some row's time, or any value."""
    r = c.rng.uniform()
    if r < 0.25:
        return None
    if r < 0.7:
        c.seen("time", "equal_" + which)
        return float(c.rng.choice(times))
    return float(60000 + c.rng.uniform(-5, 65))


def search(c):
    rng = c.rng
    n = int(rng.choice([1, 2, 3, 8, 40, 150, 600 if c.thorough else 300]))
    scale = float(10.0 ** rng.uniform(-3, 1.3))
    cols, cra, cdec = gen.obs_columns(rng, n, scale)
    radius = float(rng.choice([scale, scale * 0.5, 10.0 ** rng.uniform(-4, 1.5), 1.75, 60.0, 90.0, 120.0, 180.0]))
    use_default = rng.uniform() < 0.5
    kind, table = make_table(c, cols, radius if use_default else (None if rng.uniform() < 0.5 else radius * 3))
    kw = {} if use_default else {"radius": radius}
    c.seen("radius", "default" if use_default else "given")
    if kind != "ObsTable" or use_default or "radius" in table.survey_values:
        # An explicit radius of zero is a radius (nothing farther than rounding is found).
        i = int(rng.integers(n))
        q = (float(cols["ra"][i]), float(cols["dec"][i])) if rng.uniform() < 0.7 else tuple(float(v[0]) for v in gen.sky_points(rng, 1))
        for zero in (0.0, 0):
            got0 = [int(v) for v in table.range_search(*q, radius=zero)]
            sep0 = gen.separation(q[0], q[1], cols["ra"], cols["dec"])
            c.ok(all(sep0[v] <= 1e-7 for v in got0), "zero_radius", "rows away from the position were returned", got=got0[:5])
        c.seen("radius", "zero")
    k = int(rng.choice([1, 2, 5, 20]))
    qra, qdec = pick_queries(c, cols, cra, cdec, radius, k)
    c.fact(n=n, radius=radius, kind=kind, k=k)

    # -- one at a time
    singles = []
    anyhit = anymiss = False
    for i in range(k):
        tmin, tmax = pick_bound(c, cols["time"], "min"), pick_bound(c, cols["time"], "max")
        if tmax is None and tmin is not None:
            c.seen("bounds", "min_only")
        if tmin is None and tmax is not None:
            c.seen("bounds", "max_only")
        must, may = reference(cols, qra[i], qdec[i], radius, tmin, tmax)
        anyhit |= must.any()
        anymiss |= (~may).any()
        got = table.range_search(float(qra[i]), float(qdec[i]), t_min=tmin, t_max=tmax, **kw)
        c.seen("form", "scalar")
        judge(c, got, must, may, "single", q=(qra[i], qdec[i]), tmin=tmin, tmax=tmax, radius=radius)
        seen = table.is_observed(float(qra[i]), float(qdec[i]), t_min=tmin, t_max=tmax, **kw)
        c.ok(bool(seen) == (len(got) > 0), "is_observed", "observed answer disagrees with the search", seen=seen)
        if i < 3:
            names = [None, "time", ["time", "ra", "filter"]][int(rng.integers(0, 3))]
            obs = table.get_observations(float(qra[i]), float(qdec[i]), t_min=tmin, t_max=tmax, cols=names, **kw)
            for col, vals in obs.items():
                want = table[col].to_numpy()[np.asarray(got, dtype=int)]
                raw = cols.get(col)
                c.equal(np.asarray(vals), want, "get_observations", f"column {col}")
                if raw is not None:
                    c.equal(np.asarray(vals), np.asarray(raw)[np.asarray(got, int)], "get_observations_raw", col)
            if isinstance(names, list):
                c.ok(set(obs) == set(names), "get_observations_cols", "wrong columns", got=list(obs))
        singles.append((tmin, tmax))

    # -- all at once; bounds once, per position, or absent
    form = int(rng.integers(0, 4))
    tmin = tmax = None
    if form == 1:
        tmin, tmax = pick_bound(c, cols["time"], "min"), pick_bound(c, cols["time"], "max")
        if k > 1:
            c.seen("bounds", "scalar_batch")
    elif form >= 2:
        tmin = np.array([-np.inf if s[0] is None else s[0] for s in singles])
        tmax = np.array([np.inf if s[1] is None else s[1] for s in singles])
        if form == 3:
            tmin, tmax = (list(tmin), None) if rng.uniform() < 0.5 else (None, list(tmax))
        c.seen("bounds", "array")
    batch = table.range_search(qra, qdec, t_min=tmin, t_max=tmax, **kw)
    c.seen("form", "batch")
    c.equal(len(batch), k, "batch_len")
    for i in range(min(k, len(batch))):
        a = None if tmin is None else (tmin if np.isscalar(tmin) else tmin[i])
        b = None if tmax is None else (tmax if np.isscalar(tmax) else tmax[i])
        must, may = reference(cols, qra[i], qdec[i], radius, a, b)
        judge(c, batch[i], must, may, "batch", q=(qra[i], qdec[i]), tmin=a, tmax=b, radius=radius)
    seen = table.is_observed(qra, qdec, t_min=tmin, t_max=tmax, **kw)
    c.equal([bool(s) for s in seen], [len(b) > 0 for b in batch], "is_observed_batch")
    if anyhit and anymiss:
        c.nontrivial(n, radius, tuple(len(b) for b in batch), round(float(qra[0]), 6))


def rejects(c):
    rng = c.rng
    cols, _, _ = gen.obs_columns(rng, int(rng.integers(2, 30)), 1.0)
    t = ObsTable(cols)
    c.raises(ValueError, lambda: t.range_search(1.0, 2.0), "no_radius")
    c.raises(ValueError, lambda: t.range_search(None, 2.0, radius=1.0), "none_ra")
    c.raises(ValueError, lambda: t.range_search(1.0, None, radius=1.0), "none_dec")
    c.raises(ValueError, lambda: t.range_search(np.array([1.0, 2.0]), np.array([2.0]), radius=1.0), "len_mismatch")
    c.raises(
        ValueError, lambda: t.range_search(np.array([1.0, None]), np.array([2.0, 3.0]), radius=1.0), "none_inside"
    )
    bad = np.arange(float(3))
    q = np.array([1.0, 2.0])
    c.raises(ValueError, lambda: t.range_search(q, q, radius=1.0, t_min=bad), "tmin_len")
    c.raises(ValueError, lambda: t.range_search(q, q, radius=1.0, t_max=bad), "tmax_len")
    c.raises(KeyError, lambda: t.get_observations(1.0, 2.0, radius=1.0, cols=["nope"]), "bad_col")
    c.seen("rejected")


QUICK_SCALE = 8
SCENARIOS = [Scenario(search, quick=500, thorough=8000), Scenario(rejects, quick=6, thorough=30)]
