"""P36 - derived and ingested survey tables against the visits they come from."""

import datetime

import numpy as np
import pandas as pd

from lclmon import gen, ref, roman
from lclmon.core import Scenario
from lightcurvelynx.obstable.opsim import OpSim, create_random_opsim, opsim_add_random_data, oversample_opsim
from lightcurvelynx.obstable.roman_obstable import RomanObsTable
from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable, create_random_ztf_obs_data

RULE = (
    "Random surveys oversampled at random pointings, steps, ranges, band lists and both strategies, every output row "
    "traced back to a visit of the source; random surveys of random sizes and seeds; ZTF exposure tables with missing "
    "seeing, date strings and arbitrary row labels; Roman plans against random characterisation tables. Non-trivial: "
    "at least two bands (oversampling) or at least one dropped visit (ingestion); distinct by inputs."
)
REQUIRED = [
    "oversample:darkest_sky", "oversample:random", "oversample:defaults", "length:multiple", "length:partial", "range:given", "range:default",
    "bands:given", "bands:default", "rejected", "random_opsim", "random_ztf", "ztf:dropped", "ztf:kept", "ztf:dates", "ztf:both",
    "roman", "darkest_is_not_first", "filtered_source", "noise",
]
ASSUMPTIONS = ["The number of oversampled times may differ by one when the range is a multiple of the step."]


def oversampled(c):
    rng = c.rng
    n = int(rng.choice([3, 12, 60, 250]))
    bands = gen.FILTERS[: int(rng.integers(1, 7))]
    p_ra, p_dec = (float(v[0]) for v in gen.sky_points(rng, 1))
    r = float(rng.uniform(0.3, 4))
    plain = rng.uniform() < 0.15  # the documented default pointing, radius, step and strategy
    if plain:
        p_ra, p_dec, r = 200.0, -50.0, 1.75
    ra, dec = gen.destination(p_ra, p_dec, rng.uniform(0, 360, n), r * rng.uniform(0, 2, n))
    cols = {
        "observationId": rng.permutation(n) + int(rng.integers(0, 1000)),
        "fieldRA": ra,
        "fieldDec": dec,
        "observationStartMJD": 60000 + rng.uniform(0, 100, n),
        "filter": rng.choice(bands, n),
        "airmass": rng.uniform(1, 2.5, n),
        "visitExposureTime": rng.uniform(10, 60, n),
        "seeingFwhmEff": rng.uniform(0.4, 2.0, n),
        "skyBrightness": np.round(rng.uniform(17, 23, n), int(rng.choice([0, 1, 12]))),
        "numExposures": rng.integers(1, 4, n),
        "marker": rng.permutation(n) * 1.5,
    }
    kw = {"read_noise": 5.0, "pixel_scale": 0.3} if rng.uniform() < 0.5 else {}
    t = OpSim(pd.DataFrame(cols, index=gen.weird_index(rng, n)), **kw)
    keep = np.ones(n, bool)
    if rng.uniform() < 0.4:
        keep = rng.uniform(size=n) < 0.7
        keep[0] = True
        t.filter_rows(keep)
        c.seen("filtered_source")
    sel = keep & (gen.separation(p_ra, p_dec, ra, dec) <= r)
    if not sel.any():
        c.raises(ValueError, lambda: oversample_opsim(t, pointing=(p_ra, p_dec), search_radius=r), "no_visits")
        c.seen("rejected")
        return
    here = sorted(set(cols["filter"][sel]))
    want_bands = None
    if rng.uniform() < 0.6:
        k = int(rng.integers(1, len(here) + 1))
        want_bands = [str(b) for b in rng.choice(here, k, replace=False)]
    c.seen("bands", "default" if want_bands is None else "given")
    use = here if want_bands is None else want_bands
    tsel = cols["observationStartMJD"][sel]
    lo = None if rng.uniform() < 0.4 else float(60000 + rng.uniform(-20, 50))
    hi = None if rng.uniform() < 0.4 else float((lo if lo is not None else tsel.min()) + rng.uniform(1, 60))
    if plain:
        hi = float((lo if lo is not None else tsel.min()) + rng.uniform(0.2, 0.7))
    c.seen("range", "default" if lo is None and hi is None else "given")
    a, b = (tsel.min() if lo is None else lo), (tsel.max() if hi is None else hi)
    strategy = ["darkest_sky", "random"][int(rng.integers(0, 2))]
    args = dict(pointing=(p_ra, p_dec), search_radius=r, time_range=(lo, hi), bands=want_bands, strategy=strategy)
    if a >= b:
        c.raises(ValueError, lambda: oversample_opsim(t, delta_t=0.1, **args), "empty_range")
        c.seen("rejected")
        return
    dt = float((b - a) / rng.uniform(max(2, len(use)), 80))
    given = dict(args, delta_t=dt)
    if plain:
        dt, args["strategy"] = 0.01, "darkest_sky"
        strategy = "darkest_sky"
        given = dict(time_range=(lo, hi), bands=want_bands)
        c.seen("oversample", "defaults")
    if int(np.ceil((b - a) / dt)) < len(use) + 1:
        c.raises(ValueError, lambda: oversample_opsim(t, delta_t=(b - a) * 2, **args), "few") if len(use) > 1 else None
        return
    c.fact(n=n, strategy=strategy, bands=use, dt=dt, span=b - a)
    o = oversample_opsim(t, **given)
    m = len(o)
    expect = int(np.ceil((b - a) / dt))
    c.ok(abs(m - expect) <= 1, "count", f"{m} observations, expected {expect}")
    c.seen("length", "multiple" if m % len(use) == 0 else "partial")
    c.close(np.asarray(o["time"], float), a + dt * np.arange(m), "times", rtol=0, atol=1e-6)
    c.ok(np.all(np.asarray(o["time"]) < b + 1e-6), "times_range", "observation after the end of the range")
    c.close(np.asarray(o["ra"], float), np.full(m, p_ra), "ra")
    c.close(np.asarray(o["dec"], float), np.full(m, p_dec), "dec")
    got_f = [str(f) for f in o["filter"]]
    c.equal(got_f, [use[i % len(use)] for i in range(m)], "band_cycle")
    ids = np.asarray(o["observationId"])
    c.ok(len(set(ids)) == m and ids.min() > np.max(np.asarray(t["observationId"])), "ids", "ids must be new and unique")
    # trace each row back through the marker column
    row_of = {float(v): i for i, v in enumerate(cols["marker"])}
    std = {"airmass": "airmass", "exptime": "visitExposureTime", "seeing": "seeingFwhmEff",
           "skybrightness": "skyBrightness", "nexposure": "numExposures", "marker": "marker"}
    mk = np.asarray(o["marker"], float)
    zp = np.asarray(t["zp"], float)
    kept_pos = {int(i): j for j, i in enumerate(np.flatnonzero(keep))}
    src = []
    for i in range(m):
        j = row_of.get(float(mk[i]))
        src.append(j)
        if not c.ok(j is not None and sel[j], "source_visit", "row does not come from a visit of this pointing", marker=mk[i]):
            return
        c.ok(cols["filter"][j] == got_f[i], "source_band", "prototype has another band")
    src = np.array(src)
    for std_name, nat in std.items():
        c.close(np.asarray(o[std_name], float), np.asarray(cols[nat], float)[src], f"copied_{std_name}")
    c.close(np.asarray(o["zp"], float), zp[[kept_pos[int(j)] for j in src]], "copied_zp")
    if strategy == "darkest_sky":
        for band in use:
            cand = np.flatnonzero(sel & (cols["filter"] == band))
            best = cols["skyBrightness"][cand].max()
            rows = [i for i in range(m) if got_f[i] == band]
            c.close(cols["skyBrightness"][src[rows]], np.full(len(rows), best), "darkest")
            if len(cand) > 1 and cols["skyBrightness"][cand[0]] < best:
                c.seen("darkest_is_not_first")
    c.seen("oversample", strategy)
    for k in ("read_noise", "pixel_scale", "radius"):
        c.equal(o.survey_values[k], t.survey_values[k], "settings")
    idx = rng.integers(0, m, 5)
    flux = rng.uniform(0, 1e5, 5)
    got = np.asarray(o.bandflux_error_point_source(flux, idx), float)
    want = np.asarray(t.bandflux_error_point_source(flux, [kept_pos[int(j)] for j in src[idx]]), float)
    c.close(got, want, "noise", rtol=1e-9)
    c.seen("noise")
    c.equal(len(t), int(keep.sum()), "source_unchanged")
    if len(use) > 1:
        c.nontrivial(n, strategy, tuple(use), dt)
    c.raises(ValueError, lambda: oversample_opsim(t, delta_t=dt, **{**args, "bands": ["Q"]}), "bad_band")
    c.raises(ValueError, lambda: oversample_opsim(t, delta_t=dt, **{**args, "strategy": "xx"}), "bad_strategy")


def random_surveys(c):
    rng = c.rng
    n = int(rng.choice([1, 2, 37, 400, 2000]))
    seed = int(rng.integers(0, 2**31))
    t = create_random_opsim(n, seed=seed)
    u = create_random_opsim(n, seed=seed)
    c.equal(len(t), n, "random_opsim_len")
    for col in t.columns:
        c.ok(np.array_equal(np.asarray(t[col]), np.asarray(u[col])), "random_opsim_seed", col)
    ra, dec, am = (np.asarray(t[k], float) for k in ("ra", "dec", "airmass"))
    c.ok(np.all((ra >= 0) & (ra <= 360) & (np.abs(dec) <= 90)), "random_opsim_sphere", "pointing off the sphere")
    c.ok(np.all(am >= 1), "random_opsim_airmass", "airmass below one")
    c.ok(np.all(np.asarray(t["exptime"], float) > 0) and set(t["filter"]) <= set("ugrizy"), "random_opsim_visit", "exposure times and filters of real visits")
    c.ok(np.all(np.diff(np.asarray(t["time"], float)) > 0), "random_opsim_time", "times must increase")
    cols = {"filter": list(t["filter"]), "airmass": am, "exptime": np.asarray(t["exptime"], float)}
    c.close(np.asarray(t["zp"], float), ref.opsim_zp(cols, ref.LSST), "random_opsim_zp", rtol=1e-9)
    if n >= 400:
        # uniform on the sphere: the sine of declination is uniform on (-1, 1), six standard errors
        z, r = np.sin(np.radians(dec)), np.radians(ra)
        for name, v, sd in (("z", z, 3**-0.5), ("z2", z**2 - 1 / 3, (4 / 45) ** 0.5), ("cos", np.cos(r), 2**-0.5), ("sin", np.sin(r), 2**-0.5)):
            c.ok(abs(v.mean()) < 6 * sd / np.sqrt(n), "random_opsim_uniform", f"{name}: {v.mean()}")
        v = create_random_opsim(n, seed=seed + 1)
        c.ok(not np.array_equal(ra, np.asarray(v["ra"])), "random_opsim_seed_differs", "another seed gave the same sky")
    c.raises(ValueError, lambda: create_random_opsim(int(rng.integers(-3, 1))), "random_opsim_zero")
    lo = float(rng.uniform(-5, 5))
    opsim_add_random_data(t, "rr", lo, lo + 2.5)
    v = np.asarray(t["rr"], float)
    c.ok(v.shape == (n,) and np.all((v >= lo) & (v <= lo + 2.5)), "random_data", "values out of range")
    c.seen("random_opsim")
    z = create_random_ztf_obs_data(n, seed=seed)
    z2 = create_random_ztf_obs_data(n, seed=seed)
    c.ok(len(z) == n and z.equals(z2), "random_ztf", "same seed, same table")
    zt = ZTFObsTable(z)
    c.equal(len(zt), n, "random_ztf_len")
    cc = {"maglim": z["maglim"].to_numpy(), "sky": z["scibckgnd"].to_numpy(), "fwhm": z["fwhm"].to_numpy(), "exptime": z["exptime"].to_numpy()}
    c.close(np.asarray(zt["zp"], float), ref.ztf_zp(cc, ref.ZTF), "random_ztf_zp", rtol=3e-4)
    c.seen("random_ztf")
    c.nontrivial(n, seed)


def ztf_ingest(c):
    rng = c.rng
    n = int(rng.choice([2, 5, 30, 120]))
    t0 = datetime.datetime(2018, 3, 25) + datetime.timedelta(days=int(rng.integers(0, 1500)))
    stamps = [t0 + datetime.timedelta(seconds=int(v), milliseconds=int(w)) for v, w in zip(rng.integers(0, 10**7, n), rng.integers(0, 1000, n))]
    fwhm = rng.uniform(1, 5, n)
    bad = rng.uniform(size=n) < (0.3 if rng.uniform() < 0.7 else 0.0)
    bad[int(rng.integers(0, n))] = False
    cols = {
        "ra": rng.uniform(0, 360, n),
        "dec": rng.uniform(-80, 80, n),
        "maglim": rng.uniform(18, 22, n),
        "scibckgnd": rng.uniform(50, 500, n),
        "filter": rng.choice(["g", "r", "i"], n),
        "exptime": rng.uniform(20, 90, n),
        "rcid": np.arange(n),
    }
    style = int(rng.integers(0, 2)) or not bad.any()
    if style:
        f = fwhm.copy()
        f[bad] = np.nan
    else:
        f = np.array([("" if b else float(v)) for b, v in zip(bad, fwhm)], dtype=object)
    cols["fwhm"] = f
    mjd = np.array([(s - datetime.datetime(1858, 11, 17)).total_seconds() / 86400.0 for s in stamps])
    dates = rng.uniform() < 0.5
    if dates:
        cols["obsdate"] = [s.strftime("%Y-%m-%d %H:%M:%S.%f")[:-3] for s in stamps]
        c.seen("ztf", "dates")
        if rng.uniform() < 0.3:  # a table with both: the numbers are what counts
            cols["obsmjd"], cols["obsdate"] = mjd, [cols["obsdate"][int(i)] for i in rng.permutation(n)]
            c.seen("ztf", "both")
    else:
        cols["obsmjd"] = mjd
    df = pd.DataFrame(cols, index=gen.weird_index(rng, n))
    copy = df.copy(deep=True)
    kw = {"gain": float(rng.uniform(1, 10)), "read_noise": float(rng.uniform(1, 20))} if rng.uniform() < 0.5 else {}
    t = ZTFObsTable(df, **kw)
    ok = ~bad
    c.fact(n=n, dropped=int(bad.sum()), style=style, dates=dates, kw=kw)
    c.equal(len(t), int(ok.sum()), "ztf_len")
    c.equal(np.asarray(t["rcid"], int), np.arange(n)[ok], "ztf_rows")
    c.close(np.asarray(t["time"], float), mjd[ok], "ztf_time", rtol=0, atol=2e-9)
    for col in ("ra", "dec", "maglim", "exptime"):
        c.close(np.asarray(t[col], float), np.asarray(cols[col], float)[ok], f"ztf_{col}")
    s = {**ref.ZTF, **kw}
    cc = {"maglim": cols["maglim"][ok], "sky": cols["scibckgnd"][ok], "fwhm": fwhm[ok], "exptime": cols["exptime"][ok], "ra": cols["ra"][ok]}
    c.close(np.asarray(t["zp"], float), ref.ztf_zp(cc, s), "ztf_zp", rtol=3e-4)
    idx = rng.integers(0, int(ok.sum()), 4)
    flux = rng.uniform(0, 1e5, 4)
    got = np.asarray(t.bandflux_error_point_source(flux, idx), float)
    c.close(got, ref.ztf_noise(flux, cc, idx, s), "ztf_noise", rtol=3e-4)
    i = int(rng.integers(0, int(ok.sum())))
    found = t.get_observations(float(cc["ra"][i]), float(cols["dec"][ok][i]), radius=1e-3, cols=["rcid"])
    c.ok(int(np.arange(n)[ok][i]) in set(int(v) for v in found["rcid"]), "ztf_lookup", "own position must find the visit")
    c.equal(sorted(t.filters), sorted(set(cols["filter"][ok])), "ztf_filters")
    c.ok(df.equals(copy) and list(df.columns) == list(copy.columns), "ztf_source", "caller's table modified")
    c.seen("ztf", "kept", int(ok.sum()))
    c.seen("ztf", "dropped", int(bad.sum()))
    if bad.any():
        c.nontrivial(n, int(bad.sum()), float(fwhm[0]))


def roman_ingest(c):
    rng = c.rng
    tabs = roman.char_tables(rng)
    n = int(rng.choice([1, 8, 40]))
    df = roman.apt(rng, n)
    ma = roman.ma_table(rng)
    path = c.tmp / "ma.csv"
    ma.to_csv(path, index=False)
    copy = df.copy(deep=True)
    with roman.serve(tabs):
        t = RomanObsTable(df, ma_table_path=path)
    c.ok(df.equals(copy), "roman_source", "caller's table modified")
    for i in range(n):
        b = df["BANDPASS"].iloc[i]
        want = {
            "ra": df["RA"].iloc[i], "dec": df["DEC"].iloc[i],
            "N_Eff_Pix": tabs["psf"].set_index("Filter").loc[b, "N_Eff_Pix"],
            "zodi_countrate_min": tabs["zodi"].set_index("filter").loc[b, "rate"],
            "thermal_countrate": tabs["thermal"].set_index("filter").loc[b, "rate"],
            "exptime": ma.set_index("MATableNumber").loc[df["MA_TABLE_NUMBER"].iloc[i], "Exptime"],
            "zp": ref.nJy(tabs["zp"].set_index("element").loc[b, "ABMag"]),
        }
        for k, v in want.items():
            c.close(float(t[k].iloc[i]), float(v), f"roman_{k}", rtol=1e-9)
    passes = df["PASS"].to_numpy()
    tt = np.asarray(t["time"], float)
    order = {p: k for k, p in enumerate(sorted(set(passes)))}
    c.close(tt - tt[np.argmin(passes)], np.array([5.0 * order[p] for p in passes]), "roman_cadence", atol=1e-6)
    c.close(t.radius, np.sqrt(0.28 / np.pi), "roman_radius")
    c.seen("roman", n=n)


QUICK_SCALE = 8
SCENARIOS = [
    Scenario(oversampled, quick=300, thorough=4000),
    Scenario(random_surveys, quick=60, thorough=600),
    Scenario(ztf_ingest, quick=200, thorough=3000),
    Scenario(roman_ingest, quick=20, thorough=200),
]
