"""P13 - point-source uncertainties against an independent photon-statistics model."""

import datetime

import numpy as np
import pandas as pd

from lclmon import ref, roman, surveys
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.noise_model import poisson_bandflux_std
from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
from lightcurvelynx.obstable.roman_obstable import RomanObsTable
from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

RULE = (
    "Random visits (seeing, sky, exposure, exposure count, band, zero point), fluxes over 12 decades and random "
    "overrides of every survey setting, for all four survey types; uncertainties are recomputed from the stated "
    "photon statistics, re-asked in other orders, subsets and one by one, and re-asked after raising one noise "
    "source. Every case is non-trivial; distinct by survey type, settings and first value."
)
REQUIRED = [
    "class:OpSim", "class:FakeObsTable", "class:ZTFObsTable", "class:Roman", "const_error", "override", "monotone:flux",
    "monotone:sky", "monotone:seeing", "monotone:read_noise", "monotone:dark_current", "subset", "single", "formula", "column_wins:zp_per_band",
    "read:function", "read:value", "zero_flux", "ztf:gaps", "ztf:dates", "zp:column", "zp:derived", "number:int", "number:int64", "number:float32",
    "refused:missing", "refused:negative", "refused:zero", "refused:no_filter", "refused:text", "refused:const_ok", "refused:const_flux_error", "refused:exptime", "refused:nexposure", "refused:sky", "refused:fwhm_px", "refused:psf_footprint", "refused:zp_per_band",
]
ASSUMPTIONS = [
    "ZTF zero points use the rounded effective-area constant 2.266 of their derivation (relative 1e-4 allowed).",
    "A read-noise function gives the total read-out noise of the visit, as the existing tests fix it.",
    "The Roman characterisation files are replaced by random stand-ins because they are fetched from the network.",
]


def draw_flux(rng, n):
    f = 10.0 ** rng.uniform(-4, 8, n)
    f[rng.uniform(size=n) < 0.15] = 0.0
    return f


def visits(c):
    rng = c.rng
    kind = ["OpSim", "FakeObsTable", "ZTFObsTable"][int(rng.integers(0, 3))]
    n = int(rng.choice([1, 3, 12, 80]))
    s = surveys.make(rng, kind, n)
    t = s.table
    c.seen("class", kind)
    c.seen("zp", "column" if "zp" in s.cols else "derived")
    const = s.settings.get("const_flux_error") is not None
    if const:
        c.seen("const_error")
    k = int(rng.choice([1, 4, 30]))
    idx = rng.integers(0, n, k)
    flux = draw_flux(rng, k)
    c.seen("zero_flux", n=int((flux == 0).sum()))
    over = [o for o in s.ctor if o not in ("radius", "zp_per_band")]
    c.seen("override", n=len(over))
    c.fact(kind=kind, n=n, k=k, overrides=over, const=const)
    rtol = 3e-4 if kind == "ZTFObsTable" else 1e-7
    want = s.noise(flux, idx)
    got = np.asarray(t.bandflux_error_point_source(flux, idx), float)
    c.close(got, want, f"value_{kind}", rtol=rtol, overrides=over)
    c.seen("formula", n=k)
    if "zp" not in s.cols and kind == "OpSim":
        c.close(np.asarray(t["zp"], float), ref.opsim_zp(s.cols, s.settings), "zp_OpSim", rtol=1e-9)
    if "zp" not in s.cols and kind == "ZTFObsTable":
        c.close(np.asarray(t["zp"], float), ref.ztf_zp(s.cols, s.settings), "zp_ZTF", rtol=3e-4)
    # a visit's value does not depend on which other visits are asked for
    perm = rng.permutation(k)
    again = np.asarray(t.bandflux_error_point_source(flux[perm], idx[perm]), float)
    c.close(again, got[perm], "order", rtol=1e-12)
    sub = perm[: max(1, k // 2)]
    c.close(np.asarray(t.bandflux_error_point_source(flux[sub], idx[sub]), float), got[sub], "subset", rtol=1e-12)
    c.seen("subset")
    one = np.asarray(t.bandflux_error_point_source(flux[:1], idx[:1]), float)
    c.close(one, got[:1], "single", rtol=1e-12)
    if not const:
        scal = float(t.bandflux_error_point_source(float(flux[0]), int(idx[0])))
        c.close(scal, got[0], "scalar", rtol=1e-12)
    c.seen("single")
    c.ok(np.all(np.isfinite(got)) and np.all(got >= 0), "finite", "uncertainty must be finite and non-negative")
    more = np.asarray(t.bandflux_error_point_source(flux * 1.5 + 1.0, idx), float)
    c.ok(np.all(more >= got * (1 - 1e-12)), "monotone_flux", "uncertainty decreased with flux")
    c.seen("monotone", "flux")
    # settings changed later on the table are used
    if not const:
        for name in ("read_noise", "dark_current"):
            old = t.survey_values[name]
            t.survey_values[name] = old * 2 + 0.5
            new = np.asarray(t.bandflux_error_point_source(flux, idx), float)
            # the table keeps the zero points it already has
            st = dict(s.settings)
            st[name] = t.survey_values[name]
            cols = dict(s.cols)
            cols["zp"] = np.asarray(t["zp"], float)
            c.close(new, s._noise(flux, cols, idx, st), f"changed_{name}", rtol=1e-7)
            c.ok(np.all(new >= got * (1 - 1e-12)), f"monotone_{name}", f"uncertainty decreased with {name}")
            c.seen("monotone", name)
            t.survey_values[name] = old
        zp = np.asarray(t["zp"], float).copy()
        for label, col, fun in (
            ("seeing", {"OpSim": "seeing", "ZTFObsTable": "fwhm", "FakeObsTable": "psf_footprint"}[kind], lambda v: v * 1.3),
            ("sky", {"OpSim": "skybrightness", "ZTFObsTable": "sky", "FakeObsTable": "sky"}[kind],
             (lambda v: v - 0.7) if kind == "OpSim" else (lambda v: v * 1.3 + 1)),
        ):
            old = np.asarray(t[col], float).copy()
            t.add_column(col, fun(old), overwrite=True)
            new = np.asarray(t.bandflux_error_point_source(flux, idx), float)
            c.ok(np.all(new >= got * (1 - 1e-12)), f"monotone_{label}", f"uncertainty decreased with {label}")
            c.equal(np.asarray(t["zp"], float), zp, "zp_stable")
            t.add_column(col, old, overwrite=True)
            c.seen("monotone", label)
        c.close(np.asarray(t.bandflux_error_point_source(flux, idx), float), got, "restored", rtol=1e-12)
    c.nontrivial(kind, n, tuple(over), float(got[0]))


def formula(c):
    """The noise model function itself, scalar and array, with values and functions for the read noise."""
    rng = c.rng
    n = int(rng.choice([1, 2, 50]))
    v = dict(
        total_exposure_time=rng.uniform(1, 500, n),
        exposure_count=rng.integers(1, 8, n),
        psf_footprint=10.0 ** rng.uniform(-1, 3, n),
        sky=10.0 ** rng.uniform(-2, 4, n),
        zp=10.0 ** rng.uniform(-3, 4, n),
        readout_noise=10.0 ** rng.uniform(-2, 2, n),
        dark_current=10.0 ** rng.uniform(-3, 2, n),
    )
    for key in list(v):
        r = rng.uniform()
        if r < 0.15:
            v[key] = v[key][0]
        elif r < 0.25 and key not in ("zp", "psf_footprint", "total_exposure_time", "exposure_count"):
            v[key] = 0.0
        elif r < 0.5 and key in ("sky", "readout_noise", "dark_current"):
            v[key] = v[key] * 1e3  # let one term dominate
    flux = draw_flux(rng, n)
    args = dict(v)
    full = {k: np.broadcast_to(np.asarray(x, float), (n,)) for k, x in v.items()}
    total = None
    if rng.uniform() < 0.35:
        a = float(rng.uniform(1, 30))
        args["readout_noise"] = lambda t: a + np.sqrt(t)
        total = a + np.sqrt(full["total_exposure_time"])
        c.seen("read", "function")
    else:
        c.seen("read", "value")
    want = ref.electrons_noise(
        flux, full["zp"], full["sky"], full["psf_footprint"], full["readout_noise"], full["exposure_count"],
        full["dark_current"], full["total_exposure_time"], read_total=total,
    )
    got = poisson_bandflux_std(flux, **args)
    c.close(np.asarray(got, float), want, "formula", rtol=1e-10)
    i = int(rng.integers(0, n))
    one = poisson_bandflux_std(
        float(flux[i]), **{k: (x if callable(x) else float(full[k][i])) for k, x in args.items()}
    )
    c.close(float(one), want[i], "formula_scalar", rtol=1e-10)
    c.seen("formula")
    c.nontrivial("f", n, float(want[0]))


def ztf_gaps(c):
    """Visits without a seeing value are left out; other gaps keep their visit; dates given as text are read exactly."""
    rng = c.rng
    n = int(rng.choice([2, 6, 25]))
    day = rng.integers(0, 3000, n)
    frac = rng.integers(0, 86400 * 1000, n)
    text = [
        (datetime.datetime(2018, 3, 25) + datetime.timedelta(days=int(d), milliseconds=int(f))).isoformat(sep=" ", timespec="milliseconds")
        for d, f in zip(day, frac)
    ]
    mjd = 58202.0 + day + frac / 86400e3
    use_text = bool(rng.uniform() < 0.6)
    cols = {
        "ra": rng.uniform(0, 360, n), "dec": rng.uniform(-90, 90, n), "maglim": rng.uniform(18, 22, n), "scibckgnd": rng.uniform(50, 900, n),
        "fwhm": rng.uniform(1, 5, n), "exptime": rng.uniform(10, 300, n), "filter": rng.choice(["g", "r", "i"], n).astype(object),
        "extra": np.where(rng.uniform(size=n) < 0.4, np.nan, rng.uniform(size=n)), "id": np.arange(n),
    }
    cols["obsdate" if use_text else "obsmjd"] = text if use_text else mjd
    gone = rng.uniform(size=n) < 0.3
    gone[int(rng.integers(n))] = False
    how = str(rng.choice(["nan", "empty"]))
    if how == "nan" or not gone.any():
        cols["fwhm"] = np.where(gone, np.nan, cols["fwhm"])
    else:
        cols["fwhm"] = np.array(["" if g else x for g, x in zip(gone, cols["fwhm"])], object)
    arg = dict(cols)
    if rng.uniform() < 0.6:
        arg = pd.DataFrame(arg)
        if rng.uniform() < 0.5:
            arg.index = np.arange(n) * 2 + 7
        keep_arg = arg.copy(deep=True)
    else:
        keep_arg = {k: (v.copy() if isinstance(v, np.ndarray) else list(v)) for k, v in arg.items()}
    t = ZTFObsTable(arg)
    alive = np.flatnonzero(~gone)
    c.equal(np.asarray(t["id"]).astype(int), alive, "gaps", msg=f"{how}: the visits with a seeing value")
    if use_text:
        c.close(np.asarray(t["time"], float), mjd[alive], "dates", rtol=0, atol=2e-9)
        c.seen("ztf", "dates")
    else:
        c.equal(np.asarray(t["time"], float), mjd[alive], "dates")
    for k in ("ra", "dec", "extra"):
        c.ok(np.array_equal(np.asarray(t[k], float), cols[k][alive], equal_nan=True), "gaps", f"column {k} of the remaining visits")
    if gone.any():
        c.seen("ztf", "gaps", n=int(gone.sum()))
    if isinstance(arg, dict):
        ok = list(arg) == list(keep_arg) and all(len(arg[k]) == n and all(x == y or (x != x and y != y) for x, y in zip(arg[k], keep_arg[k])) for k in arg)
    else:
        ok = list(arg.columns) == list(keep_arg.columns) and arg.equals(keep_arg) and arg.index.equals(keep_arg.index)
    c.ok(ok, "ztf_source", "caller's table modified")
    own = {"airmass": None, "sky": cols["scibckgnd"][alive], "maglim": cols["maglim"][alive], "fwhm": cols["fwhm"][alive].astype(float), "exptime": cols["exptime"][alive], "filter": cols["filter"][alive]}
    c.close(np.asarray(t["zp"], float), ref.ztf_zp(own, ref.ZTF), "zp_ZTF", rtol=3e-4)
    i = int(rng.integers(len(alive)))
    found = t.range_search(float(t["ra"].iloc[i]), float(t["dec"].iloc[i]), radius=1e-6)
    c.ok(i in [int(x) for x in found], "gaps", "a remaining visit is not found at its own position")
    c.equal(sorted(map(str, t.filters)), sorted(set(map(str, own["filter"]))), "gaps_filters")
    c.fact(n=n, how=how, text=use_text, gone=int(gone.sum()))
    c.nontrivial(n, how, use_text, tuple(alive), float(cols["ra"][0]))


def roman_visits(c):
    rng = c.rng
    tabs = roman.char_tables(rng)
    n = int(rng.choice([1, 3, 20, 60]))
    table = roman.apt(rng, n)
    copy = table.copy(deep=True)
    ma = roman.ma_table(rng)
    path = c.tmp / "ma.csv"
    ma.to_csv(path, index=False)
    kw = {}
    if rng.uniform() < 0.5:
        kw["zodi_level"] = float(rng.uniform(1, 6))
    if rng.uniform() < 0.5:
        kw["dark_current"] = float(rng.uniform(0, 0.5))
    with roman.serve(tabs):
        t = RomanObsTable(table, ma_table_path=path, **kw)
    c.ok(table.equals(copy) and list(table.columns) == list(copy.columns), "roman_source", "caller's table modified")
    c.seen("class", "Roman")
    look = lambda df, key, val: np.array([df.set_index(key)[val][b] for b in table["BANDPASS"]], float)
    zp_mag = look(tabs["zp"], "element", "ABMag")
    npix = look(tabs["psf"], "Filter", "N_Eff_Pix")
    zodi = look(tabs["zodi"], "filter", "rate")
    therm = look(tabs["thermal"], "filter", "rate")
    exptime = np.array([ma.set_index("MATableNumber")["Exptime"][m] for m in table["MA_TABLE_NUMBER"]], float)
    c.close(np.asarray(t["zp"], float), ref.nJy(zp_mag), "roman_zp", rtol=1e-9)
    c.close(np.asarray(t["exptime"], float), exptime, "roman_exptime")
    k = int(rng.choice([1, 5, 20]))
    idx = rng.integers(0, n, k)
    flux = draw_flux(rng, k)
    want = ref.roman_noise(
        flux, zp_mag[idx], npix[idx], kw.get("zodi_level", 1.5), zodi[idx], therm[idx], kw.get("dark_current", 0.0),
        exptime[idx],
    )
    got = np.asarray(t.bandflux_error_point_source(flux, idx), float)
    c.close(got, want, "roman_noise", rtol=1e-8)
    one = np.asarray(t.bandflux_error_point_source(flux[:1], idx[:1]), float)
    c.close(one, got[:1], "roman_single", rtol=1e-12)
    c.equal(np.asarray(t["ra"], float), np.asarray(table["RA"]), "roman_ra")
    for p, tt in zip(table["PASS"], np.asarray(t["time"], float)):
        rank = sorted(set(table["PASS"])).index(p)
        c.close(tt, 61304.0 + 5.0 * rank, "roman_time")
    c.fact(n=n, kw=kw)
    c.nontrivial("roman", n, float(want[0]))
    # a table index that does not start at zero makes no difference
    moved = copy.set_index(pd.Index(np.arange(n) + 50))
    with roman.serve(tabs):
        t2 = RomanObsTable(moved, ma_table_path=path, **kw)
    c.close(np.asarray(t2.bandflux_error_point_source(flux, idx), float), got, "roman_index", rtol=1e-12)


def refusals(c):
    """Settings from which no uncertainty can be computed are refused; constant settings are used for every visit of their filter."""
    rng = c.rng
    n = int(rng.choice([3, 12]))
    fl = [str(f) for f in rng.permutation(list("ugrizy"))[: int(rng.integers(2, 5))]]
    filt = np.concatenate([fl, rng.choice(fl, n)])
    n = len(filt)
    tab = dict(time=60000.0 + np.arange(n), ra=rng.uniform(0, 360, n), dec=rng.uniform(-80, 80, n), filter=filt)
    if rng.uniform() < 0.5:
        tab = pd.DataFrame(tab)

    def per(lo, hi):
        return {f: float(rng.uniform(lo, hi)) for f in fl}

    def scalar_or(lo, hi):
        return float(rng.uniform(lo, hi)) if rng.uniform() < 0.5 else per(lo, hi)

    good = dict(zp_per_band=per(0.05, 5), exptime=scalar_or(5, 300), nexposure=scalar_or(1, 4), sky=scalar_or(1, 300), read_noise=float(rng.uniform(0, 10)), dark_current=float(rng.uniform(0, 2)))
    if rng.uniform() < 0.5:
        good["fwhm_px"] = scalar_or(1, 6)
    else:
        good["psf_footprint"] = scalar_or(3, 60)
    const = rng.uniform() < 0.3
    if const:
        good = dict(zp_per_band=good["zp_per_band"], const_flux_error=scalar_or(0, 100) if rng.uniform() < 0.8 else 0)
    if rng.uniform() < 0.4:
        # Settings are numbers of any kind.
        num = [int, np.int64, np.int32, np.float32, np.float64][int(rng.integers(5))]
        good = {k: {f: num(1 + round(x)) for f, x in v.items()} if isinstance(v, dict) else num(1 + round(v)) for k, v in good.items()}
        c.seen("number", num.__name__)
    t = FakeObsTable(tab, **good)

    def of(key):
        v = good[key]
        return np.array([v[f] for f in filt]) if isinstance(v, dict) else np.full(n, float(v))

    flux = 10 ** rng.uniform(0, 5, n)
    got = np.asarray(t.bandflux_error_point_source(flux, np.arange(n)), float)
    if const:
        c.close(got, of("const_flux_error"), "constant", rtol=1e-12)
        c.seen("refused", "const_ok")
    else:
        area = of("psf_footprint") if "psf_footprint" in good else 2.266 * of("fwhm_px") ** 2
        zp = of("zp_per_band")
        var = flux / zp + of("sky") * area + good["dark_current"] * of("exptime") * area + good["read_noise"] ** 2 * area * of("nexposure")
        c.close(got, np.sqrt(var) * zp, "constant", rtol=1e-3, msg="constant settings per filter")
    # One setting is spoilt.
    bad = dict(good)
    keys = [k for k in good if k not in ("read_noise", "dark_current")]
    key = str(rng.choice(keys))
    ways = ["missing", "negative", "zero", "no_filter", "text"]
    way = str(rng.choice(ways))
    if way == "missing":
        if key in ("exptime", "nexposure", "const_flux_error"):
            if key == "const_flux_error":
                bad.pop(key)
            else:
                bad[key] = None
        else:
            bad.pop(key)
    elif way in ("negative", "zero"):
        if key == "sky" or (key == "const_flux_error" and way == "zero"):
            return
        v = -float(rng.uniform(0.01, 5)) if way == "negative" else 0
        if isinstance(good[key], dict):
            bad[key] = dict(good[key])
            bad[key][str(rng.choice(fl))] = v
        else:
            bad[key] = v
    else:
        bad[key] = dict(good[key]) if isinstance(good[key], dict) else {f: 3.0 for f in fl}
        f = str(rng.choice(fl))
        if way == "no_filter":
            del bad[key][f]
        else:
            bad[key][f] = "3x"
    c.raises((ValueError, TypeError), lambda: FakeObsTable(tab, **bad), "refused", f"{key} is {way}: {bad.get(key)}")
    c.seen("refused", way)
    c.seen("refused", key)
    # A table with its own column needs no constant for it.
    if not const:
        own = dict(tab) if isinstance(tab, dict) else tab.copy()
        col = rng.uniform(2, 9, n)
        own[key if key != "zp_per_band" else "zp"] = col
        kw = dict(good)
        if rng.uniform() < 0.5:
            kw.pop(key)
        else:
            c.seen("column_wins", key)
        t = FakeObsTable(own, **kw)
        c.close(np.asarray(t[key if key != "zp_per_band" else "zp"], float), col, "column", rtol=0, atol=0)
    c.nontrivial(key, way, n, float(got[0]))


QUICK_SCALE = 8
SCENARIOS = [
    Scenario(visits, quick=500, thorough=8000),
    Scenario(formula, quick=400, thorough=8000),
    Scenario(refusals, quick=200, thorough=3000),
    Scenario(ztf_gaps, quick=60, thorough=1500),
    Scenario(roman_visits, quick=60, thorough=800),
]
