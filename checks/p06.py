"""P06 - simulated observations are exactly the survey rows covering each object."""

from collections import Counter
from pathlib import Path


import numpy as np
import sncosmo

from lclmon import sims, sources
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.passbands import PassbandGroup
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.models.basic_models import ConstantSEDModel
from lightcurvelynx.models.bayesn import BayesnModel
from lightcurvelynx.models.salt2_jax import SALT2JaxModel
from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel
from lightcurvelynx.simulate import get_time_windows

RULE = (
    "Simulations of 1-10 objects of random models over 1-3 random surveys (all table classes, filtered tables, repeated times, poles and RA "
    "wrap) with random time windows, masks and saved columns; the observations of every object are joined back, as a multiset of "
    "(survey, row), to the rows an independent great-circle search of the survey columns selects. Non-trivial: some object has rows "
    "selected and some survey row is not selected; distinct by set-up, window and counts."
)
REQUIRED = [
    "saved_again",
    "surveys:1", "surveys:2", "surveys:3", "window:none", "window:both", "window:before", "window:after", "window:no_t0", "window:mixed_t0", "window:edge", "window:zero", "filter_names:long", "mask:on",
    "mask:all_false", "unobserved", "observed", "saved:present", "saved:missing", "saved:native", "kind:OpSim", "kind:ZTFObsTable", "kind:FakeObsTable",
    "band_model", "footprint:removed", "single", "many", "refused:mismatch", "refused:samples",
    "own_mask:salt", "own_mask:bayesn", "own_mask:sncosmo", "own_mask:base", "own_mask:off", "own_mask:cut", "own_mask:redshifted", "own_mask:no_t0",
]
ASSUMPTIONS = ["Positions closer than 1e-7 degrees to the edge of a field of view may go either way."]

DATA = "/repo/tests/lightcurvelynx/data"


def window(c, source_has_t0):
    rng = c.rng
    k = str(rng.choice(["none", "both", "before", "after", "both"]))
    b, a = float(rng.uniform(-5, 40)), float(rng.uniform(-5, 40))
    if rng.uniform() < 0.15:
        b, a = float(round(b)), float(round(a))
    if rng.uniform() < 0.15:
        # A window starting or ending exactly at the reference time.
        zero = [0.0, 0, -0.0][int(rng.integers(0, 3))]
        b, a = [(zero, abs(a)), (abs(b), zero), (zero, zero)][int(rng.integers(0, 3))]
        if source_has_t0 and k != "none":
            c.seen("window", "zero")
    if not source_has_t0:
        c.seen("window", "no_t0")
    else:
        c.seen("window", k)
    return {"none": None, "both": (b, a), "before": (b, None), "after": (None, a)}[k]


def make_mask(rng):
    """An arbitrary per-sample mask rule depending on the sample's own parameters."""
    k = int(rng.integers(0, 4))
    m, r = float(rng.uniform(2, 9)), float(rng.uniform(0.2, 0.8))

    def rule(times, t0, ra):
        t = np.asarray(times, float)
        if k == 0:
            return np.zeros(len(t), bool)
        if k == 1:
            return np.mod(t - (60000.0 if t0 is None else t0), m) < r * m
        if k == 2:
            return t > 60000 + (ra % 60)
        return np.mod(np.floor(t), 2) == (int(ra) % 2)

    return k, rule


def judge(c, su, res, win, rule, saved, t0s, extra_ok=None):
    """Compares every object's observations with the rows the reference selects."""
    nsel = nall = 0
    for i in range(su.S):
        lc = sims.light_curve(res, i)
        n = len(lc["mjd"])
        c.equal(int(res["nobs"].iloc[i]), n, "nobs", f"object {i}: nobs against rows")
        got = Counter()
        for j in range(n):
            s = int(lc["survey_idx"][j])
            c.ok(0 <= s < len(su.surveys), "survey_idx", f"survey number {s}")
            key = (s, float(lc["mjd"][j]), str(lc["filter"][j]))
            if "tag" in saved:
                key += (None if sims.null(lc["tag"][j]) else int(lc["tag"][j]),)
            got[key] += 1
        want, maybe = Counter(), Counter()
        for s, sv in enumerate(su.surveys):
            t0 = t0s[i]
            lo = hi = None
            if win is not None and t0 is not None:
                lo = None if win[0] is None else t0 - win[0]
                hi = None if win[1] is None else t0 + win[1]
            sure, border = su.covering(sv, i, lo, hi)
            if extra_ok is not None:
                sure2, border2 = extra_ok(s, i)
                border = (border & (sure2 | border2)) | (sure & border2)
                sure = sure & sure2
            t = np.asarray(sv.cols["time"], float)
            if rule is not None:
                m = rule[i](t) if isinstance(rule, list) else rule(t, t0, su.ra[i])
                sure, border = sure & m, border & m
            nall += len(t)
            nsel += int(sure.sum())
            for r in np.flatnonzero(sure | border):
                key = (s, float(t[r]), str(sv.cols["filter"][r]))
                if "tag" in saved:
                    key += (int(sv.cols["tag"][r]),)
                (want if sure[r] else maybe)[key] += 1
        missing, extra = want - got, (got - want) - maybe
        c.ok(not missing and not extra, "rows", f"object {i}: {sum(missing.values())} covering rows not observed, {sum(extra.values())} observations of rows that do not cover it", missing=list(missing)[:3], extra=list(extra)[:3], position=[su.ra[i], su.dec[i]])
        c.seen("unobserved" if not n else "observed")
        # Saved columns are those of the row (identified by its tag).
        if "tag" in saved:
            for j in range(n):
                sv = su.surveys[int(lc["survey_idx"][j])]
                rows = np.flatnonzero((np.asarray(sv.cols["tag"]) == int(lc["tag"][j])) & (np.asarray(sv.cols["time"], float) == lc["mjd"][j]) & (np.asarray(sv.cols["filter"]) == lc["filter"][j]))
                for col in saved:
                    std = {v: k for k, v in sv.native.items()}.get(col, col)
                    if std in sv.cols:
                        ok = any(sv.cols[std][r] == lc[col][j] for r in rows)
                        c.ok(ok, "saved", f"saved column {col} is not that of the row", value=lc[col][j], row=rows[:2].tolist())
                        c.seen("saved", "native" if std != col else "present")
                    elif col not in sv.table:
                        c.ok(sims.null(lc[col][j]), "saved_missing", f"column {col} missing from survey but reported as {lc[col][j]!r}")
                        c.seen("saved", "missing")
    return nsel, nall


def rows_of_objects(c):
    rng = c.rng
    S = int(rng.choice([1, 2, 5, 10]))
    su = sims.Setup(rng, S, colmap_custom=bool(rng.uniform() < 0.2))
    for sv in su.surveys:
        c.seen("kind", sv.kind)
    c.seen("surveys", str(len(su.surveys)))
    c.seen("filter_names", "long" if su.long_names else "short")
    c.seen("single" if S == 1 else "many")
    has_t0 = rng.uniform() < 0.85
    pos = su.position()
    one = len(su.surveys) == 1
    if not has_t0:
        src = sources.sed_source(rng, S, kind=str(rng.choice(["constant", "linear", "static", "spline"])), position=pos, redshift=None, t0="none")
    elif rng.uniform() < 0.5:
        src = sources.sed_source(rng, S, position=pos)
    else:
        src = sources.any_source(rng, S, position=pos, filters=su.all_filters, allow_band=one)
    if src.kind == "band":
        c.seen("band_model")
    win = window(c, has_t0)
    rule, use_mask = None, rng.uniform() < 0.5
    if use_mask:
        k, rule = make_mask(rng)
        model = src.model
        model.mask_by_time = lambda times, graph_state=None: rule(times, model.get_param(graph_state, "t0"), model.get_param(graph_state, "ra"))
        c.seen("mask", "on")
        if k == 0:
            c.seen("mask", "all_false")
    apply_mask = use_mask and rng.uniform() < 0.8
    saved = []
    if rng.uniform() < 0.85:
        saved = ["tag"]
        sv = su.surveys[int(rng.integers(len(su.surveys)))]
        pool = [k for k in sv.cols if k not in ("time", "filter", "tag", "ra", "dec")]
        saved += [str(x) for x in rng.permutation(pool)[: int(rng.integers(0, 4))]]
        if sv.native and rng.uniform() < 0.5:
            nat = [v for k, v in sv.native.items() if k in sv.cols]
            saved += [str(rng.choice(nat))]
        saved = list(dict.fromkeys(saved))
    ask = list(saved)
    if saved and rng.uniform() < 0.15:
        # Columns asked for twice, or saved anyway.
        ask.insert(int(rng.integers(0, len(ask) + 1)), str(rng.choice([*saved, "filter"])))
        c.seen("saved_again")
    res = su.run(src.model, rng=np.random.default_rng(int(rng.integers(2**31))), time_window_offset=win, apply_obs_mask=bool(apply_mask), obstable_save_cols=ask or None)
    c.equal(len(res), S, "objects", "one row per object")
    c.equal([int(x) for x in res["id"]], list(range(S)), "ids")
    c.close(np.array(res["ra"], float), su.ra, "position", rtol=0, atol=0)
    c.close(np.array(res["dec"], float), su.dec, "position", rtol=0, atol=0)
    t0s = [None if sims.null(x) else float(x) for x in res["t0"]]
    c.ok(all((t is not None) == has_t0 for t in t0s), "t0", t0s=t0s[:3])
    nsel, nall = judge(c, su, res, win, rule if apply_mask else None, saved, t0s)
    for sv in su.surveys:
        c.ok(sv.source_untouched(), "source")
    c.fact(model=src.desc, surveys=[(s.kind, len(s), round(s.radius, 3)) for s in su.surveys], window=win, mask=bool(apply_mask), saved=saved, selected=nsel, rows=nall)
    if 0 < nsel < nall:
        c.nontrivial([len(s) for s in su.surveys], S, str(win), nsel, nall, src.desc)


def window_edges(c):
    """Observations exactly at and just beyond the ends of the window; samples with and without t0."""
    rng = c.rng
    S = int(rng.integers(1, 5))
    b, a = float(rng.integers(0, 30)), float(rng.integers(0, 30))
    t0 = 60030.0 + np.arange(S)
    times = []
    for t in t0:
        times += [t - b, np.nextafter(t - b, 0), np.nextafter(t - b, 1e9), t + a, np.nextafter(t + a, 0), np.nextafter(t + a, 1e9), t]
    n = len(times)
    su = sims.Setup(rng, S, n_surveys=1, rows=n, filtered=False, time=np.array(times))
    sv = su.surveys[0]
    if not np.array_equal(np.asarray(sv.cols["time"], float), np.array(times)):
        # a survey with rounded times was drawn: the shadow says what it holds
        times = np.asarray(sv.cols["time"], float)
    src = sources.sed_source(rng, S, kind="constant", position=su.position(), redshift=None, t0=GivenValueList(list(t0)))
    win = (b, a)
    res = su.run(src.model, rng=np.random.default_rng(1), time_window_offset=win, obstable_save_cols=["tag"])
    nsel, nall = judge(c, su, res, win, None, ["tag"], list(t0))
    lo, hi = get_time_windows(t0, win)
    c.equal(np.asarray(lo).tolist(), (t0 - b).tolist(), "windows")
    c.equal(np.asarray(hi).tolist(), (t0 + a).tolist(), "windows")
    c.seen("window", "edge")
    c.seen("window", "mixed_t0" if S > 1 else "one_t0")
    c.fact(before=b, after=a, objects=S, selected=nsel)
    c.nontrivial(b, a, S, nsel)


def footprints(c):
    """A circular footprint smaller than the field radius only removes rows."""
    import astropy.units as u
    from astropy.coordinates import SkyCoord
    from regions import CircleSkyRegion

    from lclmon import gen
    from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint

    rng = c.rng
    S = int(rng.integers(2, 8))
    su = sims.Setup(rng, S, n_surveys=int(rng.integers(1, 3)), rows=30, filtered=False)
    inner = []
    for sv in su.surveys:
        r = sv.radius * float(rng.uniform(0.3, 0.9))
        reg = CircleSkyRegion(SkyCoord(ra=0 * u.deg, dec=0 * u.deg), radius=r * u.deg)
        fp = DetectorFootprint(reg, pixel_scale=r / 50)
        kw = dict(sv.ctor, detector_footprint=fp)
        sv.table = type(sv.table)(sv.source, **kw)
        # The footprint is a circle in the tangent plane: tan(distance) against its radius.
        inner.append(r)
    src = sources.sed_source(rng, S, position=su.position())

    def extra_ok(s, i):
        sv = su.surveys[s]
        d = np.degrees(np.tan(np.radians(np.minimum(gen.separation(sv.cols["ra"], sv.cols["dec"], su.ra[i], su.dec[i]), 80))))
        return d < inner[s] * (1 - 2e-3), np.abs(d - inner[s]) <= inner[s] * 2e-3

    res = su.run(src.model, rng=np.random.default_rng(1), obstable_save_cols=["tag"])
    nsel, nall = judge(c, su, res, None, None, ["tag"], [None] * S, extra_ok)
    full = sum(int(su.covering(sv, i)[0].sum()) for sv in su.surveys for i in range(S))
    if full > nsel:
        c.seen("footprint", "removed")
    c.fact(selected=nsel, in_radius=full)
    c.nontrivial(nsel, full, S)


def refusals(c):
    rng = c.rng
    su = sims.Setup(rng, 2, n_surveys=2)
    src = sources.sed_source(rng, 2, position=(10.0, 10.0), redshift=None)
    from lightcurvelynx.simulate import simulate_lightcurves as sim

    c.raises(ValueError, lambda: sim(src.model, 2, [s.table for s in su.surveys], su.groups[:1]), "refuse", "passbands missing")
    c.raises(ValueError, lambda: sim(src.model, 2, su.surveys[0].table, su.groups), "refuse", "surveys missing")
    c.seen("refused", "mismatch")
    for n in (0, -3):
        c.raises(ValueError, lambda n=n: sim(src.model, n, su.surveys[0].table, su.groups[0]), "refuse", "sample count")
    c.seen("refused", "samples")
    b = sources.band_source(rng, su.all_filters, 2, position=(10.0, 10.0))
    c.raises(ValueError, lambda: sim(b.model, 2, [s.table for s in su.surveys], su.groups), "refuse", "band model over two surveys")
    c.raises((ValueError,), lambda: get_time_windows(np.array([1.0]), (1.0, 2.0, 3.0)), "refuse", "window of three")
    assert isinstance(su.groups[0], PassbandGroup)


def own_mask_model(c, pos, kind, t0, z, given):
    """A supernova model with its own time mask, and the (earliest, latest) rest-frame phase it declares."""
    rng = c.rng
    ra, dec = pos

    def listed(v):
        given.append(GivenValueList(list(v)))
        return given[-1]

    kw = dict(ra=listed(ra), dec=listed(dec)) if isinstance(ra, np.ndarray) else dict(ra=ra, dec=dec)
    if t0 is not None:
        kw["t0"] = listed(t0)
    if z is not None:
        kw["redshift"] = listed(z)
    if kind == "salt":
        return SALT2JaxModel(x0=float(rng.uniform(0.1, 2)), x1=float(rng.normal()), c=0.05, model_dir=DATA + "/truncated-salt2-h17", **kw), (-20.0, 50.0)
    if kind == "bayesn":
        return BayesnModel(_M20_model_path=Path(DATA) / "BAYESN.M20", hsiao_model_path=Path(DATA) / "hsiao.h5", theta=0.0, Av=0.1, Rv=3.0, Amplitude=1.0, **kw), (-20.0, 50.0)
    if kind == "sncosmo":
        ph = np.concatenate([[float(rng.uniform(-40, -1))], np.sort(rng.uniform(0, 5, 3)), [float(rng.uniform(6, 80))]])
        w = np.linspace(2000, 15000, 8)
        sncosmo.register(sncosmo.TimeSeriesSource(ph, w, rng.uniform(0.5, 1, (len(ph), len(w))) * 1e-17), name="lcl-p06", force=True)
        return SncosmoWrapperModel("lcl-p06", amplitude=1.0, **kw), (float(ph[0]), float(ph[-1]))
    return ConstantSEDModel(brightness=100.0, **kw), (-np.inf, np.inf)


def own_masks(c):
    """Restricting to the times a model declares of interest keeps exactly the rows inside its phase range, stretched by each sample's redshift."""
    rng = c.rng
    S = int(rng.choice([1, 3, 5]))
    su = sims.Setup(rng, S, rows=int(rng.choice([20, 60])))
    kind = str(rng.choice(["salt", "bayesn", "sncosmo", "sncosmo", "base"]))
    has_t0, has_z = rng.uniform() < 0.9, rng.uniform() < 0.75
    tt = np.concatenate([np.asarray(sv.cols["time"], float) for sv in su.surveys])
    t0 = rng.uniform(tt.min() - 30, tt.max() + 20, S) if has_t0 else None
    z = rng.choice([0.0, float(rng.uniform(0, 0.2)), float(rng.uniform(0.2, 2))], S) if has_z else None
    pos = su.position()
    given = []
    model, (p0, p1) = own_mask_model(c, pos, kind, t0, z, given)
    t0s = [None if t0 is None else float(q) for q in (t0 if has_t0 else [0] * S)]
    lim = []
    for i in range(S):
        T, Z = t0s[i] or 0.0, float(z[i]) if has_z else 0.0
        lim.append((T + p0 * (1 + Z), T + p1 * (1 + Z)))
    win = None
    if has_t0 and rng.uniform() < 0.3:
        win = (float(rng.uniform(0, 30)), float(rng.uniform(0, 30)))
    # The mask on its own, around its ends.
    st = model.sample_parameters(num_samples=S, rng_info=np.random.default_rng(3))
    for i, one in enumerate(sources.singles(st)):
        a, b = lim[i]
        if np.isfinite(a):
            q = np.concatenate([a + np.array([-30, -1e-3, 1e-3, 5]), b + np.array([-5, -1e-3, 1e-3, 30])])
        else:
            q = rng.uniform(50000, 70000, 6)
        q = rng.permutation(q)
        c.equal(np.asarray(model.mask_by_time(q, one), bool).tolist(), ((q > a) & (q < b)).tolist(), "own_mask", f"{kind}: times of interest of sample {i} (t0={t0s[i]}, phases {p0}..{p1})")
        c.equal(len(np.asarray(model.mask_by_time(q[:0], one))), 0, "own_mask", "no times")
    if kind != "base":
        c.raises(ValueError, lambda: model.mask_by_time(np.array([1.0]), None), "own_mask", "mask without a sampled state")
    if not has_t0:
        c.seen("own_mask", "no_t0")
        if kind != "base" or has_z:
            return  # a reference time is needed to evaluate these models (any model, when redshifted)
    apply = rng.uniform() < 0.85
    for q in given:
        q.reset()
    res = su.run(model, rng=np.random.default_rng(1), time_window_offset=win, apply_obs_mask=bool(apply), obstable_save_cols=["tag"])
    rules = [lambda t, a=a, b=b: (t > a) & (t < b) for a, b in lim]
    for a, b in lim:
        if np.isfinite(a) and min(np.abs(tt - a).min(), np.abs(tt - b).min()) < 1e-6:
            return  # a row on the very end of the range
    nsel, nall = judge(c, su, res, win, rules if apply else None, ["tag"], t0s)
    free = sum(int(su.covering(sv, i)[0].sum()) for sv in su.surveys for i in range(S))
    c.seen("own_mask", kind)
    if not apply:
        c.seen("own_mask", "off")
    elif 0 < nsel < free and win is None:
        c.seen("own_mask", "cut")
    if has_z and S > 1:
        c.seen("own_mask", "redshifted")
    c.fact(model=kind, phases=(p0, p1), selected=nsel, covering=free)
    if nsel < free:
        c.nontrivial(kind, S, nsel, free, lim[0])


SCENARIOS = [
    Scenario(rows_of_objects, quick=200, thorough=5000),
    Scenario(window_edges, quick=25, thorough=400),
    Scenario(footprints, quick=20, thorough=300),
    Scenario(own_masks, quick=40, thorough=800),
    Scenario(refusals, quick=4, thorough=20),
]
