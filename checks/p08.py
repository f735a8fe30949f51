"""P08 - reported noise follows each observation's own uncertainty."""

import numpy as np
from scipy import stats

from lclmon import sims, sources
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.noise_model import apply_noise

RULE = (
    "Simulations of random models (fluxes from zero to very bright) over 1-3 random surveys of every table class with own settings, zero points, "
    "constant and zero errors, filtered tables, masks and time windows, given and default generators; each observation is joined to its survey row by a saved tag, its "
    "uncertainty is recomputed from that row's columns by an independent noise formula, and the standardised residuals of a case are "
    "tested for normality, variance and independence along observations, objects, surveys and repeated runs (rejection beyond 1e-9). "
    "Non-trivial: at least 30 residuals; distinct by surveys, model and uncertainties."
)
REQUIRED = [
    "filter_names:long",
    "kind:OpSim", "kind:ZTFObsTable", "kind:FakeObsTable", "surveys:1", "surveys:2", "surveys:3", "filtered", "flux:zero", "flux:faint", "flux:bright", "error:constant", "error:per_band",
    "error:zero", "rng:given", "rng:default", "tests:normal", "tests:objects", "tests:surveys", "tests:runs", "noise_fn", "restricted:mask", "restricted:window", "reused_generator",
]
ASSUMPTIONS = ["Negative noise-free fluxes are outside the claim (the photon noise of a negative flux is undefined)."]
PMIN = 1e-9


def normal(c, z, tag, msg):
    z = np.asarray(z, float)
    if len(z) < 30:
        return
    p = stats.kstest(z, "norm").pvalue
    c.ok(p > PMIN, tag, f"{msg}: residuals not standard normal, p={p:.2g}, mean={z.mean():.3f}, std={z.std():.3f}, n={len(z)}")
    pv = 2 * min(stats.chi2.cdf(np.sum(z**2), len(z)), stats.chi2.sf(np.sum(z**2), len(z)))
    c.ok(pv > PMIN, tag + ":variance", f"{msg}: variance {np.mean(z**2):.3f}, p={pv:.2g}, n={len(z)}")
    c.seen("residuals", tag, len(z))


def uncorrelated(c, a, b, tag, msg):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if len(a) < 30:
        return
    r = np.sum(a * b) / np.sqrt(len(a))
    p = 2 * stats.norm.sf(abs(r) / max(1.0, np.sqrt(np.mean(a**2) * np.mean(b**2))))
    c.ok(p > PMIN, tag, f"{msg}: correlation {r / np.sqrt(len(a)):.3f} over {len(a)}, p={p:.2g}")
    c.ok(len(a) < 30 or np.mean(a == b) < 0.05, tag + ":equal", f"{msg}: repeated residuals")


def bright_source(c, S, pos, filters, one):
    rng = c.rng
    r = rng.uniform()
    if r < 0.35:
        level = float(rng.choice([0.0, 1e-12, 1e-3, 1.0, 1e4, 1e9]))
        c.seen("flux", {0.0: "zero", 1e-12: "faint", 1e-3: "faint", 1e9: "bright"}.get(level, "plain"))
        src = sources.sed_source(rng, S, kind="constant", position=pos, redshift=None)
        src.model.set_parameter("brightness", level)
        return src
    return sources.any_source(rng, S, position=pos, filters=filters, allow_band=one)


def judged(c, su, res):
    """Standardised residuals [(survey, object, tag, z)] after checking every uncertainty."""
    out = []
    for i in range(su.S):
        lc = sims.light_curve(res, i)
        n = len(lc["mjd"])
        for s, sv in enumerate(su.surveys):
            j = [k for k in range(n) if lc["survey_idx"][k] == s]
            if not j:
                continue
            f0, f1, e = (np.array([lc[x][k] for k in j], float) for x in ("flux_perfect", "flux", "fluxerr"))
            rows = []
            for k in j:
                m = np.flatnonzero((np.asarray(sv.cols["tag"]) == int(lc["tag"][k])) & (np.asarray(sv.cols["time"], float) == lc["mjd"][k]))
                c.ok(len(m) >= 1, "row", f"observation of no row: {lc['mjd'][k]}")
                rows.append(int(m[0]) if len(m) else 0)
            c.ok(np.all(np.isfinite(e)) and np.all(e >= 0), "finite", f"object {i}: uncertainties {e[:4]}")
            c.close(e, sv.noise(f0, rows), "uncertainty", rtol=2e-4 if sv.kind == "ZTFObsTable" else 1e-8, atol=1e-12, msg=f"object {i} survey {s} ({sv.kind})")
            zero = e == 0
            c.ok(np.array_equal(f1[zero], f0[zero]), "no_noise")
            if zero.any():
                c.seen("error", "zero")
            # Flux minus noise-free flux loses its digits when the noise is far below the rounding.
            use = ~zero & (e > 1e-7 * np.abs(f0))
            for k in np.flatnonzero(use):
                out.append((s, i, rows[k], (f1[k] - f0[k]) / e[k]))
    return out


def setup(c, S, **kw):
    su = sims.Setup(c.rng, S, **kw)
    c.seen("filter_names", "long" if su.long_names else "short")
    for sv in su.surveys:
        c.seen("kind", sv.kind)
        if len(sv.cols["ra"]) < len(sv.source[list(sv.source)[0]]):
            c.seen("filtered")
        ce = sv.settings.get("const_flux_error")
        if ce is not None:
            c.seen("error", "per_band" if isinstance(ce, dict) else "constant")
    c.seen("surveys", str(len(su.surveys)))
    return su


def reported_noise(c):
    rng = c.rng
    S = int(rng.choice([1, 5, 20]))
    su = setup(c, S, rows=int(rng.choice([3, 40, 90])))
    src = bright_source(c, S, su.position(), su.all_filters, len(su.surveys) == 1)
    g = None
    if rng.uniform() < 0.7:
        g = np.random.default_rng(int(rng.integers(2**31)))
        g.normal(size=int(rng.integers(0, 5)))
    c.seen("rng", "default" if g is None else "given")
    res = su.run(src.model, rng=g, obstable_save_cols=["tag"], **sims.restrict(c, src.model))
    z = judged(c, su, res)
    zz = np.array([x[3] for x in z])
    normal(c, zz, "normal", src.desc)
    c.seen("tests", "normal")
    uncorrelated(c, zz[:-1], zz[1:], "neighbours", "consecutive observations")
    if len(su.surveys) == 1 and S > 1:
        # The same row seen by two objects.
        by = {}
        for s, i, r, v in z:
            by.setdefault(r, {})[i] = v
        pairs = [(d[a], d[b]) for d in by.values() for a in d for b in d if b == a + 1]
        if pairs:
            uncorrelated(c, *np.array(pairs).T, "objects", "two objects in one visit")
            c.seen("tests", "objects")
    c.fact(model=src.desc, surveys=[s.kind for s in su.surveys], residuals=len(z), std=float(zz.std()) if len(zz) else None)
    if len(z) >= 30:
        c.nontrivial(src.desc, [s.kind for s in su.surveys], len(z), float(zz[0]))


def twin_surveys(c):
    """The same table given twice, the same object in both, and the same simulation repeated."""
    rng = c.rng
    S = int(rng.integers(3, 8))
    su = setup(c, S, n_surveys=1, rows=60)
    su.ra[:], su.dec[:] = su.ra[0], su.dec[0]
    sv = su.surveys[0]
    i = int(rng.integers(len(sv)))
    su.ra[:], su.dec[:] = sv.cols["ra"][i], sv.cols["dec"][i]
    su.surveys = [sv, sv]
    su.groups = su.groups * 2
    src = sources.sed_source(rng, S, kind="constant", position=(float(su.ra[0]), float(su.dec[0])), redshift=None)
    g = np.random.default_rng(int(rng.integers(2**31)))
    runs = [judged(c, su, su.run(src.model, rng=g if rng.uniform() < 0.7 else None, obstable_save_cols=["tag"])) for _ in range(2)]
    c.seen("reused_generator")
    a = {(i, r): v for s, i, r, v in runs[0] if s == 0}
    b = {(i, r): v for s, i, r, v in runs[0] if s == 1}
    k = [x for x in a if x in b]
    uncorrelated(c, [a[x] for x in k], [b[x] for x in k], "surveys", "two surveys")
    c.seen("tests", "surveys")
    d = {(i, r): v for s, i, r, v in runs[1] if s == 0}
    k = [x for x in a if x in d]
    uncorrelated(c, [a[x] for x in k], [d[x] for x in k], "runs", "two runs")
    c.seen("tests", "runs")
    normal(c, [x[3] for x in runs[0] + runs[1]], "normal", "twin surveys")
    c.fact(kind=sv.kind, residuals=len(runs[0]))
    if len(k) >= 30:
        c.nontrivial(sv.kind, len(k), runs[0][0][3])


def zero_error(c):
    """Surveys with an uncertainty of zero in some bands."""
    rng = c.rng
    S = int(rng.integers(1, 5))
    su = sims.Setup(rng, S, n_surveys=1, rows=30, kinds=["FakeObsTable"], const_error=True)
    sv = su.surveys[0]
    ce = {f: float(rng.choice([0.0, rng.uniform(0.1, 5)])) for f in su.all_filters}
    ce[su.all_filters[0]] = 0.0
    kw = dict(sv.ctor, const_flux_error=ce if rng.uniform() < 0.7 else 0.0)
    sv.settings["const_flux_error"] = kw["const_flux_error"]
    n0 = len(sv.cols["ra"])
    sv.table = type(sv.table)(sv.source, **kw)
    sv.cols = {k: (np.asarray(sv.source[sv.native.get(k, k)]) if sv.native.get(k, k) in sv.source else v) for k, v in sv.cols.items()}
    c.seen("error", "zero")
    src = bright_source(c, S, su.position(), su.all_filters, True)
    res = su.run(src.model, rng=np.random.default_rng(5), obstable_save_cols=["tag"])
    z = judged(c, su, res)
    c.fact(rows=n0, residuals=len(z), errors=kw["const_flux_error"])
    c.nontrivial(str(kw["const_flux_error"]), len(z), n0)


def noise_function(c):
    """The noise step itself over arrays of any shape."""
    rng = c.rng
    shape = [(400,), (20, 30), (1, 500)][int(rng.integers(3))]
    f = rng.normal(size=shape) * 10 ** rng.uniform(-5, 6)
    e = np.abs(rng.normal(size=shape)) * 10.0 ** rng.uniform(-3, 3)
    e[rng.uniform(size=shape) < 0.1] = 0
    keep = f.copy(), e.copy()
    g = np.random.default_rng(int(rng.integers(2**31))) if rng.uniform() < 0.6 else None
    out = np.asarray(apply_noise(f, e, rng=g))
    c.ok(np.array_equal(f, keep[0]) and np.array_equal(e, keep[1]), "inputs_changed")
    c.equal(out.shape, shape, "shape")
    c.ok(np.array_equal(out[e == 0], f[e == 0]), "no_noise")
    m = (e > 1e-7 * np.abs(f)) & (e > 0)
    z = (out - f)[m] / e[m]
    normal(c, z, "normal", "apply_noise")
    uncorrelated(c, z[:-1], z[1:], "neighbours", "apply_noise")
    c.seen("noise_fn")
    c.fact(shape=shape, n=int(m.sum()))
    c.nontrivial(shape, float(z[0]) if len(z) else 0)


QUICK_SCALE = 8
SCENARIOS = [
    Scenario(reported_noise, quick=150, thorough=4000),
    Scenario(twin_surveys, quick=25, thorough=500),
    Scenario(zero_error, quick=20, thorough=300),
    Scenario(noise_function, quick=20, thorough=300),
]
