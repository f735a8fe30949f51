"""P40 - the supernova Ia example run: every result is judged against the visits, the light curve model and the relations it documents."""

import numpy as np
import sncosmo
from astropy.cosmology import FlatLambdaCDM
from scipy import stats

from lclmon import gen, surveys
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.snia_utils import num_snia_per_redshift_bin
from lightcurvelynx.example_runs.simulate_snia import run_snia_end2end

RULE = (
    "Random visits around the field of the example (few or many, over days or months, some far away, two bands), random band tables and "
    "a light curve model standing in for the downloaded one; the whole run is executed and each supernova's visits, spectra in both units, band fluxes, "
    "uncertainties, noise and reported parameters are recomputed. Non-trivial when a supernova has visits; distinct by the first supernova."
)
REQUIRED = ["visits", "no_visits", "outside:place", "outside:time", "repeat", "counted", "noise", "own_check", "fields:many", "population"]
ASSUMPTIONS = ["The SALT3 files cannot be downloaded here, so an analytic light curve with the same parameters stands in under that name."]

C_AA = 2.99792458e18
READS = ["g", "r"]


class StandIn(sncosmo.Source):
    """x0 * (M0 + x1 M1) * 10^(-0.4 c CL), smooth in time and wavelength."""

    _param_names = ["x0", "x1", "c"]
    param_names_latex = ["x_0", "x_1", "c"]

    def __init__(self, shape):
        self.name, self.version = "salt3", "stand-in"
        self._parameters = np.array([1.0, 0.0, 0.0])
        self.shape = shape

    def minwave(self):
        return 2000.0

    def maxwave(self):
        return 11000.0

    def minphase(self):
        return -20.0

    def maxphase(self):
        return 50.0

    def _flux(self, phase, wave):
        x0, x1, col = self._parameters
        return model(self.shape, x0, x1, col, np.atleast_1d(phase), np.atleast_1d(wave))


def model(shape, x0, x1, col, phase, wave):
    p = np.asarray(phase, float)[:, None]
    w = np.asarray(wave, float)[None, :]
    rise, width, peak, tilt = shape
    m0 = np.exp(-0.5 * ((p - 2.0) / rise) ** 2) * np.exp(-0.5 * ((w - peak) / width) ** 2)
    m1 = 0.05 * m0 * np.tanh(p / 20.0)
    return 1e-5 * x0 * (m0 + x1 * m1) * 10.0 ** (-0.4 * col * tilt * (w - 4300.0) / 1000.0)


def write_bands(rng, folder):
    """Two smooth bands in nm; returns the tables in Angstrom."""
    (folder / "LSST").mkdir()
    out = {}
    for band, mid in zip(READS, (rng.uniform(440, 500), rng.uniform(580, 650))):
        w = np.arange(300.0, 800.0, 0.5)
        half = rng.uniform(40, 70)
        u = (w - mid) / half
        t = np.where(np.abs(u) < 1, np.cos(0.5 * np.pi * u) ** 2, 0.0) * rng.uniform(0.2, 0.6)
        with open(folder / "LSST" / f"{band}.dat", "w") as f:
            f.write("# made-up throughput\n# Wavelength(nm) Throughput\n")
            f.writelines(f"{a} {b}\n" for a, b in zip(w, t))
        out[band] = (w * 10.0, t)
    return out


def visits(rng):
    n = int(rng.choice([3, 40, 400, 1500]))
    near = rng.uniform(size=n) < 0.8
    ra = np.where(near, rng.uniform(-2.6, 2.6, n), rng.uniform(0, 360, n)) % 360.0
    dec = np.where(near, rng.uniform(-2.6, 2.6, n), rng.uniform(-80, 80, n))
    time = 60000.0 + rng.uniform(0, float(rng.choice([5.0, 120.0, 400.0])), n)
    return surveys.make(rng, "OpSim", n, positions=(ra, dec), time=time, filters=READS, colmap_custom=False)


def band_flux(table, spec, wave):
    """Photon-weighted mean of spec(wave) over the band."""
    w, t = table
    fine = np.arange(w[0], w[-1], 1.0)
    T = np.interp(fine, w, t)
    return np.trapezoid(spec(fine) * T / fine, fine, axis=-1) / np.trapezoid(T / fine, fine)


def run(c):
    rng = c.rng
    shape = (float(rng.uniform(10, 25)), float(rng.uniform(1500, 3000)), float(rng.uniform(4000, 5000)), float(rng.uniform(-1, 1)))
    sncosmo.register(StandIn(shape), name="salt3", force=True)
    bands = write_bands(rng, c.tmp)
    sv = visits(rng)
    seed = int(rng.integers(2**31))
    N = int(rng.choice([1, 2, 5, 9]))
    counted = bool(rng.uniform() < 0.3)
    kw = {"nsample": N}
    if counted:
        angle = float(rng.uniform(0.0003, 0.002))
        per_year, _ = num_snia_per_redshift_bin(0.1, 0.4, znbins=1, solid_angle=angle, H0=70.0, Omega_m=0.3)
        N = int(per_year[0])
        kw = {"nsample": None, "solid_angle": angle}
        c.seen("counted", N)
    own_check = bool(rng.uniform() < 0.4)
    res, group = run_snia_end2end(sv.table, c.tmp if rng.uniform() < 0.5 else str(c.tmp), rng_info=np.random.default_rng(seed), check_sncosmo=own_check, **kw)
    if own_check:
        c.seen("own_check")
    c.equal(len(res), N, "count", "results for the requested supernovae")
    c.equal(sorted(p.full_name for p in group.passbands.values()), ["LSST_g", "LSST_r"], "bands")
    t = np.asarray(sv.cols["time"], float)
    ra, dec = np.asarray(sv.cols["ra"], float), np.asarray(sv.cols["dec"], float)
    total = 0
    pulls = []
    cosmo = FlatLambdaCDM(H0=73.0, Om0=0.3)
    for i, r in enumerate(res):
        p = r["parameter_values"]
        z = p["redshift"]
        # -- the reported parameters
        c.ok(0.1 - 1e-9 <= z <= 0.4 + 1e-9, "redshift", f"{z} is outside the simulated range")
        c.ok(7 <= p["hostmass"] <= 12, "hostmass", f"{p['hostmass']}")
        c.ok(t.min() <= p["t0"] <= t.max(), "t0", f"{p['t0']} is outside the survey")
        c.ok(max(abs(p["ra"]), abs(p["dec"])) < 0.5 + 0.08, "position", f"{p['ra']}, {p['dec']}")
        c.ok(abs(p["c"]) < 0.02 * 7, "colour", f"{p['c']}")
        c.close(p["distmod"], float(cosmo.distmod(z).value), "distmod", rtol=1e-6)
        m_abs = -2.5 * np.log10(p["x0"]) + 10.635 - p["distmod"] + 0.14 * p["x1"] - 3.1 * p["c"]
        c.ok(abs(m_abs + 19.3) < 0.7, "brightness", f"implied peak magnitude {m_abs}")
        st = r["state"]["source"]
        for k in ("t0", "x0", "x1", "c", "redshift", "ra", "dec"):
            c.equal(float(st[k]), p[k], "state", f"{k} in the state of result {i}")
        # -- the visits
        sep = gen.separation(ra, dec, p["ra"], p["dec"])
        ph = (t - p["t0"]) / (1 + z)
        here = sep < 1.75
        when = (ph > -20) & (ph < 50)
        sure = (np.abs(sep - 1.75) > 1e-7) & (np.abs(ph + 20) > 1e-9) & (np.abs(ph - 50) > 1e-9)
        rows = np.flatnonzero(here & when)
        if sure.all():
            c.equal(sorted(np.asarray(r["times"], float)), sorted(t[rows]), "visits", f"result {i}: z={z}")
        if (~here & when).any():
            c.seen("outside", "place")
        if (here & ~when).any():
            c.seen("outside", "time")
        n = len(r["times"])
        for k in ("filters", "bandfluxes_perfect", "bandfluxes_error", "bandfluxes"):
            c.equal(len(r[k]), n, "lengths", k)
        c.equal(r["flux_nJy"].shape, (n, len(group.waves)), "lengths", "flux_nJy")
        c.close(r["wavelengths_rest"], np.asarray(group.waves) / (1 + z), "rest_waves")
        if n == 0:
            c.seen("no_visits")
            continue
        c.seen("visits", n=n)
        total += n
        when_row = {v: j for j, v in enumerate(t)}
        rows = np.array([when_row[float(v)] for v in r["times"]])
        c.equal(list(r["filters"]), [f"LSST_{b}" for b in np.asarray(sv.cols["filter"])[rows]], "filters")
        # -- the spectra
        phase = (np.asarray(r["times"], float) - p["t0"]) / (1 + z)

        def fnu(w, phase=phase, p=p, z=z):
            flam = model(shape, p["x0"], p["x1"], p["c"], phase, np.asarray(w) / (1 + z)) / (1 + z)
            return flam * np.asarray(w) ** 2 / C_AA * 1e32

        w = np.asarray(group.waves, float)
        want = fnu(w)
        top = float(np.max(np.abs(want)))
        c.close(r["flux_nJy"], want, "spectrum", rtol=1e-6, atol=1e-9 * top)
        c.close(r["flux_fnu"], want, "spectrum_fnu", rtol=1e-6, atol=1e-9 * top)
        c.close(r["flux_flam"], want * C_AA / w**2 * 1e-32, "spectrum_flam", rtol=1e-6, atol=1e-9 * top * C_AA / w[0] ** 2 * 1e-32)
        # -- band fluxes, uncertainties and noise
        f0 = np.array([band_flux(bands[str(b)[-1]], lambda x, j=j: fnu(x)[j], w) for j, b in enumerate(r["filters"][:25])])
        c.close(r["bandfluxes_perfect"][:25], f0, "bandflux", rtol=5e-3, atol=1e-6 * top)
        err = sv.noise(np.asarray(r["bandfluxes_perfect"], float), rows)
        c.close(np.asarray(r["bandfluxes_error"], float), err, "uncertainty", rtol=1e-7)
        pull = (np.asarray(r["bandfluxes"], float) - r["bandfluxes_perfect"]) / err
        c.ok(np.all(np.isfinite(pull)) and np.max(np.abs(pull)) < 7, "noise", f"largest deviation {np.max(np.abs(pull))} sigma")
        pulls.extend(pull.tolist())
    if len(pulls) > 60:
        m = len(pulls)
        c.ok(abs(np.mean(pulls)) < 6 / np.sqrt(m) and abs(np.std(pulls) - 1) < 6 / np.sqrt(2 * m), "noise_size", f"mean {np.mean(pulls)}, spread {np.std(pulls)} of {m}")
        c.ok(len(np.unique(pulls)) > 0.9 * m, "noise_repeats", "the same noise several times")
        c.seen("noise", n=m)
    zs = [r["parameter_values"]["redshift"] for r in res]
    c.equal(len(set(zs)), len(zs), "distinct", "supernovae share a redshift")
    if len(res) > 4:
        c.seen("fields", "many")
    # -- the same generator gives the same run
    if total < 3000 and rng.uniform() < 0.5:
        again, _ = run_snia_end2end(sv.table, c.tmp, rng_info=np.random.default_rng(seed), **kw)
        for a, b in zip(res, again, strict=True):
            c.equal(b["parameter_values"], a["parameter_values"], "repeat", "parameters from the same generator")
            c.equal(np.asarray(b["bandfluxes"]), np.asarray(a["bandfluxes"]), "repeat", "fluxes from the same generator")
        c.seen("repeat")
    c.fact(visits=len(t), N=N, counted=counted, rows=total, own_check=own_check)
    if total:
        c.nontrivial(len(t), N, seed)


def population(c):
    """The drawn supernovae follow the documented distributions and brightness relation."""
    rng = c.rng
    sncosmo.register(StandIn((15.0, 2000.0, 4500.0, 0.5)), name="salt3", force=True)
    write_bands(rng, c.tmp)
    lo, hi = 60000.0, 60000.0 + float(rng.uniform(10, 3000))
    sv = surveys.make(rng, "OpSim", 2, positions=([0.3, 120.0], [0.1, 60.0]), time=[lo, hi], filters=READS)
    N = 2000
    res, _ = run_snia_end2end(sv.table, c.tmp, nsample=N, rng_info=np.random.default_rng(int(rng.integers(2**31))))
    v = {k: np.array([r["parameter_values"][k] for r in res], float) for k in ("t0", "x0", "x1", "c", "redshift", "ra", "dec", "hostmass", "distmod")}

    def like(name, x, cdf):
        got = stats.kstest(x, cdf).pvalue
        c.ok(got > 1e-9, "distribution", f"{name}: p={got} (mean {np.mean(x)}, spread {np.std(x)})")

    like("t0", v["t0"], stats.uniform(lo, hi - lo).cdf)
    like("hostmass", v["hostmass"], stats.uniform(7, 5).cdf)
    like("c", v["c"], stats.norm(0, 0.02).cdf)
    smear = np.random.default_rng(0)
    field = np.sort(smear.uniform(-0.5, 0.5, 200000) + 0.01 * smear.normal(size=200000))
    for k in ("ra", "dec"):
        like(k, v[k], lambda x: np.searchsorted(field, x) / len(field))
    per, mid = num_snia_per_redshift_bin(0.1, 0.4, 100, H0=70.0, Omega_m=0.3)
    cum = np.cumsum(per) / np.sum(per)
    like("redshift", v["redshift"], lambda z: np.interp(z, np.append(0.1, mid + 0.0015), np.append(0.0, cum)))
    c.close(v["distmod"], FlatLambdaCDM(H0=73.0, Om0=0.3).distmod(v["redshift"]).value, "distmod", rtol=1e-6)
    # peak magnitude = m_abs - alpha x1 + beta c, with m_abs ~ N(-19.3, 0.1)
    mag = -2.5 * np.log10(v["x0"]) + 10.635 - v["distmod"]
    A = np.stack([np.ones(N), -v["x1"], v["c"]], axis=1)
    coef = np.linalg.lstsq(A, mag, rcond=None)[0]
    sig = 0.1 * np.sqrt(np.diag(np.linalg.inv(A.T @ A)))
    for name, got, want, s in zip(("m_abs", "alpha", "beta"), coef, (-19.3, 0.14, 3.1), sig, strict=True):
        c.ok(abs(got - want) < 6 * s, "relation", f"{name}: fitted {got}, documented {want} (sigma {s})")
    spread = float(np.std(mag - A @ [-19.3, 0.14, 3.1]))
    c.ok(abs(spread - 0.1) < 6 * 0.1 / np.sqrt(2 * N), "relation", f"scatter {spread}")
    # x1 follows the host: low-mass hosts have slow decliners only
    low = v["hostmass"] < 10
    c.ok(np.mean(v["x1"][low]) > np.mean(v["x1"][~low]) + 0.2, "host_relation", "x1 does not depend on the host mass")
    c.seen("population", n=N)
    c.fact(N=N)
    c.nontrivial("population", float(v["x0"][0]))


SCENARIOS = [Scenario(run, quick=48, thorough=1200), Scenario(population, quick=4, thorough=40)]
