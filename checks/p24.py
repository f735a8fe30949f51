"""P24 - closed-form source models."""

import math

import numpy as np
from astropy.table import Table
from scipy.interpolate import make_interp_spline

from lclmon import sources
from lclmon.core import Scenario
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel, LinearWavelengthModel, SinWaveModel, StepModel
from lightcurvelynx.models.galaxy_models import GaussianGalaxy
from lightcurvelynx.models.redback_models import RedbackWrapperModel
from lightcurvelynx.models.spline_model import SplineModel
from lightcurvelynx.models.static_sed_model import StaticBandfluxModel, StaticSEDModel
from lightcurvelynx.utils.io_utils import write_numpy_data

RULE = (
    "Constant, step, sinusoid, linear, tabulated spectrum, tabulated band-flux, spline-grid (degrees 1-3 in each direction) and galaxy sources with constant, node or listed parameters, evaluated at unordered, repeated, empty and edge requests; "
    "every value is compared with a scalar formula written here (tensor products of one-dimensional interpolating splines for the grid), and again with the same sample and each point asked for alone. Spectra and grids also go through files and the "
    "spectral library. Non-trivial: at least one time and wavelength. Distinct by model and recorded parameters."
)
REQUIRED = [
    "model:constant", "model:step", "model:sin", "model:linear", "model:static", "model:bandflux", "model:spline", "model:galaxy", "point_alone", "sample_alone", "request:empty_times", "request:repeated", "request:unsorted", "edge:t0", "edge:t1",
    "degree:1", "degree:2", "degree:3", "spline:at_grid", "spline:between", "spline:no_t0", "spline:outside_times", "static:own_waves", "static:between", "static:choice", "static:ends", "file:spectrum", "file:grid", "synphot", "synphot:waves", "synphot:redshifted_refused",
    "redback:given", "redback:prior", "redback:both", "redback:own_redshift", "redback:refused", "galaxy:on_centre", "galaxy:offset", "galaxy:wrap", "galaxy:pole", "galaxy:no_position", "refused:spectrum", "unchanged", "weights", "samples:many", "bandflux:unknown_filter", "defaults", "negative",
]
ASSUMPTIONS = ["Times before the first or after the last grid time of a spline source are held at that edge, the documented behaviour of the interpolator it wraps."]


def p_(rng, S, lo, hi):
    r = rng.uniform()
    if r < 0.3:
        return float(rng.uniform(lo, hi))
    if r < 0.65:
        return GivenValueList([float(x) for x in rng.uniform(lo, hi, S)])
    return NumpyRandomFunc("uniform", low=lo, high=hi, seed=int(rng.integers(2**31)))


def request(c, lo, hi, wlo, whi, extra_t=(), extra_w=()):
    rng = c.rng
    t = np.concatenate([rng.uniform(lo, hi, int(rng.integers(1, 8))), np.asarray(extra_t, float)])
    w = np.concatenate([rng.uniform(wlo, whi, int(rng.integers(1, 8))), np.asarray(extra_w, float)])
    rng.shuffle(t)
    rng.shuffle(w)
    if rng.uniform() < 0.3:
        t, w = np.concatenate([t, t[:1]]), np.concatenate([w[-1:], w])
        c.seen("request", "repeated")
    if np.any(np.diff(t) < 0) or np.any(np.diff(w) < 0):
        c.seen("request", "unsorted")
    return t, w


def verify(c, model, names, value, t, w, S, rtol=1e-11, atol=1e-12, kw=None, sort_waves=False):
    """Compares every sample, time and wavelength with the scalar `value(params, t, w)`."""
    rng = c.rng
    kw = kw or {}
    state = model.sample_parameters(num_samples=S)
    keep_t, keep_w = t.copy(), w.copy()
    f = model.evaluate_sed(t, w, state, **kw)
    c.ok(f.shape == ((S, len(t), len(w)) if S > 1 else (len(t), len(w))), "shape", f"{f.shape}")
    c.ok(np.array_equal(t, keep_t) and np.array_equal(w, keep_w), "unchanged", "the request arrays are not modified")
    c.seen("unchanged")
    c.seen("samples", "many" if S > 1 else "one")
    one = sources.singles(state)
    params = []
    for i, x in enumerate(one):
        p = {n: model.get_param(x, n) for n in names}
        params.append(p)
        want = np.array([[value(p, float(a), float(b)) for b in w] for a in t], float).reshape(len(t), len(w))
        c.close(f[i] if S > 1 else f, want, "formula", rtol, atol + rtol * (np.abs(want).max() if want.size else 0), "documented formula", params=str(p)[:300])
    c.nontrivial(type(model).__name__, str(params))
    i = int(rng.integers(S))
    fi = f[i] if S > 1 else f
    c.close(model.evaluate_sed(t[::-1].copy(), w, one[i], **kw), fi[::-1], "sample_alone", 1e-13, 1e-13, "one sample alone, times reversed")
    c.seen("sample_alone")
    a, b = int(rng.integers(len(t))), int(rng.integers(len(w)))
    c.close(model.evaluate_sed(t[a : a + 1], w[b : b + 1], one[i], **kw), fi[a : a + 1, b : b + 1], "point_alone", 1e-12, 1e-12 * (1 + np.abs(fi).max()), "one point alone")
    c.seen("point_alone")
    if rng.uniform() < 0.2:
        c.ok(model.evaluate_sed(np.array([]), w, one[i], **kw).shape == (0, len(w)), "empty", "no times")
        c.seen("request", "empty_times")
    return params, one


def basic(c):
    """Constant, step, sinusoid and linear sources."""
    rng = c.rng
    S = int(rng.choice([1, 2, 4, 7]))
    kind = str(rng.choice(["constant", "step", "sin", "linear"]))
    c.seen("model", kind)
    neg = bool(rng.uniform() < 0.2)
    lo, hi = (-300, 300) if neg else (0.0, 1000)
    if neg:
        c.seen("negative")
    base = dict(ra=p_(rng, S, 0, 360), dec=p_(rng, S, -90, 90))
    if rng.uniform() < 0.3:
        base["redshift"] = 0.0
        base["t0"] = p_(rng, S, -50, 50)
    et, ew, absent = [], [], {}
    if kind == "constant":
        m = ConstantSEDModel(brightness=p_(rng, S, lo, hi), **base)
        names, value = ["brightness"], lambda p, t, w: p["brightness"]
    elif kind == "step":
        t0, dur = float(rng.integers(-40, 20)), float(rng.integers(0, 30))
        if rng.uniform() < 0.5:
            base["t0"], t1 = t0, t0 + dur
            et = [t0, np.nextafter(t0, -np.inf), t1, np.nextafter(t1, np.inf), t1 + 1]
            c.seen("edge", "t0")
            c.seen("edge", "t1")
        else:
            base["t0"], t1 = p_(rng, S, -40, 0), p_(rng, S, -10, 40)
        m = StepModel(p_(rng, S, lo, hi), t1=t1, **base)
        names, value = ["brightness", "t0", "t1"], lambda p, t, w: p["brightness"] if p["t0"] <= t <= p["t1"] else 0.0
    elif kind == "sin":
        base.setdefault("t0", p_(rng, S, -50, 50))
        kw = dict(brightness=p_(rng, S, lo, hi), amplitude=p_(rng, S, -50, 400), frequency=p_(rng, S, 0.0, 3.0))
        dropped = {"brightness": 0.0, "amplitude": 0.0, "frequency": 1.0}
        for k in list(kw):
            if rng.uniform() < 0.1:
                del kw[k]
                c.seen("defaults")
        m = SinWaveModel(**kw, **base)
        names = ["brightness", "amplitude", "frequency", "t0"]
        value = lambda p, t, w: p["brightness"] + p["amplitude"] * math.sin(2 * math.pi * p["frequency"] * (t - p["t0"]))  # noqa: E731
        absent = {k: v for k, v in dropped.items() if k not in kw}
    else:
        m = LinearWavelengthModel(p_(rng, S, lo, hi), p_(rng, S, -0.1, 0.3), **base)
        names, value = ["linear_base", "linear_scale"], lambda p, t, w: p["linear_base"] + p["linear_scale"] * w
    t, w = request(c, -60, 60, 1000, 20000, et, ew)
    params, _ = verify(c, m, names, value, t, w, S, rtol=1e-10 if kind == "sin" else 1e-12, atol=1e-9 if kind == "sin" else 1e-12)
    for k, v in absent.items():
        c.ok(all(float(p[k]) == v for p in params), "default", f"default {k}")


def static_value(sed):
    def at(w):
        xs, ys = sed
        if w < xs[0] or w > xs[-1]:
            return 0.0
        j = 0
        while j + 2 < len(xs) and xs[j + 1] <= w:
            j += 1
        return ys[j] + (ys[j + 1] - ys[j]) * ((w - xs[j]) / (xs[j + 1] - xs[j]))

    return at


def spectrum(rng, n=None):
    n = n or int(rng.integers(2, 25))
    w = np.sort(rng.uniform(1000, 20000, n)) + np.arange(n) * 0.25
    return np.vstack([w, rng.uniform(-10, 400, n)])


def static(c):
    """Tabulated spectra."""
    rng = c.rng
    S = int(rng.choice([1, 3, 8]))
    k = int(rng.integers(1, 5))
    seds = [spectrum(rng) for _ in range(k)]
    keep = [s.copy() for s in seds]
    weights = rng.uniform(0, 2, k) + (np.arange(k) == 0) if rng.uniform() < 0.5 else None
    if weights is not None:
        c.seen("weights")
        if k > 1 and rng.uniform() < 0.4:
            weights[1] = 0.0
    arg = seds[0] if k == 1 and rng.uniform() < 0.5 else seds
    m = StaticSEDModel(arg, weights=weights, **({"t0": 5.0, "redshift": 0.0} if rng.uniform() < 0.3 else {}))
    c.seen("model", "static")
    c.equal(len(m), k, "len", "number of spectra")
    s0 = seds[int(rng.integers(k))]
    t, w = request(c, -100, 100, 500, 21000, (), np.concatenate([s0[0][:3], s0[0][-2:]]))
    c.seen("static", "own_waves")
    c.seen("static", "between")
    c.seen("static", "ends")
    at = [static_value(s) for s in seds]
    params, one = verify(c, m, ["selected_idx"], lambda p, t, w: at[int(p["selected_idx"])](w), t, w, S, rtol=1e-12, atol=1e-11)
    idx = [int(p["selected_idx"]) for p in params]
    c.ok(all(0 <= i < k for i in idx), "choice", f"choices {idx}")
    if weights is not None:
        c.ok(all(weights[i] > 0 for i in idx), "zero_weight", "a spectrum of weight zero is never chosen", idx=idx)
    if len(set(idx)) > 1:
        c.seen("static", "choice")
    # The values at the tabulated wavelengths are the tabulated values, bit for bit.
    x = one[-1]
    i = int(m.get_param(x, "selected_idx"))
    got = m.evaluate_sed(np.array([0.0, 7.0]), seds[i][0], x)
    c.equal(got.tolist(), [seds[i][1].tolist()] * 2, "own_waves", "tabulated values at tabulated wavelengths")
    c.ok(all(np.array_equal(a, b) for a, b in zip(seds, keep)), "unchanged", "the given tables are not modified")
    if rng.uniform() < 0.3:
        bad = seds[0].copy()
        which = int(rng.integers(6))
        if which == 0:
            bad[0] = bad[0][::-1]
        elif which == 1:
            bad = bad[:, :1]
        elif which == 2:
            bad = np.vstack([bad, bad[:1]])
        elif which == 3:
            bad = bad.ravel()
        elif which == 4:
            bad = bad[:1]
        else:
            bad = bad.tolist()
        c.raises(ValueError, lambda: StaticSEDModel([bad]), "refused", "malformed spectrum")
        c.seen("refused", "spectrum")


def bandflux(c):
    """Tabulated band fluxes."""
    rng = c.rng
    S = int(rng.choice([1, 2, 6]))
    filters = [str(f) for f in rng.permutation(list("ugrizy"))[: int(rng.integers(1, 6))]]
    k = int(rng.integers(1, 4))
    maps = [{f: float(rng.uniform(-20, 500)) for f in filters} for _ in range(k)]
    weights = rng.uniform(0.1, 2, k) if rng.uniform() < 0.5 else None
    m = StaticBandfluxModel(maps[0] if k == 1 and rng.uniform() < 0.5 else maps, weights=weights)
    c.seen("model", "bandflux")
    c.equal(len(m), k, "len", "number of mappings")
    pbs = sources.group(rng, filters)
    n = int(rng.integers(1, 12))
    t, fl = rng.uniform(-1e3, 1e5, n), np.array([str(f) for f in rng.choice(filters, n)])
    state = m.sample_parameters(num_samples=S)
    f = m.evaluate_bandfluxes(pbs, t, fl, state)
    rec = []
    for i, x in enumerate(sources.singles(state)):
        j = int(m.get_param(x, "selected_idx"))
        rec.append(j)
        c.equal((f[i] if S > 1 else f).tolist(), [maps[j][q] for q in fl], "value", "the chosen mapping's value of each filter")
    c.nontrivial(str(maps), str(rec), str(fl))
    other = np.array(["q"])
    c.raises(Exception, lambda: m.evaluate_bandfluxes(pbs, t[:1], other, m.sample_parameters()), "refused_filter", "a filter the source has no value for")
    c.seen("bandflux", "unknown_filter")


def spline_ref(ts, ws, F, kt, kw):
    """Tensor product of one-dimensional interpolating splines (wavelength first)."""
    along_w = make_interp_spline(ws, F.T, k=kw)

    def at(t, w):
        t = min(max(t, ts[0]), ts[-1])
        return float(make_interp_spline(ts, along_w(w), k=kt)(t))

    return at


def spline(c):
    """Spline grids."""
    rng = c.rng
    S = int(rng.choice([1, 2, 4]))
    kt, kw = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    if rng.uniform() < 0.2:
        kt = kw = 3
    nt, nw = int(rng.integers(max(4, kt + 1), 12)), int(rng.integers(max(4, kw + 1), 14))
    ts = np.round(np.cumsum(rng.uniform(0.5, 12, nt)) - 20, 3)
    ws = np.round(1500 + np.cumsum(rng.uniform(60, 900, nw)), 2)
    F = rng.normal(100, 40, (nt, nw))
    amp = p_(rng, S, 0.1, 5)
    no_t0 = rng.uniform() < 0.2
    off = 0.0 if no_t0 else float(rng.choice([0.0, 60000.0, rng.uniform(-30, 60000)]))
    kwargs = {} if no_t0 else {"t0": off if rng.uniform() < 0.4 else p_(rng, S, off - 5, off + 5)}
    deg = dict(time_degree=kt, wave_degree=kw)
    plain = rng.uniform() < 0.15
    if plain:
        c.seen("defaults")
    else:
        kwargs["amplitude"] = amp
    if kt == 3 and kw == 3 and rng.uniform() < 0.5:
        deg = {}
        c.seen("defaults")
    keep = ts.copy(), ws.copy(), F.copy()
    if rng.uniform() < 0.25:
        path = c.tmp / "grid.dat"
        fmt = str(rng.choice(["ascii", "ascii.csv", "ascii.ecsv"]))
        T, W = np.meshgrid(ts, ws, indexing="ij")
        Table([T.ravel(), W.ravel(), F.ravel()], names=("time", "wave", "flux")).write(path, format="ascii.no_header" if fmt == "ascii" and rng.uniform() < 0.5 else fmt, overwrite=True)
        m = SplineModel.from_file(path, format=fmt, **deg, **kwargs)
        c.seen("file", "grid")
    else:
        m = SplineModel(ts, ws, F, **deg, **kwargs)
    c.seen("model", "spline")
    c.seen("degree", kt)
    c.seen("degree", kw)
    if no_t0:
        c.seen("spline", "no_t0")
    ref = spline_ref(ts, ws, F, kt, kw)
    t, w = request(c, off + ts[0] - 10, off + ts[-1] + 10, ws[0], ws[-1], [off + ts[1], off + ts[0] - 3, off + ts[-1] + 5], [ws[0], ws[-1], ws[2]])
    c.seen("spline", "between")
    c.seen("spline", "outside_times")
    _, one = verify(c, m, ["amplitude", "t0"], lambda p, x, y: p["amplitude"] * ref(x - (p["t0"] or 0.0), y), t, w, S, rtol=1e-9, atol=1e-7)
    # At the grid the values are the grid.
    state = one[0]
    c.equal([float(m.minwave(state)), float(m.maxwave(state))], [ws[0], ws[-1]], "range", "declared wavelength range")
    off = 0.0 if no_t0 else float(m.get_param(state, "t0"))
    amp1 = 1.0 if plain else float(m.get_param(state, "amplitude"))
    got = m.evaluate_sed(ts + off, ws, state)
    c.close(got, amp1 * F, "at_grid", 1e-7, 1e-6, "grid values at grid points")
    c.seen("spline", "at_grid")
    c.ok(all(np.array_equal(a, b) for a, b in zip((ts, ws, F), keep)), "unchanged", "the given grid is not modified")


def haversine(ra1, dec1, ra2, dec2):
    a, b, d, e = (math.radians(x) for x in (ra1, dec1, ra2, dec2))
    h = math.sin((e - b) / 2) ** 2 + math.cos(b) * math.cos(e) * math.sin((d - a) / 2) ** 2
    return math.degrees(2 * math.asin(min(1.0, math.sqrt(h))))


def galaxy(c):
    """Gaussian galaxies seen off-centre."""
    rng = c.rng
    S = int(rng.choice([1, 2, 4]))
    where = str(rng.choice(["any", "wrap", "pole"]))
    r = 10 ** float(rng.uniform(-4, 0.7))
    if where == "any":
        ra, dec = float(rng.uniform(0, 360)), float(rng.uniform(-85, 85))
    elif where == "wrap":
        ra, dec = float(rng.choice([0.0, 359.9999, 1e-4])), float(rng.choice([rng.uniform(-60, 60), 0.0]))
    else:
        ra, dec = float(rng.uniform(0, 360)), float(rng.choice([-1, 1]) * (90 - rng.uniform(0, 0.01)))
    dec2 = float(np.clip(dec + rng.uniform(-2, 2) * r, -90, 90))
    ra2 = (ra + float(rng.uniform(-2, 2)) * r / max(math.cos(math.radians(dec)), 1e-2)) % 360
    if where == "wrap" and ra != 0.0 and rng.uniform() < 0.5:
        ra2 = 0.0
    spot = str(rng.choice(["offset", "offset", "centre", "none"]))
    kw = {}
    if spot == "centre":
        kw = dict(ra=ra, dec=dec)
    elif spot == "offset":
        kw = dict(ra=ra2, dec=dec2)
    d = haversine(ra, dec, kw["ra"], kw["dec"]) if kw else 0.0
    radius = p_(rng, S, 0.5 * r, 2 * r)
    m = GaussianGalaxy(p_(rng, S, 1, 500), radius, ra=ra, dec=dec)
    c.seen("model", "galaxy")
    c.seen("galaxy", {"centre": "on_centre", "offset": "offset", "none": "no_position"}[spot])
    if where != "any":
        c.seen("galaxy", where)
    t, w = request(c, 0, 10, 3000, 9000)
    verify(c, m, ["brightness", "galaxy_radius_std", "ra", "dec"], lambda p, x, y: p["brightness"] * math.exp(-0.5 * (d / p["galaxy_radius_std"]) ** 2), t, w, S, rtol=1e-6, atol=1e-9, kw=kw)


def files(c):
    """Spectra from files and from the spectral library."""
    import astropy.units as u
    from synphot import SourceSpectrum
    from synphot.models import BlackBodyNorm1D, Empirical1D

    rng = c.rng
    sed = spectrum(rng)
    c.nontrivial(*sed[:, 0])
    suffix = str(rng.choice([".npy", ".csv", ".txt", ".dat", ".npz", ".ecsv"]))
    path = c.tmp / f"spec{suffix}"
    try:
        write_numpy_data(path, sed.T)
    except ValueError:
        suffix = ".npy"
        path = c.tmp / "spec.npy"
        np.save(path, sed.T)
    m = StaticSEDModel.from_file(path if rng.uniform() < 0.5 else str(path), t0=3.0)
    state = m.sample_parameters()
    got = m.evaluate_sed(np.array([1.0]), sed[0], state)[0]
    c.close(got, sed[1], "file", 1e-12, 1e-9, f"spectrum read from {suffix}")
    c.equal(float(m.get_param(state, "t0")), 3.0, "file_kwargs", "remaining arguments reach the source")
    c.close([float(m.minwave(state)), float(m.maxwave(state))], sed[0][[0, -1]], "file_range", 1e-12, 0, "range of the file")
    c.seen("file", "spectrum")
    # Library spectra: photon flux density to nJy by hand, f_nu = N_lambda h lambda.
    h = 6.62607015e-27
    if rng.uniform() < 0.5:
        w = np.sort(rng.uniform(1000, 20000, 12)) + np.arange(12)
        N = rng.uniform(0, 1e-3, 12)
        sp = SourceSpectrum(Empirical1D, points=w * u.AA, lookup_table=N)
        truth = lambda x: np.interp(x, w, N)  # noqa: E731
        own = w
    else:
        temp = float(rng.uniform(2500, 30000))
        sp = SourceSpectrum(BlackBodyNorm1D, temperature=temp * u.K)
        own = np.asarray(sp.waveset.to_value(u.AA))
        # The library normalises to one solar radius at one kiloparsec.
        omega = math.pi * (6.957e10 / 3.0856775814913673e21) ** 2
        k, cc = 1.380649e-16, 2.99792458e10

        def truth(x):
            lam = np.asarray(x) * 1e-8
            e = np.exp(-h * cc / (lam * k * temp))
            flam = 2 * h * cc**2 / lam**5 * e / (1 - e) * 1e-8 * omega  # erg/s/cm2/A
            return flam / (h * cc / lam)

    if rng.uniform() < 0.5:
        waves = np.sort(rng.uniform(max(own[0], 900.0), min(own[-1], 30000.0), 9))
        m = StaticSEDModel.from_synphot(sp, waves=waves, node_label="lib")
        c.seen("synphot", "waves")
    else:
        waves = own
        m = StaticSEDModel.from_synphot(sp)
        c.seen("synphot")
    c.seen("synphot")
    got = m.evaluate_sed(np.array([0.0, 5.0]), waves, m.sample_parameters())
    want = truth(waves) * h * waves * 1e32
    c.close(got, np.array([want, want]), "synphot", 2e-4, 1e-30, "library spectrum in nJy at its own wavelengths")
    z = SourceSpectrum(Empirical1D, points=np.array([1000.0, 2000.0]) * u.AA, lookup_table=np.array([1.0, 1.0]), z=float(rng.uniform(0.01, 1)))
    c.raises(ValueError, lambda: StaticSEDModel.from_synphot(z), "synphot_z", "a redshifted library spectrum")
    c.seen("synphot", "redshifted_refused")


QUICK_SCALE = 8
def redback(c):
    """Sources given by a function of time and parameters: it gets the model's own values, from the parameters first and the priors second, and its answer is shown as it is."""
    from bilby.core.prior import PriorDict, Uniform
    from lightcurvelynx.math_nodes.bilby_priors import BilbyPriorNode

    rng = c.rng
    ts, ws = np.linspace(-20, 50, 9), np.linspace(2000.0, 9000.0, 8)
    F = rng.uniform(1, 300, (9, 8)) / sources.FNU_PER_FLAM / 5000.0**2
    calls = []

    def source(times, output_format, **kw):
        calls.append(dict(kw))
        k = sum(float(v) * (1 + 0.25 * j) for j, (_, v) in enumerate(sorted(kw.items())))
        return sources.Toy(ts, ws, F, 1.0 + k)

    source.citation = "toy"
    S = int(rng.choice([1, 2, 4]))
    names = [str(x) for x in rng.permutation(["mej", "vej", "kappa", "temperature_floor", "redshift"])[: int(rng.integers(1, 6))]]
    given, priors, want_range = {}, {}, {}
    for k in names:
        where = str(rng.choice(["given", "prior", "both"]))
        if where != "prior":
            given[k] = p_(rng, S, 0.1, 2.0)
            want_range[k] = (0.1, 2.0)
        if where != "given":
            priors[k] = Uniform(5.0, 6.0)
            want_range.setdefault(k, (5.0, 6.0))
        c.seen("redback", where)
    kw = {}
    if "redshift" not in names and rng.uniform() < 0.5:
        kw["redshift"] = float(rng.uniform(0.1, 2))
    t0 = p_(rng, S, 59990, 60010)
    keep = dict(given)
    use = None
    if priors:
        use = [priors, PriorDict(priors), BilbyPriorNode(prior=PriorDict(priors))][int(rng.integers(3))]
    m = RedbackWrapperModel(source, priors=use, parameters=given if given or rng.uniform() < 0.5 else None, t0=t0, node_label="m", **kw)
    c.ok(list(given) == list(keep) and all(given[k] is keep[k] for k in keep), "redback:unchanged", "the caller's parameters")
    c.equal(sorted(m.param_names), sorted(names), "redback:names")
    st = m.sample_parameters(num_samples=S)
    t, w = 60000 + rng.uniform(-25, 55, int(rng.integers(1, 6))), rng.uniform(2000, 9000, int(rng.integers(1, 6)))
    got = np.asarray(m.evaluate_sed(t, w, st)).reshape(S, len(t), len(w))
    spline = sources.timeseries(ts, ws, F, 3, False)
    for i, one in enumerate(sources.singles(st)):
        vals = {k: float(m.get_param(one, k)) for k in names}
        for k, (a, b) in want_range.items():
            c.ok(a <= vals[k] <= b, "redback:precedence", f"{k} is {vals[k]}, expected from [{a}, {b}]")
        height = 1.0 + sum(vals[k] * (1 + 0.25 * j) for j, k in enumerate(sorted(names)))
        want = height * spline(np.sort(t) - float(m.get_param(one, "t0")), np.sort(w)) * sources.FNU_PER_FLAM * np.sort(w) ** 2
        c.close(got[i][np.ix_(np.argsort(t), np.argsort(w))], want, "redback", rtol=1e-8, atol=1e-9, msg=f"sample {i}: {vals}")
        c.ok(vals in [{k: float(v) for k, v in q.items()} for q in calls], "redback:call", f"the function never got {vals}")
    if kw:
        c.seen("redback", "own_redshift")
    if given:
        k = str(rng.choice(sorted(given)))
        c.raises(ValueError, lambda: RedbackWrapperModel(source, parameters={**given, "redshift": 0.1}, redshift=0.1), "redback:twice")
        c.seen("redback", "refused")
    c.nontrivial(names, S, t.tolist(), sorted(given))


SCENARIOS = [
    Scenario(basic, quick=400, thorough=12000),
    Scenario(static, quick=250, thorough=8000),
    Scenario(bandflux, quick=150, thorough=5000),
    Scenario(spline, quick=250, thorough=6000),
    Scenario(galaxy, quick=200, thorough=6000),
    Scenario(files, quick=60, thorough=1000),
    Scenario(redback, quick=60, thorough=1500),
]
