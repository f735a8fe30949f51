"""P37 - point-lens microlensing."""

import math

import numpy as np

from lclmon import sources
from lclmon.core import Scenario
from lightcurvelynx.effects.microlensing import Microlensing
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel
from lightcurvelynx.models.lightcurve_template_model import LightcurveTemplateModel

RULE = (
    "Random sources of every spectral kind, tabulated band fluxes, template light curves and weighted or random-choice combinations, with and without redshift, get one lens whose peak time, impact "
    "parameter (1e-3 to 30) and crossing time (0.1 to 1000 days) are constants, nodes or explicit lists. A scalar magnification formula written here multiplies the unlensed reference. Times are dense around the peak, "
    "mirrored about it, repeated, unordered, far away, or empty. The flag's frequency is compared with the probability by an exact binomial tail (1e-9). Non-trivial: more than one time. Distinct by source and lens."
)
REQUIRED = [
    "level:spectrum", "level:band", "level:both", "symmetry", "peak", "tail", "at_least_one", "waves_equal", "source:combination", "source:band", "source:template", "source:spectral", "redshift", "redshift:observer_times",
    "flag:on", "flag:off", "flag:always", "frequency", "frequency:zero", "per_sample", "request:empty", "request:repeated", "request:integer", "refused", "alone", "two_lenses_apart",
]
ASSUMPTIONS = ["One lens per source (two effects of one source share parameters of the same name).", "Impact parameters and crossing times are positive."]


def mag(t, t0, u0, tE):
    u = math.hypot(u0, (t - t0) / tE)
    return (u * u + 2.0) / (u * math.sqrt(u * u + 4.0))


def mags(t, p):
    return np.array([mag(float(x), float(p["microlensing_t0"]), float(p["u_0"]), float(p["t_E"])) for x in t])


def param(rng, S, draw, log=False):
    r = rng.uniform()
    if r < 0.3:
        return float(draw())
    if r < 0.6:
        return GivenValueList([float(draw()) for _ in range(S)])
    a, b = sorted([draw(), draw()])
    return NumpyRandomFunc("uniform", low=a, high=b, seed=int(rng.integers(2**31)))


def lens_parts(rng, S, probability=None):
    t0 = param(rng, S, lambda: rng.uniform(60000, 60060))
    u0 = param(rng, S, lambda: 10 ** rng.uniform(-3, 1.5))
    tE = param(rng, S, lambda: 10 ** rng.uniform(-1, 3))
    return dict(microlensing_t0=t0, u_0=u0, t_E=tE, probability=probability if probability is not None else float(rng.choice([1.0, 1.0, rng.uniform(0.1, 0.9)])))


def times_for(c, p):
    """Request times for one lens: around the peak, mirrored, far, unordered and repeated."""
    rng = c.rng
    t0, tE, u0 = float(p["microlensing_t0"]), float(p["t_E"]), float(p["u_0"])
    d = np.concatenate([tE * rng.uniform(0, 2, 3), tE * u0 * rng.uniform(0, 2, 2), tE * 10 ** rng.uniform(-3, 3, 2)])
    t = np.concatenate([[t0], t0 + d, t0 - d, rng.uniform(59990, 60070, 4)])
    rng.shuffle(t)
    if rng.uniform() < 0.3:
        t = np.concatenate([t, t[:3]])
        c.seen("request", "repeated")
    return t


def template(rng, filters, pbs):
    ts = np.linspace(-50, 80, 14)
    ys = {f: rng.uniform(5, 300, 14) for f in filters}
    base = {f: float(rng.uniform(1, 20)) for f in filters}
    m = LightcurveTemplateModel({f: np.column_stack([ts, ys[f]]) for f in filters}, pbs, lc_data_t0=0.0, baseline=base, t0=60020.0, ra=1.0, dec=2.0)

    def value(p, t, fl):
        out = np.empty(len(t))
        for i, (x, f) in enumerate(zip(t, fl)):
            ph = x - 60020.0
            out[i] = np.interp(ph, ts, ys[f]) if ts[0] <= ph <= ts[-1] else base[f]
        return out

    return sources.BandSource("template", m, value, [])


def lensed(c):
    """Every source, spectrum level and band level."""
    rng = c.rng
    S = int(rng.choice([1, 2, 5]))
    pick = str(rng.choice(["spectral", "spectral", "band", "template", "combination"]))
    filters = [str(f) for f in rng.permutation(list("ugriz"))[: int(rng.integers(1, 4))]]
    pbs = sources.group(rng, filters)
    if pick == "spectral":
        s = sources.sed_source(rng, S, redshift=rng.choice([None, "zero", "vary", "mixed"]))
    elif pick == "band":
        s = sources.band_source(rng, filters, S)
    elif pick == "template":
        s = template(rng, filters, pbs)
    else:
        s = sources.combination(rng, S, filters=filters, p_band=0.3, member_effects=False)
    parts = lens_parts(rng, S)
    s.model.add_effect(Microlensing(parts["microlensing_t0"], parts["u_0"], parts["t_E"], probability=parts["probability"]))
    state = s.model.sample_parameters(num_samples=S)
    names = ["microlensing_t0", "u_0", "t_E", "apply_microlensing"]
    c.seen("source", pick)
    c.fact(source=s.desc, lens={k: str(v) for k, v in parts.items()})
    recorded = [{n: s.model.get_param(x, n) for n in names} for x in sources.singles(state)]
    for k in ("microlensing_t0", "u_0", "t_E"):
        if isinstance(parts[k], float):
            c.ok(all(float(r[k]) == parts[k] for r in recorded), "recorded", f"{k} recorded as given")
        if isinstance(parts[k], GivenValueList) and S > 1:
            c.seen("per_sample")
            c.ok(len({float(r[k]) for r in recorded}) == S, "recorded_list", f"{k} recorded per sample")
    if parts["probability"] == 1.0:
        c.seen("flag", "always")
        c.ok(all(bool(r["apply_microlensing"]) for r in recorded), "always", "probability one always lenses")
    spectral = pick == "spectral" or (pick == "combination" and all(not isinstance(m, sources.BandSource) for m in s.members))
    t = times_for(c, recorded[int(rng.integers(S))])
    c.nontrivial(s.desc, str(recorded))
    w = np.sort(rng.uniform(3200, 9500, int(rng.integers(1, 6))))
    fl = np.array([str(x) for x in rng.choice(filters, len(t))])
    sed = s.model.evaluate_sed(t, w, state) if spectral else None
    band = s.model.evaluate_bandfluxes(pbs, t, fl, state)
    for i, x in enumerate(sources.singles(state)):
        r = recorded[i]
        on = bool(r["apply_microlensing"])
        c.seen("flag", "on" if on else "off")
        a = mags(t, r) if on else np.ones(len(t))
        if spectral:
            got = sed[i] if S > 1 else sed
            ref = s.sed(x, t, w)
            c.close(got, ref * a[:, None], "spectrum", 1e-9, 1e-9 * max(1.0, np.abs(ref).max()) * a.max() * 1e-3, "unlensed spectrum times the magnification", sample=i)
            c.seen("level", "spectrum")
            if s.redshifted and s.model.get_param(x, "redshift"):
                c.seen("redshift")
        got = band[i] if S > 1 else band
        ref = s.band(x, t, fl, pbs)
        c.close(got, ref * a, "band", 1e-8, 1e-9 * max(1.0, np.abs(ref).max()), "unlensed band flux times the magnification", sample=i)
        c.seen("level", "band")
        if spectral:
            c.seen("level", "both")
    # The same sample on its own.
    k = int(rng.integers(S))
    x = sources.singles(state)[k]
    one = s.model.evaluate_bandfluxes(pbs, t[::-1].copy(), fl[::-1].copy(), x)
    c.close(one, (band[k] if S > 1 else band)[::-1], "alone", 1e-11, 1e-11, "a sample on its own, times reversed")
    c.seen("alone")


def shape(c):
    """Shape of the curve on a flat source."""
    rng = c.rng
    u0, tE, t0 = float(10 ** rng.uniform(-3, 1)), float(10 ** rng.uniform(-1, 2.5)), float(rng.choice([0.0, rng.uniform(-500, 500), rng.uniform(50000, 60000)]))
    b = float(rng.uniform(1, 1000))
    z = float(rng.uniform(0.01, 2)) if rng.uniform() < 0.4 else None
    kw = {} if z is None else {"redshift": z, "t0": float(rng.uniform(-100, 60000))}
    m = ConstantSEDModel(brightness=b, **kw)
    m.add_effect(Microlensing(t0, u0, tE))
    if z is not None:
        b = b * (1 + z)
        c.seen("redshift", "observer_times")
    state = m.sample_parameters()
    w = np.sort(rng.uniform(3000, 9000, 4))
    c.nontrivial(u0, tE, t0, z)
    c.fact(u_0=u0, t_E=tE, microlensing_t0=t0, redshift=z)

    def ratio(t):
        f = m.evaluate_sed(np.asarray(t), w, state)
        c.ok(f.shape == (len(t), 4), "shape", f"one row per time, one column per wavelength: {f.shape}")
        c.ok(np.all(np.abs(f - f[:, :1]) <= 1e-12 * np.abs(f[:, :1])), "waves_equal", "the same magnification at every wavelength")
        c.seen("waves_equal")
        return f[:, 0] / b

    d = np.sort(tE * np.concatenate([rng.uniform(0, 3, 8), 10 ** rng.uniform(-3, 2, 4)]))
    right, left, peak = ratio(t0 + d), ratio(t0 - d), ratio(np.array([t0]))[0]
    # Adding the offset to the peak time rounds; allow for that shift of the request.
    slack = 1e-11 + 4 * np.spacing(abs(t0) + d) / (tE * u0)
    c.ok(np.all(np.abs(left / right - 1) <= slack), "symmetry", "equal on both sides of the peak", left=left, right=right)
    c.seen("symmetry")
    c.ok(np.all(right <= peak * (1 + 1e-12)) and np.all(np.diff(right) <= right[:-1] * slack[:-1]), "monotone", "falls away from the peak", right=right, peak=peak)
    c.close(peak, (u0**2 + 2) / (u0 * math.sqrt(u0**2 + 4)), "peak", 1e-9, 0, "peak magnification")
    c.seen("peak")
    c.ok(np.all(right >= 1 - 1e-12) and np.all(left >= 1 - 1e-12), "at_least_one", "never dims")
    c.seen("at_least_one")
    c.close(ratio(t0 + tE * np.array([1e4, -1e4])), np.ones(2), "tail", 1e-7, 0, "tends to one far away")
    c.seen("tail")
    # One crossing time from a perfectly aligned lens the separation is sqrt(u0^2+1).
    u2 = u0 * u0 + 1
    c.close(ratio(np.array([t0 + tE]))[0], (u2 + 2) / math.sqrt(u2 * (u2 + 4)), "crossing", 1e-9 + 4 * np.spacing(abs(t0)) / tE, 0, "one crossing time from the peak")
    if rng.uniform() < 0.3:
        e = m.evaluate_sed(np.array([]), w, state)
        c.ok(e.shape == (0, 4), "empty", f"empty request: {e.shape}")
        c.seen("request", "empty")
    if rng.uniform() < 0.3:
        ti = np.array([int(t0) - 2, int(t0) + 1, int(t0) + 50])
        c.close(ratio(ti), mags(ti, dict(microlensing_t0=t0, u_0=u0, t_E=tE)), "integer", 1e-9, 0, "whole-day times")
        c.seen("request", "integer")


def probability(c):
    """The recorded flag decides; its frequency is the probability."""
    rng = c.rng
    p = float(rng.choice([0.0, rng.uniform(0.02, 0.98)]))
    n = 1500 if c.thorough else 500
    s = ConstantSEDModel(brightness=10.0)
    s.add_effect(Microlensing(NumpyRandomFunc("uniform", low=-5, high=5), 0.1, 5.0, probability=p))
    state = s.sample_parameters(num_samples=n, rng_info=np.random.default_rng(int(rng.integers(2**31))))
    flags = np.array(s.get_param(state, "apply_microlensing"), bool)
    t0 = np.array(s.get_param(state, "microlensing_t0"), float)
    c.nontrivial(p, int(flags.sum()))
    f = s.evaluate_sed(np.array([0.0, 1.5]), np.array([4000.0]), state)[:, :, 0] / 10.0
    want = np.array([[mag(t, t0[i], 0.1, 5.0) if flags[i] else 1.0 for t in (0.0, 1.5)] for i in range(n)])
    c.close(f, want, "flag", 1e-10, 0, "each sample's own flag decides")
    k = int(flags.sum())
    if p == 0.0:
        c.ok(k == 0, "zero", "probability zero never lenses")
        c.seen("frequency", "zero")
    else:
        from scipy.stats import binomtest

        c.ok(binomtest(k, n, p).pvalue > 1e-9, "frequency", f"{k} of {n} lensed at probability {p}")
        c.seen("frequency")


def refusals(c):
    """Missing values are refused; two lensed sources keep their own lenses."""
    rng = c.rng
    m = Microlensing(1.0, 0.1, 2.0)
    full = dict(microlensing_t0=1.0, u_0=0.1, t_E=2.0)
    t = np.array([0.0, 1.0])
    for name in full:
        bad = {k: v for k, v in full.items() if k != name}
        c.raises(ValueError, lambda: m.apply(np.ones((2, 1)), times=t, wavelengths=np.array([4000.0]), apply_microlensing=True, **bad), "refused_sed", f"no {name}")
        c.raises(ValueError, lambda: m.apply_bandflux(np.ones(2), times=t, filters=np.array(["r", "r"]), apply_microlensing=True, **bad), "refused_band", f"no {name}")
        c.seen("refused")
    a, b = ConstantSEDModel(brightness=1.0, node_label="a"), ConstantSEDModel(brightness=1.0, node_label="b")
    pa, pb = (5.0, 0.3, 4.0), (-3.0, 0.05, 20.0)
    a.add_effect(Microlensing(*pa))
    b.add_effect(Microlensing(*pb))
    times = rng.uniform(-30, 30, 6)
    w = np.array([5000.0])
    fa = a.evaluate_sed(times, w, a.sample_parameters())[:, 0]
    fb = b.evaluate_sed(times, w, b.sample_parameters())[:, 0]
    fa2 = a.evaluate_sed(times, w, a.sample_parameters())[:, 0]
    c.close(fa, [mag(x, *pa) for x in times], "own", 1e-10, 0, "first source")
    c.close(fb, [mag(x, *pb) for x in times], "own", 1e-10, 0, "second source")
    c.equal(fa2.tolist(), fa.tolist(), "own", "first source again")
    c.seen("two_lenses_apart")
    src = np.ones((2, 1))
    m.apply(src, times=t, wavelengths=w, apply_microlensing=True, **full)
    c.ok(np.all(src == 1.0), "input", "the given flux is not modified")
    c.nontrivial(*times[:2])


QUICK_SCALE = 8
SCENARIOS = [
    Scenario(lensed, quick=300, thorough=9000),
    Scenario(shape, quick=300, thorough=9000),
    Scenario(probability, quick=24, thorough=300),
    Scenario(refusals, quick=20, thorough=200),
]
