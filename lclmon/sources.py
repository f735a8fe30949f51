"""Random source models with independent reference spectra, and random filter groups."""

import numpy as np
import sncosmo
from scipy.interpolate import RectBivariateSpline

from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.effects.basic_effects import ConstantDimming
from lightcurvelynx.effects.extinction import ExtinctionEffect
from lightcurvelynx.effects.microlensing import Microlensing
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel, LinearWavelengthModel, SinWaveModel, StepModel
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel
from lightcurvelynx.models.redback_models import RedbackWrapperModel
from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel
from lightcurvelynx.models.spline_model import SplineModel
from lightcurvelynx.models.static_sed_model import StaticBandfluxModel, StaticSEDModel
from lightcurvelynx.utils.wave_extrapolate import (
    ConstantExtrapolation,
    ExponentialDecay,
    LastValueExtrapolation,
    LinearDecay,
)

SED_KINDS = ["constant", "step", "sin", "linear", "spline", "static", "sncosmo"]
WMIN, WMAX = 3000.0, 11000.0


# ---- filters ---------------------------------------------------------------------------------
def table(rng, lo=None, width=None):
    """A filter curve on a (possibly uneven) wavelength grid."""
    lo = float(rng.uniform(3200, 8500)) if lo is None else lo
    width = float(rng.uniform(300, 2000)) if width is None else width
    n = int(rng.integers(8, 60))
    if rng.uniform() < 0.5:
        w = np.linspace(lo, lo + width, n)
    else:
        w = np.sort(lo + width * np.concatenate([[0, 1], rng.uniform(0, 1, n - 2)]))
        w = np.unique(np.round(w, 3))
    t = np.abs(np.sin(np.pi * (w - lo) / width)) ** rng.uniform(0.2, 3) * rng.uniform(0.05, 1.0)
    t = t * rng.uniform(0.7, 1.0, len(w))
    return np.column_stack([w, t])


def group(rng, filters, survey="S", **kw):
    pbs = []
    for f in filters:
        k = dict(kw)
        k.setdefault("delta_wave", float(rng.choice([5.0, 7.0, 13.0, 20.0])))
        k.setdefault("trim_quantile", rng.choice([None, 1e-3]))
        pbs.append(Passband(table(rng), survey, f, **k))
    return PassbandGroup(pbs)


# ---- parameters ------------------------------------------------------------------------------
SEEDED = True  # False leaves every node to its own unpredictable seed


def own_seed(rng):
    k = int(rng.integers(2**31))
    return k if SEEDED else None


def vary(rng, lo, hi, p_const=0.25, pool=None):
    """A parameter: a constant, a node of its own, an explicit list or a node shared with others."""
    r = rng.uniform()
    if r < p_const:
        return float(rng.uniform(lo, hi))
    if pool is not None and r > 0.85:
        key = (lo, hi)
        if key not in pool:
            pool[key] = NumpyRandomFunc("uniform", low=lo, high=hi, seed=own_seed(rng))
        return pool[key]
    return NumpyRandomFunc("uniform", low=lo, high=hi, seed=own_seed(rng))


def extrapolation(rng, kind=None):
    kind = kind or rng.choice(["none", "constant", "last", "linear", "exp"])
    if kind == "none":
        return "none", None, lambda w0, f0, w: np.zeros((len(f0), len(w)))
    if kind == "constant":
        v = float(rng.choice([0.0, rng.uniform(0, 50)]))
        return kind, ConstantExtrapolation(v), lambda w0, f0, w: np.full((len(f0), len(w)), v)
    if kind == "last":
        return kind, LastValueExtrapolation(), lambda w0, f0, w: np.repeat(f0[:, None], len(w), axis=1)
    if kind == "linear":
        wd = float(rng.uniform(20, 3000))
        return kind, LinearDecay(wd), lambda w0, f0, w: f0[:, None] * np.maximum(0.0, 1 - np.abs(w - w0) / wd)[None, :]
    rate = float(rng.choice([0.0, rng.uniform(1e-5, 0.05)]))
    return "exp", ExponentialDecay(rate), lambda w0, f0, w: f0[:, None] * np.exp(-rate * np.abs(w - w0))[None, :]


# ---- reference sources -------------------------------------------------------------------------
class Source:
    """A model plus its reference spectrum.  `rest(p, t, w)` is the bare rest-frame formula inside
    `bounds(p)`, `extra` the reference extrapolation and `effects` [(frame, apply(p, f, t, w))]."""

    def __init__(self, kind, model, rest, names, bounds=None, extra=None):
        self.kind, self.model, self.rest, self.names = kind, model, rest, list(names)
        self.bounds, self.extra = bounds, extra
        self.effects = []
        self.redshifted = False
        self.members = []
        self.desc = kind

    def params(self, state):
        """The recorded values of this source's parameters in a one-sample state."""
        return {n: self.model.get_param(state, n) for n in self.names + ["redshift", "t0", "ra", "dec"]}

    def bare(self, p, t, w):
        """Rest-frame spectrum with extrapolation."""
        t, w = np.asarray(t, float), np.asarray(w, float)
        if self.bounds is None:
            return self.rest(p, t, w)
        lo, hi = self.bounds(p)
        out = np.zeros((len(t), len(w)))
        mid = (w >= lo) & (w <= hi)
        if mid.any():
            out[:, mid] = self.rest(p, t, w[mid])
        for edge, m in ((lo, w < lo), (hi, w > hi)):
            if m.any():
                out[:, m] = self.extra(edge, self.rest(p, t, np.array([edge]))[:, 0], w[m])
        return out

    def sed(self, state, t, w):
        """Observer-frame reference spectrum of one sample."""
        t, w = np.asarray(t, float), np.asarray(w, float)
        p = self.params(state)
        z = p["redshift"] if self.redshifted else None
        z = 0.0 if z is None else z
        rt, rw = (t, w) if z == 0 else (p["t0"] + (t - p["t0"]) / (1 + z), w / (1 + z))
        f = self.bare(p, rt, rw)
        for frame, fn in self.effects:
            if frame == "rest":
                f = fn(p, f, rt, rw)
        f = f * (1 + z)
        for frame, fn in self.effects:
            if frame == "obs":
                f = fn(p, f, t, w)
        return f

    def band(self, state, t, filters, pbs):
        """Reference band fluxes (spectrum at the filter's own wavelengths, integrated by the filter)."""
        out = np.empty(len(t))
        for f in dict.fromkeys(np.asarray(filters).tolist()):
            m = np.asarray(filters) == f
            pb = pbs[f]
            out[m] = pb.fluxes_to_bandflux(self.sed(state, np.asarray(t)[m], pb.waves))
        return out


class BandSource(Source):
    """Sources defined per filter."""

    def __init__(self, kind, model, value, names):
        super().__init__(kind, model, None, names)
        self.value = value

    def band(self, state, t, filters, pbs):
        p = self.params(state)
        f = self.value(p, np.asarray(t, float), np.asarray(filters))
        for _, fn in self.effects:
            f = fn(p, f[:, None], t, None)[:, 0]
        return f


class SumSource(Source):
    def __init__(self, model, members, weights):
        super().__init__("sum", model, None, [])
        self.members, self.weights = members, weights

    def params(self, state):
        return {n: self.model.get_param(state, n) for n in self.names}

    def sed(self, state, t, w):
        f = sum(wt * m.sed(state, t, w) for m, wt in zip(self.members, self.weights))
        p = self.params(state)
        for frame, fn in self.effects:
            f = fn(p, f, t, w)
        return f

    def band(self, state, t, filters, pbs):
        f = sum(wt * m.band(state, t, filters, pbs) for m, wt in zip(self.members, self.weights))
        p = self.params(state)
        for frame, fn in self.effects:
            f = fn(p, np.asarray(f)[:, None], t, None)[:, 0]
        return f


class PickSource(SumSource):
    def __init__(self, model, members, names):
        super().__init__(model, members, None)
        self.kind, self.choices = "pick", names

    def picked(self, state):
        return self.members[self.choices.index(self.model.get_param(state, "selected_object"))]

    def sed(self, state, t, w):
        f = self.picked(state).sed(state, t, w)
        p = self.params(state)
        for frame, fn in self.effects:
            f = fn(p, f, t, w)
        return f

    def band(self, state, t, filters, pbs):
        f = self.picked(state).band(state, t, filters, pbs)
        p = self.params(state)
        for frame, fn in self.effects:
            f = fn(p, np.asarray(f)[:, None], t, None)[:, 0]
        return f


def bilinear(ts, ws, F):
    """Bilinear interpolation on a grid, times and wavelengths clamped to the grid."""

    def f(t, w):
        t, w = np.clip(t, ts[0], ts[-1]), np.clip(w, ws[0], ws[-1])
        cols = np.stack([np.interp(t, ts, F[:, j]) for j in range(len(ws))], axis=1)
        return np.stack([np.interp(w, ws, cols[i]) for i in range(len(t))]) if len(t) else np.zeros((0, len(w)))

    return f


# F_nu [nJy] = F_lambda [erg/s/cm2/A] * FNU_PER_FLAM * (wavelength [A])^2
FNU_PER_FLAM = 1e32 / 2.99792458e18


def timeseries(ts, ws, F, degree, zero_before):
    """A spectral time series: spline in time and wavelength, held at the first and last phase."""
    spline = RectBivariateSpline(ts, ws, F, kx=degree, ky=3)

    def f(t, w):
        out = spline(np.repeat(t, len(w)), np.tile(w, len(t)), grid=False).reshape(len(t), len(w))
        return np.where((np.asarray(t) < ts[0])[:, None], 0.0, out) if zero_before else out

    return f


class Toy(sncosmo.TimeSeriesSource):
    """What a redback model function hands back."""

    def __init__(self, ts, ws, F, height):
        super().__init__(ts, ws, F, name="toy")
        self.set(amplitude=height)

    def get_flux_density(self, t, w):
        return self.flux(t, w)


def common(rng, S, position=None, redshift=None, t0=None, pool=None, label=None):
    """Keyword arguments every model takes; S > 1 positions may be explicit lists."""
    kw = {}
    if position is not None:
        ra, dec = position
        if np.ndim(ra):
            kw["ra"], kw["dec"] = GivenValueList(list(ra)), GivenValueList(list(dec))
        else:
            kw["ra"], kw["dec"] = ra, dec
    else:
        kw["ra"], kw["dec"] = vary(rng, 0, 360), vary(rng, -90, 90)
    if redshift == "mixed":
        kw["redshift"] = GivenValueList([float(rng.choice([0.0, rng.uniform(0.01, 2)])) for _ in range(S)])
    elif redshift == "zero":
        kw["redshift"] = 0.0
    elif redshift == "vary":
        kw["redshift"] = vary(rng, 0.01, 2.0, pool=pool)
    elif redshift is not None:
        kw["redshift"] = redshift
    if t0 != "none":
        kw["t0"] = vary(rng, 60000.0, 60060.0, pool=pool) if t0 is None else t0
    if label:
        kw["node_label"] = label
    return kw


def sed_source(rng, S=1, kind=None, position=None, redshift="?", t0=None, extrap=None, pool=None, label=None, spline_degree=1):
    """A random single spectral source."""
    kind = kind or str(rng.choice(SED_KINDS))
    if redshift == "?":
        redshift = rng.choice([None, "zero", "vary", "vary", "mixed"])
    kw = common(rng, S, position, redshift, t0, pool, label)
    ename, emodel, eref = extrapolation(rng, extrap)
    if kind == "constant":
        m = ConstantSEDModel(brightness=vary(rng, 1, 500, pool=pool), **kw)
        s = Source(kind, m, lambda p, t, w: np.full((len(t), len(w)), float(p["brightness"])), ["brightness"])
    elif kind == "step":
        m = StepModel(brightness=vary(rng, 1, 500, pool=pool), t1=vary(rng, 60020, 60090), **kw)
        s = Source(kind, m, lambda p, t, w: np.where((t >= p["t0"]) & (t <= p["t1"]), float(p["brightness"]), 0.0)[:, None] * np.ones(len(w)), ["brightness", "t1"])
    elif kind == "sin":
        m = SinWaveModel(brightness=vary(rng, 100, 500, pool=pool), amplitude=vary(rng, 1, 90), frequency=vary(rng, 0.005, 0.4), **kw)
        s = Source(kind, m, lambda p, t, w: (p["brightness"] + p["amplitude"] * np.sin(2 * np.pi * p["frequency"] * (t - p["t0"])))[:, None] * np.ones(len(w)), ["brightness", "amplitude", "frequency"])
    elif kind == "linear":
        lo = float(rng.uniform(1500, 6000)) if rng.uniform() < 0.6 else None
        hi = float((lo or 6000) + rng.uniform(500, 5000)) if rng.uniform() < 0.6 else None
        m = LinearWavelengthModel(vary(rng, 10, 100, pool=pool), vary(rng, -0.005, 0.05), min_wave=lo, max_wave=hi, wave_extrapolation=emodel, **kw)
        s = Source(kind, m, lambda p, t, w: np.ones((len(t), 1)) * (p["linear_base"] + p["linear_scale"] * w)[None, :], ["linear_base", "linear_scale"],
                   lambda p: (-np.inf if lo is None else lo, np.inf if hi is None else hi), eref)
    elif kind == "spline":
        nt, nw = int(rng.integers(4, 12)), int(rng.integers(4, 12))
        ts, ws = np.sort(rng.uniform(-30, 60, nt)) + np.arange(nt) * 0.01, np.sort(rng.uniform(1500, 12000, nw)) + np.arange(nw)
        F = rng.uniform(0, 300, (nt, nw))
        m = SplineModel(ts, ws, F, amplitude=vary(rng, 0.1, 5), time_degree=spline_degree, wave_degree=spline_degree, wave_extrapolation=emodel, **kw)
        g = bilinear(ts, ws, F)
        s = Source(kind, m, lambda p, t, w: p["amplitude"] * g(t - (p["t0"] if p["t0"] is not None else 0.0), w), ["amplitude"], lambda p: (ws[0], ws[-1]), eref)
        s.grid = (ts, ws, F)
    elif kind == "static":
        k = int(rng.integers(1, 5))
        seds = []
        for _ in range(k):
            n = int(rng.integers(2, 30))
            w = np.sort(rng.uniform(1500, 12000, n)) + np.arange(n) * 0.5
            seds.append(np.vstack([w, rng.uniform(0, 300, n)]))
        weights = rng.uniform(0.1, 2, k) if rng.uniform() < 0.5 else None
        m = StaticSEDModel(seds, weights=weights, wave_extrapolation=emodel, **kw)
        s = Source(kind, m, lambda p, t, w: np.ones((len(t), 1)) * np.interp(w, *seds[int(p["selected_idx"])])[None, :], ["selected_idx"],
                   lambda p: (seds[int(p["selected_idx"])][0, 0], seds[int(p["selected_idx"])][0, -1]), eref)
        s.seds, s.weights = seds, weights
    elif kind == "sncosmo":
        nt, nw = int(rng.integers(4, 12)), int(rng.integers(4, 12))
        ts, ws = np.linspace(*np.sort(rng.uniform(-30, 60, 2)) + [-2, 2], nt), np.linspace(*np.sort(rng.uniform(1500, 12000, 2)) + [-500, 500], nw)
        F, deg, zero = rng.uniform(1, 300, (nt, nw)) / FNU_PER_FLAM / ws**2, int(rng.choice([1, 3])), bool(rng.uniform() < 0.4)
        src = sncosmo.TimeSeriesSource(ts, ws, F, zero_before=zero, time_spline_degree=deg, name="toy")
        m = SncosmoWrapperModel(src, amplitude=vary(rng, 0.1, 5, pool=pool), wave_extrapolation=emodel, **kw)
        flam = timeseries(ts, ws, F, deg, zero)
        s = Source(kind, m, lambda p, t, w: p["amplitude"] * flam(t - p["t0"], w) * FNU_PER_FLAM * w**2, ["amplitude"], lambda p: (ws[0], ws[-1]), eref)
        s.phases = (ts[0], ts[-1])
    elif kind == "redback":
        # A redback-style source function: bounds depend on the sample, redshift is its own business.
        ts, ws = np.linspace(-20, 50, 9), np.linspace(0.0, 1.0, 8)
        F = rng.uniform(1, 300, (9, 8)) / FNU_PER_FLAM / 5000.0**2
        low, width = vary(rng, 1500, 4000), vary(rng, 2000, 7000)
        m = RedbackWrapperModel(lambda times, output_format, low, width, height: Toy(ts, low + width * ws, F, height), parameters={"low": low, "width": width, "height": vary(rng, 0.1, 5, pool=pool)}, wave_extrapolation=emodel, **kw)
        s = Source(kind, m, lambda p, t, w: p["height"] * timeseries(ts, p["low"] + p["width"] * ws, F, 3, False)(t - p["t0"], w) * FNU_PER_FLAM * w**2, ["low", "width", "height"],
                   lambda p: (p["low"] + 0.0, p["low"] + p["width"] * 1.0), eref)
        redshift = None
    else:
        raise ValueError(kind)
    if s.bounds is not None:
        s.desc = f"{kind}/{ename}"
    s.redshifted = redshift is not None
    return s


def band_source(rng, filters, S=1, position=None, t0=None, pool=None, label=None, k=None):
    """A random tabulated band-flux source."""
    k = k or int(rng.integers(1, 5))
    maps = [{f: float(rng.uniform(1, 500)) for f in filters} for _ in range(k)]
    m = StaticBandfluxModel(maps if k > 1 or rng.uniform() < 0.5 else maps[0], weights=rng.uniform(0.1, 2, k) if rng.uniform() < 0.5 else None, **common(rng, S, position, None, t0, pool, label))
    return BandSource("band", m, lambda p, t, fl: np.array([maps[int(p["selected_idx"])][f] for f in fl], float), ["selected_idx"])


# ---- effects ----------------------------------------------------------------------------------
def pspl(t, t0, u0, tE):
    u2 = u0**2 + ((np.asarray(t, float) - t0) / tE) ** 2
    return (u2 + 2) / np.sqrt(u2 * (u2 + 4))


def add_effects(rng, src, kinds=("dim", "ext", "lens"), count=None, frames=("rest", "obs")):
    """Adds random deterministic effects to a source (each parameter name once)."""
    kinds = list(kinds)
    rng.shuffle(kinds)
    count = int(rng.integers(0, len(kinds) + 1)) if count is None else count
    got = []
    for k in kinds[:count]:
        frame = str(rng.choice(list(frames)))
        if k == "dim":
            eff = ConstantDimming(flux_fraction=vary(rng, 0.05, 0.95), rest_frame=(frame == "rest"))
            fn, names = (lambda p, f, t, w: f * p["flux_fraction"]), ["flux_fraction"]
        elif k == "ext":
            from dust_extinction.parameter_averages import CCM89
            law = CCM89(Rv=3.1)
            eff = ExtinctionEffect(law, ebv=vary(rng, 0.0, 0.8), frame="rest" if frame == "rest" else "observer")
            fn, names = (lambda p, f, t, w: f * 10 ** (-0.4 * ccm_av(law, w) * p["ebv"] * 3.1)[None, :]), ["ebv"]
        else:
            if "obs" not in frames:
                continue
            frame = "obs"
            prob = float(rng.choice([1.0, rng.uniform(0.1, 0.9)]))
            eff = Microlensing(vary(rng, 60000, 60060), vary(rng, 0.05, 1.5), vary(rng, 3, 60), probability=prob)
            fn = lambda p, f, t, w: f * pspl(t, p["microlensing_t0"], p["u_0"], p["t_E"])[:, None] if p["apply_microlensing"] else f  # noqa: E731
            names = ["microlensing_t0", "u_0", "t_E", "apply_microlensing"]
        src.model.add_effect(eff)
        if isinstance(src, SumSource) and frame == "rest":
            for m in src.members:
                m.effects.append(("rest", fn))
                m.names += names
        else:
            src.effects.append((frame, fn))
            src.names += names
        got.append(f"{k}:{frame}")
    src.desc += "+" + ",".join(got) if got else ""
    return got


def ccm_av(law, w):
    """A(w)/A(V) of the law itself at wavelengths in Angstrom."""
    import astropy.units as u

    return np.asarray(law(np.asarray(w, float) * u.AA), float)


# ---- combinations -------------------------------------------------------------------------------
def combination(rng, S=1, kind=None, n=None, position=None, filters=None, p_band=0.0, pool=None, kinds=None, redshift="?", member_effects=True, label=None, labels=True, **member_kw):
    pool = {} if pool is None else pool
    n = n or int(rng.integers(1, 4))
    kind = kind or str(rng.choice(["sum", "pick"]))
    tag = f"{label or 'm'}"
    mem = []
    for i in range(n):
        lab = f"{tag}_{i}_{int(rng.integers(1e6))}" if labels else None
        if filters is not None and rng.uniform() < p_band:
            m = band_source(rng, filters, S, position, pool=pool, label=lab)
        else:
            m = sed_source(rng, S, None if kinds is None else str(rng.choice(kinds)), position, redshift, pool=pool, label=lab, **member_kw)
        if member_effects and rng.uniform() < 0.4:
            add_effects(rng, m, kinds=["dim", "lens"] if isinstance(m, BandSource) else ["dim", "ext", "lens"], frames=("obs",) if isinstance(m, BandSource) else ("rest", "obs"))
        mem.append(m)
    kw = common(rng, S, position, None, None, pool, label)
    objs = [m.model for m in mem]
    if kind == "sum":
        w = None if rng.uniform() < 0.3 else rng.uniform(0, 2, n)
        model = AdditiveMultiObjectModel(objs, weights=w, **kw)
        s = SumSource(model, mem, np.ones(n) if w is None else np.array(w))
    else:
        w = None if rng.uniform() < 0.3 else rng.uniform(0.1, 2, n)
        names = [f"c{i}" for i in range(n)]
        model = RandomMultiObjectModel(objs, weights=w, object_names=names, **kw)
        s = PickSource(model, mem, names)
    s.desc = f"{kind}(" + ",".join(m.desc for m in mem) + ")"
    return s


def any_source(rng, S=1, position=None, filters=None, allow_band=True, effects=True, redshift="?"):
    """A random source of any kind."""
    r = rng.uniform()
    if allow_band and filters is not None and r < 0.2:
        s = band_source(rng, filters, S, position)
        if effects:
            add_effects(rng, s, kinds=["dim", "lens"], frames=("obs",))
        return s
    if r < 0.45:
        s = combination(rng, S, position=position, filters=filters if allow_band else None, p_band=0.3 if allow_band else 0.0, redshift=redshift)
        if effects:
            # A band-only member cannot take rest-frame extinction.
            add_effects(rng, s, kinds=["lens"])
        return s
    s = sed_source(rng, S, position=position, redshift=redshift)
    if effects:
        add_effects(rng, s)
    return s


def singles(state):
    """The one-sample states of a sampled state."""
    return [state.extract_single_sample(i) for i in range(state.num_samples)]
