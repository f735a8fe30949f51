"""P17 - rest-to-observer transformation watched at the model boundary."""

import astropy.units as u
import numpy as np
from astropy.cosmology import FlatLambdaCDM, LambdaCDM, Planck18, wCDM

from lclmon import sources
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.redshift import RedshiftDistFunc, obs_to_rest_times_waves, redshift_to_distance, rest_to_obs_flux
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel
from lightcurvelynx.models.physical_model import SEDModel

RULE = (
    "A recording model whose spectrum depends strongly on time, wavelength and every parameter, and all library spectral sources, with redshift absent, zero, constant, per-sample, "
    "negative (blueshift) and mixtures, random reference times, unsorted and single requests, one or many samples; redshift switched off and on again in random histories. The "
    "recorded rest-frame requests and returned spectra are compared with the transformation written independently; band fluxes likewise; luminosity distances with direct integration of "
    "the cosmology. Non-trivial: at least one sample with redshift other than zero. Distinct by model, redshifts and request."
)
REQUIRED = [
    "z:none", "z:zero", "z:const", "z:samples", "z:mixed", "z:negative", "z:large", "z:given", "probe", "probe:zero_sample", "switch:off", "switch:on", "kind:constant", "kind:step", "kind:sin", "kind:linear", "kind:spline",
    "kind:static", "band", "refused:no_t0", "refused:no_redshift", "distance:model", "distance:node", "distance:function", "distance:given", "distance:none", "samples:1", "samples:many", "recorded", "identity", "helper",
]
ASSUMPTIONS = ["Luminosity distances agree with an independent numerical integration to 1e-4 (radiation and neutrinos as in the cosmology object's own H(z))."]


class Probe(SEDModel):
    """Records each rest-frame request; its spectrum depends on everything."""

    def __init__(self, gain, **kw):
        super().__init__(**kw)
        self.add_parameter("gain", gain)
        self.calls = []

    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
        g = self.get_param(graph_state, "gain")
        self.calls.append((np.array(times), np.array(wavelengths), g))
        return formula(g, times, wavelengths)


def formula(g, t, w):
    t, w = np.asarray(t, float), np.asarray(w, float)
    return g * (2 + np.sin((t[:, None] - 60000) / 7.0) + np.cos(w[None, :] / 300.0) + 0.3 * np.sin(t[:, None] / 3 + w[None, :] / 500))


def request(c):
    rng = c.rng
    t = 60000 + rng.uniform(-200, 200, int(rng.integers(1, 12)))
    w = rng.uniform(1000, 12000, int(rng.integers(1, 12)))
    if rng.uniform() < 0.5:
        t, w = np.sort(t), np.sort(w)
    return t, w


def draw_z(c, S):
    """(setter, kind)."""
    rng = c.rng
    kind = str(rng.choice(["none", "zero", "const", "samples", "mixed", "negative", "large"]))
    c.seen("z", kind)
    if kind == "none":
        return None
    if kind == "zero":
        return 0.0 if rng.uniform() < 0.5 else 0
    if kind == "const":
        return float(rng.choice([rng.uniform(0, 3), 1e-6, 1.0]))
    if kind == "negative":
        return float(rng.uniform(-0.5, 0))
    if kind == "large":
        return NumpyRandomFunc("uniform", low=5.0, high=1100.0)
    if kind == "samples":
        return NumpyRandomFunc("uniform", low=0.01, high=4.0)
    return GivenValueList([0.0 if rng.uniform() < 0.4 else float(rng.uniform(-0.2, 3)) for _ in range(S)])


def transform(z, t0, t, w):
    z = np.float64(z)
    return t0 + (t - t0) / (1 + z), w / (1 + z)


def probes(c):
    rng = c.rng
    S = int(rng.choice([1, 2, 7, 25]))
    c.seen("samples", "1" if S == 1 else "many")
    z = draw_z(c, S)
    t0 = sources.vary(rng, 59900.0, 60100.0)
    m = Probe(sources.vary(rng, 0.5, 9), redshift=z, t0=t0, node_label="probe")
    given = None
    if z is not None and rng.uniform() < 0.25:
        given = {"probe": {"redshift": float(rng.choice([0.0, rng.uniform(0.1, 3)]))}}
        c.seen("z", "given")
    st = m.sample_parameters(given_args=given, num_samples=S)
    if given is not None:
        c.ok(np.all(np.asarray(m.get_param(st, "redshift")) == given["probe"]["redshift"]), "given", "the redshift given for the draw")
    switched = z is not None
    for _ in range(int(rng.integers(1, 4))):
        t, w = request(c)
        kt, kw = t.copy(), w.copy()
        m.calls.clear()
        got = m.evaluate_sed(t, w, st)
        c.ok(np.array_equal(t, kt) and np.array_equal(w, kw), "input_changed")
        got = got[None] if S == 1 else got
        c.equal(got.shape, (S, len(t), len(w)), "shape")
        for i in range(S):
            zi = (m.get_param(st, "redshift") if S == 1 else m.get_param(st, "redshift")[i]) if z is not None else None
            ti = m.get_param(st, "t0") if S == 1 else m.get_param(st, "t0")[i]
            gi = m.get_param(st, "gain") if S == 1 else m.get_param(st, "gain")[i]
            if not switched or not zi:
                rt, rw, f = t, w, 1.0
                c.seen("identity")
                if z is not None and switched:
                    c.seen("probe", "zero_sample")
            else:
                rt, rw = transform(zi, ti, t, w)
                f = 1 + zi
            if len(m.calls) == S and len(m.calls[i][0]) == len(t):
                ct = m.calls[i][0]
                c.close(ct, rt, "rest_times", rtol=0, atol=1e-9 * 6e4 / 1e3, msg=f"z={zi}")
            c.close(got[i], f * formula(gi, rt, rw), "spectrum", rtol=1e-7, atol=1e-7 * abs(gi), msg=f"z={zi} t0={ti} sample {i}")
            c.seen("recorded")
        # Switch on or off.
        if z is not None and rng.uniform() < 0.5:
            switched = not switched
            m.set_apply_redshift(switched)
            c.seen("switch", "on" if switched else "off")
    c.seen("probe")
    c.fact(S=S, z=z if z is None or np.isscalar(z) else type(z).__name__)
    if z is not None and np.any(np.asarray(m.get_param(st, "redshift"), float) != 0):
        c.nontrivial(S, np.ravel(np.asarray(m.get_param(st, "redshift"), float))[:3].tolist(), len(t), len(w), float(t[0]))


def library(c):
    """All library sources, spectra and band fluxes."""
    rng = c.rng
    kind = sources.SED_KINDS[c.index % len(sources.SED_KINDS)]
    c.seen("kind", kind)
    S = int(rng.choice([1, 3, 8]))
    src = sources.sed_source(rng, S, kind=kind, redshift=[None, "zero", "vary", "mixed"][int(rng.integers(4))], t0=float(rng.uniform(60000, 60060)) if rng.uniform() < 0.5 else None)
    m = src.model
    st = m.sample_parameters(num_samples=S)
    t = 60000 + rng.uniform(-50, 150, int(rng.integers(1, 9)))
    w = rng.uniform(1000, 12000, int(rng.integers(1, 9)))
    filters = ["g", "r"]
    grp = sources.group(rng, filters)
    fl = rng.choice(filters, len(t))
    singles = sources.singles(st)
    on = True
    for step in range(2):
        got = m.evaluate_sed(t, w, st)
        band = m.evaluate_bandfluxes(grp, t, fl, st)
        keep = src.redshifted
        src.redshifted = keep and on
        for i, s in enumerate(singles):
            p = src.params(s)
            want = src.sed(s, t, w)
            z = p["redshift"] or 0.0
            # Points within rounding of a boundary (step edges, wavelength limits) may go either way.
            ok = np.isclose(got if S == 1 else got[i], want, rtol=1e-6, atol=1e-6)
            if not ok.all() and border(src, p, t, w, z if src.redshifted else 0.0, ok):
                continue
            c.ok(ok.all(), "library", f"{src.desc} z={p['redshift']} on={on}: {np.argwhere(~ok)[:3].tolist()}", got=(got if S == 1 else got[i])[~ok][:4], want=want[~ok][:4])
            c.close(band if S == 1 else band[i], src.band(s, t, fl, grp), "band", rtol=1e-6, atol=1e-6, msg=src.desc)
        src.redshifted = keep
        c.seen("band")
        on = not on
        if keep:
            m.set_apply_redshift(on)
    c.fact(kind=src.desc, S=S)
    if src.redshifted:
        c.nontrivial(src.desc, S, float(t[0]))


def border(src, p, t, w, z, ok):
    """Is every mismatch explained by a discontinuity within rounding?"""
    rt, rw = (t, w) if not z else transform(z, p["t0"], t, w)
    bt = [p.get("t0"), p.get("t1")]
    near_t = np.array([any(b is not None and abs(x - b) < 1e-6 for b in bt) for x in rt])
    near_w = np.zeros(len(w), bool) if src.bounds is None else np.min(np.abs(rw[:, None] - np.array(src.bounds(p))[None, :]), axis=1) < 1e-6
    return np.all((near_t[:, None] | near_w[None, :])[~ok])


def refusals(c):
    rng = c.rng
    z = float(rng.choice([rng.uniform(0.01, 2), -0.1]))
    t, w = request(c)
    m = Probe(1.0, redshift=z)
    c.raises(ValueError, lambda: m.evaluate_sed(t, w), "refused:no_t0")
    c.seen("refused", "no_t0")
    m = Probe(1.0, t0=60000.0)
    c.close(m.evaluate_sed(t, w), formula(1.0, t, w), "no_redshift", rtol=1e-12)
    m.set_apply_redshift(True)
    c.raises(ValueError, lambda: m.evaluate_sed(t, w), "refused:no_redshift")
    c.seen("refused", "no_redshift")
    # The transformation functions themselves, and their inverse.
    t0 = float(rng.uniform(59000, 61000))
    kt, kw = t.copy(), w.copy()
    rt, rw = obs_to_rest_times_waves(t, w, z, t0)
    wt, ww = transform(z, t0, t, w)
    c.close(rt, wt, "helper", rtol=1e-12)
    c.close(rw, ww, "helper", rtol=1e-12)
    c.close((rt - t0) * (1 + z) + t0, t, "helper", rtol=1e-12)
    f = rng.normal(size=(3, 4))
    kf = f.copy()
    c.close(rest_to_obs_flux(f, z), f * (1 + z), "helper", rtol=1e-12)
    c.ok(np.array_equal(t, kt) and np.array_equal(w, kw) and np.array_equal(f, kf), "input_changed")
    c.seen("helper")
    c.fact(z=z)
    c.nontrivial(z, t0)


def cosmology(rng):
    h = float(rng.uniform(50, 90))
    om = float(rng.uniform(0.1, 0.5))
    return [Planck18, FlatLambdaCDM(H0=h, Om0=om), LambdaCDM(H0=h, Om0=om, Ode0=float(rng.uniform(0.4, 0.9))), wCDM(H0=h, Om0=om, Ode0=1 - om, w0=float(rng.uniform(-1.2, -0.8)))][int(rng.integers(4))]


def lum_distance(cosmo, z):
    """(1+z) times the transverse comoving distance, integrated here, in parsec."""
    z = float(z)
    n = 4001
    x = np.linspace(0, np.log1p(z), n)
    zz = np.expm1(x)
    f = (1 + zz) / np.asarray(cosmo.efunc(zz), float)
    h = x[1] - x[0]
    dc = h / 3 * (f[0] + f[-1] + 4 * f[1:-1:2].sum() + 2 * f[2:-1:2].sum())
    ok = float(cosmo.Ok0)
    if abs(ok) > 1e-9:
        s = np.sqrt(abs(ok))
        dc = (np.sinh if ok > 0 else np.sin)(s * dc) / s
    return (1 + z) * dc * 299792.458 / cosmo.H0.to_value(u.km / u.s / u.Mpc) * 1e6


def distances(c):
    rng = c.rng
    cosmo = cosmology(rng)
    S = int(rng.choice([1, 4]))
    z = NumpyRandomFunc("uniform", low=0.005, high=float(rng.choice([0.1, 1.0, 8.0])))
    m = ConstantSEDModel(brightness=1.0, redshift=z, t0=0.0, cosmology=cosmo)
    st = m.sample_parameters(num_samples=S)
    zs, ds = np.atleast_1d(m.get_param(st, "redshift")), np.atleast_1d(m.get_param(st, "distance"))
    want = np.array([lum_distance(cosmo, x) for x in zs])
    c.close(ds, want, "distance:model", rtol=1e-4)
    c.seen("distance", "model")
    node = RedshiftDistFunc(redshift=z, cosmology=cosmo)
    s2 = node.sample_parameters(num_samples=S)
    zz, dd = np.atleast_1d(node.get_param(s2, "redshift")), np.atleast_1d(node.get_param(s2, "function_node_result"))
    c.close(dd, np.array([lum_distance(cosmo, x) for x in zz]), "distance:node", rtol=1e-4)
    c.seen("distance", "node")
    c.close(np.array([redshift_to_distance(float(x), cosmo) for x in zs]), want, "distance:function", rtol=1e-4)
    c.close(redshift_to_distance(zs, cosmo), want, "distance:function", rtol=1e-4)
    c.seen("distance", "function")
    g = float(rng.uniform(1, 1e9))
    m = ConstantSEDModel(brightness=1.0, redshift=z, t0=0.0, cosmology=cosmo, distance=g)
    c.equal(np.unique(np.atleast_1d(m.get_param(m.sample_parameters(num_samples=S), "distance"))).tolist(), [g], "distance:given")
    c.seen("distance", "given")
    for kw in (dict(redshift=z), dict(cosmology=cosmo)):
        m = ConstantSEDModel(brightness=1.0, t0=0.0, **kw)
        s = m.sample_parameters(num_samples=1)
        c.ok(m.get_param(s, "distance") is None, "distance:none")
    c.seen("distance", "none")
    c.fact(cosmo=type(cosmo).__name__, S=S, z=zs[:2])
    c.nontrivial(type(cosmo).__name__, S, float(zs[0]))


QUICK_SCALE = 8
SCENARIOS = [
    Scenario(probes, quick=500, thorough=20000),
    Scenario(library, quick=240, thorough=8000),
    Scenario(refusals, quick=120, thorough=3000),
    Scenario(distances, quick=60, thorough=1500),
]
