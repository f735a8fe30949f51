"""P18 - effects watched at every application: frame, order, parameters, composition."""

import astropy.units as u
import numpy as np
from dust_extinction import averages, grain_models, parameter_averages, shapes
from scipy import stats

from lclmon import sources
from lclmon.core import Scenario
from lightcurvelynx.base_models import FunctionNode
from lightcurvelynx.effects.basic_effects import ConstantDimming
from lightcurvelynx.effects.effect_model import EffectModel
from lightcurvelynx.effects.extinction import ExtinctionEffect
from lightcurvelynx.effects.microlensing import Microlensing
from lightcurvelynx.effects.white_noise import WhiteNoise
from lightcurvelynx.math_nodes.given_sampler import BinarySampler
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel
from lightcurvelynx.models.static_sed_model import StaticBandfluxModel

RULE = (
    "Stacks of zero to six recording effects that do not commute (time- and wavelength-dependent affine maps with their own sampled parameters) mixed with dimming, dust laws, lensing and "
    "probabilistic effects, in any order and frame, on all library sources with and without redshift, one or many samples, spectra and band fluxes, alone and inside combinations. Every recorded "
    "application (frame times and wavelengths, parameters) and every result is compared with the composition of independent references. White noise is judged by "
    "its distribution over thousands of draws. Non-trivial: at least two effects. Distinct by stack, model and samples."
)
REQUIRED = [
    "stack:0", "stack:2", "stack:4", "frame:rest", "frame:obs", "order:mixed", "redshifted", "not_redshifted", "kind:affine", "kind:dim", "kind:ext", "kind:lens", "kind:flag", "kind:shared", "recorded", "flag:on", "flag:off",
    "law:CCM89", "law:F99", "law:string", "law:average", "law:rv", "law:listed", "noise:spectrum", "noise:band", "noise:rest", "noise:zero", "noise:negative", "band:equal", "band:order", "linked", "combination:sum", "combination:pick", "combination:shared_member", "combination:same_member", "listed", "refused", "samples:many", "band:inputs",
]
ASSUMPTIONS = [
    "Effects that name the same parameter share its value, as documented, so each stack uses a name once (except in the sharing test).",
    "Dust laws are the dust_extinction package's own curves A(w)/A(V) (evaluated independently of its extinguish step).",
]


LAWS = (averages, grain_models, parameter_averages, shapes)


class Affine(EffectModel):
    """f -> f (1 + a s(t) c(w)) + b s(t): commutes with nothing."""

    def __init__(self, i, a, b, flag=None, **kw):
        super().__init__(**kw)
        self.i, self.calls = i, []
        self.add_effect_parameter(f"a{i}", a)
        self.add_effect_parameter(f"b{i}", b)
        self.flagged = flag is not None
        if self.flagged:
            self.add_effect_parameter(f"on{i}", flag)

    def apply(self, flux_density, times=None, wavelengths=None, rng_info=None, **kw):
        self.calls.append((np.array(times), np.array(wavelengths), kw[f"a{self.i}"], kw[f"b{self.i}"]))
        if self.flagged and not kw[f"on{self.i}"]:
            return flux_density
        return affine(flux_density, times, wavelengths, kw[f"a{self.i}"], kw[f"b{self.i}"])

    def apply_bandflux(self, bandfluxes, *, times=None, filters=None, rng_info=None, **kw):
        self.calls.append((np.array(times), np.array(filters), kw[f"a{self.i}"], kw[f"b{self.i}"]))
        if self.flagged and not kw[f"on{self.i}"]:
            return bandfluxes
        return bandfluxes * (1 + kw[f"a{self.i}"] * np.sin(times / 9.0)) + kw[f"b{self.i}"]


def affine(f, t, w, a, b):
    s, k = np.sin(np.asarray(t, float) / 9.0)[:, None], np.cos(np.asarray(w, float) / 700.0)[None, :]
    return f * (1 + a * s * k) + b * s


def law_of(rng):
    r = int(rng.integers(5))
    if r == 0:
        return "CCM89", parameter_averages.CCM89(Rv=3.1), None, 3.1
    if r == 1:
        rv = float(rng.uniform(2.1, 5.9))
        return "F99", parameter_averages.F99(Rv=rv), None, rv
    if r == 2:
        return "string", parameter_averages.O94(), "O94", 3.1
    if r == 3:
        rv = float(rng.uniform(2.1, 5.9))
        return "rv", parameter_averages.CCM89(Rv=rv), ("CCM89", rv), rv
    law = averages.G03_SMCBar()
    return "average", law, None, law.Rv


def stack(c, src, kinds, n, frames):
    """Adds n effects; returns [(frame, reference, recorder or None, names)]."""
    rng = c.rng
    out, used = [], set()
    for i in range(n):
        k = str(rng.choice(kinds))
        if k in used and k in ("dim", "ext", "lens"):
            k = "affine"
        used.add(k)
        frame = str(rng.choice(frames))
        rest = frame == "rest"
        rec = None
        if k == "dim":
            e = ConstantDimming(flux_fraction=sources.vary(rng, 0.05, 0.95), rest_frame=rest)
            fn, names = (lambda p, f, t, w: f * p["flux_fraction"]), ["flux_fraction"]
        elif k == "ext":
            name, law, given, rv = law_of(rng)
            c.seen("law", name)
            ebv = sources.vary(rng, 0.0, 0.8)
            fr = "rest" if rest else "observer"
            e = ExtinctionEffect(given if isinstance(given, str) else (given[0] if given else law), ebv=ebv, frame=fr, **(dict(Rv=given[1]) if isinstance(given, tuple) else {}))
            fn = lambda p, f, t, w, law=law, rv=rv: f * 10 ** (-0.4 * np.asarray(law(np.asarray(w, float) * u.AA), float) * rv * p["ebv"])[None, :]  # noqa: E731
            names = ["ebv"]
        elif k == "lens":
            frame = "obs"
            e = Microlensing(sources.vary(rng, 60000, 60060), sources.vary(rng, 0.05, 1.5), sources.vary(rng, 3, 60), probability=float(rng.choice([1.0, 0.5])))
            fn = lambda p, f, t, w: f * sources.pspl(t, p["microlensing_t0"], p["u_0"], p["t_E"])[:, None] if p["apply_microlensing"] else f  # noqa: E731
            names = ["microlensing_t0", "u_0", "t_E", "apply_microlensing"]
        else:
            flag = BinarySampler(0.5) if k == "flag" else None
            a = sources.vary(rng, -0.9, 0.9)
            e = rec = Affine(i, a, sources.vary(rng, -50, 50), flag=flag, rest_frame=rest)
            names = [f"a{i}", f"b{i}"] + ([f"on{i}"] if flag is not None else [])

            def fn(p, f, t, w, i=i, flag=flag):
                if flag is not None and not p[f"on{i}"]:
                    return f
                return affine(f, t, w, p[f"a{i}"], p[f"b{i}"])

        src.model.add_effect(e)
        c.seen("kind", k)
        c.seen("frame", frame)
        out.append((frame, fn, rec, names, e))
    return out


def composed(src, effects, state, t, w):
    p = src.params(state)
    p.update({n: src.model.get_param(state, n) for *_, names, _ in effects for n in names})
    z = (p["redshift"] or 0.0) if src.redshifted else 0.0
    rt, rw = (t, w) if not z else (p["t0"] + (t - p["t0"]) / (1 + z), w / (1 + z))
    f = src.bare(p, rt, rw)
    for frame, fn, *_ in effects:
        if frame == "rest":
            f = fn(p, f, rt, rw)
    f = f * (1 + z)
    for frame, fn, *_ in effects:
        if frame == "obs":
            f = fn(p, f, t, w)
    return f, p, rt, rw


def stacks(c):
    rng = c.rng
    S = int(rng.choice([1, 2, 6]))
    n = int(rng.choice([0, 1, 2, 3, 4, 6]))
    kind = str(rng.choice(["constant", "sin", "linear", "spline", "static"]))
    src = sources.sed_source(rng, S, kind=kind, redshift=[None, "zero", "vary", "mixed"][int(rng.integers(4))])
    effects = stack(c, src, ["affine", "affine", "dim", "ext", "lens", "flag"], n, ["rest", "obs"])
    c.seen("stack", n)
    frames = [e[0] for e in effects]
    if frames != sorted(frames, key=lambda x: x != "rest"):
        c.seen("order", "mixed")
    m = src.model
    lst = m.list_effects()
    c.equal([id(e) for e in lst], [id(e[4]) for e in effects if e[0] == "rest"] + [id(e[4]) for e in effects if e[0] == "obs"], "listed")
    c.seen("listed")
    st = m.sample_parameters(num_samples=S)
    if S > 1:
        c.seen("samples", "many")
    t = 60000 + rng.uniform(-50, 150, int(rng.integers(1, 8)))
    w = rng.uniform(3500, 11000, int(rng.integers(1, 8)))
    for e in effects:
        if e[2] is not None:
            e[2].calls.clear()
    kt, kw = t.copy(), w.copy()
    got = m.evaluate_sed(t, w, st)
    got = got[None] if S == 1 else got
    c.ok(np.array_equal(t, kt) and np.array_equal(w, kw), "input_changed")
    for i, s in enumerate(sources.singles(st)):
        want, p, rt, rw = composed(src, effects, s, t, w)
        c.close(got[i], want, "composition", rtol=1e-6, atol=1e-6 * (1 + np.abs(want).max()), msg=f"{src.desc} {[e[0] for e in effects]} sample {i} z={p['redshift']}")
        c.seen("redshifted" if rw is not w else "not_redshifted")
        for e in effects:
            if e[2] is None:
                continue
            if e[2].flagged:
                c.seen("flag", "on" if p[f"on{e[2].i}"] else "off")
            if len(e[2].calls) == S and len(e[2].calls[i][0]) == len(t):
                ct, cw, a, b = e[2].calls[i]
                c.close(ct, rt if e[0] == "rest" else t, "frame:times", rtol=0, atol=1e-7, msg=e[0])
                c.close(cw, rw if e[0] == "rest" else w, "frame:waves", rtol=1e-12, msg=e[0])
                c.ok(a == p[f"a{e[2].i}"] and b == p[f"b{e[2].i}"], "parameters", "another sample's value was used")
                c.seen("recorded")
    # Other times and wavelengths between the same ends.
    for kk in range(2):
        t2, w2 = (np.concatenate([x[:1], rng.uniform(x.min(), x.max(), max(len(x) - 2, 0)), x[1:][-1:]]) for x in (t, w))
        got = m.evaluate_sed(t2, w2, st)
        got = got[None] if S == 1 else got
        for i, s in enumerate(sources.singles(st)):
            want = composed(src, effects, s, t2, w2)[0]
            c.close(got[i], want, "again", rtol=1e-6, atol=1e-6 * (1 + np.abs(want).max()), msg=f"{src.desc} {[e[0] for e in effects]} sample {i}, another request")
    c.fact(kind=src.desc, effects=[type(e[4]).__name__ + ":" + e[0] for e in effects], S=S)
    if n >= 2:
        c.nontrivial(src.desc, [type(e[4]).__name__ + e[0] for e in effects], S, float(t[0]))


def bands(c):
    """Band-level application."""
    rng = c.rng
    S = int(rng.choice([1, 4]))
    filters = ["g", "r", "i"][: int(rng.integers(1, 4))]
    grp = sources.group(rng, filters)
    t = 60000 + rng.uniform(0, 100, int(rng.integers(1, 15)))
    fl = rng.choice(filters, len(t))
    level = float(rng.uniform(1, 300))
    # The same wavelength-independent effects on a flat spectrum and on band fluxes.
    def effects():
        dim, t0, u0, te, sig = (float(rng.uniform(*x)) for x in ((0.1, 0.9), (60000, 60100), (0.1, 1), (5, 50), (1, 2)))
        es = [ConstantDimming(flux_fraction=dim, rest_frame=False), Microlensing(t0, u0, te)]
        return es[: int(rng.integers(1, 3))] if rng.uniform() < 0.5 else es[::-1]
    es = effects()
    a, b = ConstantSEDModel(brightness=level), StaticBandfluxModel({f: level for f in filters})
    for e in es:
        a.add_effect(e)
        b.add_effect(e)
    x, y = a.evaluate_bandfluxes(grp, t, fl, a.sample_parameters()), b.evaluate_bandfluxes(grp, t, fl, b.sample_parameters())
    c.close(y, x, "band:equal", rtol=1e-9, msg=str(es))
    c.seen("band", "equal")
    # Order and parameters of recorded band-level effects.
    src = sources.band_source(rng, filters, S)
    recs = [Affine(i, sources.vary(rng, -0.9, 0.9), sources.vary(rng, -50, 50), flag=BinarySampler(0.5) if rng.uniform() < 0.3 else None, rest_frame=bool(rng.uniform() < 0.5)) for i in range(int(rng.integers(2, 5)))]
    for e in recs:
        src.model.add_effect(e)
    c.equal([id(e) for e in src.model.list_effects()], [id(e) for e in recs], "listed")
    st = src.model.sample_parameters(num_samples=S)
    got = src.model.evaluate_bandfluxes(grp, t, fl, st)
    got = got[None] if S == 1 else got
    for i, s in enumerate(sources.singles(st)):
        f = src.band(s, t, fl, grp)
        for e in recs:
            if not e.flagged or src.model.get_param(s, f"on{e.i}"):
                f = f * (1 + src.model.get_param(s, f"a{e.i}") * np.sin(t / 9.0)) + src.model.get_param(s, f"b{e.i}")
        c.close(got[i], f, "band:order", rtol=1e-8, atol=1e-8)
    c.seen("band", "order")
    # An effect applied directly leaves the given fluxes alone.
    for e in (ConstantDimming(flux_fraction=0.5), Microlensing(60050.0, 0.3, 20.0), WhiteNoise(white_noise_sigma=1.5)):
        kw = {k: (v if np.isscalar(v) else 1.0) for k, v in e.parameters.items() if v is not None}
        f1, f2 = rng.uniform(1, 9, len(t)), rng.uniform(1, 9, (len(t), 3))
        k1, k2 = f1.copy(), f2.copy()
        e.apply_bandflux(f1, times=t, filters=fl, rng_info=np.random.default_rng(1), **kw)
        e.apply(f2, times=t, wavelengths=np.array([4000.0, 5000.0, 6000.0]), rng_info=np.random.default_rng(1), **kw)
        c.ok(np.array_equal(f1, k1) and np.array_equal(f2, k2), "inputs", f"{type(e).__name__} changed the fluxes it was given")
    c.seen("band", "inputs")
    c.fact(filters=filters, S=S, times=len(t))
    c.nontrivial(filters, S, level)


def combined(c):
    """Effects added to a combination: each member in the rest frame, the total in the observer frame."""
    rng = c.rng
    S = int(rng.choice([1, 5]))
    n = int(rng.integers(1, 4))
    mem = [sources.sed_source(rng, S, kind=str(rng.choice(["constant", "sin", "linear"])), redshift=[None, "vary", "mixed"][int(rng.integers(3))], label=f"m{i}") for i in range(n)]
    groups = [[i] for i in range(n)]
    objs = [x.model for x in mem]
    for k in range(int(rng.integers(0, 3))):
        # A member of more than one group (one host under several transients), or twice the same member.
        groups.append(sorted({int(i) for i in rng.integers(0, n, 2)}))
        alone = len(groups[-1]) == 1 and rng.uniform() < 0.5
        objs.append(mem[groups[-1][0]].model if alone else AdditiveMultiObjectModel([mem[i].model for i in groups[-1]], node_label=f"pair{k}"))
        c.seen("combination", "same_member" if alone else "shared_member")
    order = [int(i) for i in rng.permutation(len(groups))]
    groups, objs = [groups[i] for i in order], [objs[i] for i in order]
    wt = rng.uniform(0.1, 2, len(groups))
    pick = rng.uniform() < 0.4
    names = [f"n{i}" for i in range(len(groups))]
    top = RandomMultiObjectModel(objs, weights=wt, object_names=names, node_label="top") if pick else AdditiveMultiObjectModel(objs, weights=wt, node_label="top")
    es = []
    for i in range(int(rng.integers(1, 5))):
        rest = bool(rng.uniform() < 0.5)
        e = Affine(i, sources.vary(rng, -0.9, 0.9), sources.vary(rng, -50, 50), rest_frame=rest)
        top.add_effect(e)
        es.append(e)
    st = top.sample_parameters(num_samples=S)
    t, w = 60000 + rng.uniform(0, 100, 4), rng.uniform(3500, 11000, 5)
    got = top.evaluate_sed(t, w, st)
    got = got[None] if S == 1 else got
    rest = [("rest", lambda p, f, t, w, i=e.i: affine(f, t, w, p[f"a{i}"], p[f"b{i}"]), None, [f"a{e.i}", f"b{e.i}"], e) for e in es if e.rest_frame]
    for i, s in enumerate(sources.singles(st)):
        alone = [composed(x, rest, s, t, w)[0] for x in mem]
        parts = [sum(alone[j] for j in grp) for grp in groups]
        f = parts[names.index(top.get_param(s, "selected_object"))] if pick else sum(k * x for k, x in zip(wt, parts, strict=True))
        for e in es:
            if not e.rest_frame:
                f = affine(f, t, w, top.get_param(s, f"a{e.i}"), top.get_param(s, f"b{e.i}"))
        c.close(got[i], f, "combination", rtol=1e-6, atol=1e-6 * (1 + np.abs(f).max()), msg=f"pick={pick} sample {i}")
    c.seen("combination", "pick" if pick else "sum")
    c.fact(pick=pick, n=n, effects=[e.rest_frame for e in es], S=S)
    c.nontrivial(pick, n, [e.rest_frame for e in es], S, float(t[0]))


def noise(c):
    """White noise: zero mean, its own width, independent draws."""
    rng = c.rng
    kind = ["spectrum", "band", "rest", "zero"][c.index % 4]
    level = float(rng.choice([100.0, 0.0, 3.0])) if kind != "zero" else 100.0  # noise does not stop at zero flux
    S = int(rng.choice([1, 3]))
    z = float(rng.uniform(0.1, 2)) if kind == "rest" else None
    g = np.random.default_rng(int(rng.integers(2**31)))
    sig = NumpyRandomFunc("uniform", low=0.5, high=20.0) if kind != "zero" else 0.0
    if kind == "band":
        m = StaticBandfluxModel({"g": level})
    else:
        m = ConstantSEDModel(brightness=level, redshift=z, t0=60000.0)
    m.add_effect(WhiteNoise(sig, rest_frame=(kind == "rest")))
    st = m.sample_parameters(num_samples=S)
    t, w = np.linspace(60000, 60100, 60), np.linspace(4000, 9000, 40)
    if kind == "band":
        t = np.linspace(60000, 60100, 2400)
        got = m.evaluate_bandfluxes(sources.group(rng, ["g"]), t, np.full(len(t), "g"), st, rng_info=g)
    else:
        got = m.evaluate_sed(t, w, st, rng_info=g)
    got = np.reshape(got, (S, -1))
    s = np.broadcast_to(m.get_param(st, "white_noise_sigma"), S)
    k = 1 + (z or 0)
    if kind == "zero":
        c.close(got, np.full(got.shape, 100.0), "noise:zero", rtol=1e-12)
    else:
        r = (got / k - level) / np.asarray(s)[:, None]
        c.ok(stats.kstest(r.ravel(), "norm").pvalue > 1e-9, "noise:distribution", f"mean {r.mean():.3f} sd {r.std():.3f}")
        for row in r:
            c.ok(stats.kstest(row, "norm").pvalue > 1e-9, "noise:width", f"mean {row.mean():.3f} sd {row.std():.3f}")
            rho = np.corrcoef(row[:-1], row[1:])[0, 1]
            c.ok(abs(rho) < 6 / np.sqrt(len(row)), "noise:independent", f"neighbour correlation {rho}")
        if S > 1:
            rho = np.corrcoef(r)[np.triu_indices(S, 1)]
            c.ok(np.all(np.abs(rho) < 6 / np.sqrt(r.shape[1])), "noise:samples", f"samples correlate {rho}")
        if kind != "band":
            q = r.reshape(S, 60, 40)
            c.ok(q.std(axis=1).min() > 0.2 and q.std(axis=2).min() > 0.2, "noise:each", "rows or columns share their noise")
    c.seen("noise", kind)
    if got.min() < 0:
        c.seen("noise", "negative")
    c.fact(kind=kind, S=S, draws=got.size)
    c.nontrivial(kind, S, np.ravel(s).tolist(), float(got.ravel()[0]))


def parameters(c):
    """Where effect parameters come from."""
    rng = c.rng
    S = int(rng.choice([1, 5]))
    # Computed from the model's own parameter.
    m = ConstantSEDModel(brightness=NumpyRandomFunc("uniform", low=1.0, high=9.0), node_label="src")
    m.add_effect(ConstantDimming(flux_fraction=FunctionNode(lambda x: 1.0 / x, x=m.brightness)))
    st = m.sample_parameters(num_samples=S)
    c.close(m.evaluate_sed(np.array([0.0]), np.array([5000.0]), st).ravel(), np.ones(S), "linked", rtol=1e-12)
    c.seen("linked")
    # A parameter the model has already is used, not replaced.
    class Uses(EffectModel):
        def __init__(self):
            super().__init__(rest_frame=False)
            self.add_effect_parameter("brightness", -1.0)

        def apply(self, flux_density, brightness=None, **kw):
            return flux_density + 1000.0 * brightness

    m.add_effect(Uses())
    st = m.sample_parameters(num_samples=S)
    b = np.broadcast_to(m.get_param(st, "brightness"), S)
    c.close(m.evaluate_sed(np.array([0.0]), np.array([5000.0]), st).ravel(), 1.0 + 1000 * b, "shared", rtol=1e-12)
    c.seen("kind", "shared")
    # Missing parameter values are refused.
    f = np.ones((2, 2))
    t, w = np.arange(2.0), np.array([4000.0, 5000.0])
    ext = ExtinctionEffect("CCM89", ebv=0.1, frame="rest")
    for fn in (
        lambda: ConstantDimming(0.5).apply(f), lambda: ConstantDimming(0.5).apply_bandflux(f[0]), lambda: WhiteNoise(1.0).apply(f), lambda: WhiteNoise(1.0).apply_bandflux(f[0]),
        lambda: ext.apply(f, wavelengths=w), lambda: ext.apply(f, ebv=0.2), lambda: ExtinctionEffect("CCM89", ebv=0.1, frame="both"), lambda: ExtinctionEffect("CCM89", ebv=0.1),
        lambda: Microlensing(1.0, 1.0, 1.0).apply(f, times=t, apply_microlensing=True, u_0=1.0, t_E=1.0),
    ):
        c.raises(ValueError, fn, "refused")
    c.raises(KeyError, lambda: ExtinctionEffect("NoSuchLaw", ebv=0.1, frame="rest"), "refused")
    c.seen("refused")
    # Every published law is listed, found by its name and applied as published.
    names = ExtinctionEffect.list_extinction_models()
    for pick in {str(x) for x in rng.choice(names, 4)} | {"G23"}:
        direct = next(getattr(mod, pick) for mod in LAWS if hasattr(mod, pick))
        kw = {} if rng.uniform() < 0.5 else {"Rv": 3.2}
        try:
            law = direct(**kw)
            lo, hi = (1e4 / law.x_range[1], 1e4 / law.x_range[0])
            wl = np.linspace(max(lo * 1.01, 1000.0), min(hi * 0.99, 25000.0), 5)
            want = law.extinguish(wl * u.AA, Ebv=0.3)
        except Exception:  # noqa: S112 - not a law with these settings (a base class, for one)
            continue
        if not np.all(np.isfinite(want)):
            continue
        got = ExtinctionEffect(pick, ebv=0.3, frame="rest", **kw).apply(np.full((2, 5), 7.0), wavelengths=wl, ebv=0.3)
        c.close(got, 7.0 * np.tile(want, (2, 1)), "law", rtol=1e-12, msg=f"{pick} {kw}")
        c.close(ExtinctionEffect.load_extinction_model(pick, **kw).extinguish(wl * u.AA, Ebv=0.3), want, "law", rtol=1e-12, msg=f"loaded {pick}")
        c.seen("law", "listed")
    c.ok({"CCM89", "F99", "G23", "O94", "G03_SMCBar"} <= set(names), "law", "well-known laws are listed", names=names[:60])
    # Repeated and concurrent use leaves the effect unchanged: the same effect object on two models.
    e = ConstantDimming(flux_fraction=NumpyRandomFunc("uniform", low=0.1, high=0.9))
    a, b2 = ConstantSEDModel(brightness=10.0, node_label="a"), ConstantSEDModel(brightness=20.0, node_label="b")
    a.add_effect(e)
    b2.add_effect(e)
    for x, lv in ((a, 10.0), (b2, 20.0)):
        s = x.sample_parameters(num_samples=S)
        c.close(x.evaluate_sed(t, w, s).reshape(S, -1)[:, 0], lv * np.broadcast_to(x.get_param(s, "flux_fraction"), S), "two_models", rtol=1e-12)
    c.fact(S=S)
    c.nontrivial(S, float(np.ravel(b)[0]))


QUICK_SCALE = 8
SCENARIOS = [
    Scenario(stacks, quick=400, thorough=15000),
    Scenario(bands, quick=100, thorough=4000),
    Scenario(combined, quick=120, thorough=4000),
    Scenario(noise, quick=48, thorough=1200),
    Scenario(parameters, quick=30, thorough=600),
]
