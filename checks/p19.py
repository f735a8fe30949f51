"""P19 - band fluxes of related requests."""

import numpy as np

from lclmon import gen, sources
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.models.galaxy_models import GaussianGalaxy
from lightcurvelynx.models.lightcurve_template_model import LightcurveData, LightcurveTemplateModel, MultiLightcurveTemplateModel
from lightcurvelynx.models.periodic_variable_star import EclipsingBinaryStar

RULE = (
    "All deterministic library models (closed-form, tabulated, templates, periodic, eclipsing, galaxies, sums, choices, lensed and dimmed) with one or many samples; each random "
    "request of times and filters is evaluated whole, permuted, split, with duplicates, one observation at a time, one sample at a time, through a single filter, a subset group and a larger "
    "group, repeated, and compared per observation; and with the spectrum integrated through the filter. Byte-level snapshots of state, arrays, filters and model parameters are compared "
    "around every evaluation. Non-trivial: at least two observations. Distinct by model, request and samples."
)
REQUIRED = [
    "model:single", "model:combination", "model:band", "model:templates", "model:multi_templates", "model:eclipsing", "model:galaxy", "permuted", "split", "duplicates", "one_by_one", "samples", "single_filter", "single_filter:no_names", "subset_group", "larger_group",
    "repeated", "integrated", "unchanged:state", "unchanged:arrays", "unchanged:filters", "full_names", "filters:list", "refused:length", "refused:none", "refused:unknown", "empty_filter", "reads", "spectra:order", "spectra:parts",
]
ASSUMPTIONS = [
    "Times are given as arrays.",
    "Models with random effects or random walks are judged in P02, P18 and P34; light curves built from templates answer for the filters they were built with.",
]


def snapshot(state):
    return {n: {p: (np.array(v, copy=True), type(v)) for p, v in d.items()} for n, d in state.states.items()}


def same_state(a, b):
    return a.keys() == b.keys() and all(a[n].keys() == b[n].keys() and all(a[n][p][1] is b[n][p][1] and eq(a[n][p][0], b[n][p][0]) for p in a[n]) for n in a)


def eq(x, y):
    return x.shape == y.shape and all(p == q or (p != p and q != q) for p, q in zip(x.ravel().tolist(), y.ravel().tolist(), strict=True))


def lc(rng, filters):
    out = {}
    for f in filters:
        n = int(rng.integers(2, 12))
        out[f] = np.column_stack([np.sort(rng.uniform(0, 60, n)) + 1e-3 * np.arange(n), rng.uniform(1, 300, n)])
    return out


def make(c, filters, S):
    """(kind, model, group, integrates with spectra)."""
    rng = c.rng
    kind = str(rng.choice(["single", "single", "combination", "combination", "band", "templates", "multi_templates", "eclipsing", "galaxy"]))
    c.seen("model", kind)
    grp = sources.group(rng, filters)
    if kind == "single":
        s = sources.sed_source(rng, S)
        sources.add_effects(rng, s)
        return kind, s.model, grp, True
    if kind == "combination":
        s = sources.combination(rng, S, filters=filters, p_band=0.25)
        sources.add_effects(rng, s, kinds=["lens"])
        return kind, s.model, grp, not any(isinstance(m, sources.BandSource) for m in s.members)
    if kind == "band":
        s = sources.band_source(rng, filters, S)
        sources.add_effects(rng, s, kinds=["dim", "lens"], frames=("obs",))
        return kind, s.model, grp, False
    if kind in ("templates", "multi_templates"):
        grp = PassbandGroup([Passband(sources.table(rng, lo=3000.0 + 1500 * i, width=1000.0), "S", f, trim_quantile=None) for i, f in enumerate(filters)])
        t0 = sources.vary(rng, 59990, 60010)
        if kind == "templates":
            per = rng.uniform() < 0.4
            data = lc(rng, filters)
            if per:
                x = np.linspace(0, 20, 9)
                data = {f: np.column_stack([x, np.append(v := rng.uniform(1, 9, 8), v[0])]) for f in filters}
            m = LightcurveTemplateModel(data, grp, lc_data_t0=0.0, periodic=per, t0=t0, baseline=None if per else {f: float(rng.uniform(0, 9)) for f in filters})
        else:
            m = MultiLightcurveTemplateModel([LightcurveData(lc(rng, filters), lc_data_t0=0.0) for _ in range(3)], grp, t0=t0)
        return kind, m, grp, False
    if kind == "eclipsing":
        m = EclipsingBinaryStar(
            distance=10.0, period=sources.vary(rng, 1, 9), t0=60000.0, major_semiaxis=1e12, inclination=sources.vary(rng, 80, 90), primary_radius=2e11, secondary_radius=sources.vary(rng, 1e11, 3e11),
            primary_temperature=sources.vary(rng, 4000, 9000), secondary_temperature=5000.0,
        )
        return kind, m, grp, True
    m = GaussianGalaxy(ra=10.0, dec=5.0, brightness=sources.vary(rng, 1, 99), radius=sources.vary(rng, 0.001, 0.1), redshift=0.1 if rng.uniform() < 0.5 else None, t0=60000.0)
    return kind, m, grp, True




def requests(c):
    rng = c.rng
    S = int(rng.choice([1, 1, 3, 6]))
    names = [list("ugrizy"), ["r", "rp", "rp2", "g", "g_r", "r_g"], gen.LONG_FILTERS][int(rng.choice(3, p=[0.6, 0.2, 0.2]))]
    filters = [str(f) for f in rng.permutation(names)[: int(rng.integers(1, 5))]]
    kind, m, grp, integrates = make(c, filters, S)
    n = int(rng.choice([1, 2, 5, 20, 40]))
    t = 60000 + rng.uniform(-20, 150, n)
    if rng.uniform() < 0.3:
        t = np.sort(t)
    if rng.uniform() < 0.2:
        t = np.round(t)
    fl = rng.choice(filters, n)
    st = m.sample_parameters(num_samples=S)
    before = snapshot(st)
    tables = {f: np.array(grp[f].processed_transmission_table, copy=True) for f in filters}
    gw = np.array(grp.waves, copy=True)
    calls = 0

    def ev(pb, tt, ff, state=st):
        nonlocal calls
        calls += 1
        kt, kf = np.array(tt, copy=True), None if ff is None else list(ff)
        out = m.evaluate_bandfluxes(pb, tt, ff, state)
        c.ok(np.array_equal(tt, kt) and (ff is None or list(ff) == kf), "unchanged:arrays")
        return np.asarray(out)

    full = ev(grp, t, fl)
    c.equal(full.shape, (n,) if S == 1 else (S, n), "shape")
    c.ok(np.all(np.isfinite(full)), "finite")
    tol = dict(rtol=1e-9, atol=1e-9 * (1 + np.abs(full).max()))
    c.close(ev(grp, t, fl), full, "repeated", rtol=0, atol=0)
    c.seen("repeated")
    p = rng.permutation(n)
    c.close(ev(grp, t[p], fl[p]), full[..., p], "permuted", **tol)
    c.seen("permuted")
    cut = int(rng.integers(0, n))
    if 0 < cut < n:
        c.close(np.concatenate([ev(grp, t[:cut], fl[:cut]), ev(grp, t[cut:], fl[cut:])], axis=-1), full, "split", **tol)
        c.seen("split")
    d = rng.integers(0, n, n + 3)
    c.close(ev(grp, t[d], fl[d]), full[..., d], "duplicates", **tol)
    c.seen("duplicates")
    for i in rng.choice(n, min(n, 4), replace=False):
        c.close(ev(grp, t[i : i + 1], fl[i : i + 1])[..., 0], full[..., i], "one_by_one", **tol)
        c.seen("one_by_one")
    # One sample at a time.
    if S > 1:
        for i, s in enumerate(sources.singles(st)):
            c.close(ev(grp, t, fl, s), full[i], "samples", **tol)
        c.seen("samples")
        k = int(rng.integers(S))
        c.close(ev(grp, t, fl, sources.singles(st)[k]), full[k], "samples", **tol)
    # Filters on their own, fewer or more filters in the group.
    f = str(rng.choice(fl))
    at = fl == f
    one = full[..., at]
    if kind not in ("templates", "multi_templates"):
        c.close(ev(grp[f], t[at], fl[at]), one, "single_filter", **tol)
        c.close(ev(grp[f], t[at], None), one, "single_filter:no_names", **tol)
        c.seen("single_filter")
        c.seen("single_filter", "no_names")
        some = sorted(set(fl.tolist()))
        c.close(ev(PassbandGroup([grp[x] for x in some]), t, fl), full, "subset_group", **tol)
        c.seen("subset_group")
        big = PassbandGroup([*[grp[x] for x in filters], Passband(sources.table(rng), "Z", "extra")])
        c.close(ev(big, t, fl), full, "larger_group", **tol)
        c.seen("larger_group")
    if kind not in ("band", "combination", "templates", "multi_templates"):
        c.close(ev(grp, t, np.array([grp[x].full_name for x in fl])), full, "full_names", **tol)
        c.seen("full_names")
    c.close(ev(grp, t, fl.tolist()), full, "filters:list", **tol)
    c.seen("filters", "list")
    if len(set(fl.tolist())) < len(filters):
        c.seen("empty_filter")
    # The spectrum integrated through the filter.
    if integrates:
        for x in set(fl.tolist()):
            at = np.flatnonzero(fl == x)
            sed = np.asarray(m.evaluate_sed(t[at], grp[x].waves, st))
            c.close(grp[x].fluxes_to_bandflux(sed), full[..., at], "integrated", rtol=1e-7, atol=1e-9 * (1 + np.abs(full).max()))
        c.seen("integrated")
        spectra(c, m, st, t, S)
    c.raises(ValueError, lambda: m.evaluate_bandfluxes(grp, t, list(fl) + ["g"], st), "refused:length")
    c.seen("refused", "length")
    c.raises(ValueError, lambda: m.evaluate_bandfluxes(grp, t, None, st), "refused:none")
    c.seen("refused", "none")
    if kind not in ("band", "combination"):
        c.raises((KeyError, ValueError), lambda: m.evaluate_bandfluxes(grp, t, ["nope"] * n, st), "refused:unknown")
        if kind not in ("templates", "multi_templates"):
            c.raises((KeyError, ValueError), lambda: m.evaluate_bandfluxes(grp[f], t, ["nope"] * n, st), "refused:unknown", "another filter than the one given")
        c.seen("refused", "unknown")
    # Nothing moved.
    c.ok(same_state(before, snapshot(st)), "unchanged:state", "evaluation changed the sampled parameters")
    c.seen("unchanged", "state")
    c.ok(all(np.array_equal(tables[x], grp[x].processed_transmission_table) for x in filters) and np.array_equal(gw, grp.waves), "unchanged:filters", "evaluation changed the filters")
    c.seen("unchanged", "filters")
    c.seen("unchanged", "arrays")
    c.close(ev(grp, t, fl), full, "repeated", rtol=0, atol=0)
    c.seen("reads", n=calls)
    c.fact(kind=kind, S=S, n=n, filters=filters)
    if n > 1:
        c.nontrivial(kind, S, n, filters, float(t[0]))


def spectra(c, m, st, t, S):
    """Spectra: order and choice of the requested times and wavelengths do not matter."""
    rng = c.rng
    w = rng.uniform(3200, 9500, int(rng.integers(1, 8)))
    full = np.asarray(m.evaluate_sed(t, w, st))
    atol = 1e-9 * (1 + np.abs(full).max())
    p, q = rng.permutation(len(t)), rng.permutation(len(w))
    c.close(np.asarray(m.evaluate_sed(t[p], w[q], st)), full[..., p, :][..., q], "spectra:order", rtol=1e-9, atol=atol)
    i, j = int(rng.integers(len(t))), int(rng.integers(len(w)))
    c.close(np.asarray(m.evaluate_sed(t[[i]], w[[j]], st))[..., 0, 0], full[..., i, j], "spectra:parts", rtol=1e-9, atol=atol)
    k = np.concatenate([w, w[:1]])
    c.close(np.asarray(m.evaluate_sed(t, k, st))[..., -1], full[..., 0], "spectra:parts", rtol=1e-9, atol=atol)
    c.seen("spectra", "order")
    c.seen("spectra", "parts")


QUICK_SCALE = 4
SCENARIOS = [Scenario(requests, quick=600, thorough=20000)]
