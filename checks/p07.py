"""P07 - reported noise-free fluxes and parameters belong to the same sampled object."""

import json

import numpy as np

from lclmon import sims, sources
from lclmon.core import Scenario, Skip
from lightcurvelynx.graph_state import GraphState
from lightcurvelynx.simulate import compute_noise_free_lightcurves, compute_single_noise_free_lightcurve

RULE = (
    "Simulations and noise-free light curves of random deterministic models (spectral, band-level, sums and choices, with redshifts, effects, "
    "extrapolation) whose objects differ in every varying parameter; the sample set is rebuilt from each object's recorded parameters "
    "and the model is evaluated on it alone and by an independent reference spectrum. Non-trivial: at least one observation with non-zero "
    "flux and, for several objects, objects that differ; distinct by model, surveys and fluxes."
)
REQUIRED = [
    "filter_names:long",
    "sim:single", "sim:many", "surveys:1", "surveys:2", "surveys:3", "model:sum", "model:pick", "model:band", "model:static", "model:spline", "model:sin", "model:step",
    "model:linear", "model:constant", "redshifted", "no_redshift", "param_cols", "effects", "swap_detectable", "restricted:mask", "restricted:window",
    "grid:single", "grid:many", "grid:per_object", "grid:band", "grid:no_t0", "grid:helper", "grid:defaults", "refused:param_cols",
]
ASSUMPTIONS = ["Only deterministic models: models that add noise of their own are judged by P02 and P18."]


def kinds_of(src):
    out = [src.kind]
    for m in src.members:
        out += kinds_of(m)
    return out


def close_flux(c, got, want, tag, msg):
    got, want = np.asarray(got, float), np.asarray(want, float)
    c.close(got, want, tag, rtol=1e-7, atol=1e-9 * max(1.0, float(np.max(np.abs(want), initial=0))), msg=msg)


def flatten(state):
    return {k: v for k, v in state.to_dict().items()}


def simulated(c):
    rng = c.rng
    S = int(rng.choice([1, 2, 4, 8]))
    su = sims.Setup(rng, S)
    c.seen("filter_names", "long" if su.long_names else "short")
    one = len(su.surveys) == 1
    pos = su.position()
    src = sources.any_source(rng, S, position=pos, filters=su.all_filters, allow_band=one)
    c.seen("sim", "single" if S == 1 else "many")
    c.seen("surveys", str(len(su.surveys)))
    for k in set(kinds_of(src)):
        c.seen("model", k)
    c.seen("redshifted" if src.redshifted else "no_redshift")
    if src.effects:
        c.seen("effects")
    probe = src.model
    names = [n for n in src.names + ["ra", "dec", "t0", "redshift"]]
    probe.set_graph_positions()
    key = str(probe)
    pcols = [f"{key}.{n}" for n in dict.fromkeys(rng.permutation(names)[: int(rng.integers(0, 4))].tolist())]
    kw = sims.restrict(c, src.model)
    if pcols:
        kw["param_cols"] = pcols
    res = su.run(src.model, rng=np.random.default_rng(int(rng.integers(2**31))), obstable_save_cols=["tag"], **kw)
    total = 0
    states = []
    for i in range(S):
        rec = res["params"].iloc[i]
        st = GraphState.from_dict(rec)
        states.append(st)
        p = src.params(st) if not src.members else {n: src.model.get_param(st, n) for n in ("ra", "dec", "t0", "redshift")}
        for col, name in (("ra", "ra"), ("dec", "dec"), ("t0", "t0"), ("z", "redshift")):
            a, b = res[col].iloc[i], p[name]
            c.ok((sims.null(a) and b is None) or a == b, "object_params", f"object {i}: column {col} holds {a!r}, recorded parameter {b!r}")
        c.ok(p["ra"] == su.ra[i] and p["dec"] == su.dec[i], "position_order", f"object {i} should be at {su.ra[i]}, {su.dec[i]}", got=[p["ra"], p["dec"]])
        for pc in pcols:
            a, b = res[pc.replace(".", "_")].iloc[i], rec[pc]
            c.ok((sims.null(a) and b is None) or np.all(a == b), "param_cols", f"object {i}: column for {pc} holds {a!r}, recorded {b!r}")
            c.seen("param_cols")
        lc = sims.light_curve(res, i)
        n = len(lc["mjd"])
        for s in range(len(su.surveys)):
            j = [k for k in range(n) if lc["survey_idx"][k] == s]
            if not j:
                continue
            t = np.array([lc["mjd"][k] for k in j])
            fl = np.array([str(lc["filter"][k]) for k in j])
            fx = np.array([lc["flux_perfect"][k] for k in j])
            alone = src.model.evaluate_bandfluxes(su.groups[s], t, fl, st)
            c.ok(np.allclose(fx, alone, rtol=1e-12, atol=1e-12), "own_evaluation", f"object {i} survey {s}: reported fluxes differ from the model evaluated at the recorded parameters", got=fx[:3], want=np.asarray(alone)[:3])
            close_flux(c, fx, src.band(st, t, fl, su.groups[s]), "reference", f"object {i} survey {s} ({src.desc})")
            total += int(np.count_nonzero(fx))
            if i and np.any(~np.isclose(src.band(states[i - 1], t, fl, su.groups[s]), fx, rtol=1e-6)):
                c.seen("swap_detectable")
    c.fact(model=src.desc, objects=S, surveys=[s.kind for s in su.surveys], nonzero=total)
    if total:
        c.nontrivial(src.desc, S, total, [len(s) for s in su.surveys])


def phase_grid(c):
    """Noise-free light curves over rest-frame phases."""
    rng = c.rng
    S = int(rng.choice([1, 2, 5]))
    fl = [str(x) for x in rng.permutation(["u", "g", "r", "i", "z", "y"])[: int(rng.integers(1, 4))]]
    pbs = sources.group(rng, fl)
    has_t0 = rng.uniform() < 0.8
    if not has_t0:
        src = sources.sed_source(rng, S, kind=str(rng.choice(["constant", "linear", "static", "spline"])), redshift=None, t0="none")
        c.seen("grid", "no_t0")
    else:
        src = sources.any_source(rng, S, filters=fl)
    if src.kind == "band":
        c.seen("grid", "band")
    st = src.model.sample_parameters(num_samples=S, rng_info=np.random.default_rng(int(rng.integers(2**31))))
    ints = rng.uniform() < 0.3

    def val(lo, hi):
        if rng.uniform() < 0.5:
            v = rng.uniform(lo, hi)
            return int(np.ceil(v)) if ints else float(v)
        c.seen("grid", "per_object")
        v = rng.uniform(lo, hi, S)
        return np.ceil(v).astype(int) if ints else v

    a, b, d = val(-40, -5), val(5, 60), val(0.7, 9)
    args = dict(rest_frame_phase_min=a, rest_frame_phase_max=b, rest_frame_phase_step=d)
    res = compute_noise_free_lightcurves(src.model, st, pbs, **args)
    c.equal(len(res), S, "objects", "one row per sample")
    c.seen("grid", "single" if S == 1 else "many")
    total = 0
    parts = sources.singles(st) if S > 1 else [st]
    for i, x in enumerate(parts):
        g = lambda v: v if np.isscalar(v) else v[i]
        want = np.arange(g(a), g(b), g(d), dtype=float)
        z, t0 = src.model.get_param(x, "redshift"), src.model.get_param(x, "t0")
        lc = sims.light_curve(res, i)
        c.close(np.array(lc["rest_phase"]), want, "phases", rtol=1e-12, atol=1e-12)
        t = (0.0 if t0 is None else t0) + want * (1 + (0.0 if z is None else z))
        c.close(np.array(lc["times"]), t, "times", rtol=0, atol=1e-6 if t0 is not None else 1e-9, msg=f"z={z}, t0={t0}")
        tt = np.array(lc["times"])
        for f in fl:
            ref = src.band(x, tt, [f] * len(tt), pbs)
            close_flux(c, lc[f], ref, "grid_flux", f"sample {i} filter {f} ({src.desc})")
            total += int(np.count_nonzero(lc[f]))
        for col, name in (("ra", "ra"), ("dec", "dec"), ("z", "redshift")):
            u, v = res[col].iloc[i], src.model.get_param(x, name)
            c.ok((sims.null(u) and v is None) or u == v, "grid_params", f"sample {i}: {col}={u!r} against {v!r}")
        if rng.uniform() < 0.3:
            one = compute_single_noise_free_lightcurve(src.model, x, pbs, rest_frame_phase_min=g(a), rest_frame_phase_max=g(b), rest_frame_phase_step=g(d))
            for k in ["times", "rest_phase", *fl]:
                c.close(np.asarray(one[k], float), np.array(lc[k], float), "single_helper", rtol=1e-12, atol=1e-12)
            c.seen("grid", "helper")
    if rng.uniform() < 0.1:
        c.close(np.array(sims.light_curve(compute_noise_free_lightcurves(src.model, st, pbs), 0)["rest_phase"]), np.arange(-50.0, 50.0, 2.0), "default_phases", rtol=0, atol=1e-12)
        c.close(np.asarray(compute_single_noise_free_lightcurve(src.model, parts[-1], pbs)["rest_phase"]), np.arange(-50.0, 50.0, 2.0), "default_phases", rtol=0, atol=1e-12)
        c.seen("grid", "defaults")
    if S > 1:
        c.raises(ValueError, lambda: compute_single_noise_free_lightcurve(src.model, st, pbs), "single_only")
    c.fact(model=src.desc, samples=S, filters=fl, nonzero=total)
    if total:
        c.nontrivial(src.desc, S, fl, total)


def refusals(c):
    rng = c.rng
    su = sims.Setup(rng, 1)
    src = sources.sed_source(rng, 1, position=(10.0, 10.0), redshift=None)
    c.raises(KeyError, lambda: su.run(src.model, param_cols=["nosuch.param"]), "refuse")
    c.seen("refused", "param_cols")


QUICK_SCALE = 8
SCENARIOS = [
    Scenario(simulated, quick=160, thorough=4000),
    Scenario(phase_grid, quick=120, thorough=3000),
    Scenario(refusals, quick=2, thorough=4),
]
