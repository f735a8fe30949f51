"""P22 - random-choice models."""

import numpy as np
from scipy.stats import binom

from lclmon import sources
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel, LinearWavelengthModel
from lightcurvelynx.models.lightcurve_template_model import LightcurveData, MultiLightcurveTemplateModel
from lightcurvelynx.models.multi_object_model import RandomMultiObjectModel
from lightcurvelynx.models.static_sed_model import StaticBandfluxModel, StaticSEDModel

RULE = (
    "Random-choice models of every kind (of sources, tabulated spectra, band-flux tables, template light curves) with components that may share type, content or the very same object, "
    "given names or none, weights of any scale, with zeros or absent. The monitor compares each sample's spectra and band fluxes with those of the recorded component on its own at the same "
    "state and with independent references, checks wavelength limits and baselines against the recorded pick, and tests pick frequencies against the weights (exact binomial tails below 1e-9 "
    "are violations). Non-trivial: at least two components. Distinct by components, weights and samples."
)
REQUIRED = [
    "objects", "objects:same_type", "objects:same_content", "objects:same_object", "objects:named", "objects:unnamed", "objects:band", "limits", "limits:equal", "picks:distinct", "given:name",
    "static_sed", "static_band", "templates", "templates:baseline", "templates:missing_filter", "frequency:none", "frequency:random", "frequency:scaled", "frequency:zero", "frequency:one_hot", "frequency:objects",
    "frequency:static_sed", "frequency:static_band", "frequency:templates", "single_draw", "refused:names", "refused:duplicate_names", "refused:weights", "refused:filter", "integer_weights",
    "reference", "nested", "effect:rest", "effect:obs",
]
TAIL = 1e-9


def rows(x, S):
    x = np.asarray(x)
    return x[None] if S == 1 else x


def choice(c):
    """Sources picked per sample."""
    rng = c.rng
    S = int(rng.choice([1, 2, 8, 20]))
    n = int(rng.integers(1, 5))
    style = str(rng.choice(["any", "any", "same_type", "same_content", "same_object"]))
    filters = ["g", "r"]
    p_band = 0.4 if rng.uniform() < 0.3 else 0.0
    one = str(rng.choice(sources.SED_KINDS))
    mem = []
    for i in range(n):
        label = f"m{i}" if rng.uniform() < 0.4 else None
        if style == "same_object" and mem and rng.uniform() < 0.6:
            mem.append(mem[-1])
            continue
        if style == "same_content":
            s = sources.sed_source(np.random.default_rng(7), S, kind="constant", label=label, redshift=None)
        elif style == "any" and rng.uniform() < p_band:
            s = sources.band_source(rng, filters, S, label=label)
        elif style == "any" and rng.uniform() < 0.15:
            s = sources.combination(rng, S, n=2, label=f"n{i}")
            c.seen("nested")
        else:
            s = sources.sed_source(rng, S, kind=one if style == "same_type" else None, label=label)
            if rng.uniform() < 0.3:
                sources.add_effects(rng, s)
        mem.append(s)
    named = rng.uniform() < 0.5
    names = [str(x) for x in rng.permutation([f"c{i}" for i in range(n)] if rng.uniform() < 0.7 else ["b", "b ", "B", " b"][:n])] if named else None
    if style == "same_object" and not named:
        # The very same object twice gets the same default name unless numbered.
        c.seen("objects", "same_object")
    w = None if rng.uniform() < 0.4 else rng.uniform(0.1, 5, n)
    m = RandomMultiObjectModel([x.model for x in mem], weights=w, object_names=names, **sources.common(rng, S))
    c.seen("objects")
    c.seen("objects", style)
    c.seen("objects", "named" if named else "unnamed")
    has_band = any(isinstance(x, sources.BandSource) for x in mem)
    src = sources.PickSource(m, mem, names)
    if not has_band and style != "same_object" and rng.uniform() < 0.5:
        frame = str(rng.choice(["rest", "obs"]))
        if all(not x.members for x in mem):
            sources.add_effects(rng, src, kinds=["dim"], count=1, frames=(frame,))
            c.seen("effect", frame)
    st = m.sample_parameters(num_samples=S)
    singles = sources.singles(st)
    picked = [m.get_param(s, "selected_object") for s in singles]
    allowed = names if named else list(m.object_map)
    c.ok(len(set(allowed)) == n and all(p in allowed for p in picked), "picks", "picks are not component names", picked=picked[:4])
    idx = [allowed.index(p) for p in picked]
    if not named:
        c.ok([m.object_map[a] for a in allowed] == [x.model for x in mem], "names", "default names are not in the order of the components")
    src.choices = allowed
    if len(set(idx)) > 1:
        c.seen("picks", "distinct")
    t = 60000 + rng.uniform(-30, 150, int(rng.integers(1, 6)))
    wv = rng.uniform(3200, 11000, int(rng.integers(1, 6)))
    grp = sources.group(rng, filters)
    fl = rng.choice(filters, len(t))
    if has_band:
        c.seen("objects", "band")
        c.raises(TypeError, lambda: m.evaluate_sed(t, wv, st), "refused")
    else:
        got = rows(m.evaluate_sed(t, wv, st), S)
        own = [rows(x.model.evaluate_sed(t, wv, st), S) for x in mem]
        for i, s in enumerate(singles):
            want = own[idx[i]][i]
            for _, fn in src.effects:
                want = fn(src.params(s), want, t, wv)
            c.close(got[i], want, "spectrum", rtol=1e-9, atol=1e-9 * (1 + np.abs(want).max()), msg=f"{[x.desc for x in mem]} sample {i} picked {picked[i]}")
            c.close(got[i], src.sed(s, t, wv), "reference", rtol=1e-6, atol=1e-6 * (1 + np.abs(want).max()), msg=f"sample {i} picked {picked[i]}")
        c.seen("reference")
    got = rows(m.evaluate_bandfluxes(grp, t, fl, st), S)
    own = [rows(x.model.evaluate_bandfluxes(grp, t, fl, st), S) for x in mem]
    for i, s in enumerate(singles):
        want = own[idx[i]][i]
        for _, fn in src.effects:
            want = fn(src.params(s), want[:, None], t, None)[:, 0]
        c.close(got[i], want, "band", rtol=1e-9, atol=1e-9 * (1 + np.abs(want).max()), msg=f"sample {i} picked {picked[i]}")
        c.close(got[i], src.band(s, t, fl, grp), "reference", rtol=1e-6, atol=1e-6 * (1 + np.abs(want).max()))
        if not has_band and not mem[idx[i]].members:
            lo, hi = m.minwave(s), m.maxwave(s)
            b = mem[idx[i]].bounds
            b = b(mem[idx[i]].params(s)) if b else (-np.inf, np.inf)
            c.ok((-np.inf if lo is None else lo) == b[0] and (np.inf if hi is None else hi) == b[1], "limits", f"range {lo}-{hi} is not that of the picked component {b}")
            c.seen("limits")
            if b[0] > -np.inf:
                c.seen("limits", "equal")
    # Forcing the pick.
    if rng.uniform() < 0.5 and not has_band and not any("mixed" in x.desc for x in mem) and fresh(m):
        k = allowed[int(rng.integers(n))]
        forced = m.sample_parameters(given_args={m.node_string: {"selected_object": k}})
        c.equal(m.get_param(forced, "selected_object"), k, "given")
        x = mem[allowed.index(k)]
        want = np.asarray(x.model.evaluate_sed(t, wv, forced))
        for _, fn in src.effects:
            want = fn(src.params(forced), want, t, wv)
        c.close(np.asarray(m.evaluate_sed(t, wv, forced)), want, "given", rtol=1e-9, atol=1e-9 * (1 + np.abs(want).max()))
        c.seen("given", "name")
    c.fact(members=[x.desc for x in mem], S=S, style=style, picked=picked[:5])
    if n > 1:
        c.nontrivial([x.desc for x in mem], S, style, str(picked), float(t[0]))


def fresh(m):
    """Can the model be drawn again (no used-up lists)?"""
    try:
        m.sample_parameters()
    except IndexError:
        return False
    return True


def tabulated(c):
    """Spectra and band-flux tables picked by index."""
    rng = c.rng
    S = int(rng.choice([1, 3, 20]))
    s = sources.sed_source(rng, S, kind="static")
    m = s.model
    st = m.sample_parameters(num_samples=S)
    t = 60000 + rng.uniform(-30, 150, 3)
    w = rng.uniform(1000, 14000, 6)
    got = rows(m.evaluate_sed(t, w, st), S)
    for i, x in enumerate(sources.singles(st)):
        k = m.get_param(x, "selected_idx")
        c.ok(0 <= k < len(s.seds), "picks")
        c.close(got[i], s.sed(x, t, w), "static_sed", rtol=1e-6, atol=1e-6, msg=f"picked {k}")
        c.ok(m.minwave(x) == s.seds[k][0, 0] and m.maxwave(x) == s.seds[k][0, -1], "limits")
    c.seen("static_sed")
    filters = ["g", "r", "i"]
    b = sources.band_source(rng, filters, S)
    st = b.model.sample_parameters(num_samples=S)
    fl = rng.choice(filters, 7)
    tt = 60000 + rng.uniform(0, 9, 7)
    grp = sources.group(rng, filters)
    got = rows(b.model.evaluate_bandfluxes(grp, tt, fl, st), S)
    for i, x in enumerate(sources.singles(st)):
        c.close(got[i], b.band(x, tt, fl, grp), "static_band", rtol=1e-12, atol=0)
    c.seen("static_band")
    c.nontrivial(len(s.seds), S, float(t[0]))


def templates(c):
    """Template light curves picked by index, each with its own filters, period and baselines."""
    rng = c.rng
    S = int(rng.choice([1, 4, 12]))
    filters = ["g", "r", "i"]
    n = int(rng.integers(1, 5))
    grp = PassbandGroup([Passband(sources.table(rng, lo=3000.0 + 2000 * i, width=1500.0), "S", f, trim_quantile=None) for i, f in enumerate(filters)])
    data, raw, base, per = [], [], [], []
    for _ in range(n):
        fs = [str(f) for f in rng.permutation(filters)[: int(rng.integers(1, 4))]]
        periodic = rng.uniform() < 0.3
        if periodic:
            x = np.linspace(0, float(rng.uniform(2, 20)), int(rng.integers(3, 9)))
            curves = {f: np.column_stack([x, np.append(v := rng.uniform(1, 9, len(x) - 1), v[0])]) for f in fs}
            b = None
        else:
            curves = {}
            for f in fs:
                k = int(rng.integers(1, 9))
                curves[f] = np.column_stack([np.sort(rng.uniform(0, 40, k)) + 0.001 * np.arange(k), rng.uniform(10, 90, k)])
            b = {f: float(rng.uniform(1, 9)) for f in fs} if rng.uniform() < 0.6 else None
        data.append(LightcurveData({f: v.copy() for f, v in curves.items()}, lc_data_t0=0.0, periodic=periodic, baseline=b))
        raw.append(curves)
        base.append(b or {})
        per.append(periodic)
    m = MultiLightcurveTemplateModel(data, grp, weights=None if rng.uniform() < 0.5 else rng.uniform(0.1, 3, n), t0=sources.vary(rng, 59990, 60010))
    st = m.sample_parameters(num_samples=S)
    used = {f for r in raw for f in r}
    for i, s in enumerate(sources.singles(st)):
        k = int(m.get_param(s, "selected_lightcurve"))
        c.ok(0 <= k < n, "picks")
        t0 = m.get_param(s, "t0")
        for f in used:
            c.ok(m.get_param(s, f"baseline_{f}") == base[k].get(f, 0.0), "baseline", f"baseline_{f} is not that of light curve {k}")
            if base[k]:
                c.seen("templates", "baseline")
        t = t0 + rng.uniform(-30, 80, 8)
        for f in used:
            if f not in raw[k]:
                c.raises(ValueError, lambda f=f: m.evaluate_bandfluxes(grp, t, np.array([f] * len(t)), s), "refused:filter")
                c.seen("templates", "missing_filter")
                c.seen("refused", "filter")
                continue
            x, y = raw[k][f].T
            ph = t - t0
            if per[k]:
                want = np.interp(np.mod(ph, x[-1]), x, y)
            else:
                want = np.where((ph >= x[0]) & (ph <= x[-1]), np.interp(ph, x, y), base[k].get(f, 0.0))
            ok = np.ones(len(t), bool) if per[k] else (np.abs(ph - x[0]) > 1e-6) & (np.abs(ph - x[-1]) > 1e-6)
            got = np.asarray(m.evaluate_bandfluxes(grp, t, np.array([f] * len(t)), s))
            c.close(got[ok], want[ok], "templates", rtol=1e-6, atol=1e-6, msg=f"sample {i} light curve {k} filter {f}")
    # All samples at once, where every picked light curve has the filter.
    common = set(filters).intersection(*[raw[int(m.get_param(s, "selected_lightcurve"))] for s in sources.singles(st)])
    if common:
        f = sorted(common)[0]
        t = 60000 + rng.uniform(-30, 80, 5)
        got = rows(m.evaluate_bandfluxes(grp, t, np.array([f] * 5), st), S)
        for i, s in enumerate(sources.singles(st)):
            c.close(got[i], np.asarray(m.evaluate_bandfluxes(grp, t, np.array([f] * 5), s)), "templates", rtol=1e-12, atol=1e-12)
    c.seen("templates")
    c.fact(n=n, S=S)
    if n > 1:
        c.nontrivial(n, S, float(t[0]))


def frequencies(c):
    """Pick counts against the weights."""
    rng = c.rng
    kind = ["objects", "static_sed", "static_band", "templates"][c.index % 4]
    wk = ["none", "random", "scaled", "zero", "one_hot"][(c.index // 4) % 5]
    n = int(rng.integers(2, 7))
    w = rng.uniform(0.2, 3, n)
    if wk == "none":
        w, arg = np.ones(n), None
    else:
        if wk == "scaled":
            w = w * 10.0 ** float(rng.uniform(-5, 8))
        if wk == "zero":
            w[rng.choice(n, int(rng.integers(1, n)), replace=False)] = 0.0
        if wk == "one_hot":
            w = np.zeros(n)
            w[int(rng.integers(n))] = 1.0
        if wk == "random" and rng.uniform() < 0.5:
            w = rng.integers(1, 9, n).astype(float)
            c.seen("integer_weights")
        arg = [int(x) for x in w] if wk == "random" and np.all(w == np.round(w)) else (w.tolist() if rng.uniform() < 0.5 else w.copy())
    names = [f"{chr(97 + int(k))}{i}" for i, k in enumerate(rng.integers(0, 26, n))]
    if kind == "objects":
        m = RandomMultiObjectModel([ConstantSEDModel(brightness=float(i + 1)) for i in range(n)], weights=arg, object_names=names)
        par = "selected_object"
    elif kind == "static_sed":
        m = StaticSEDModel([np.array([[3000.0 - i, 9000.0 + i], [i + 1.0, i + 1.0]]) for i in range(n)], weights=arg)
        par = "selected_idx"
    elif kind == "static_band":
        m = StaticBandfluxModel([{"g": i + 1.0} for i in range(n)], weights=arg)
        par = "selected_idx"
    else:
        grp = PassbandGroup([Passband(sources.table(rng), "S", "g")])
        m = MultiLightcurveTemplateModel([LightcurveData({"g": np.array([[-1e6, i + 1.0], [1e6, i + 1.0]])}, 0.0) for i in range(n)], grp, weights=arg, t0=60000.0)
        par = "selected_lightcurve"
    letters = "abcdefghijklmnopqrstuvwxyz"
    N = 3000 if not c.thorough else 30000
    gen = np.random.default_rng(int(rng.integers(2**31)))
    mode = rng.uniform()
    if mode < 0.7:
        st = m.sample_parameters(num_samples=N, rng_info=gen if rng.uniform() < 0.5 else None)
        v = np.asarray(m.get_param(st, par))
        picks = np.array([int(str(x).lstrip(letters)) for x in v])
    else:
        N = 300
        picks = np.array([int(str(m.get_param(m.sample_parameters(rng_info=gen), par)).lstrip(letters)) for _ in range(N)])
        c.seen("single_draw")
        st = None
    p = w / w.sum()
    counts = np.bincount(picks, minlength=n)
    c.equal(len(counts), n, "frequency", "pick outside the list")
    for k in range(n):
        if p[k] == 0:
            c.ok(counts[k] == 0, "frequency:zero", f"component {k} of weight zero picked {counts[k]} times")
        else:
            tail = min(binom.cdf(counts[k], N, p[k]), binom.sf(counts[k] - 1, N, p[k]))
            c.ok(tail > TAIL, "frequency", f"{kind} {wk}: component {k} of probability {p[k]:.4f} picked {counts[k]} of {N} times")
    # Independence of consecutive picks: repeats.
    same = int(np.sum(picks[1:] == picks[:-1]))
    q = float(np.sum(p**2))
    if q < 1 - 1e-12:
        # (the count of repeats in independent picks is not quite binomial, so the bar is lower)
        sd = np.sqrt((N - 1) * q * (1 - q) * 3) + 3
        c.ok(abs(same - (N - 1) * q) < 9 * sd, "independent", f"{same} repeats of {N - 1}, expected {(N - 1) * q:.0f}")
    # The flux of every sample is that of its pick.
    if st is not None:
        k = rng.choice(N, 20, replace=False)
        for i in k:
            s = st.extract_single_sample(int(i))
            t = np.array([60000.0])
            if kind in ("objects", "static_sed"):
                f = float(np.asarray(m.evaluate_sed(t, np.array([5000.0]), s))[0, 0])
            else:
                f = float(m.evaluate_bandfluxes(PassbandGroup([Passband(sources.table(np.random.default_rng(1)), "S", "g")]), t, np.array(["g"]), s)[0])
            c.close(f, picks[i] + 1.0, "picked_flux", rtol=1e-9, atol=0)
    c.seen("frequency", wk)
    c.seen("frequency", kind)
    c.fact(kind=kind, weights=wk, counts=counts.tolist(), p=[round(float(x), 4) for x in p])
    c.nontrivial(kind, wk, n, counts.tolist())


def refusals(c):
    rng = c.rng
    a, b = ConstantSEDModel(brightness=1.0), LinearWavelengthModel(1.0, NumpyRandomFunc("uniform", low=0, high=1))
    c.raises(ValueError, lambda: RandomMultiObjectModel([a, b], object_names=["x"]), "refused:names")
    c.seen("refused", "names")
    c.raises(ValueError, lambda: RandomMultiObjectModel([a, b], object_names=["x", "x"]), "refused:duplicate_names")
    c.seen("refused", "duplicate_names")
    bad = [[1.0], [1.0, 2.0, 3.0], [0.0, 0.0], [-1.0, 2.0]][c.index % 4]
    c.raises(ValueError, lambda: RandomMultiObjectModel([a, b], weights=bad).sample_parameters(), "refused:weights", f"weights {bad}")
    c.raises(ValueError, lambda: StaticBandfluxModel([{"g": 1.0}, {"g": 2.0}], weights=bad).sample_parameters(), "refused:weights", f"weights {bad}")
    c.seen("refused", "weights")
    c.raises(ValueError, lambda: RandomMultiObjectModel([a, "b"]), "refused")
    assert rng is not None
    c.nontrivial(str(bad))


QUICK_SCALE = 8
SCENARIOS = [
    Scenario(choice, quick=400, thorough=12000),
    Scenario(tabulated, quick=120, thorough=3000),
    Scenario(templates, quick=150, thorough=4000),
    Scenario(frequencies, quick=100, thorough=1000),
    Scenario(refusals, quick=8, thorough=8),
]
