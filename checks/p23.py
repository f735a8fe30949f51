"""P23 - template light curves."""

import math

import numpy as np
from astropy.table import Table

from lclmon import sources
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.models.lightcurve_template_model import LightcurveData, LightcurveTemplateModel, MultiLightcurveTemplateModel

RULE = (
    "Random light curves (one to four filters, one to forty points each, even, uneven or near-touching times, fluxes or magnitudes, dictionaries with two or three columns, arrays with a filter "
    "column, prepared data, library tables), reference epochs, baselines, periods and reference times per sample; queried at their own times, between, far outside, at the ends, many cycles "
    "away and around the wrap. The oracle is a scalar interpolation written here. Spectra are integrated through every filter of overlapping and disjoint groups. Inputs are compared byte for byte "
    "afterwards. Non-trivial: at least two points. Distinct by curves, epoch and request."
)
REQUIRED = [
    "input:dict2", "input:dict3", "input:array", "input:object_array", "input:data", "magnitudes", "magnitudes:baseline", "magnitudes:negative", "several", "points:one", "points:two", "points:many", "own_times", "own_times:ends", "between", "outside", "outside:baseline", "outside:zero",
    "periodic", "periodic:far", "periodic:wrap", "periodic:negative", "periodic:derived_epoch", "periodic:given_epoch", "periodic:awkward_epoch", "t0:per_sample", "t0:shift", "spectrum", "spectrum:overlap", "spectrum:merged", "spectrum:disjoint", "spectrum:periodic",
    "unchanged", "refused:unsorted", "refused:columns", "refused:ends", "refused:times", "refused:epoch", "refused:baseline", "refused:no_t0", "refused:no_filter", "refused:unknown_filter", "refused:type", "integers",
    "lclib", "lclib:periodic_closed", "lclib:periodic_open", "lclib:template", "lclib:no_type", "lclib:forced", "lclib:subset", "multi", "independent_copies",
]
ASSUMPTIONS = ["All filters of a periodic template are sampled at the same times.", "At the very first and last point of a curve rounding of the shifted time may fall on either side."]


def value(xs, ys, x, base):
    """Scalar reference: linear interpolation inside, the baseline outside."""
    if x < xs[0] or x > xs[-1]:
        return base
    j = 0
    while j + 1 < len(xs) and xs[j + 1] <= x:
        j += 1
    if xs[j] == x or j + 1 == len(xs):
        return ys[j]
    f = (x - xs[j]) / (xs[j + 1] - xs[j])
    return ys[j] + f * (ys[j + 1] - ys[j])


def grid(rng, n, lo=-40.0, hi=60.0):
    """Increasing times on a binary grid (shifts by whole numbers are exact)."""
    k = np.sort(rng.choice(int((hi - lo) * 1024), n, replace=False))
    return lo + k / 1024.0


def njy(mag):
    return 10 ** (-0.4 * (np.asarray(mag) - 31.4))


def group_of(rng, filters, overlap):
    pbs = []
    if overlap and rng.uniform() < 0.15:
        # Grids that coincide but for rounding: the group treats such wavelengths as one.
        off = rng.choice([0.0, 2e-6, 4e-6, 3e-10], len(filters))
        for i, f in enumerate(filters):
            w = 3000.0 + 900.0 * i + 5.0 * np.arange(261) + off[i]
            pbs.append(Passband(np.column_stack([w, rng.uniform(0.1, 1.0, len(w))]), "S", f, delta_wave=5.0, trim_quantile=None))
        return PassbandGroup(pbs)
    for i, f in enumerate(filters):
        lo = 3000.0 + (900 if overlap else 1600) * i
        pbs.append(Passband(sources.table(rng, lo=lo, width=float(rng.uniform(1100, 1500)) if overlap else 1200.0), "S", f, delta_wave=float(rng.choice([5.0, 7.0, 10.0])), trim_quantile=rng.choice([None, 1e-3])))
    return PassbandGroup(pbs)


def snapshot(d):
    if isinstance(d, np.ndarray):
        return d.copy()
    return {k: np.array(v, copy=True) for k, v in d.items()}


def same(a, b):
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool(np.all(a == b))
    return list(a) == list(b) and all(np.array_equal(a[k], b[k]) for k in a)


def curves(c):
    """Non-periodic templates."""
    rng = c.rng
    filters = [str(f) for f in rng.permutation(list("ugrizy"))[: int(rng.integers(1, 5))]]
    mags = rng.uniform() < 0.3
    epoch = float(rng.choice([0.0, 57000.0, -12.0, 3.5]))
    bright = mags and rng.uniform() < 0.2  # Objects brighter than magnitude zero.
    if bright:
        c.seen("magnitudes", "negative")
    style = str(rng.choice(["dict2", "dict2", "dict3", "array", "object_array", "data"]))
    X, Y, D = {}, {}, {}
    for f in filters:
        n = int(rng.choice([1, 2, 3, 10, 40]))
        c.seen("points", "one" if n == 1 else "two" if n == 2 else "many")
        X[f] = grid(rng, n)
        y = rng.uniform(*((-27, 3) if bright else (15, 30)), n) if mags else rng.choice([rng.uniform(0, 500, n), np.round(rng.uniform(0, 500, n))])
        D[f] = np.column_stack([X[f] + epoch, y])
        Y[f] = njy(y) if mags else y
    whole = not mags and style in ("dict2", "data") and rng.uniform() < 0.15
    if whole:
        # Integer arrays.
        for f in filters:
            k = np.sort(rng.choice(100, len(X[f]), replace=False))
            X[f], Y[f] = k.astype(float), rng.integers(0, 99, len(k)).astype(float)
            D[f] = np.column_stack([k + int(epoch), Y[f]]).astype(int)
            X[f] = D[f][:, 0] - epoch
        c.seen("integers")
    base = None
    if rng.uniform() < 0.6:
        base = {f: float(rng.uniform(-5, 30)) if mags else float(rng.uniform(0, 90)) for f in filters}
        if rng.uniform() < 0.2:
            base["unused"] = 20.0
    B = {f: 0.0 if base is None else (float(njy(base[f])) if mags else base[f]) for f in filters}
    if style == "dict3":
        D = {f: np.column_stack([v, rng.uniform(0, 1, len(v))]) for f, v in D.items()}
    arg = D
    if style in ("array", "object_array"):
        rowsof = [(t, y, f) for f in filters for t, y in D[f]]
        if rng.uniform() < 0.5:
            rowsof.sort(key=lambda r: (r[0], r[2]))
        arg = np.array([[r[0], r[1], r[2]] for r in rowsof], dtype=object)
        if style == "array":
            arg = np.array([[repr(float(r[0])), repr(float(r[1])), r[2]] for r in rowsof])
    keep, kbase = snapshot(arg), None if base is None else dict(base)
    overlap = rng.uniform() < 0.5
    grp = group_of(rng, filters, overlap)
    t0 = rng.choice([60000.0, 60000.0 + 0.5, 123.25]) if rng.uniform() < 0.5 else sources.vary(rng, 59990, 60010, p_const=0.0)
    t0 = float(t0) if np.isscalar(t0) else t0
    S = int(rng.choice([1, 1, 4]))
    direct = style != "data" and not mags and rng.uniform() < 0.6
    try:
        if direct:
            m = LightcurveTemplateModel(arg, grp, epoch, baseline=base, t0=t0)
            data = m.lightcurves
        else:
            data = LightcurveData(arg, epoch, magnitudes_in=mags, baseline=base)
            m = LightcurveTemplateModel(data, grp, epoch, t0=t0)
    except ValueError as err:
        c.ok(overlap and "no valid wavelengths" in str(err), "refused", f"template refused: {err}")
        return
    c.seen("input", style)
    if mags:
        c.seen("magnitudes")
        if base is not None:
            c.seen("magnitudes", "baseline")
    c.equal(sorted(data.filters), sorted(filters), "filters")
    st = m.sample_parameters(num_samples=S)
    if S > 1 and not isinstance(t0, float):
        c.seen("t0", "per_sample")
    tol = dict(rtol=1e-9 if not mags else 1e-8, atol=1e-9)
    for s in sources.singles(st):
        T0 = float(m.get_param(s, "t0"))
        for f in filters:
            x, y = X[f], Y[f]
            # At its own times.
            q = x + T0
            got = ask(m, grp, f, q, s)
            ends = np.isin(np.arange(len(x)), [0, len(x) - 1])
            exact = (q - T0) == x
            c.close(got[exact], y[exact], "own_times", **tol, msg=f"filter {f} epoch {epoch} t0 {T0}")
            c.close(got[~exact & ~ends], y[~exact & ~ends], "own_times", rtol=1e-6, atol=1e-6 * (1 + np.abs(y).max()) * steep(x), msg=f"filter {f}")
            c.seen("own_times")
            if exact[ends].any():
                c.seen("own_times", "ends")
            # Between and outside.
            q = rng.uniform(x[0] - 30, x[-1] + 30, 12)
            q = np.append(q, [x[0] - 1e5, x[-1] + 1e5, np.floor(x[0]) - 1, np.ceil(x[-1]) + 1])
            t = q + T0
            r = t - T0
            got = ask(m, grp, f, t, s)
            want = np.array([value(x, y, v, B[f]) for v in r])
            away = np.minimum(np.abs(r - x[0]), np.abs(r - x[-1])) > 1e-9
            c.close(got[away], want[away], "between", rtol=1e-7, atol=1e-8 * (1 + np.abs(y).max()), msg=f"filter {f} baseline {B[f]}")
            out = (r < x[0]) | (r > x[-1])
            c.ok(np.all(got[out & away] == B[f]) or np.allclose(got[out & away], B[f], rtol=1e-12), "outside", "outside the curve the baseline is not returned", values=got[out & away][:3], base=B[f])
            c.seen("outside", "baseline" if B[f] else "zero")
            if (~out).any():
                c.seen("between")
            c.seen("outside")
    # A shift of the reference time moves the curve rigidly.
    s = sources.singles(st)[0]
    T0, f = float(m.get_param(s, "t0")), filters[0]
    shift = float(rng.integers(-300, 300))
    if T0 * 1024 == int(T0 * 1024) and direct:
        m2 = LightcurveTemplateModel(data, grp, epoch, t0=T0 + shift)
        q = grid(rng, 9) + T0
        c.close(ask(m2, grp, f, q + shift, m2.sample_parameters()), ask(m, grp, f, q, s), "shift", rtol=0, atol=0)
        c.seen("t0", "shift")
    spectrum(c, m, grp, filters, st, overlap, lambda f, r: value(X[f], Y[f], r, B[f]))
    c.ok(same(keep, arg) and (base is None or base == kbase), "unchanged", "the caller's light curves or baselines were modified")
    c.seen("unchanged")
    # Later edits of the caller's arrays change nothing.
    q = X[f] + T0
    before = ask(m, grp, f, q, s)
    if isinstance(arg, dict):
        for v in arg.values():
            v[:] = 1
    if base is not None:
        base[f] = 1e9
    c.close(ask(m, grp, f, q, s), before, "copies", rtol=0, atol=0)
    c.close(ask(m, grp, f, np.array([1e7]), s), np.array([B[f]]), "copies", rtol=1e-12)
    c.seen("independent_copies")
    c.fact(style=style, filters=filters, points=[len(X[f]) for f in filters], mags=bool(mags), epoch=epoch)
    if max(len(v) for v in X.values()) > 1:
        c.nontrivial(style, [len(X[f]) for f in filters], epoch, float(X[f][0]), float(Y[f][0]))


def steep(x):
    return 1 + (1e-2 / np.diff(x).min() if len(x) > 1 else 0)


def ask(m, grp, f, t, s):
    t = np.asarray(t, float)
    return np.asarray(m.evaluate_bandfluxes(grp, t, np.array([f] * len(t)), s))


def spectrum(c, m, grp, filters, st, overlap, want):
    """The spectrum integrates through every filter to the light-curve value."""
    rng = c.rng
    for s in sources.singles(st)[:2]:
        T0 = float(m.get_param(s, "t0"))
        t = T0 + rng.uniform(-60, 80, 6)
        for f in filters:
            pb = grp[f]
            sed = np.asarray(m.compute_sed(t, pb.waves, s))
            c.equal(sed.shape, (6, len(pb.waves)), "spectrum:shape")
            lcv = np.array([want(f, x) for x in t - T0])
            # Other filters' boxes may extend where this filter passes next to nothing.
            faint = pb.processed_transmission_table[:, 1] <= 2e-5
            leak = np.asarray(pb.fluxes_to_bandflux(np.abs(sed) * faint))
            got = np.asarray(pb.fluxes_to_bandflux(sed))
            gaps = np.diff(np.unique(np.concatenate([grp[q].waves for q in filters])))
            if np.any(gaps < 1e-5):  # wavelengths the group treats as one
                c.seen("spectrum", "merged")
                leak = leak + 1e-5 * np.abs(m.compute_sed(t, grp.waves, s)).max()
            c.ok(np.all(np.abs(got - lcv) <= leak + 1e-8 * (1 + np.abs(lcv))), "spectrum", f"filter {f} of {filters}: integrated {got[:3]} against {lcv[:3]} (leak {leak.max():.3g})")
            band = ask(m, grp, f, t, s)
            c.ok(np.all(np.abs(got - band) <= leak + 1e-8 * (1 + np.abs(lcv))), "spectrum", "spectrum and band flux disagree")
        beyond = np.array([grp.waves[0] - rng.uniform(1, 500), grp.waves[0] - 0.01, grp.waves[-1] + 0.01, grp.waves[-1] + rng.uniform(1, 500)])
        c.ok(np.all(np.asarray(m.compute_sed(t, beyond, s)) == 0), "beyond", "light outside the passbands' wavelengths")
    c.seen("spectrum")
    c.seen("spectrum", "overlap" if overlap else "disjoint")


def periodic(c):
    rng = c.rng
    filters = [str(f) for f in rng.permutation(list("ugrizy"))[: int(rng.integers(1, 4))]]
    n = int(rng.choice([2, 3, 8, 30]))
    x = grid(rng, n, 0.0, 50.0)
    x = x - x[0]
    P = x[-1]
    mode = str(rng.choice(["derived", "given", "zero", "awkward"]))
    start = {"derived": float(rng.choice([57000.25, -3.5, 12.0])), "given": float(rng.choice([57000.25, 7.0])), "zero": 0.0, "awkward": 0.1 + 0.2}[mode]
    epoch = {"derived": 0.0, "given": start, "zero": 0.0, "awkward": 0.3}[mode]
    mags = rng.uniform() < 0.25
    Y, D = {}, {}
    for f in filters:
        y = rng.uniform(16, 26, n) if mags else rng.uniform(1, 500, n)
        y[-1] = y[0]
        D[f] = np.column_stack([x + start, y])
        Y[f] = njy(y) if mags else y
    keep = snapshot(D)
    grp = group_of(rng, filters, False)
    t0 = float(rng.choice([60000.0, 59876.5])) if rng.uniform() < 0.6 else sources.vary(rng, 59990, 60010, p_const=0.0)
    base = {f: 777.0 for f in filters} if rng.uniform() < 0.3 else None
    data = LightcurveData(D, epoch, periodic=True, magnitudes_in=mags, baseline=base)
    m = LightcurveTemplateModel(data, grp, epoch, t0=t0)
    st = m.sample_parameters(num_samples=int(rng.choice([1, 3])))
    c.seen("periodic")
    c.seen("periodic", {"derived": "derived_epoch", "given": "given_epoch", "zero": "given_epoch", "awkward": "awkward_epoch"}[mode])
    c.close(data.period, P, "period", rtol=1e-12)
    for s in sources.singles(st):
        T0 = float(m.get_param(s, "t0"))
        for f in filters:
            y = Y[f]
            top = 1 + np.abs(y).max()
            slope = np.abs(np.diff(y) / np.diff(x)).max()
            # Own times, any cycle.
            k = np.array([0, 1, -1, 2, int(rng.integers(-200, 200)), int(rng.integers(3, 2000))])
            t = (T0 + k[:, None] * P + x[None, :]).ravel()
            got = ask(m, grp, f, t, s).reshape(len(k), n)
            c.close(got, np.tile(y, (len(k), 1)), "periodic", rtol=1e-9, atol=1e-9 * top + slope * 1e-9, msg=f"{mode} filter {f} period {P} t0 {T0}")
            c.seen("periodic", "far")
            c.seen("periodic", "negative")
            # Around the wrap.
            t = T0 + P * k + np.array([0, 1e-9, -1e-9, 1e-6, -1e-6, 0.0])
            got = ask(m, grp, f, t, s)
            c.close(got, np.full(6, y[0]), "wrap", rtol=1e-9, atol=1e-9 * top + slope * 3e-6)
            c.seen("periodic", "wrap")
            # Any phase.
            ph = rng.uniform(-5, 5, 10) * P
            t = T0 + ph
            r = t - T0
            want = np.array([value(x, y, v - math.floor(v / P) * P, y[0]) for v in r])
            c.close(ask(m, grp, f, t, s), want, "phase", rtol=1e-8, atol=1e-8 * top + slope * 1e-10)
            c.close(ask(m, grp, f, t + 7 * P, s), ask(m, grp, f, t, s), "cycle", rtol=1e-8, atol=1e-8 * top + slope * 1e-9)
    spectrum(c, m, grp, filters, st, False, lambda f, r: value(x, Y[f], r - math.floor(r / P) * P, Y[f][0]))
    c.seen("spectrum", "periodic")
    c.ok(same(keep, D), "unchanged")
    c.fact(mode=mode, n=n, P=P, filters=filters)
    c.nontrivial(mode, n, P, float(Y[filters[0]][0]))


def lclib(c):
    """Templates from light-curve library tables (AB magnitudes)."""
    rng = c.rng
    filters = [str(f) for f in rng.permutation(list("ugriz"))[: int(rng.integers(1, 4))]]
    n = int(rng.integers(2, 15))
    x = grid(rng, n, 0.0, 80.0)
    kind = str(rng.choice(["NON-RECUR", "RECUR-NONPERIODIC", "PERIODIC", "RECUR-PERIODIC"]))
    per = "NONP" not in kind and "PERIODIC" in kind
    mag = {f: rng.uniform(16, 26, n) for f in filters}
    closed = per and rng.uniform() < 0.5
    if closed:
        for f in filters:
            mag[f][-1] = mag[f][0]
    if rng.uniform() < 0.2:
        mag = {f: v - 25 for f, v in mag.items()}
    start = float(rng.choice([0.0, 53000.0, -10.0]))
    x = x - x[0] + start
    types = rng.uniform() < 0.6
    tmpl = {f: float(rng.uniform(18, 28)) for f in filters}
    has_t = types and rng.uniform() < 0.7
    cols = {"time": x.copy()}
    if types:
        cols["type"] = np.array(["S"] * n)
    for f in filters:
        cols[f] = mag[f].copy()
    tab = Table(cols, meta={"RECUR_CLASS": kind})
    if has_t:
        at = int(rng.choice([0, n]))
        tab.insert_row(at, {"time": start - 50.0, "type": "T", **tmpl})
        c.seen("lclib", "template")
    if not types:
        c.seen("lclib", "no_type")
    copy = tab.copy()
    sub = filters
    kw = {}
    if len(filters) > 1 and rng.uniform() < 0.3:
        sub = filters[: len(filters) - 1]
        kw["filters"] = [*sub, *["Q", "W", "nope"][: int(rng.integers(0, 4))]]
        c.seen("lclib", "subset")
    forced = None
    if not per and rng.uniform() < 0.4:
        forced = kw["forced_lc_t0"] = float(x[0] + rng.integers(-5, 9))
        c.seen("lclib", "forced")
    data = LightcurveData.from_lclib_table(tab, **kw)
    c.seen("lclib")
    c.equal(sorted(data.filters), sorted(sub), "lclib:filters")
    c.ok(tab.colnames == copy.colnames and len(tab) == len(copy) and all(np.array_equal(tab[k], copy[k]) for k in tab.colnames), "unchanged", "library table modified")
    grp = group_of(rng, sub, False)
    T0 = 60000.0
    m = MultiLightcurveTemplateModel([data], grp, t0=T0) if rng.uniform() < 0.5 else LightcurveTemplateModel(data, grp, 0.0, t0=T0)
    c.seen("multi") if isinstance(m, MultiLightcurveTemplateModel) else None
    s = m.sample_parameters()
    e = x[0] if forced is None else forced
    ph = x - e
    for f in sub:
        y = njy(mag[f])
        top = y.max()
        if per:
            px, py = ph, y
            if not all(np.isclose(njy(mag[g])[0], njy(mag[g])[-1]) for g in sub):
                px = np.append(ph, ph[-1] + (ph[-1] - ph[0]) / (n - 1))
                py = np.append(y, y[0])
                c.seen("lclib", "periodic_open")
            else:
                c.seen("lclib", "periodic_closed")
            P = px[-1]
            c.close(data.period, P, "lclib:period", rtol=1e-9)
            k = int(rng.integers(-50, 50))
            t = T0 + k * P + px
            sl = np.abs(np.diff(py) / np.diff(px)).max()
            c.close(ask(m, grp, f, t, s), py, "lclib", rtol=1e-6, atol=1e-6 * top + sl * 1e-8, msg=f"{kind} filter {f} cycle {k}")
        else:
            c.close(ask(m, grp, f, T0 + ph, s), y, "lclib", rtol=1e-8, atol=0, msg=f"{kind} filter {f} forced {forced}")
            b = float(njy(tmpl[f])) if has_t else 0.0
            c.close(ask(m, grp, f, T0 + np.array([ph[0] - 5, ph[-1] + 0.5, ph[-1] + 1e4]), s), np.full(3, b), "lclib:baseline", rtol=1e-9, atol=0, msg=f"template row {tmpl[f]}")
            mid = 0.5 * (ph[1:] + ph[:-1])
            c.close(ask(m, grp, f, T0 + mid, s), 0.5 * (y[1:] + y[:-1]), "lclib", rtol=1e-5, atol=1e-6 * top)
    c.fact(kind=kind, n=n, types=bool(types), start=start)
    c.nontrivial(kind, n, start, float(mag[filters[0]][0]))


def several(c):
    """A model with several template curves shows, sample by sample, the curve it selected - its fluxes, baselines and reference epoch."""
    rng = c.rng
    filters = [str(f) for f in rng.permutation(list("ugriz"))[: int(rng.integers(1, 4))]]
    k = int(rng.integers(2, 6))
    grp = group_of(rng, filters, False)
    data, X, Y, B = [], [], [], []
    for _ in range(k):
        own = [f for f in filters if rng.uniform() < 0.8] or [filters[0]]
        epoch = float(rng.choice([0.0, 57000.0, 3.5]))
        xs = {f: grid(rng, int(rng.integers(2, 9))) for f in own}
        ys = {f: rng.uniform(1, 500, len(xs[f])) for f in own}
        base = {f: float(rng.uniform(1, 90)) for f in own} if rng.uniform() < 0.7 else None
        data.append(LightcurveData({f: np.column_stack([xs[f] + epoch, ys[f]]) for f in own}, epoch, baseline=base))
        X.append(xs), Y.append(ys), B.append({f: (0.0 if base is None or f not in own else base[f]) for f in filters})
    filters = sorted({f for x in X for f in x})
    T0 = sources.vary(rng, 59990, 60010, p_const=0.0)
    m = MultiLightcurveTemplateModel(data, grp, t0=T0, node_label="m", weights=None if rng.uniform() < 0.5 else rng.uniform(0.1, 1, k))
    c.equal(len(m), k, "several:len")
    S = int(rng.choice([1, 5, 20]))
    st = m.sample_parameters(num_samples=S)
    picked = np.atleast_1d(m.get_param(st, "selected_lightcurve")).astype(int)
    c.ok(np.all((picked >= 0) & (picked < k)), "several:selected")
    for f in filters:
        got = np.atleast_1d(np.asarray(m.get_param(st, f"baseline_{f}"), float))
        c.close(got, [B[i].get(f, 0.0) for i in picked], "several:baseline", rtol=1e-12, msg=f"filter {f}")
    for i, s in zip(picked, sources.singles(st)):
        t0 = float(m.get_param(s, "t0"))
        for f in X[i]:
            x, y = X[i][f], Y[i][f]
            r = np.concatenate([0.5 * (x[1:] + x[:-1]), [x[0] - 3, x[-1] + 4, x[-1] + 1e4]])
            t = r + t0
            want = np.array([value(x, y, v, B[i][f]) for v in t - t0])
            c.close(ask(m, grp, f, t, s), want, "several", rtol=1e-7, atol=1e-6, msg=f"curve {i} filter {f}")
    c.seen("several", n=len(set(picked.tolist())))
    c.fact(k=k, S=S, filters=filters)
    if len(set(picked.tolist())) > 1:
        c.nontrivial(k, S, tuple(picked), float(next(iter(Y[0].values()))[0]))


def refusals(c):
    rng = c.rng
    good = np.array([[0.0, 1.0], [1.0, 2.0], [2.0, 1.0]])
    grp = group_of(rng, ["g", "r"], False)

    def no(tag, f, exc=ValueError):
        c.raises(exc, f, f"refused:{tag}")
        c.seen("refused", tag)

    no("unsorted", lambda: LightcurveData({"g": good[[0, 2, 1]]}, 0.0))
    no("unsorted", lambda: LightcurveData({"g": good[[0, 1, 1]]}, 0.0))
    no("columns", lambda: LightcurveData({"g": good[:, :1]}, 0.0))
    no("columns", lambda: LightcurveData({"g": np.ones((3, 4))}, 0.0))
    no("columns", lambda: LightcurveData({"g": good[:, 0]}, 0.0))
    no("columns", lambda: LightcurveData(good, 0.0))
    d = float(rng.uniform(0.01, 5))
    bad = good.copy()
    bad[-1, 1] += d
    no("ends", lambda: LightcurveData({"g": bad}, 0.0, periodic=True))
    no("ends", lambda: LightcurveData({"g": good, "r": bad}, 0.0, periodic=True))
    off = good.copy()
    off[1, 0] += float(rng.uniform(0.05, 0.9))
    no("times", lambda: LightcurveData({"g": good, "r": off}, 0.0, periodic=True))
    no("times", lambda: LightcurveData({"g": good[:1]}, 0.0, periodic=True))
    no("epoch", lambda: LightcurveData({"g": good + [[5.0, 0.0]]}, float(rng.uniform(0.1, 4)), periodic=True))
    no("baseline", lambda: LightcurveData({"g": good, "r": good}, 0.0, baseline={"g": 1.0}))
    no("no_t0", lambda: LightcurveTemplateModel({"g": good}, grp, 0.0))
    no("no_t0", lambda: LightcurveTemplateModel({"g": good}, grp, 0.0, t0=None))
    no("no_filter", lambda: LightcurveTemplateModel({"z": good}, grp, 0.0, t0=1.0))
    m = LightcurveTemplateModel({"g": good}, grp, 0.0, t0=1.0)
    no("unknown_filter", lambda: m.evaluate_bandfluxes(grp, np.array([1.0, 2.0]), np.array(["g", "r"]), m.sample_parameters()))
    no("type", lambda: LightcurveData([1, 2, 3], 0.0), TypeError)
    no("type", lambda: MultiLightcurveTemplateModel([{"g": good}], grp, t0=0.0), TypeError)
    tab = Table({"time": [0.0, 1.0], "g": [20.0, 21.0]})
    c.raises(ValueError, lambda: LightcurveData.from_lclib_table(Table({"x": [1.0], "g": [2.0]})), "refused:lclib")
    c.raises(ValueError, lambda: LightcurveData.from_lclib_table(tab, filters=["r"]), "refused:lclib")
    tab.meta["RECUR_CLASS"] = "SOMETIMES"
    c.raises(ValueError, lambda: LightcurveData.from_lclib_table(tab), "refused:lclib")
    c.nontrivial(d)


QUICK_SCALE = 8
SCENARIOS = [Scenario(curves, quick=400, thorough=12000), Scenario(periodic, quick=200, thorough=6000), Scenario(lclib, quick=200, thorough=5000), Scenario(several, quick=80, thorough=3000), Scenario(refusals, quick=8, thorough=100)]
