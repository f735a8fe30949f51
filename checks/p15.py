"""P15 - band fluxes against direct integrals over the given filter table."""

import numpy as np

from lclmon.core import Scenario
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

RULE = (
    "Filter tables with even, uneven, nearly even, reversed-density and repeated wavelengths, in Angstrom or nanometres, two to hundreds of rows, random overall scales and "
    "shapes (box, bump, spiky, zero wings), with random resampling steps (finer and coarser than the table, not dividing its range, none) and trim levels, and "
    "random spectra (flat, smooth, noisy, single-wavelength spikes; one sample or several). Each processed filter is judged against the linear "
    "interpolation of the given table and integrals recomputed independently on its wavelengths; refined grids against dense quadrature. "
    "Non-trivial: the filter has at least three wavelengths left. Distinct by table, step and trim."
)
REQUIRED = [
    "grid:even", "grid:uneven", "grid:near", "grid:repeats", "grid:jitter", "units:A", "units:nm", "step:none", "step:finer", "step:coarser", "trim:none", "trim:some", "spec:flat", "spec:smooth",
    "spec:noise", "spec:spike", "ndim:2", "ndim:3", "scale", "linear", "history", "refined", "refused:shape", "refused:order", "refused:empty_response", "refused:units", "refused:trim", "refused:matrix", "int_table",
    "library:object", "library:name", "library:ztf", "library:subset", "library:refused", "defaults", "compared:same", "compared:scaled", "compared:shape", "compared:shifted", "compared:stretched", "compared:step",
]
ASSUMPTIONS = [
    "Which wavelengths the processed grid uses is the code's choice as long as it spans the table up to the trimmed tails and its step is at most twice the requested one.",
    "Trimming works in whole cells of the grid: a tail may exceed the requested share by less than the area of one cell.",
    "Nearly even tables (jitter below 1e-5 of the step) are kept as they are and integrated to 1e-5.",
]


def raw_table(c):
    rng = c.rng
    kind = str(rng.choice(["even", "uneven", "near", "repeats", "jitter"], p=[0.25, 0.3, 0.1, 0.2, 0.15]))
    n = int(rng.choice([int(rng.integers(3, 12)), int(rng.integers(12, 400))]))
    lo = float(rng.choice([rng.uniform(300, 9000), float(rng.integers(300, 9000))]))
    if kind in ("even", "near", "jitter"):
        step = float(rng.choice([1.0, 5.0, 10.0, rng.uniform(0.3, 40)]))
        w = lo + step * np.arange(n)
        if kind == "near":
            w = w + step * rng.uniform(-1e-6, 1e-6, n)
        elif kind == "jitter":
            w = w + step * 10.0 ** rng.uniform(-3, -0.8) * rng.uniform(-1, 1, n)
    else:
        w = lo + np.cumsum(10.0 ** rng.uniform(-1, 1.7, n))
    if kind == "repeats":
        k = int(rng.integers(1, max(2, n // 3)))
        w = np.sort(np.concatenate([w, rng.choice(w, k)]))
    x = (w - w[0]) / (w[-1] - w[0])
    shape = str(rng.choice(["box", "bump", "spiky", "wings"]))
    t = {
        "box": np.ones(len(w)),
        "bump": np.exp(-0.5 * ((x - rng.uniform(0.2, 0.8)) / rng.uniform(0.05, 0.5)) ** 2),
        "spiky": rng.uniform(0, 1, len(w)) ** 4 + 1e-3,
        "wings": np.where((x > 0.25) & (x < 0.8), rng.uniform(0.2, 1, len(w)), 0.0),
    }[shape]
    if t.sum() <= 0:
        t = t + 0.5
    c.seen("grid", kind)
    c.seen("shape", shape)
    return kind, np.column_stack([w, t * float(10.0 ** rng.uniform(-3, 3))])


def averaged(tab):
    """Repeated wavelengths averaged."""
    w = np.unique(tab[:, 0])
    return np.column_stack([w, [tab[tab[:, 0] == x, 1].mean() for x in w]])


def trapz(y, x):
    return float(np.sum(np.diff(x) * (y[1:] + y[:-1]) / 2))


def weights(T, w):
    """Trapezoid weights of the photon-weighted average."""
    d = np.diff(w)
    q = np.zeros(len(w))
    q[:-1] += d / 2
    q[1:] += d / 2
    k = q * T / w
    return k / k.sum()


def settings(c, tab):
    rng = c.rng
    step = None if rng.uniform() < 0.25 else float(rng.choice([1.0, 5.0, 7.0, rng.uniform(0.5, 60)]))
    span = tab[-1, 0] - tab[0, 0]
    if step is not None and span / step > 5e4:
        step = span / 3000
    trim = None if rng.uniform() < 0.4 else float(rng.choice([0.0, 1e-3, 1e-2, rng.uniform(0, 0.3)]))
    return step, trim


def area_outside(tab, lo, hi):
    """Shares of the area of a piecewise linear table below lo and above hi."""
    def cdf(x):
        w = np.unique(np.concatenate([tab[:, 0][tab[:, 0] <= x], [x]]))
        return trapz(np.interp(w, tab[:, 0], tab[:, 1]), w) if len(w) > 1 else 0.0
    tot = trapz(tab[:, 1], tab[:, 0])
    return cdf(lo) / tot, 1 - cdf(hi) / tot


def judge_grid(c, pb, tab, step, trim, kind):
    """The filter's wavelengths and transmissions against the given table (in Angstrom)."""
    w = np.asarray(pb.waves, float)
    c.ok(np.all(np.diff(w) > 0), "grid:order", "wavelengths must increase")
    c.ok(w[0] >= tab[0, 0] * (1 - 1e-12) and w[-1] <= tab[-1, 0] * (1 + 1e-12), "grid:inside", f"{w[0]}..{w[-1]} outside {tab[0, 0]}..{tab[-1, 0]}")
    d = np.diff(w)
    even = np.allclose(np.diff(tab[:, 0]), step) if step is not None else False
    if step is None:
        c.ok(np.all(np.isin(w, tab[:, 0])) or np.all(np.min(np.abs(w[:, None] - tab[:, 0][None]), axis=1) < 1e-9 * w), "grid:own", "without a step the table's wavelengths are used")
        near = [np.argmin(np.abs(tab[:, 0] - x)) for x in (w[0], w[-1])]
        c.equal(len(w), near[1] - near[0] + 1, "grid:all", "wavelengths of the table left out")
    elif not even:
        c.ok(np.ptp(d) <= 1e-6 * step + 1e-9, "grid:even", f"steps {d.min()}..{d.max()}")
        c.ok(d.mean() <= 2 * step * (1 + 1e-9) and d.mean() >= step * (1 - 1e-6), "grid:step", f"step {d.mean()} for {step}")
    if not trim:
        c.close([w[0], w[-1]], [tab[0, 0], tab[-1, 0]], "grid:span", rtol=1e-12)
    else:
        # The untrimmed resampled filter has the same wavelengths and more; its tails are judged.
        full = np.asarray(Passband(tab, "S", "f", delta_wave=step, trim_quantile=None).waves, float)
        i, j = np.argmin(np.abs(full - w[0])), np.argmin(np.abs(full - w[-1]))
        c.ok(j - i + 1 == len(w) and np.allclose(full[i : j + 1], w, rtol=1e-12), "grid:part", "trimming must keep a contiguous part of the grid")
        ft = np.column_stack([full, np.interp(full, tab[:, 0], tab[:, 1])])
        lo, hi = area_outside(ft, w[0], full[min(j + 1, len(full) - 1)])
        c.ok(lo <= trim + 1e-9 and hi <= trim + 1e-9, "grid:trim", f"tails {lo:.3g},{hi:.3g} cut for {trim}")
        # Not more than two cells of the grid are kept beyond the requested tails.
        lo, hi = area_outside(ft, full[min(i + 2, len(full) - 1)], full[max(j - 2, 0)])
        c.ok(lo >= trim - 1e-9 and hi >= trim - 1e-9, "grid:untrimmed", f"tails {lo:.3g},{hi:.3g} left for {trim}")
    T = np.interp(w, tab[:, 0], tab[:, 1])
    return w, T


def spectra(c, w):
    rng = c.rng
    kind = str(rng.choice(["flat", "smooth", "noise", "spike"]))
    c.seen("spec", kind)
    n = int(rng.integers(1, 6))
    if kind == "flat":
        f = rng.uniform(0.1, 1e4, n)[:, None] * np.ones(len(w))
    elif kind == "smooth":
        f = np.array([np.sin(w / rng.uniform(50, 2000)) + rng.uniform(0, 3) for _ in range(n)])
    elif kind == "noise":
        f = rng.normal(size=(n, len(w))) * 10.0 ** rng.uniform(-3, 6, (n, 1))
    else:
        f = np.zeros((n, len(w)))
        f[np.arange(n), rng.integers(0, len(w), n)] = rng.uniform(1, 9, n)
    return kind, f


def filters(c):
    rng = c.rng
    kind, raw = raw_table(c)
    units = str(rng.choice(["A", "nm"]))
    c.seen("units", units)
    given = raw.copy()
    if units == "nm":
        given[:, 0] /= 10.0
    tab = averaged(np.column_stack([given[:, 0] * (10.0 if units == "nm" else 1.0), given[:, 1]]))
    step, trim = settings(c, tab)
    if kind in ("jitter", "even") and rng.uniform() < 0.5:
        step = float(np.round(np.median(np.diff(tab[:, 0])), int(rng.integers(2, 8))))
        if step <= 0:
            step = 1.0
    keep = given.copy()
    pb = build(c, given, "S", "f", step, trim, units, tab)
    c.ok(np.array_equal(given, keep), "input_changed", "the caller's table was modified")
    w, T = judge_grid(c, pb, tab, step, trim, kind)
    c.seen("step", "none" if step is None else ("finer" if step < np.median(np.diff(tab[:, 0])) else "coarser"))
    c.seen("trim", "some" if trim else "none")
    near = kind == "near" or (step is not None and np.allclose(np.diff(tab[:, 0]), step))
    tol = 3e-5 if near else 1e-8
    k = weights(T, w)
    c.close(trapz(np.asarray(pb.processed_transmission_table)[:, 1], w), 1.0, "normalised", rtol=tol)
    for _ in range(3):
        sk, f = spectra(c, w)
        scale = np.abs(f) @ k + 1e-300
        got = pb.fluxes_to_bandflux(f)
        c.ok(np.shape(got) == (len(f),) and np.all(np.abs(got - f @ k) <= tol * scale + 1e-12 * np.abs(f).max()), "integral", f"{sk} spectrum: {got[:3]} != {(f @ k)[:3]}", step=step, trim=trim)
        c.seen("ndim", "2")
        if sk == "flat":
            c.close(got, f[:, 0], "flat", rtol=tol)
        if rng.uniform() < 0.5:
            cube = np.stack([f, 2 * f, f[::-1]])
            c.close(pb.fluxes_to_bandflux(cube), np.stack([got, 2 * got, got[::-1]]), "samples", rtol=1e-9, atol=1e-12 * (np.abs(got).max() + np.abs(f).max()))
            c.seen("ndim", "3")
        a, b = rng.normal(size=2)
        g = rng.normal(size=f.shape)
        c.close(pb.fluxes_to_bandflux(a * f + b * g), a * got + b * pb.fluxes_to_bandflux(g), "linear", rtol=1e-8, atol=1e-9 * (np.abs(f).max() + 1))
        c.seen("linear")
    # The overall scale of the transmission is irrelevant.
    s2 = given.copy()
    s2[:, 1] *= 2.0 ** int(rng.integers(-20, 20))
    p2 = Passband(s2, "S", "f", delta_wave=step, trim_quantile=trim, units=units)
    f = rng.normal(size=(2, len(w)))
    c.equal(np.asarray(p2.waves), w, "scale:grid")
    c.close(p2.fluxes_to_bandflux(f), pb.fluxes_to_bandflux(f), "scale", rtol=1e-9, atol=1e-12)
    c.seen("scale")
    for bad in (np.ones((2, len(w) + 1)), np.ones((2, len(w) - 1)), np.ones(len(w)), np.zeros((0, len(w)))):
        c.raises(ValueError, lambda bad=bad: pb.fluxes_to_bandflux(bad), "refused:matrix")
    c.seen("refused", "matrix")
    # Changing the settings afterwards is the same as building with them.
    for _ in range(2):
        s, t = settings(c, tab)
        try:
            fresh = Passband(given, "S", "f", delta_wave=s, trim_quantile=t, units=units)
        except ValueError:
            c.raises(ValueError, lambda: pb.process_transmission_table(s, t), "history:refused")
            continue
        pb.process_transmission_table(s, t)
        c.close(pb.waves, fresh.waves, "history:grid", rtol=1e-12)
        f = rng.normal(size=(1, len(fresh.waves)))
        c.close(pb.fluxes_to_bandflux(f), fresh.fluxes_to_bandflux(f), "history", rtol=1e-9, atol=1e-12)
        c.seen("history")
    c.fact(kind=kind, rows=len(raw), step=step, trim=trim, units=units)
    if len(w) > 2:
        c.nontrivial(kind, len(raw), step, trim, float(raw[0, 0]))


def build(c, given, survey, name, step, trim, units, tab):
    """Very coarse steps may leave nothing to normalise: that must be refused, not mis-integrated."""
    span = tab[-1, 0] - tab[0, 0]
    try:
        return Passband(given, survey, name, delta_wave=step, trim_quantile=trim, units=units)
    except ValueError as err:
        coarse = step is not None and span / step < 8
        gone = step is not None and np.interp(np.linspace(tab[0, 0], tab[-1, 0], int(span / step) + 1), tab[:, 0], tab[:, 1]).sum() == 0
        few = trim is not None and trim > 0 and len(tab) < 12
        c.ok(coarse or gone or few or (trim or 0) > 0.1, "refused:good_table", f"a good table was refused: {err}")
        from lclmon.core import Skip

        raise Skip() from None


def refined(c):
    """A finely resampled or untouched filter against dense quadrature over the table."""
    rng = c.rng
    kind, tab = raw_table(c)
    tab = averaged(tab)
    span = tab[-1, 0] - tab[0, 0]
    step = float(np.min(np.diff(tab[:, 0])) / 8)
    step = max(step, span / 40000)
    p, q, a = rng.uniform(200, 3000), rng.uniform(0, 6), rng.uniform(1.1, 5)
    fn = lambda x: a + np.sin(x / p + q)  # noqa: E731
    fine = Passband(tab, "S", "f", delta_wave=step, trim_quantile=None)
    x = np.unique(np.concatenate([np.linspace(tab[0, 0], tab[-1, 0], 60000), tab[:, 0]]))
    T = np.interp(x, tab[:, 0], tab[:, 1]) / x
    want = trapz(fn(x) * T, x) / trapz(T, x)
    rel = np.abs(np.diff(tab[:, 1])).max() / max(trapz(tab[:, 1], tab[:, 0]) / span, 1e-300)
    tol = 1e-6 + 2 * rel * (step / span) * 1e-1 * len(tab) ** 0.5 + 3e-3 * step / span * len(tab)
    c.close(fine.fluxes_to_bandflux(fn(fine.waves)[None])[0], want, "refined", rtol=min(tol, 0.05), step=step, kind=kind)
    c.seen("refined")
    # Integer tables are real tables.
    w = np.arange(4000, 4000 + 10 * int(rng.integers(5, 40)), 10)
    ti = np.column_stack([w, rng.integers(1, 9, len(w))])
    pi, pf = Passband(ti, "S", "f", delta_wave=3.0, units="nm"), Passband(ti.astype(float), "S", "f", delta_wave=3.0, units="nm")
    g = np.sin(pf.waves)[None]
    c.equal(np.asarray(pi.waves), np.asarray(pf.waves), "int_table")
    c.equal(pi.fluxes_to_bandflux(g), pf.fluxes_to_bandflux(g), "int_table")
    c.seen("int_table")
    c.fact(kind=kind, step=step, want=want)
    c.nontrivial(kind, step, want)


def malformed(c):
    rng = c.rng
    kind, tab = raw_table(c)
    tab = averaged(tab)
    c.raises(ValueError, lambda: Passband(np.column_stack([tab, tab[:, 1]]), "S", "f"), "refused:shape")
    c.raises(ValueError, lambda: Passband(tab[:, :1], "S", "f"), "refused:shape")
    c.seen("refused", "shape")
    i = int(rng.integers(0, len(tab) - 1))
    bad = tab.copy()
    bad[[i, i + 1], 0] = bad[[i + 1, i], 0]
    c.raises(ValueError, lambda: Passband(bad, "S", "f"), "refused:order")
    c.raises(ValueError, lambda: Passband(tab[::-1], "S", "f"), "refused:order")
    c.seen("refused", "order")
    zero = tab.copy()
    zero[:, 1] = 0
    for t in (None, 1e-3):
        for s in (None, 5.0):
            c.raises(ValueError, lambda s=s, t=t: Passband(zero, "S", "f", delta_wave=s, trim_quantile=t), "refused:empty_response")
    c.seen("refused", "empty_response")
    c.raises(ValueError, lambda: Passband(tab, "S", "f", units=str(rng.choice(["micron", "angstrom", "m", ""]))), "refused:units")
    c.seen("refused", "units")
    for t in (-0.01, 0.5, 0.7, 1.0):
        c.raises(ValueError, lambda t=t: Passband(tab, "S", "f", trim_quantile=t), "refused:trim")
    c.seen("refused", "trim")
    c.fact(kind=kind, rows=len(tab))
    c.nontrivial(kind, i, len(tab))


def library_filters(c):
    """Filters taken from sncosmo objects or names are that table's filters, untrimmed and in Angstrom."""
    import sncosmo

    rng = c.rng
    tabs, objs = {}, {}
    for f in "gri":
        for _ in range(50):
            kind, tab = raw_table(c)
            tab = averaged(tab)
            lit = tab[tab[:, 1] > 0, 0]
            if lit[-1] - lit[0] > 80.0:
                break
        tab[:, 1] /= tab[:, 1].max()
        unit = str(rng.choice(["AA", "nm"]))
        wave = tab[:, 0] / (10.0 if unit == "nm" else 1.0)
        from astropy import units as u

        objs[f] = sncosmo.Bandpass(wave, tab[:, 1], wave_unit=u.AA if unit == "AA" else u.nm, name=f"ztf{f}")
        sncosmo.register(objs[f], name=f"ztf{f}", force=True)
        # sncosmo may drop zero tails and converts units: its object is the table that counts.
        tabs[f] = np.column_stack([objs[f].wave, objs[f].trans])
        lo, hi = tab[tab[:, 1] > 0, 0][[0, -1]]
        c.ok(tabs[f][0, 0] <= lo * (1 + 1e-9) and tabs[f][-1, 0] >= hi * (1 - 1e-9), "library", "sncosmo keeps the filter in Angstrom")
        c.fact(kind=kind, unit=unit)

    def judge(pb, f, survey, name, how):
        tab = tabs[f]
        even = np.allclose(np.diff(tab[:, 0]), np.diff(tab[:, 0])[0])
        want = Passband(tab, survey, name, trim_quantile=None, units="A")
        c.equal((pb.full_name, pb.survey, pb.filter_name), (f"{survey}_{name}", survey, name), "library", "names")
        c.close([pb.waves[0], pb.waves[-1]], [tab[0, 0], tab[-1, 0]], "library", 1e-9, 0, f"{how}: nothing trimmed")
        c.equal(len(pb.waves), len(want.waves), "library", f"{how}: the same grid")
        c.close(pb.processed_transmission_table, want.processed_transmission_table, "library", 1e-6 if not even else 1e-8, 1e-12, f"{how}: the table's filter")
        fl = rng.uniform(0, 5, (2, len(pb.waves)))
        k = weights(np.interp(pb.waves, tab[:, 0], tab[:, 1]), pb.waves)
        c.close(pb.fluxes_to_bandflux(fl), fl @ k, "library", 1e-6, 1e-9, f"{how}: integrals")

    for f in "gri":
        name = str(rng.choice([f, "x1", "F_" + f]))
        survey = str(rng.choice(["ZTF", "S"]))
        if rng.uniform() < 0.5:
            judge(Passband.from_sncosmo(survey, name, objs[f]), f, survey, name, "object")
            c.seen("library", "object")
        else:
            judge(Passband.from_sncosmo(survey, name, f"ztf{f}"), f, survey, name, "name")
            c.seen("library", "name")
    c.raises(ValueError, lambda: Passband.from_sncosmo("S", "g"), "library", "no bandpass")
    c.raises(Exception, lambda: Passband.from_sncosmo("S", "g", "no_such_band_at_all"), "library", "unknown name")
    c.seen("library", "refused")
    pick = [str(x) for x in rng.permutation(list("gri"))[: int(rng.integers(1, 4))]]
    sub = {}
    if len(pick) < 3:
        sub["filters"] = pick if rng.uniform() < 0.5 else [f"ZTF_{f}" for f in pick]
        c.seen("library", "subset")
    grp = PassbandGroup.from_preset(str(rng.choice(["ZTF", "ztf"])), **sub)
    c.equal(sorted(grp.filters), sorted(pick), "library", "filters of the ZTF set")
    for f in pick:
        judge(grp[f], f, "ZTF", f, "preset")
    c.seen("library", "ztf")
    c.nontrivial(str(pick), float(tabs["g"][0, 0]))


def compared(c):
    """Filters are equal when their processed responses are, and the stated defaults are the ones used."""
    rng = c.rng
    kind, tab = raw_table(c)
    tab = averaged(tab)
    step, trim = float((tab[-1, 0] - tab[0, 0]) / rng.uniform(30, 300)), None if rng.uniform() < 0.5 else 1e-3
    kw = dict(delta_wave=step, trim_quantile=trim)
    a = build(c, tab, "S", "f", step, trim, "A", tab)
    other = tab.copy()
    how = str(rng.choice(["same", "scaled", "shape", "shifted", "stretched", "step"]))
    if how == "scaled":
        other[:, 1] *= float(rng.uniform(0.1, 10))
    elif how == "shape":
        other[:, 1] *= np.linspace(1, rng.uniform(1.5, 3), len(tab))
    elif how == "shifted":
        other[:, 0] += float(rng.uniform(0.02, 0.2) * tab[0, 0])
    elif how == "stretched":
        other[:, 0] = tab[0, 0] + (tab[:, 0] - tab[0, 0]) * 1.05
    elif how == "step":
        kw["delta_wave"] = step / 2
    b = Passband(other, "T", "q", **kw)
    c.fact(kind=kind, how=how, step=step, trim=trim)
    alike = how in ("same", "scaled")
    if how in ("shape", "stretched"):  # a spike stays a spike
        ramp = [float(pb.fluxes_to_bandflux((pb.waves - tab[0, 0])[None])[0]) for pb in (a, b)]
        clear = len(a.waves) > 6 and abs(ramp[0] - ramp[1]) > 1e-3 * (tab[-1, 0] - tab[0, 0])
    else:
        clear = True
    if clear:
        c.ok((a == b) is alike or bool(a == b) == alike, "compared", how)
        c.ok(bool(b == a) == alike and bool(a != b) != alike, "compared", how)
        c.seen("compared", how)
    # The documented defaults: a step of 5 Angstroms, 0.001 of the response trimmed at each end, wavelengths in Angstroms.
    wide = np.linspace(3000, 3000 + rng.uniform(500, 4000), int(rng.integers(8, 40)))
    box = np.column_stack([wide, rng.uniform(0.1, 1, len(wide))])
    x, y = Passband(box, "S", "f"), Passband(box, "S", "f", delta_wave=5.0, trim_quantile=1e-3, units="A")
    c.ok(np.array_equal(x.waves, y.waves) and np.array_equal(x.processed_transmission_table, y.processed_transmission_table), "defaults")
    c.ok(abs(float(np.median(np.diff(x.waves))) - 5.0) < 0.1, "defaults", "steps of 5 Angstroms")
    c.seen("defaults")
    c.nontrivial(kind, how, step)


QUICK_SCALE = 8
SCENARIOS = [
    Scenario(filters, quick=700, thorough=30000),
    Scenario(refined, quick=250, thorough=8000),
    Scenario(malformed, quick=80, thorough=2000),
    Scenario(library_filters, quick=30, thorough=800),
    Scenario(compared, quick=150, thorough=4000),
]
