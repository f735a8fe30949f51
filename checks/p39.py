"""P39 - what the plotting helpers draw, read back from the figure."""

import math

import matplotlib

matplotlib.use("Agg")
import matplotlib.colors as mcolors  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from regions import CirclePixelRegion, EllipsePixelRegion, PixCoord, RectanglePixelRegion  # noqa: E402

from lclmon.core import Scenario  # noqa: E402
from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint  # noqa: E402
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup  # noqa: E402
from lightcurvelynx.models.lightcurve_template_model import LightcurveData, LightcurveTemplateModel  # noqa: E402
from lightcurvelynx.utils.plotting import plot_bandflux_lightcurves, plot_flux_spectrogram, plot_lightcurves  # noqa: E402

RULE = (
    "Random light curves (one point to hundreds; no filters, one, several or more than a colour cycle of them, some "
    "seen once; with and without errors, noise-free models, colour maps, titles, given axes or figures, several curves "
    "on one set of axes), named curves of different lengths, spectrograms of any shape, passbands, templates (periodic "
    "or not, with baselines, at their own or other times) and detector footprints with points inside, outside and far "
    "away. The artists are read back from the figure and compared with the data. Non-trivial: at least two different "
    "numbers drawn; distinct by the data."
)
REQUIRED = [
    "filters:none", "filters:one", "filters:some", "filters:many", "errors:yes", "errors:no", "truth:yes", "truth:no", "colours:given", "colours:default",
    "axes:given", "axes:figure", "axes:new", "axes:shared", "kind:series", "refused:times", "refused:filters", "refused:errors", "legend:yes", "title",
    "named:dict", "named:lengths", "named:array", "named:times", "spectrogram", "spectrogram:times", "spectrogram:waves", "spectrogram:labels",
    "passband", "passband:table", "passbands", "template:own", "template:times", "template:outside", "template:baseline", "template:periodic", "template:model", "basis",
    "footprint:inside", "footprint:outside", "footprint:beyond", "footprint:close", "footprint:bare", "footprint:rotated",
]
ASSUMPTIONS = [
    "Figures are drawn with matplotlib's file-only backend and read back as artists: colours, markers and labels are compared, pixels are not.",
    "Points of a footprint plot more than 80 degrees from its centre have no place on the plane and are not drawn.",
]


def target(c):
    """Axes to draw on, and a function telling which axes should have been used."""
    rng = c.rng
    how = str(rng.choice(["given", "figure", "new"]))
    c.seen("axes", how)
    plt.close("all")
    if how == "given":
        fig, ax = plt.subplots()
        return dict(ax=ax) if rng.uniform() < 0.5 else dict(ax=ax, figure=fig), lambda: ax
    if how == "figure":
        fig = plt.figure()
        plt.figure()
        return dict(figure=fig), lambda: fig.axes[0] if len(fig.axes) == 1 else None
    return {}, lambda: plt.gcf().axes[0] if len(plt.gcf().axes) == 1 else None


def lines_of(ax):
    """Every plain line of the axes: label, points, colour and style."""
    used = {id(x) for cont in ax.containers for part in (cont.lines if hasattr(cont, "lines") else []) for x in (part if isinstance(part, tuple) else [part])}
    out = []
    for ln in ax.get_lines():
        if id(ln) in used:
            continue
        out.append(dict(label=str(ln.get_label()), xy=np.column_stack([np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)]), color=mcolors.to_rgb(ln.get_color()), style=ln.get_linestyle(), marker=ln.get_marker()))
    return out


def bars_of(ax):
    out = []
    for cont in ax.containers:
        data, _, bars = cont.lines
        segs = np.concatenate([np.asarray(b.get_segments(), float) for b in bars]) if bars else np.zeros((0, 2, 2))
        out.append(dict(label=str(cont.get_label()), xy=np.column_stack([np.asarray(data.get_xdata(), float), np.asarray(data.get_ydata(), float)]), color=mcolors.to_rgb(data.get_color()), segs=segs))
    return out


def legend_of(ax):
    leg = ax.get_legend()
    return [] if leg is None else [t.get_text() for t in leg.get_texts()]


def rows(a):
    return sorted(tuple(float(v) for v in r) for r in a)


def same_points(c, got, want, tag, msg):
    got, want = rows(got), rows(want)
    c.ok(len(got) == len(want) and np.array_equal(np.array(got), np.array(want), equal_nan=True), tag, f"{msg}: drew {len(got)} points {got[:4]}, given {len(want)} points {want[:4]}")


COLOURS = ["red", "purple", "#12ab34", "orange", "teal", "navy", "gold", "pink", "grey", "olive"]


def curves(c):
    """Sampled light curves."""
    rng = c.rng
    kw, where = target(c)
    style = str(rng.choice(["none", "one", "some", "many"]))
    nf = {"none": 0, "one": 1, "some": int(rng.integers(2, 8)), "many": int(rng.integers(8, 14))}[style]
    c.seen("filters", style)
    n = int(rng.choice([1, 2, int(rng.integers(3, 12)), int(rng.integers(12, 200))]))
    n = max(n, nf)
    t = np.round(rng.uniform(60000, 61000, n), 6)
    f = np.round(rng.normal(0, 100, n), 6)
    e = np.round(np.abs(rng.normal(0, 10, n)), 6) if rng.uniform() < 0.5 else None
    c.seen("errors", "yes" if e is not None else "no")
    names = [str(x) for x in rng.permutation(["u", "g", "r", "i", "z", "y", "F087", "none", "None", "W1", "long name", "zz", "J", "K", "R"])[:nf]]
    filt = np.array(names + [str(x) for x in rng.choice(names, n - nf)])[rng.permutation(n)] if nf else None
    args = dict(kw)
    if e is not None:
        args["fluxerrs"] = e
    if filt is not None:
        args["filters"] = filt if rng.uniform() < 0.6 else list(filt)
    groups = {k: filt == k for k in names} if nf else {None: np.ones(n, bool)}
    truth = None
    if nf and rng.uniform() < 0.4:
        m = int(rng.integers(2, 30))
        truth = {k: np.round(rng.normal(0, 50, m), 6) for k in names if rng.uniform() < 0.8}
        truth["absent"] = np.zeros(m)
        truth["times"] = np.sort(np.round(rng.uniform(60000, 61000, m), 6))
        args["underlying_model"] = truth
    c.seen("truth", "yes" if truth is not None else "no")
    cmap = None
    if nf and rng.uniform() < 0.4:
        cmap = {k: COLOURS[i % len(COLOURS)] for i, k in enumerate(rng.permutation(names))}
        args["colormap"] = dict(cmap)
    c.seen("colours", "given" if cmap else "default")
    if rng.uniform() < 0.3:
        args["title"] = f"curve {n}"
    series = rng.uniform() < 0.2
    idx = rng.permutation(n) + 5
    give = (lambda a: pd.Series(a, index=idx)) if series else (lambda a: a)
    if series:
        c.seen("kind", "series")
        if e is not None:
            args["fluxerrs"] = give(e)
    before = (f.copy(), t.copy(), None if e is None else e.copy(), None if filt is None else filt.copy())
    ax = plot_lightcurves(give(f), give(t), **args)
    c.ok(ax is where(), "axes", "drawn on and returned the axes asked for")
    c.ok(np.array_equal(f, before[0]) and np.array_equal(t, before[1]) and (e is None or np.array_equal(e, before[2])) and (filt is None or np.array_equal(filt, before[3])), "inputs", "drawing changed its inputs")
    got_lines, got_bars = lines_of(ax), bars_of(ax)
    drawn = got_bars if e is not None else [x for x in got_lines if x["marker"] == "o"]
    smooth = [x for x in got_lines if x["marker"] != "o"] if e is None else got_lines
    c.equal(len(drawn), len(groups), "series", "one series per filter")
    shades = {}
    for k, mask in groups.items():
        mine = [x for x in drawn if k is None or x["label"] == f"Sample {k}"]
        c.equal(len(mine), 1, "series", f"one series for filter {k!r} among {[x['label'] for x in drawn]}")
        s = mine[0]
        same_points(c, s["xy"], np.column_stack([t[mask], f[mask]]), "points", f"filter {k!r}")
        if e is not None:
            want = [(tt, ff - ee, tt, ff + ee) for tt, ff, ee in zip(t[mask], f[mask], e[mask])]
            got = rows(s["segs"].reshape(-1, 4))
            c.ok(len(got) == len(want) and np.allclose(np.array(got), np.array(rows(want)), rtol=0, atol=1e-9), "bars", f"filter {k!r}: error bars {got[:3]}, expected {rows(want)[:3]}")
        if cmap:
            c.equal(s["color"], mcolors.to_rgb(cmap[k]), "colour", f"filter {k!r} in its colour")
        shades[k] = s["color"]
        if truth is not None and k in truth:
            model = [x for x in smooth if x["label"] == f"Model {k}"]
            c.equal(len(model), 1, "truth", f"noise-free curve of {k!r} drawn once")
            c.ok(np.array_equal(model[0]["xy"], np.column_stack([truth["times"], truth[k]])), "truth", f"noise-free curve of {k!r} as given")
            c.equal(model[0]["color"], s["color"], "truth", f"noise-free curve of {k!r} in the colour of its points")
    want_models = sorted(f"Model {k}" for k in groups if truth is not None and k in truth)
    c.equal(sorted(x["label"] for x in smooth if x["label"].startswith("Model")), want_models, "truth", "only the noise-free curves of the filters drawn")
    if not cmap and len(groups) <= 7:
        c.equal(len(set(shades.values())), len(groups), "colour", "filters told apart by colour")
    if len(groups) > 1:
        c.equal(sorted(legend_of(ax)), sorted(want_models + [f"Sample {k}" for k in groups]), "legend", "legend names what is drawn")
        c.seen("legend", "yes")
    if "title" in args:
        c.equal(ax.get_title(), args["title"], "title")
        c.seen("title")
    if rng.uniform() < 0.3:
        # A second curve on the same axes leaves the first alone.
        count = len(ax.get_lines())
        kept = [(id(x), tuple(np.asarray(x.get_ydata(), float))) for x in ax.get_lines()]
        t2, f2 = np.arange(4.0), np.round(rng.normal(0, 1, 4), 5)
        plot_lightcurves(f2, t2, ax=ax)
        c.ok([(id(x), tuple(np.asarray(x.get_ydata(), float))) for x in ax.get_lines()][:count] == kept, "shared", "curves already drawn stay as they were")
        c.ok(any(rows(x["xy"]) == rows(np.column_stack([t2, f2])) for x in lines_of(ax)), "shared", "the second curve is drawn too")
        c.seen("axes", "shared")
    bad = str(rng.choice(["times", "filters", "errors"]))
    c.seen("refused", bad)
    if bad == "times":
        c.raises(ValueError, lambda: plot_lightcurves(f, np.append(t, 1.0)), "refused")
    elif bad == "filters":
        c.raises(ValueError, lambda: plot_lightcurves(f, t, filters=["r"] * (n + 1)), "refused")
    else:
        c.raises(ValueError, lambda: plot_lightcurves(f, t, fluxerrs=np.ones(n + 1)), "refused")
    c.nontrivial(*f, *t)
    plt.close("all")


def named(c):
    """Named curves, each with its own values."""
    rng = c.rng
    kw, where = target(c)
    times = None
    if rng.uniform() < 0.25:
        n = int(rng.integers(2, 20))
        data = np.round(rng.normal(0, 10, n), 6)
        want = {"lightcurve": data}
        c.seen("named", "array")
    else:
        k = int(rng.integers(1, 6))
        n = int(rng.integers(2, 20))
        same = rng.uniform() < 0.5
        want = data = {f"c{i}": np.round(rng.normal(0, 10, n if same else int(rng.integers(1, 30))), 6) for i in range(k)}
        c.seen("named", "dict")
        if len({len(v) for v in want.values()}) > 1:
            c.seen("named", "lengths")
        elif rng.uniform() < 0.6:
            n = len(next(iter(want.values())))
    if len({len(v) for v in want.values()}) == 1 and rng.uniform() < 0.5:
        times = np.sort(np.round(rng.uniform(0, 100, len(next(iter(want.values())))), 5))
        kw["times"] = times
        c.seen("named", "times")
    copies = {k: v.copy() for k, v in want.items()}
    ax = plot_bandflux_lightcurves(data, **kw)
    c.ok(ax is where(), "axes", "drawn on and returned the axes asked for")
    got = {x["label"]: x["xy"] for x in lines_of(ax)}
    c.equal(len(lines_of(ax)), len(want), "named", "one line per curve")
    for k, v in want.items():
        c.ok(k in got, "named", f"curve {k} drawn")
        c.ok(np.array_equal(got[k], np.column_stack([np.arange(len(v)) if times is None else times, v])), "named", f"curve {k} drawn at its own times")
        c.ok(np.array_equal(v, copies[k]), "inputs", "drawing changed its inputs")
    if len(want) > 1:
        c.equal(sorted(legend_of(ax)), sorted(want), "legend", "legend names every curve")
    c.nontrivial(*[x for v in want.values() for x in v])
    plt.close("all")


def spectrogram(c):
    """One cell per time and wavelength."""
    rng = c.rng
    kw, where = target(c)
    T, W = int(rng.integers(1, 15)), int(rng.choice([int(rng.integers(1, 20)), int(rng.integers(20, 200))]))
    flux = np.round(rng.normal(100, 30, (T, W)), 4)
    times = np.sort(rng.uniform(0, 500, T)) if rng.uniform() < 0.7 else None
    waves = np.sort(rng.uniform(3000, 10000, W)) if rng.uniform() < 0.7 else None
    copy = flux.copy()
    ax = plot_flux_spectrogram(flux, times=times, wavelengths=waves, **kw)
    c.ok(ax is where(), "axes", "drawn on and returned the axes asked for")
    c.ok(np.array_equal(flux, copy), "inputs", "drawing changed its inputs")
    c.equal(len(ax.images), 1, "spectrogram", "one image")
    img = np.asarray(ax.images[0].get_array(), float)
    c.ok(img.shape == (W, T) and np.array_equal(img, flux.T), "spectrogram", f"cell per wavelength and time: drew {img.shape}, given {(W, T)}")
    c.seen("spectrogram")
    if times is not None:
        ticks = [(float(p), q.get_text()) for p, q in zip(ax.get_xticks(), ax.get_xticklabels())]
        c.ok(len(ticks) >= 1 and all(float(p).is_integer() and 0 <= p < T and abs(float(q) - times[int(p)]) <= 0.5 + 1e-9 for p, q in ticks), "ticks", f"time ticks at the times they name: {ticks[:4]}")
        c.seen("spectrogram", "times")
    if waves is not None:
        ticks = [(float(p), q.get_text()) for p, q in zip(ax.get_yticks(), ax.get_yticklabels())]
        c.ok(len(ticks) >= 1 and all(float(p).is_integer() and 0 <= p < W and abs(float(q) - waves[int(p)]) <= 0.5 + 1e-9 for p, q in ticks), "ticks", f"wavelength ticks at the wavelengths they name: {ticks[:4]}")
        c.seen("spectrogram", "waves")
    for tx in ax.texts:
        i, j = tx.get_position()
        c.ok(abs(float(tx.get_text()) - flux[int(i), int(j)]) <= 0.05 + 1e-9, "labels", f"number {tx.get_text()} at time {i}, wavelength {j} where the flux is {flux[int(i), int(j)]}")
    if ax.texts:
        c.seen("spectrogram", "labels")
    c.nontrivial(*flux[:, 0], *flux[0])
    plt.close("all")


def bands(c):
    """Passbands and groups of them."""
    rng = c.rng
    tabs = {}
    for k in rng.permutation(["u", "g", "r", "W", "odd"])[: int(rng.integers(1, 4))]:
        n = int(rng.integers(5, 60))
        tabs[str(k)] = np.column_stack([3000 + np.cumsum(rng.uniform(5, 60, n)), rng.uniform(0.1, 1, n)])
    objs = [Passband(tab, "S", k, delta_wave=5.0) for k, tab in tabs.items()]
    kw, where = target(c)
    if len(objs) == 1 or rng.uniform() < 0.4:
        pb, tab = objs[0], next(iter(tabs.values()))
        table = rng.uniform() < 0.5
        col = str(rng.choice(["red", "teal"])) if rng.uniform() < 0.5 else None
        pb.plot(plot_loaded=table, **({} if col is None else {"color": col}), **kw)
        ax = where()
        got = lines_of(ax)
        c.equal(len(got), 2 if table else 1, "passband", "lines drawn")
        mine = [x for x in got if x["style"] == "-"]
        c.ok(len(mine) == 1 and np.array_equal(mine[0]["xy"], np.asarray(pb.processed_transmission_table, float)), "passband", "the processed table is drawn")
        if table:
            raw = [x for x in got if x["style"] == "--"]
            c.ok(len(raw) == 1 and np.allclose(raw[0]["xy"], tab, rtol=1e-12), "passband", "the given table is drawn dashed")
            c.seen("passband", "table")
        if col is not None:
            c.ok(all(x["color"] == mcolors.to_rgb(col) for x in got), "passband", "in the colour asked for")
        c.seen("passband")
    else:
        group = PassbandGroup(objs)
        group.plot(**kw)
        ax = where()
        got = {x["label"]: x for x in lines_of(ax)}
        c.equal(sorted(got), sorted(f"S_{k}" for k in tabs), "passbands", "one line per passband")
        for k in tabs:
            c.ok(np.array_equal(got[f"S_{k}"]["xy"], np.asarray(group[k].processed_transmission_table, float)), "passbands", f"passband {k} as processed")
        c.equal(sorted(legend_of(ax)), sorted(got), "legend")
        c.seen("passbands")
    c.nontrivial(*[x for v in tabs.values() for x in v[:, 1]])
    plt.close("all")


def templates(c):
    """Light curve templates, as they are evaluated."""
    rng = c.rng
    periodic = rng.uniform() < 0.4
    fs = [str(x) for x in rng.permutation(["u", "g", "r"])[: int(rng.integers(1, 4))]]
    n = int(rng.integers(3, 15))
    base = np.cumsum(rng.uniform(0.5, 5, n))
    t0 = 0.0 if periodic else float(rng.choice([0.0, rng.uniform(-5, 5)]))
    data = {}
    for f in fs:
        t = base if periodic or rng.uniform() < 0.5 else np.cumsum(rng.uniform(0.5, 5, int(rng.integers(2, 15))))
        v = np.round(rng.uniform(1, 50, len(t)), 4)
        if periodic:
            v[-1] = v[0]
        data[f] = np.column_stack([t, v])
    bl = {f: float(np.round(rng.uniform(1, 9), 3)) for f in fs} if not periodic and rng.uniform() < 0.6 else None
    start = base[0] if periodic else t0
    given = {f: a.copy() for f, a in data.items()}
    kw, where = target(c)
    q = None
    if rng.uniform() < 0.6:
        q = np.sort(rng.uniform(-20, 90, int(rng.integers(3, 40))))
        q = np.sort(np.append(q, data[fs[0]][:, 0] - start))
    if rng.uniform() < 0.5:
        groups = PassbandGroup([Passband(np.column_stack([np.arange(4000 + 1500 * i, 5000 + 1500 * i, 10.0), np.ones(100)]), "S", f) for i, f in enumerate(fs)])
        model = LightcurveTemplateModel(given, groups, lc_data_t0=t0, periodic=periodic, baseline=bl, t0=float(rng.uniform(0, 50)))
        obj = model
        c.seen("template", "model")
    else:
        model = None
        obj = LightcurveData(given, t0, periodic=periodic, baseline=bl)
    obj.plot_lightcurves(times=q, **kw)
    ax = where()
    got = {x["label"]: x["xy"] for x in lines_of(ax)}
    c.equal(sorted(got), sorted(fs), "template", "one line per filter")
    for f in fs:
        t, v = data[f][:, 0] - start, data[f][:, 1]
        if q is None:
            c.close(got[f], np.column_stack([t, v]), "template", 1e-12, 1e-9, f"filter {f} drawn at its own times")
            c.seen("template", "own")
            continue
        c.ok(np.array_equal(got[f][:, 0], q), "template", "drawn at the times asked for")
        if periodic:
            w = np.array([np.interp(math.fmod(math.fmod(x, t[-1]) + t[-1], t[-1]), t, v) for x in q])
            c.seen("template", "periodic")
        else:
            w = np.where((q >= t[0]) & (q <= t[-1]), np.interp(q, t, v), 0.0 if bl is None else bl[f])
            if np.any((q < t[0]) | (q > t[-1])):
                c.seen("template", "outside")
                if bl is not None:
                    c.seen("template", "baseline")
        # A time within rounding of an end may fall on either side of it.
        edge = (np.abs(q - t[0]) < 1e-9) | (np.abs(q - t[-1]) < 1e-9)
        c.close(got[f][:, 1][~edge], w[~edge], "template", 1e-9, 1e-6, f"filter {f} as evaluated at the times asked for")
        c.seen("template", "times")
    c.equal(sorted(legend_of(ax)), sorted(fs), "legend")
    if model is not None:
        kw, where = target(c)
        model.plot_sed_basis(**kw)
        got = {x["label"]: x["xy"] for x in lines_of(where())}
        c.equal(sorted(got), sorted(fs), "basis", "one line per filter")
        for f in fs:
            c.ok(np.array_equal(got[f], np.column_stack([model.all_waves, model.sed_values[f]])), "basis", f"spectrum of {f} as used")
        c.seen("basis")
    c.nontrivial(*[x for a in data.values() for x in a[:, 1]])
    plt.close("all")


def footprint(c):
    """A detector footprint and the points laid over it."""
    rng = c.rng
    scale = float(rng.uniform(0.005, 0.05))
    a, b = float(rng.uniform(6, 60)), float(rng.uniform(6, 60))
    kind = str(rng.choice(["circle", "rect", "ellipse"]))
    reg = {"circle": lambda: CirclePixelRegion(PixCoord(0, 0), a / 2), "rect": lambda: RectanglePixelRegion(PixCoord(0, 0), a, b), "ellipse": lambda: EllipsePixelRegion(PixCoord(0, 0), a, b)}[kind]()
    fp = DetectorFootprint(reg, pixel_scale=scale)
    cra, cdec = float(rng.uniform(0, 360)), float(rng.uniform(-60, 60))
    rot = float(rng.uniform(-180, 180)) if rng.uniform() < 0.5 else 0
    kw, where = target(c)
    box = reg.bounding_box
    if rng.uniform() < 0.15:
        fp.plot(**kw)
        ax = where()
        x, y = ax.get_xlim(), ax.get_ylim()
        c.ok(x[0] <= box.ixmin and x[1] >= box.ixmax and y[0] <= box.iymin and y[1] >= box.iymax, "view", "the whole footprint is in view")
        c.seen("footprint", "bare")
        c.nontrivial(scale, a, b)
        plt.close("all")
        return
    spread = float(rng.choice([0.2, 1.0, 8.0])) * max(a, b) * scale
    n = int(rng.integers(1, 30))
    ra = cra + rng.uniform(-spread, spread, n) / math.cos(math.radians(cdec))
    dec = cdec + rng.uniform(-spread, spread, n)
    if rot:
        c.seen("footprint", "rotated")
    fp.plot(center_ra=cra, center_dec=cdec, rotation=rot, point_ra=ra, point_dec=dec, **kw)
    ax = where()
    inside = np.array([bool(fp.contains(float(r), float(d), cra, cdec, rotation=rot)) for r, d in zip(ra, dec)])
    px, py = fp.sky_to_pixel(ra, dec, cra, cdec, rotation=rot)
    xy = np.column_stack([px, py])
    got = {str(s.get_label()): np.asarray(s.get_offsets(), float) for s in ax.collections}
    c.ok(set(got) == {"Inside Footprint", "Outside Footprint"}, "footprint", f"points inside and outside told apart: {sorted(got)}")
    for name, mask in (("Inside Footprint", inside), ("Outside Footprint", ~inside)):
        g, w = np.array(rows(got[name])).reshape(-1, 2), np.array(rows(xy[mask])).reshape(-1, 2)
        c.ok(g.shape == w.shape and np.allclose(g, w, rtol=0, atol=1e-6), "footprint", f"{name}: drew {len(g)} points, {len(w)} of them are")
    x, y = ax.get_xlim(), ax.get_ylim()
    c.ok(x[0] <= box.ixmin and x[1] >= box.ixmax and y[0] <= box.iymin and y[1] >= box.iymax, "view", f"the whole footprint is in view: {x} {y} for {box}")
    c.ok(np.all((px >= x[0]) & (px <= x[1]) & (py >= y[0]) & (py <= y[1])), "view", f"every point is in view: {x} {y} for {px.min()}..{px.max()}, {py.min()}..{py.max()}")
    if inside.any():
        c.seen("footprint", "inside")
    if (~inside).any():
        c.seen("footprint", "outside")
    if np.any((np.abs(px) > 1.1 * max(a, b)) | (np.abs(py) > 1.1 * max(a, b))):
        c.seen("footprint", "beyond")
    if spread < 0.3 * max(a, b) * scale:
        c.seen("footprint", "close")
    c.nontrivial(*ra, *dec)
    plt.close("all")


SCENARIOS = [
    Scenario(curves, quick=240, thorough=3000), Scenario(named, quick=120, thorough=1200), Scenario(spectrogram, quick=80, thorough=800),
    Scenario(bands, quick=80, thorough=600), Scenario(templates, quick=160, thorough=1600), Scenario(footprint, quick=160, thorough=1600),
]
