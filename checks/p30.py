"""P30 - grid interpolation and supernova spectra."""

import math
import shutil
from pathlib import Path

import h5py
import numpy as np
import sncosmo
from dust_extinction.parameter_averages import F99
from extinction import fitzpatrick99
from scipy.interpolate import CubicSpline
from sncosmo.salt2utils import BicubicInterpolator as RefGrid
from sncosmo.salt2utils import SALT2ColorLaw as RefLaw

from lclmon import sources
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.salt2_color_law import SALT2ColorLaw
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.models.bayesn import BayesnModel
from lightcurvelynx.models.salt2_jax import SALT2JaxModel
from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel
from lightcurvelynx.utils.bicubic_interp import BicubicInterpolator

RULE = (
    "Random grids (regular and irregular axes, 3 to 40 nodes, smooth and rough values) are queried at nodes, inside cells, next to edges, outside and in any order; results are compared with a double-precision evaluation of the convolution kernel in plain Python and with the compiled reference "
    "interpolator. Random colour laws and SALT model directories (shipped and generated) are compared with the reference colour law, the reference SALT implementation and the printed formula. BayeSN spectra (shipped and generated knot files and templates) are compared with natural cubic splines from SciPy, the F99 law at the sample's own "
    "R_V and published reference fluxes; amplitude, theta, A_V and t0 dependences are checked on their own. Non-trivial: every case. Distinct by grid, query and parameters."
)
REQUIRED = [
    "axis:regular", "axis:irregular", "axis:drifting", "axis:units", "axis:small", "query:node", "query:cell", "query:edge", "query:outside", "query:unordered", "query:repeated", "alone", "reference:kernel", "reference:compiled", "file", "refused:unsorted", "refused:short", "refused:shape",
    "law", "law:below", "law:above", "law:inside", "law:file", "law:coefficients", "salt", "salt:shipped", "salt:generated", "salt:outside_time", "salt:outside_wave", "salt:redshifted", "salt:batch", "salt:x0", "salt:sncosmo", "salt:file_names",
    "bayesn", "bayesn:shipped", "bayesn:generated", "bayesn:published", "bayesn:rv", "bayesn:no_dust", "bayesn:theta", "bayesn:amplitude", "bayesn:t0", "bayesn:batch", "bayesn:redshifted", "bayesn:single_time", "bayesn:file_names",
    "wrapped:salt", "wrapped:series", "wrapped:stretch", "wrapped:set", "wrapped:default", "wrapped:redshifted", "wrapped:batch",
]
ASSUMPTIONS = [
    "The SALT implementation works in single precision; comparisons allow 1e-4 of the local grid values.",
    "BayeSN is checked inside its knots and R_V in [2, 6] (the dust law's range).",
    "On the boundary between edge cells (linear) and inner cells (cubic) either rule is accepted.",
]
DATA = "/repo/tests/lightcurvelynx/data"


# ---------------------------------------------------------------- grids
def kernel(t):
    x = abs(t)
    a = -0.5
    if x <= 1:
        return (a + 2) * x**3 - (a + 3) * x**2 + 1
    if x < 2:
        return a * (x**3 - 5 * x**2 + 8 * x - 4)
    return 0.0


def cell(ax, q):
    """All admissible cells of a query (two when it sits on a node)."""
    n = len(ax)
    span = ax[-1] - ax[0]
    eps = 3e-6 * max(abs(ax[0]), abs(ax[-1]), span)
    out = [i for i in range(n - 1) if ax[i] - eps <= q <= ax[i + 1] + eps]
    return out


def value(xs, ys, z, x, y, i, j):
    n, m = len(xs), len(ys)
    if i == 0 or j == 0 or i > n - 3 or j > m - 3:
        a, b = (x - xs[i]) / (xs[i + 1] - xs[i]), (y - ys[j]) / (ys[j + 1] - ys[j])
        return (1 - a) * ((1 - b) * z[i, j] + b * z[i, j + 1]) + a * ((1 - b) * z[i + 1, j] + b * z[i + 1, j + 1]), "edge"
    dx, dy = (x - xs[i]) / (xs[i + 1] - xs[i]), (y - ys[j]) / (ys[j + 1] - ys[j])
    wx = [kernel(dx - k) for k in (-1, 0, 1, 2)]
    wy = [kernel(dy - k) for k in (-1, 0, 1, 2)]
    return sum(wx[a] * wy[b] * z[i - 1 + a, j - 1 + b] for a in range(4) for b in range(4)), "cell"


def acceptable(xs, ys, z, x, y):
    """Every value the definition allows at (x, y)."""
    if not (xs[0] <= x <= xs[-1] and ys[0] <= y <= ys[-1]):
        near = any(abs(q - e) <= 2e-6 * max(a[-1] - a[0], abs(e)) for q, a in ((x, xs), (y, ys)) for e in (a[0], a[-1]))
        out = [(0.0, "outside")]
        if not near:
            return out
        x, y = min(max(x, xs[0]), xs[-1]), min(max(y, ys[0]), ys[-1])
        return out + [value(xs, ys, z, x, y, i, j) for i in cell(xs, x) for j in cell(ys, y)]
    out = [value(xs, ys, z, x, y, i, j) for i in cell(xs, x) for j in cell(ys, y)]
    if any(q in (a[0], a[-1]) and float(np.float32(q)) != q for q, a in ((x, xs), (y, ys))):
        out.append((0.0, "outside"))
    return out


def axis(c):
    rng = c.rng
    n = int(rng.choice([3, 4, 5, 8, 40]))
    if n <= 4:
        c.seen("axis", "small")
    lo = float(rng.choice([0.0, -10.0, 2000.0, 1.0]))
    if rng.uniform() < 0.6:
        c.seen("axis", "regular")
        return lo + float(rng.choice([0.5, 1.0, 10.0, 0.25])) * np.arange(n)
    if rng.uniform() < 0.4:
        # Nearly regular: every step is the same but for a few per mille, adding up over the axis.
        c.seen("axis", "drifting")
        step = float(rng.choice([0.5, 1.0, 10.0]))
        n = int(rng.choice([8, 200]))
        return lo + np.concatenate([[0.0], np.cumsum(step * np.where(rng.uniform(size=n - 1) < 0.9, 1.0, 1.0 + 0.0078125 * rng.choice([0.125, 1.0])))])
    c.seen("axis", "irregular")
    return lo + np.cumsum(np.round(rng.uniform(0.5, 4.0, n) * 8) / 8)


def queries(c, ax):
    rng = c.rng
    out = []
    for _ in range(int(rng.integers(1, 9))):
        k = str(rng.choice(["node", "cell", "edge", "outside"]))
        if k == "node":
            q = float(rng.choice(ax))
        elif k == "cell":
            q = float(rng.uniform(ax[0], ax[-1]))
        elif k == "edge":
            i = int(rng.choice([0, len(ax) - 2]))
            q = float(ax[i] + rng.uniform(0.01, 0.99) * (ax[i + 1] - ax[i]))
        else:
            w = ax[-1] - ax[0]
            q = float(rng.choice([ax[0] - rng.uniform(0.01, 2) * w, ax[-1] + rng.uniform(0.01, 2) * w]))
        c.seen("query", k)
        out.append(q)
    if out != sorted(out):
        c.seen("query", "unordered")
    if rng.uniform() < 0.2:
        out.append(out[0])
        c.seen("query", "repeated")
    return np.array(out)


def grids(c):
    """The interpolator on its own."""
    rng = c.rng
    xs, ys = axis(c), axis(c)
    if rng.uniform() < 0.5:  # the same axes in other units
        xs, ys = xs * 2.0 ** int(rng.integers(-40, 12)), ys * 2.0 ** int(rng.integers(-40, 12))
        c.seen("axis", "units")
    scale = 10 ** float(rng.uniform(-3, 6))
    if rng.uniform() < 0.5:
        z = rng.normal(0, 1, (len(xs), len(ys))) * scale
    else:
        z = scale * np.outer(np.sin(np.arange(len(xs)) * 0.7 + 1), np.cos(np.arange(len(ys)) * 0.4)) + scale
    if rng.uniform() < 0.25:
        f = c.tmp / "grid.dat"
        f.write_text("\n".join(f"{x!r} {y!r} {float(z[i, j])!r}" for i, x in enumerate(xs.tolist()) for j, y in enumerate(ys.tolist())))
        factor = float(rng.choice([1.0, 2.5]))
        g = BicubicInterpolator.from_grid_file(f, scale_factor=factor)
        z = z * factor
        c.seen("file")
    else:
        g = BicubicInterpolator(xs, ys, z)
    qx, qy = queries(c, xs), queries(c, ys)
    got = np.asarray(g(qx, qy), float)
    c.equal(got.shape, (len(qx), len(qy)), "shape", "one value per pair")
    ref = np.asarray(RefGrid(xs, ys, z)(np.sort(qx), np.sort(qy)))
    ox, oy = np.argsort(np.argsort(qx, kind="stable"), kind="stable"), np.argsort(np.argsort(qy, kind="stable"), kind="stable")
    rel = sum(2.4e-7 * np.abs(a).max() / np.diff(a).min() for a in (xs, ys))  # single-precision positions
    tol = (2e-4 + 4 * rel) * np.abs(z).max()
    for a, x in enumerate(qx):
        for b, y in enumerate(qy):
            ok = acceptable(xs, ys, z, float(x), float(y))
            c.ok(min(abs(got[a, b] - v) for v, _ in ok) <= tol, "kernel", f"value at ({x}, {y}) is {got[a, b]}, expected {[v for v, _ in ok]}", xs=xs, ys=ys)
            if len(ok) == 1 and x < xs[-1] and y < ys[-1] or len({k for _, k in ok}) == 1 == len(ok):
                c.ok(abs(ref[ox[a], oy[b]] - ok[0][0]) <= tol, "reference", f"compiled reference at ({x}, {y}) is {ref[ox[a], oy[b]]}, own {ok[0][0]}")
                c.seen("reference", "compiled")
            c.seen("reference", "kernel")
            if x in xs and y in ys:
                i, j = list(xs).index(x), list(ys).index(y)
                c.ok(abs(got[a, b] - z[i, j]) <= tol, "node", "grid values are reproduced")
    a, b = int(rng.integers(len(qx))), int(rng.integers(len(qy)))
    one = np.asarray(g(qx[a : a + 1], qy[b : b + 1]), float)
    c.close(one, got[a : a + 1, b : b + 1], "alone", 0, 1e-6 * np.abs(z).max(), "a point on its own")
    c.seen("alone")
    if rng.uniform() < 0.2:
        bad = xs.copy()
        bad[0], bad[1] = bad[1], bad[0]
        c.raises(ValueError, lambda: BicubicInterpolator(bad, ys, z), "refused", "unsorted axis")
        rep = xs.copy()
        rep[1] = rep[0]
        c.raises(ValueError, lambda: BicubicInterpolator(rep, ys, z), "refused", "repeated node")
        c.seen("refused", "unsorted")
        c.raises(ValueError, lambda: BicubicInterpolator(xs[:2], ys, z[:2]), "refused", "two nodes")
        c.seen("refused", "short")
        c.raises(ValueError, lambda: BicubicInterpolator(xs, ys, z[:-1]), "refused", "wrong shape")
        c.raises(ValueError, lambda: BicubicInterpolator(xs, ys, z.ravel()), "refused", "flat values")
        c.seen("refused", "shape")
    c.nontrivial(*xs, *ys, *qx, *qy)


# ---------------------------------------------------------------- colour law
def law_value(lo, hi, coef, w):
    coef = list(coef)[:6]
    p = [1 - sum(coef)] + coef

    def P(t):
        return sum(a * t ** (k + 1) for k, a in enumerate(p))

    def D(t):
        return sum((k + 1) * a * t**k for k, a in enumerate(p))

    sc = lambda q: (q - 4302.57) / (5428.55 - 4302.57)
    t, a, b = sc(w), sc(lo), sc(hi)
    if t < a:
        return -(P(a) + D(a) * (t - a)), "below"
    if t > b:
        return -(P(b) + D(b) * (t - b)), "above"
    return -P(t), "inside"


def write_law(path, lo, hi, coef, rng):
    lines = [str(len(coef))] + [repr(float(v)) for v in coef]
    meta = ["Salt2ExtinctionLaw.version 1", f"Salt2ExtinctionLaw.min_lambda {lo!r}", f"Salt2ExtinctionLaw.max_lambda {hi!r}"]
    path.write_text("\n".join(lines + meta) + "\n")


def random_law(rng):
    lo, hi = float(np.round(rng.uniform(2500, 3800), 1)), float(np.round(rng.uniform(6500, 8500), 1))
    k = int(rng.integers(0, 7))
    return lo, hi, list(rng.normal(0, 0.3, k) * np.array([1, 0.6, 0.3, 0.1, 0.05, 0.02])[:k])


def law(c):
    """The colour law on its own."""
    rng = c.rng
    lo, hi, coef = random_law(rng)
    c.seen("law", "coefficients")
    if rng.uniform() < 0.4:
        f = c.tmp / "law.dat"
        write_law(f, lo, hi, coef, rng)
        cl = SALT2ColorLaw.from_file(f)
        c.seen("law", "file")
    else:
        cl = SALT2ColorLaw(lo, hi, coef)
    w = np.concatenate([rng.uniform(2000, 9500, 8), [lo, hi, 4302.57, 5428.55]])
    rng.shuffle(w)
    got = np.asarray(cl.apply(w), float)
    want = [law_value(lo, hi, coef, q) for q in w]
    for _, k in want:
        c.seen("law", k)
    v = np.array([a for a, _ in want])
    size = 1 + max(abs(law_value(lo, hi, [abs(q) for q in coef], 9500.0)[0]), sum(abs(q) * 4.0 ** (k + 2) for k, q in enumerate(coef)))
    c.close(got, v, "law", 1e-4, 2e-6 * size, "colour law", lo=lo, hi=hi, coef=coef)
    if coef:
        o = np.argsort(w)
        c.close(RefLaw((lo, hi), coef)(w[o]), v[o], "law:reference", 1e-9, 1e-9 * size, "reference colour law")
    c.seen("law")
    c.nontrivial(lo, hi, *coef)


# ---------------------------------------------------------------- SALT
def salt_dir(c):
    """(directory, phases, wavelengths, M0, M1, law)."""
    rng = c.rng
    if rng.uniform() < 0.3:
        c.seen("salt", "shipped")
        d = f"{DATA}/truncated-salt2-h17"
        out = []
        for f in ("salt2_template_0.dat", "salt2_template_1.dat"):
            t = np.loadtxt(f"{d}/{f}")
            ph, wv = np.unique(t[:, 0]), np.unique(t[:, 1])
            out.append(t[:, 2].reshape(len(ph), len(wv)))
        toks = open(f"{d}/salt2_color_correction.dat").read().split()
        k = int(toks[0])
        meta = dict(zip(toks[1 + k :: 2], toks[2 + k :: 2]))
        lo = [float(v) for q, v in meta.items() if "min_lambda" in q][0]
        hi = [float(v) for q, v in meta.items() if "max_lambda" in q][0]
        return d, ph, wv, out[0], out[1], (lo, hi, [float(v) for v in toks[1 : 1 + k]])
    c.seen("salt", "generated")
    d = c.tmp / "salt"
    d.mkdir(exist_ok=True)
    ph = float(rng.integers(-20, -5)) + np.arange(int(rng.integers(6, 25))) * float(rng.choice([1.0, 2.0]))
    wv = 2500.0 + float(rng.choice([10.0, 50.0, 100.0])) * np.arange(int(rng.integers(40, 70)))
    m0 = np.abs(rng.normal(1, 0.4, (len(ph), len(wv)))) + 0.1
    m1 = rng.normal(0, 0.2, m0.shape)
    la = random_law(rng)
    for f, m in (("salt2_template_0.dat", m0), ("salt2_template_1.dat", m1)):
        (d / f).write_text("\n".join(f"{p!r} {w!r} {float(m[i, j])!r}" for i, p in enumerate(ph.tolist()) for j, w in enumerate(wv.tolist())))
    write_law(d / "salt2_color_correction.dat", *la, rng)
    return str(d), ph, wv, m0, m1, la


def salt(c):
    """SALT spectra."""
    rng = c.rng
    d, ph, wv, m0, m1, la = salt_dir(c)
    S = int(rng.choice([1, 1, 3]))
    if S > 1:
        c.seen("salt", "batch")
    t0 = float(rng.choice([0.0, 60000.0]))
    red = rng.uniform() < 0.4
    z = [float(q) for q in rng.uniform(0.05, 1.0, S)] if red else [0.0] * S
    x0 = [10 ** float(q) for q in rng.uniform(-6, 1, S)]
    x1 = [float(q) for q in rng.normal(0, 2, S)]
    col = [float(q) for q in rng.normal(0, 0.3, S)]
    kw = dict(redshift=GivenValueList(z)) if red else {}
    shipped = str(d).startswith(DATA)
    named = {}
    if rng.uniform() < 0.3:
        # The same files under other names.
        named = {"m0_filename": "first.dat", "m1_filename": "salt3_template_1.dat", "cl_filename": "law.txt"}
        names = {"m0_filename": "salt2_template_0.dat", "m1_filename": "salt2_template_1.dat", "cl_filename": "salt2_color_correction.dat"}
        named = {k: v for k, v in named.items() if rng.uniform() < 0.7}
        other = c.tmp / "renamed"
        other.mkdir(exist_ok=True)
        for k, v in names.items():
            shutil.copy(Path(d) / v, other / named.get(k, v))
        d = other if rng.uniform() < 0.5 else str(other)
        if named:
            c.seen("salt", "file_names")
    m = SALT2JaxModel(x0=GivenValueList(x0), x1=GivenValueList(x1), c=GivenValueList(col), model_dir=d, t0=t0, **named, **kw)
    st = m.sample_parameters(num_samples=S)
    phase = np.concatenate([rng.uniform(ph[0], ph[-1], 4), rng.choice(ph[1:-1], 2), [ph[0] - 3.0, ph[-1] + 4.0]])
    rng.shuffle(phase)
    waves = np.concatenate([rng.uniform(wv[0] + 1, wv[-1] - 1, 5), rng.choice(wv[1:-1], 2), [wv[0] - 200.0, wv[-1] + 300.0]])
    rng.shuffle(waves)
    stretchf = 1 + z[0]
    flux = np.asarray(m.evaluate_sed(phase * stretchf + t0, waves * stretchf, st), float).reshape(S, len(phase), len(waves))
    for i in range(S):
        q = 1 + z[i]
        rp, rw = phase * stretchf / q, waves * stretchf / q
        law_ = np.array([law_value(*la, w)[0] for w in rw])
        for a, p in enumerate(rp):
            for b, w in enumerate(rw):
                best = None
                v0 = acceptable(ph, wv, m0, float(p), float(w))
                v1 = acceptable(ph, wv, m1, float(p), float(w))
                factor = 1e-12 * x0[i] * 10 ** (-0.4 * col[i] * law_[b]) * w**2 / 2.99792458e18 * 1e32 * q
                local = (np.abs(m0).max() + abs(x1[i]) * np.abs(m1).max()) * factor
                cand = [(u[0] + x1[i] * v[0]) * factor for u, v in zip(v0, v1)]
                best = min(abs(flux[i, a, b] - k) for k in cand)
                c.ok(best <= 5e-4 * local, "salt", f"sample {i}: flux at phase {p}, wavelength {w} is {flux[i, a, b]}, expected {cand}", x0=x0[i], x1=x1[i], c=col[i], z=z[i])
                if v0[0][1] == "outside":
                    c.seen("salt", "outside_time" if not ph[0] <= p <= ph[-1] else "outside_wave")
    c.seen("salt")
    if red:
        c.seen("salt", "redshifted")
    if S == 1:
        m2 = SALT2JaxModel(x0=2 * x0[0], x1=x1[0], c=col[0], model_dir=d, t0=t0, **named, **(dict(redshift=z[0]) if red else {}))
        f2 = np.asarray(m2.evaluate_sed(phase * stretchf + t0, waves * stretchf, m2.sample_parameters()), float)
        c.close(f2, 2 * flux[0], "salt:x0", 1e-4, 1e-6 * np.abs(flux).max(), "flux proportional to the amplitude")
        c.seen("salt", "x0")
        if shipped and not named:
            src = sncosmo.SALT2Source(modeldir=str(d))
            src.set(x0=x0[0], x1=x1[0], c=col[0])
            pp, ww = np.sort(rng.uniform(ph[0] + 1, ph[-1] - 1, 4)), np.sort(rng.uniform(wv[0] + 100, wv[-1] - 100, 6))
            ref = src.flux(pp, ww) * ww**2 / 2.99792458e18 * 1e32 * stretchf
            got = np.asarray(m.evaluate_sed(pp * stretchf + t0, ww * stretchf, st), float)
            c.close(got, ref, "salt:sncosmo", 1e-3, 5e-4 * np.abs(ref).max(), "reference implementation")
            c.seen("salt", "sncosmo")
    c.nontrivial(*x0, *x1, *col, *z)


# ---------------------------------------------------------------- BayeSN
class Template:
    """Knots and template, read or generated, with an independent evaluation."""

    def __init__(self, c, shipped):
        rng = c.rng
        if shipped:
            self.dir, self.h5 = Path(DATA) / "BAYESN.M20", Path(DATA) / "hsiao.h5"
        else:
            self.dir = c.tmp / "bayesn"
            self.dir.mkdir(exist_ok=True)
            lk = np.concatenate([[3000.0], 3000 + np.cumsum(rng.uniform(400, 2500, int(rng.integers(3, 9))))]).round(1)
            tk = np.concatenate([[-10.0], -10 + np.cumsum(rng.uniform(3, 15, int(rng.integers(2, 7))))]).round(2)
            np.savetxt(self.dir / "l_knots.txt", lk)
            np.savetxt(self.dir / "tau_knots.txt", tk)
            for f in ("W0.txt", "W1.txt"):
                np.savetxt(self.dir / f, rng.normal(0, 0.3, (len(lk), len(tk))))
            self.h5 = c.tmp / "hsiao.h5"
            ph, wv = np.arange(-15.0, tk[-1] + 12, float(rng.choice([1.0, 2.5]))), np.arange(2000.0, lk[-1] + 1500, float(rng.choice([100.0, 250.0])))
            with h5py.File(self.h5, "w") as f:
                g = f.create_group("default")
                g["phase"], g["wave"], g["flux"] = ph, wv, np.abs(rng.normal(1, 0.5, (len(ph), len(wv)))) * 1e-9
        self.W0, self.W1 = np.loadtxt(self.dir / "W0.txt"), np.loadtxt(self.dir / "W1.txt")
        self.lk, self.tk = np.loadtxt(self.dir / "l_knots.txt"), np.loadtxt(self.dir / "tau_knots.txt")
        with h5py.File(self.h5) as f:
            self.ph, self.wv, self.fl = (f["default"][k][()].astype(float) for k in ("phase", "wave", "flux"))
        self._w = CubicSpline(self.wv, self.fl, axis=1, bc_type="natural")
        self.named = {}
        if rng.uniform() < 0.3:
            # The same files under other names.
            names = {"W0_filename": "W0.txt", "W1_filename": "W1.txt", "l_knots_filename": "l_knots.txt", "tau_knots_filename": "tau_knots.txt"}
            self.named = {k: f"my_{v}" for k, v in names.items() if rng.uniform() < 0.6}
            other = c.tmp / "bayesn_renamed"
            other.mkdir(exist_ok=True)
            for k, v in names.items():
                shutil.copy(self.dir / v, other / self.named.get(k, v))
            self.dir = other
            if self.named:
                c.seen("bayesn", "file_names")

    def flux(self, phase, waves, theta, av, rv, amp):
        """Scalar-parameter reference in nJy (T x N)."""
        H = CubicSpline(self.ph, self._w(waves), axis=0, bc_type="natural")(phase)
        W = self.W0 + theta * self.W1
        Wg = CubicSpline(self.tk, CubicSpline(self.lk, W, axis=0, bc_type="natural")(waves), axis=1, bc_type="natural")(phase).T
        A = av * np.array([float(F99(Rv=rv)(1e4 / w * _INVUM)) for w in waves])
        return amp * H * 10 ** (-0.4 * (Wg + A[None, :])) * waves**2 / 2.99792458e18 * 1e32


from astropy import units as _u  # noqa: E402

_INVUM = 1 / _u.micron


def bayesn_model(tp, **kw):
    return BayesnModel(_M20_model_path=tp.dir, hsiao_model_path=tp.h5, **tp.named, **kw)


def bayesn(c):
    """BayeSN spectra."""
    rng = c.rng
    shipped = rng.uniform() < 0.3
    tp = Template(c, shipped)
    c.seen("bayesn", "shipped" if shipped else "generated")
    S = int(rng.choice([1, 1, 3]))
    if S > 1:
        c.seen("bayesn", "batch")
    t0 = float(rng.choice([0.0, 60000.0]))
    red = rng.uniform() < 0.4
    z = [float(q) for q in rng.uniform(0.01, 0.3, S)] if red else [0.0] * S
    th = [float(q) for q in rng.normal(0, 1.5, S)]
    av = [0.0 if rng.uniform() < 0.2 else float(rng.uniform(0, 2)) for _ in range(S)]
    rv = [3.1 if rng.uniform() < 0.1 else float(rng.uniform(2.01, 5.9)) for _ in range(S)]
    amp = [10 ** float(q) for q in rng.uniform(-8, 1, S)]
    kw = dict(redshift=GivenValueList(z)) if red else {}
    m = bayesn_model(tp, theta=GivenValueList(th), Av=GivenValueList(av), Rv=GivenValueList(rv), Amplitude=GivenValueList(amp), t0=t0, **kw)
    st = m.sample_parameters(num_samples=S)
    lo, hi = max(tp.tk[0], tp.ph[0]), min(tp.tk[-1], tp.ph[-1])
    wl, wh = max(tp.lk[0], tp.wv[0]), min(tp.lk[-1], tp.wv[-1])
    zmax = max(z)
    phase = rng.uniform(lo * (1 + zmax) / (1 + min(z)) if lo > 0 else lo, hi, int(rng.integers(1, 6)))
    if len(phase) == 1:
        c.seen("bayesn", "single_time")
    times, waves = t0 + phase, rng.uniform(wl * (1 + zmax), wh, 6)
    flux = np.asarray(m.evaluate_sed(times, waves, st), float).reshape(S, len(times), len(waves))
    for i in range(S):
        q = 1 + z[i]
        want = q * tp.flux(phase / q, waves / q, th[i], av[i], rv[i], amp[i])
        c.close(flux[i], want, "bayesn", 1e-7, 1e-9 * np.abs(want).max(), f"sample {i}: template, warping, dust and amplitude", theta=th[i], Av=av[i], Rv=rv[i], z=z[i])
        if av[i] == 0:
            c.seen("bayesn", "no_dust")
        elif abs(rv[i] - 3.1) > 0.05:
            c.seen("bayesn", "rv")
    c.seen("bayesn")
    if red:
        c.seen("bayesn", "redshifted")
    if S == 1 and not red:
        f = lambda **over: np.asarray(bayesn_model(tp, **{**dict(theta=th[0], Av=av[0], Rv=rv[0], Amplitude=amp[0], t0=t0), **over}).evaluate_sed(times, waves), float)
        base = flux[0]
        big = np.abs(base) > 1e-6 * np.abs(base).max()
        c.close(f(Amplitude=3 * amp[0]), 3 * base, "bayesn:amplitude", 1e-9, 0, "linear in the amplitude")
        c.seen("bayesn", "amplitude")
        r1, r2 = f(theta=th[0] + 1)[big] / base[big], f(theta=th[0] + 2)[big] / base[big]
        c.close(r2, r1**2, "bayesn:theta", 1e-6, 1e-9, "log flux linear in theta")
        c.seen("bayesn", "theta")
        dust = f(Av=1.0) / np.where(base == 0, 1, f(Av=0.0))
        want = 10 ** (-0.4 * np.array([fitzpatrick99(np.array([w]), 1.0, rv[0])[0] for w in waves]))
        for k in range(len(times)):
            c.close(dust[k][big[k]], want[big[k]], "bayesn:dust", 2e-2, 0, "one magnitude of visual extinction at the sample's R_V", Rv=rv[0])
        moved = np.asarray(bayesn_model(tp, theta=th[0], Av=av[0], Rv=rv[0], Amplitude=amp[0], t0=t0 + 100).evaluate_sed(times + 100, waves), float)
        c.close(moved, base, "bayesn:t0", 1e-6, 1e-6 * np.abs(base).max(), "moves with t0")
        c.seen("bayesn", "t0")
    c.nontrivial(*th, *av, *rv, *amp)


PUBLISHED = [  # reference implementation, M20, theta=1, A_V=1, R_V=3, z=0.001, phases 0 and 10 (nJy)
    [3.28274773e07, 2.74288959e08, 2.70277520e08, 4.07166239e08, 2.86161691e08, 2.43041990e08, 2.41895044e08, 1.63319541e08, 1.56384906e08, 1.46499586e08, 1.45467824e08, 1.13228160e08, 9.41477182e07, 7.14146377e07, 9.50177663e07, 9.53728123e07],
    [4.24470160e06, 1.04358573e08, 1.53981951e08, 2.60752039e08, 1.62446512e08, 1.50724949e08, 1.76743433e08, 1.01958387e08, 5.71958998e07, 3.92839096e07, 3.79761607e07, 3.22384974e07, 3.60499142e07, 6.20347574e07, 7.25112817e07, 7.51344153e07],
]


def published(c):
    """Fluxes printed by the reference implementation."""
    from astropy.cosmology import FlatLambdaCDM

    tp = Template(c, True)
    mu = FlatLambdaCDM(H0=70, Om0=0.3).distmod(0.001).value
    m = bayesn_model(tp, theta=1.0, Av=1.0, Rv=3.0, t0=0.0, redshift=0.001, Amplitude=10 ** (-0.4 * (mu - 19.5)))
    got = m.evaluate_sed(np.array([0.0, 10.0]), np.arange(3, 19) * 1001.0)
    c.close(got, np.array(PUBLISHED), "bayesn:published", 3e-3, 0, "reference fluxes")
    c.seen("bayesn", "published")
    c.nontrivial("published")


def wrapped(c):
    """Spectra of wrapped reference sources equal the source's own, sample by sample."""
    rng = c.rng
    kind = str(rng.choice(["salt", "series", "stretch"]))
    ph = np.concatenate([[-float(rng.uniform(5, 30))], np.sort(rng.uniform(-4, 40, int(rng.integers(4, 9)))), [50.0]])
    wv = np.linspace(2500, 10500, int(rng.integers(6, 30)))
    fl = np.abs(rng.normal(1, 0.3, (len(ph), len(wv)))) * 1e-16
    height = lambda a, b: 0.0 if rng.uniform() < 0.1 else 10 ** rng.uniform(a, b)  # noqa: E731
    if kind == "salt":
        make = lambda: sncosmo.SALT2Source(modeldir=DATA + "/truncated-salt2-h17")  # noqa: E731
        pars = dict(x0=lambda: height(-6, 0), x1=lambda: rng.normal(), c=lambda: rng.normal(0, 0.2))
    elif kind == "series":
        make = lambda: sncosmo.TimeSeriesSource(ph, wv, fl)  # noqa: E731
        pars = dict(amplitude=lambda: height(-3, 3))
    else:
        make = lambda: sncosmo.StretchSource(ph, wv, fl)  # noqa: E731
        pars = dict(amplitude=lambda: height(-3, 3), s=lambda: rng.uniform(0.5, 2))
    sncosmo.register(make(), name="lcl-p30", force=True)
    ref = make()
    S = int(rng.choice([1, 4]))
    vals = {k: [float(f()) for _ in range(S)] for k, f in pars.items()}
    left = {k for k in pars if rng.uniform() < 0.25}  # keep the source's own default
    t0 = float(rng.choice([0.0, 60000.0]))
    z = [float(q) for q in rng.uniform(0.01, 0.8, S)] if rng.uniform() < 0.4 else None
    kw = {k: GivenValueList(v) for k, v in vals.items() if k not in left}
    if z:
        kw["redshift"] = GivenValueList(z)
    label = dict(node_label="sn") if rng.uniform() < 0.5 else {}
    m = SncosmoWrapperModel("lcl-p30", t0=t0, **kw, **label)
    c.equal(list(m.param_names), list(ref.param_names), "wrapped:names")
    c.ok(np.isclose(m.minwave(), ref.minwave()) and np.isclose(m.maxwave(), ref.maxwave()), "wrapped:range")
    other = SncosmoWrapperModel("lcl-p30", t0=t0)  # a second model of the same source is its own
    later = {}
    if rng.uniform() < 0.4:
        # Constants set afterwards.
        for k in pars:
            if rng.uniform() < 0.6:
                later[k] = float(pars[k]())
        if later:
            m.set(**later)
            for k, v in later.items():
                c.close(m.get(k), v, "wrapped:get", 1e-12, 0, k)
                vals[k] = [v] * S
            left -= set(later)
            c.seen("wrapped", "set")
    for k in pars:
        c.close(other.get(k), ref.get(k), "wrapped:separate", 1e-12, 0, "another model of the source")
    st = m.sample_parameters(num_samples=S, rng_info=np.random.default_rng(1))
    n = int(rng.choice([1, 5, 12]))
    zz = z or [0.0] * S
    lo, hi = ref.minwave(), ref.maxwave()
    waves = rng.permutation(np.concatenate([np.linspace(lo * 1.9, hi * 0.99, 9) if z else np.linspace(lo + 1, hi - 1, 9), rng.uniform(lo, hi, 4) * (1.01 if z else 1)]))
    waves = waves[(waves / 1.81 > lo) & (waves < hi)] if z else np.clip(waves, lo, hi)
    times = t0 + rng.uniform(ref.minphase() - 10, ref.maxphase() + 10, n)
    got = np.asarray(m.evaluate_sed(times, waves, st)).reshape(S, n, len(waves))
    order = rng.permutation(S)
    ones = sources.singles(st)
    for i in order:
        ref.set(**{k: (make().get(k) if k in left else vals[k][i]) for k in pars})
        o_t, o_w = np.argsort(times), np.argsort(waves)
        q = 1 + zz[i]
        want = np.empty((n, len(waves)))
        want[np.ix_(o_t, o_w)] = ref.flux((times[o_t] - t0) / q, waves[o_w] / q)
        want = want * (waves / q) ** 2 / 2.99792458e18 * 1e32 * q
        scale = np.abs(want).max() or 1.0
        c.close(got[i], want, "wrapped:flux", 1e-6, 1e-9 * scale, f"{kind} sample {i} (z={zz[i]})")
        c.close(np.asarray(m.evaluate_sed(times, waves, ones[i])).reshape(n, -1), want, "wrapped:alone", 1e-6, 1e-9 * scale, f"{kind} sample {i} on its own")
        for k in pars:
            c.close(m.get(k), ref.get(k), "wrapped:get", 1e-12, 0, f"parameter {k} after sample {i}")
    c.seen("wrapped", kind)
    if left:
        c.seen("wrapped", "default")
    if z:
        c.seen("wrapped", "redshifted")
    if S > 1:
        c.seen("wrapped", "batch")
    c.nontrivial(kind, S, str(vals), n)


SCENARIOS = [
    Scenario(grids, quick=80, thorough=3000),
    Scenario(law, quick=120, thorough=2500),
    Scenario(salt, quick=32, thorough=600),
    Scenario(bayesn, quick=80, thorough=1200),
    Scenario(wrapped, quick=120, thorough=2500),
    Scenario(published, quick=1, once=True),
]
