"""P20 - spectra outside a model's wavelength range."""

import math

import numpy as np

from lclmon import sources
from lclmon.core import Scenario
from lightcurvelynx.utils.wave_extrapolate import ConstantExtrapolation, ExponentialDecay, LastValueExtrapolation, LinearDecay, WaveExtrapolationModel

RULE = (
    "Models with a wavelength range (linear, spline, tabulated, sncosmo time series, redback-style sources whose range differs per sample, sums and choices of them) with no rule or one of the "
    "four rules and random settings, one or many samples with and without redshift; requests inside, outside, straddling, at the edges, unsorted and repeated. The monitor measures the edge flux "
    "by asking for the edge itself and recomputes the rule point by point; inside it compares with requests holding inside wavelengths only, with other rules set and with single wavelengths. "
    "Rules are also called on their own with arbitrary edges and fluxes. Non-trivial: points inside and on a side outside. Distinct by model, rule, range and request."
)
REQUIRED = [
    "kind:linear", "kind:spline", "kind:static", "kind:sncosmo", "kind:redback", "rule:none", "rule:constant", "rule:last", "rule:linear", "rule:exp", "side:below", "side:above", "side:inside", "side:both",
    "edge", "only_outside", "unsorted", "redshift:yes", "redshift:no", "samples:many", "inside:alone", "inside:other_rule", "decayed_out", "decaying", "times:many", "direct", "direct:negative",
    "refused", "combined", "combined:pick", "combined:sum", "unbounded_side", "changed_rule",
]


def rule_value(kind, par, w0, f0, w):
    d = abs(w - w0)
    if kind == "none":
        return 0.0
    if kind == "constant":
        return par
    if kind == "last":
        return f0
    if kind == "linear":
        return f0 * max(0.0, 1.0 - d / par)
    return f0 * math.exp(-par * d)


def make_rule(rng, kind):
    if kind == "constant":
        p = float(rng.choice([0.0, rng.uniform(0, 80)]))
        return p, ConstantExtrapolation(p)
    if kind == "last":
        return None, LastValueExtrapolation()
    if kind == "linear":
        p = float(10 ** rng.uniform(0.5, 4))
        return p, LinearDecay(p)
    if kind == "exp":
        p = float(rng.choice([0.0, 10 ** rng.uniform(-5, -1)]))
        return p, ExponentialDecay(p)
    # Without a rule, and with the plain base rule, there is nothing outside the range.
    return None, WaveExtrapolationModel() if rng.uniform() < 0.4 else None


RULES = ["none", "constant", "last", "linear", "exp"]


def direct(c):
    """The rules on their own."""
    rng = c.rng
    kind = RULES[1 + c.index % 4]
    par, rule = make_rule(rng, kind)
    w0 = float(rng.uniform(500, 20000))
    f0 = rng.uniform(0, 1e4, int(rng.integers(1, 7)))
    if rng.uniform() < 0.3:
        f0 = f0 - 5e3
        c.seen("direct", "negative")
    if rng.uniform() < 0.2:
        f0[rng.integers(len(f0))] = 0.0
    w = w0 + rng.uniform(-5000, 5000, int(rng.integers(0, 9)))
    w = np.concatenate([w, [w0]]) if rng.uniform() < 0.5 else w
    k0, k1 = f0.copy(), w.copy()
    out = np.asarray(rule(w0, f0, w))
    c.equal(out.shape, (len(f0), len(w)), "direct:shape")
    want = [[rule_value(kind, par, w0, f, x) for x in w] for f in f0]
    c.close(out, np.array(want).reshape(len(f0), len(w)), "direct", rtol=1e-10, atol=1e-9, msg=f"{kind}({par})")
    c.ok(np.array_equal(f0, k0) and np.array_equal(w, k1), "direct:inputs")
    c.close(np.asarray(WaveExtrapolationModel()(w0, f0, w)), np.zeros((len(f0), len(w))), "direct:base", rtol=0, atol=0)
    bad = [lambda: ConstantExtrapolation(-float(rng.uniform(1e-6, 9))), lambda: LinearDecay(0.0), lambda: LinearDecay(-float(rng.uniform(1e-6, 9))), lambda: ExponentialDecay(-float(rng.uniform(1e-6, 9)))]
    c.raises(ValueError, bad[c.index % 4], "refused")
    c.seen("refused")
    c.seen("direct")
    c.nontrivial(kind, par, w0, len(w))


def request(c, lo, hi):
    """Rest-frame wavelengths on chosen sides of the range."""
    rng = c.rng
    span = hi - lo
    pick = str(rng.choice(["both", "both", "below", "above", "inside", "outside"]))
    ins = rng.uniform(lo + 1e-3, hi - 1e-3, int(rng.integers(1, 6)))
    far = [1e-3, 50, 500, 3000]
    below = np.maximum(lo - rng.uniform(1e-3, rng.choice(far), int(rng.integers(1, 4))), 1.0 if lo > 2 else lo)
    above = hi + rng.uniform(1e-3, rng.choice(far), int(rng.integers(1, 4)))
    w = {"both": [ins, below, above], "below": [ins, below], "above": [ins, above], "inside": [ins], "outside": [below, above]}[pick]
    w = np.concatenate(w)
    if rng.uniform() < 0.3:
        w = np.append(w, w[0])
    w = np.sort(w) if rng.uniform() < 0.3 else rng.permutation(w)
    if len(w) > 1 and np.any(np.diff(w) < 0):
        c.seen("unsorted")
    if pick == "outside":
        c.seen("only_outside")
    assert span > 0
    return w


def models(c):
    rng = c.rng
    kind = ["linear", "spline", "static", "sncosmo", "redback"][c.index % 5]
    ex = RULES[(c.index // 5) % 5]
    S = int(rng.choice([1, 1, 3, 5]))
    src = sources.sed_source(rng, S, kind=kind, redshift=[None, "vary", "mixed"][int(rng.integers(3))])
    par, rule = make_rule(rng, ex)
    src.model.wave_extrapolation = rule
    m = src.model
    st = m.sample_parameters(num_samples=S)
    singles = sources.singles(st)
    c.seen("kind", kind)
    c.seen("rule", ex)
    if S > 1:
        c.seen("samples", "many")
    p0 = [src.params(s) for s in singles]
    B = [src.bounds(p) for p in p0]
    k = int(rng.integers(S))
    lo, hi = B[k]
    if not np.isfinite(lo) or not np.isfinite(hi):
        c.seen("unbounded_side")
    flo, fhi = (lo if np.isfinite(lo) else 2000.0), (hi if np.isfinite(hi) else 12000.0)
    rest = request(c, flo, fhi)
    zs = [(p["redshift"] or 0.0) if src.redshifted else 0.0 for p in p0]
    w = rest * (1 + zs[k])
    t = 60000 + rng.uniform(-20, 120, int(rng.integers(1, 6)))
    if len(t) > 1:
        c.seen("times", "many")
    got = np.asarray(m.evaluate_sed(t, w, st))
    got = got[None] if S == 1 else got
    c.equal(got.shape, (S, len(t), len(w)), "shape")
    for i, s in enumerate(singles):
        z, (lo, hi) = zs[i], B[i]
        c.seen("redshift", "yes" if z else "no")
        rw = w / (1 + z)
        near = (np.abs(rw - lo) < 1e-7) | (np.abs(rw - hi) < 1e-7)
        below, above = (rw < lo) & ~near, (rw > hi) & ~near
        inside = ~below & ~above & ~near
        scale = 1 + np.abs(got[i]).max()
        # Inside: alone, one by one, and under other rules.
        if inside.any():
            c.seen("side", "inside")
            alone = np.asarray(m.evaluate_sed(t, w[inside], s)).reshape(len(t), -1)
            c.close(got[i][:, inside], alone, "inside:alone", rtol=1e-6, atol=1e-9 * scale)
            j = int(rng.choice(np.flatnonzero(inside)))
            c.close(np.asarray(m.evaluate_sed(t, w[[j]], s)).reshape(-1), got[i][:, j], "inside:alone", rtol=1e-6, atol=1e-9 * scale)
            c.seen("inside", "alone")
            m.wave_extrapolation = make_rule(rng, str(rng.choice(RULES)))[1]
            c.close(np.asarray(m.evaluate_sed(t, w, s)).reshape(len(t), -1)[:, inside], got[i][:, inside], "inside:other_rule", rtol=1e-9, atol=1e-9 * scale)
            m.wave_extrapolation = rule
            c.seen("inside", "other_rule")
        # Outside: the rule from the edge flux of that time.
        for side, mask, edge in (("below", below, lo), ("above", above, hi)):
            if not mask.any():
                continue
            c.seen("side", side)
            # The edge flux, from just inside (the edge itself may round either way under redshift).
            e = edge if z == 0 else edge + (1e-9 if side == "below" else -1e-9)
            f0 = np.asarray(m.evaluate_sed(t, np.array([e * (1 + z)]), s)).reshape(-1) / (1 + z)
            c.seen("edge")
            for j in np.flatnonzero(mask):
                want = np.array([(1 + z) * rule_value(ex, par, edge, f, rw[j]) for f in f0])
                c.close(got[i][:, j], want, "outside", rtol=1e-5, atol=1e-6 * (1 + np.abs(f0).max()), msg=f"{kind} {ex}({par}) {side} by {abs(rw[j] - edge):.4g} of range {lo:.1f}-{hi:.1f}, z={z:.3f}")
                if ex == "linear":
                    c.seen("decayed_out" if abs(rw[j] - edge) > par else "decaying")
            if ex in ("linear", "exp", "none", "last"):
                c.ok(np.all(np.where(f0[:, None] >= 0, got[i][:, mask], 0) >= -1e-9), "negative")
        if below.any() and above.any():
            c.seen("side", "both")
        if inside.any() and (below.any() or above.any()):
            c.nontrivial(kind, ex, par, lo, hi, float(w[0]))
    # The reference spectrum with the rule exchanged.
    src.extra = lambda w0, f0, ww: np.array([[rule_value(ex, par, w0, f, x) for x in ww] for f in f0]).reshape(len(f0), len(ww))
    for i, s in enumerate(singles):
        want = src.sed(s, t, w)
        rw = w / (1 + zs[i])
        fine = np.min(np.abs(rw[:, None] - np.array(B[i])[None, :]), axis=1) > 1e-6
        c.close(got[i][:, fine], want[:, fine], "reference", rtol=1e-6, atol=1e-6 * (1 + np.abs(want).max()), msg=f"{src.desc} -> {ex}")
    c.seen("changed_rule")
    c.fact(kind=kind, rule=ex, par=par, S=S, range=B[0])


def combined(c):
    """In combinations each member keeps its own range and rule."""
    rng = c.rng
    S = int(rng.choice([1, 4]))
    kind = str(rng.choice(["sum", "pick"]))
    src = sources.combination(rng, S, kind=kind, n=int(rng.integers(2, 4)), kinds=["linear", "spline", "static", "sncosmo", "redback", "constant"])
    m = src.model
    st = m.sample_parameters(num_samples=S)
    t = 60000 + rng.uniform(-20, 120, int(rng.integers(1, 5)))
    w = rng.uniform(3100, 30000, int(rng.integers(1, 12)))
    got = np.asarray(m.evaluate_sed(t, w, st))
    got = got[None] if S == 1 else got
    for i, s in enumerate(sources.singles(st)):
        want = src.sed(s, t, w)
        c.close(got[i], want, "combined", rtol=1e-6, atol=1e-6 * (1 + np.abs(want).max()), msg=src.desc)
    c.seen("combined")
    c.seen("combined", kind)
    c.fact(model=src.desc, S=S)
    c.nontrivial(src.desc, S, float(w[0]))


QUICK_SCALE = 8
SCENARIOS = [Scenario(direct, quick=400, thorough=5000), Scenario(models, quick=600, thorough=20000), Scenario(combined, quick=200, thorough=6000)]
