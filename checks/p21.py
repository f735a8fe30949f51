"""P21 - additive combinations."""

import numpy as np

from lclmon import sources
from lclmon.core import Scenario
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel, SinWaveModel
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel

RULE = (
    "Random additive combinations of one to four library sources (and of further combinations), spectral only or with band-only members, with weights (none, random, zero, negative, list or "
    "array), own redshifts, own and shared effects in both frames, shared parameter nodes and one or many samples. The monitor compares the combination's spectra and band fluxes with the "
    "weighted sum of its members evaluated on their own at the same sampled state followed by the shared observer-frame effects, and with independent reference spectra. Redshift is switched off and on. "
    "Non-trivial: at least two members. Distinct by members, weights, samples and request."
)
REQUIRED = [
    "members:1", "members:2", "members:4", "members:repeated", "weights:none", "weights:random", "weights:zero", "weights:negative", "spectrum", "band", "band_member", "nested", "nested:pick", "shared_node", "same_member", "effect:rest", "effect:obs",
    "member_effect", "redshift:mixed", "switch:off", "switch:on", "switch:nested", "refused:spectrum", "refused:switch", "refused:weights", "refused:member", "samples:many", "order", "sources:reference", "given",
]


def weights(c, n):
    rng = c.rng
    k = str(rng.choice(["none", "random", "random", "zero", "negative"]))
    c.seen("weights", k)
    if k == "none":
        return None, np.ones(n)
    w = rng.uniform(0.1, 3, n)
    if k == "zero":
        w[int(rng.integers(n))] = 0.0
    if k == "negative":
        w[int(rng.integers(n))] *= -1
    return (w.tolist() if rng.uniform() < 0.5 else w.copy()), w


def shared(rng, src):
    """Effects added to the whole combination: rest-frame ones reach every (nested) member once."""
    kinds = ["dim", "lens"] if has_band(src) else ["dim", "ext", "lens"]
    rng.shuffle(kinds)
    tags = []
    for k in kinds[: int(rng.integers(0, 3))]:
        # Extinction has no band-level form, so it cannot act on the sum of band fluxes.
        frame = "rest" if k == "ext" else str(rng.choice(["rest", "obs"]))
        if k == "lens":
            frame = "obs"
        probe = sources.Source("probe", src.model, None, [])
        if not sources.add_effects(rng, probe, kinds=[k], count=1, frames=(frame,)):
            continue
        _, fn = probe.effects[0]
        if frame == "obs":
            src.effects.append(("obs", fn))
            src.names += probe.names
        else:
            for m in leaves(src):
                m.effects.append(("rest", fn))
                m.names += probe.names
        tags.append(frame)
    return tags


def leaves(src):
    return list({id(x): x for m in src.members for x in leaves(m)}.values()) if src.members else [src]


def has_band(src):
    return any(isinstance(m, sources.BandSource) for m in leaves(src))


def build(c, S, filters, p_band, nest, redshift="?"):
    rng = c.rng
    n = int(rng.choice([1, 2, 3, 4]))
    pool = {}
    mem = []
    for i in range(n):
        if mem and rng.uniform() < 0.12:  # a member used again, with its own weight
            mem.append(mem[int(rng.integers(len(mem)))])
            c.seen("members", "repeated")
            continue
        if nest and rng.uniform() < 0.3:
            k = str(rng.choice(["sum", "pick"]))
            m = sources.combination(rng, S, kind=k, n=int(rng.integers(1, 3)), redshift=redshift, filters=filters, p_band=p_band, pool=pool, label=f"n{i}")
            c.seen("nested")
            if k == "pick":
                c.seen("nested", "pick")
        elif rng.uniform() < p_band:
            m = sources.band_source(rng, filters, S, pool=pool, label=f"b{i}")
            if rng.uniform() < 0.3:
                sources.add_effects(rng, m, kinds=["dim", "lens"], frames=("obs",))
        else:
            m = sources.sed_source(rng, S, redshift=redshift, pool=pool, label=f"m{i}" if rng.uniform() < 0.6 else None)
            if rng.uniform() < 0.4 and sources.add_effects(rng, m):
                c.seen("member_effect")
        mem.append(m)
    c.seen("members", n)
    arg, w = weights(c, n)
    kw = sources.common(rng, S)
    src = sources.SumSource(AdditiveMultiObjectModel([m.model for m in mem], weights=arg, **kw), mem, w)
    for f in shared(rng, src):
        c.seen("effect", f)
    src.desc = "sum(" + ",".join(m.desc for m in mem) + ")"
    return src, (None if arg is None else w)


def rows(x, S):
    x = np.asarray(x)
    return x[None] if S == 1 else x


def sums(c):
    rng = c.rng
    S = int(rng.choice([1, 1, 3, 6]))
    filters = ["g", "r", "i"][: int(rng.integers(1, 4))]
    p_band = float(rng.choice([0.0, 0.0, 0.4]))
    # (explicit redshift lists are used up by one draw)
    redraw = rng.uniform() < 0.3
    src, w = build(c, S, filters, p_band, nest=True, redshift="vary" if redraw else "?")
    m = src.model
    st = m.sample_parameters(num_samples=S)
    if S > 1:
        c.seen("samples", "many")
    singles = sources.singles(st)
    t = 60000 + rng.uniform(-30, 150, int(rng.integers(1, 8)))
    wv = rng.uniform(3200, 11000, int(rng.integers(1, 8)))
    grp = sources.group(rng, filters)
    fl = rng.choice(filters, len(t))
    check(c, src, st, singles, t, wv, grp, fl, S)
    leaf = leaves(src)
    zs = [np.ravel(np.asarray(x.model.get_param(st, "redshift"), float)) for x in leaf if x.redshifted]
    if len({float(z[0]) for z in zs}) > 1:
        c.seen("redshift", "mixed")
    # Reordering the members changes nothing.
    if redraw and not has_band(src):
        perm = rng.permutation(len(src.members))
        other = AdditiveMultiObjectModel([src.members[i].model for i in perm], weights=None if w is None else [w[i] for i in perm], ra=0.0, dec=0.0)
        base = AdditiveMultiObjectModel([x.model for x in src.members], weights=None if w is None else list(w), ra=0.0, dec=0.0)
        gen = [np.random.default_rng(5) for _ in range(2)]
        st2 = base.sample_parameters(rng_info=gen[0])
        a = np.asarray(base.evaluate_sed(t, wv, st2))
        members = [np.asarray(x.model.evaluate_sed(t, wv, st2)) for x in src.members]
        c.close(a, sum(k * x for k, x in zip(src.weights, members, strict=True)), "order", rtol=1e-9, atol=1e-9 * (1 + np.abs(a).max()))
        st3 = other.sample_parameters(rng_info=gen[1])
        b = np.asarray(other.evaluate_sed(t, wv, st3))
        members = [np.asarray(x.model.evaluate_sed(t, wv, st3)) for x in src.members]
        c.close(b, sum(k * x for k, x in zip(src.weights, members, strict=True)), "order", rtol=1e-9, atol=1e-9 * (1 + np.abs(b).max()))
        c.seen("order")
    c.fact(model=src.desc, S=S, weights=None if w is None else [round(float(x), 3) for x in w])
    if len(src.members) > 1:
        c.nontrivial(src.desc, S, len(t), float(t[0]), str(w))


def check(c, src, st, singles, t, wv, grp, fl, S):
    m = src.model
    spectral = not has_band(src)
    if spectral:
        got = rows(m.evaluate_sed(t, wv, st), S)
        parts = [rows(x.model.evaluate_sed(t, wv, st), S) for x in src.members]
        for i, s in enumerate(singles):
            p = src.params(s)
            want = sum(wt * x[i] for wt, x in zip(src.weights, parts, strict=True))
            for _, fn in src.effects:
                want = fn(p, want, t, wv)
            tol = dict(rtol=1e-9, atol=1e-9 * (1 + max(np.abs(x[i]).max() for x in parts)))
            c.close(got[i], want, "spectrum", **tol, msg=f"{src.desc} sample {i}")
            ref = src.sed(s, t, wv)
            c.close(got[i], ref, "reference", rtol=1e-6, atol=1e-6 * (1 + max(np.abs(x[i]).max() for x in parts)), msg=f"{src.desc} sample {i}")
        c.seen("spectrum")
        c.seen("sources", "reference")
    else:
        c.seen("band_member")
        c.raises(TypeError, lambda: m.evaluate_sed(t, wv, st), "refused:spectrum")
        c.seen("refused", "spectrum")
        c.raises(NotImplementedError, lambda: m.set_apply_redshift(bool(c.rng.uniform() < 0.5)), "refused:switch")
        c.seen("refused", "switch")
    got = rows(m.evaluate_bandfluxes(grp, t, fl, st), S)
    parts = [rows(x.model.evaluate_bandfluxes(grp, t, fl, st), S) for x in src.members]
    for i, s in enumerate(singles):
        p = src.params(s)
        want = sum(wt * x[i] for wt, x in zip(src.weights, parts, strict=True))
        for _, fn in src.effects:
            want = fn(p, want[:, None], t, None)[:, 0]
        big = 1 + max(np.abs(x[i]).max() for x in parts)
        c.close(got[i], want, "band", rtol=1e-9, atol=1e-9 * big, msg=f"{src.desc} sample {i}")
        c.close(got[i], src.band(s, t, fl, grp), "reference", rtol=1e-6, atol=1e-6 * big, msg=f"{src.desc} sample {i}")
    c.seen("band")


def switching(c):
    """Redshift off and on again for the whole combination."""
    rng = c.rng
    S = int(rng.choice([1, 3]))
    n = int(rng.integers(1, 4))
    mem = [sources.sed_source(rng, S, redshift="vary", label=f"m{i}") for i in range(n)]
    for x in mem:
        if rng.uniform() < 0.4:
            sources.add_effects(rng, x)
    if rng.uniform() < 0.5:
        mem.append(sources.combination(rng, S, kind=str(rng.choice(["sum", "pick"])), redshift="vary", label="n"))
        c.seen("switch", "nested")
    arg, w = weights(c, len(mem))
    src = sources.SumSource(AdditiveMultiObjectModel([x.model for x in mem], weights=arg, **sources.common(rng, S)), mem, w)
    src.desc = "sum(" + ",".join(x.desc for x in mem) + ")"
    for f in shared(rng, src):
        c.seen("effect", f)
    m = src.model
    st = m.sample_parameters(num_samples=S)
    t = 60000 + rng.uniform(-30, 150, int(rng.integers(1, 5)))
    wv = rng.uniform(3200, 11000, int(rng.integers(1, 6)))
    grp = sources.group(rng, ["g"])
    fl = np.array(["g"] * len(t))
    first = np.asarray(m.evaluate_sed(t, wv, st))
    for on in (False, True, False, False, True):
        m.set_apply_redshift(on)
        for x in leaves(src):
            x.redshifted = on
        check(c, src, st, sources.singles(st), t, wv, grp, fl, S)
        c.seen("switch", "on" if on else "off")
    c.close(np.asarray(m.evaluate_sed(t, wv, st)), first, "switch_back", rtol=0, atol=0)
    c.fact(model=src.desc)
    c.nontrivial(src.desc, S, float(t[0]))


def shared_nodes(c):
    """Members sharing parameter nodes see one value per sample; given values reach all of them."""
    rng = c.rng
    S = int(rng.choice([1, 5]))
    b = NumpyRandomFunc("uniform", low=10.0, high=99.0)
    z = NumpyRandomFunc("uniform", low=0.1, high=1.0)
    host = ConstantSEDModel(brightness=b, redshift=z, t0=60000.0, node_label="host")
    event = SinWaveModel(brightness=host.brightness, amplitude=b, frequency=0.05, redshift=host.redshift, t0=NumpyRandomFunc("uniform", low=60000.0, high=60010.0), node_label="event")
    arg, w = weights(c, 2)
    m = AdditiveMultiObjectModel([host, event] if rng.uniform() < 0.5 else [host, event], weights=arg, ra=host.ra, dec=host.dec)
    given = rng.uniform() < 0.4
    args = {"host": {"redshift": 0.5}} if given else None
    st = m.sample_parameters(given_args=args, num_samples=S)
    for i, s in enumerate(sources.singles(st)):
        v = {k: event.get_param(s, k) for k in ("brightness", "amplitude", "redshift", "t0")}
        c.ok(v["brightness"] == host.get_param(s, "brightness") == v["amplitude"], "shared", "members sharing a node hold different values", values=v)
        c.ok(v["redshift"] == host.get_param(s, "redshift"), "shared")
        if given:
            c.ok(v["redshift"] == 0.5, "given")
            c.seen("given")
        t, wv = 60000 + rng.uniform(-5, 90, 3), np.array([4000.0, 8000.0])
        zz = v["redshift"]
        rt = v["t0"] + (t - v["t0"]) / (1 + zz)
        want = (1 + zz) * (w[0] * v["brightness"] + w[1] * (v["brightness"] + v["amplitude"] * np.sin(2 * np.pi * 0.05 * (rt - v["t0"]))))
        c.close(np.asarray(m.evaluate_sed(t, wv, s)), np.repeat(want[:, None], 2, axis=1), "shared_sum", rtol=1e-9, atol=1e-9)
        assert i >= 0
    c.seen("shared_node")
    # The same source twice counts twice.
    twice = AdditiveMultiObjectModel([host, host], ra=0.0, dec=0.0)
    s2 = twice.sample_parameters()
    c.close(np.asarray(twice.evaluate_sed(t, wv, s2)), 2 * np.asarray(host.evaluate_sed(t, wv, s2)), "same_member", rtol=1e-12)
    c.seen("same_member")
    bad = [[1.0], [1.0, 2.0, 3.0], []][c.index % 3]
    c.raises(ValueError, lambda: AdditiveMultiObjectModel([host, event], weights=bad), "refused:weights")
    c.seen("refused", "weights")
    c.raises(ValueError, lambda: AdditiveMultiObjectModel([host, [b, None, "x"][c.index % 3]]), "refused:member")
    c.seen("refused", "member")
    c.nontrivial(S, given, float(v["brightness"]))


QUICK_SCALE = 8
SCENARIOS = [Scenario(sums, quick=400, thorough=12000), Scenario(switching, quick=120, thorough=4000), Scenario(shared_nodes, quick=60, thorough=1000)]
