"""P16 - filter groups against their individual filters and a plain list model."""

import numpy as np

from lclmon import sources
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

RULE = (
    "Groups of one to seven filters of one or several surveys, with overlapping, nested, disjoint, identical and near-coincident (down to 1e-7 A) wavelength grids, even and "
    "uneven; built from filters, from files with options and with subsets, then changed by a random history of additions, replacements and grid settings. After "
    "every step each filter's band flux of random and smooth spectra through the group is compared with the filter alone; lookups, membership, "
    "masks and the wavelength union are compared with a plain list of filters. Non-trivial: at least two filters. Distinct by group and history."
)
REQUIRED = [
    "overlap", "disjoint", "near", "identical", "uneven", "op:add", "op:replace", "op:grid", "subset:short", "subset:full", "subset:missing", "lookup:short", "lookup:full", "lookup:unknown", "lookup:ambiguous",
    "mask", "all_bands", "wrong_size", "single", "from_dict", "options", "from_dir", "smooth", "noise", "bounds", "slice", "order",
]
ASSUMPTIONS = [
    "Wavelengths closer than 1e-5 A may be merged into one.",
    "Changing the grid of a filter shared with another group goes through the group that is used.",
]


def rows(w, rng):
    t = rng.uniform(0.05, 1, len(w))
    return np.column_stack([w, t])


def make_grids(c, n):
    """Wavelength grids with many kinds of overlap."""
    rng = c.rng
    base = float(rng.integers(3000, 6000))
    step = float(rng.choice([1.0, 5.0, rng.uniform(2, 20)]))
    out = []
    for i in range(n):
        kind = str(rng.choice(["grid", "grid", "near", "shift", "disjoint", "identical", "uneven", "nested"]))
        m = int(rng.integers(3, 60))
        start = base + step * int(rng.integers(-30, 30))
        w = start + step * np.arange(m)
        if kind == "near":
            w = w + rng.choice([1e-7, 9e-6, 1.1e-5, -3e-6, 1e-4]) * (1 if rng.uniform() < 0.5 else rng.uniform(-1, 1, m))
            c.seen("near")
        elif kind == "shift":
            w = w + step * rng.uniform()
        elif kind == "disjoint":
            w = w + 9000.0 + 400 * i
        elif kind == "identical" and out:
            w = out[int(rng.integers(len(out)))].copy()
            c.seen("identical")
        elif kind == "uneven":
            w = start + np.cumsum(rng.uniform(0.01, 2 * step, m))
            c.seen("uneven")
        elif kind == "nested" and out:
            o = out[int(rng.integers(len(out)))]
            w = o[len(o) // 4 : max(len(o) // 4 + 3, 3 * len(o) // 4)].copy()
            if len(w) < 2:
                w = o.copy()
        out.append(np.sort(w))
    return out


def new_filter(rng, w, survey, name, store=None):
    plain = rng.uniform() < 0.7
    dw = None if plain else float(rng.choice([1.0, 5.0, 3.3]))
    if dw is not None and w[-1] - w[0] < 4 * dw:
        dw = None
    table = rows(w, rng)
    pb = Passband(table.copy(), survey, name, delta_wave=dw, trim_quantile=None if plain else rng.choice([None, 1e-3]))
    if store is not None:
        store[f"{survey}_{name}"] = table
    return pb


def reference(pb, w, f):
    """Band flux of a spectrum known at the filter's own wavelengths (uneven steps allowed)."""
    T = np.asarray(pb.processed_transmission_table, float)[:, 1]
    d = np.diff(w)
    y = f * T
    return np.sum(d * (y[..., 1:] + y[..., :-1]) / 2, axis=-1)


def judge(c, g, members, where):
    """The group against its list of filters."""
    rng = c.rng
    c.equal(len(g), len(members), "length", where)
    waves = np.asarray(g.waves, float)
    allw = np.concatenate([np.asarray(m.waves, float) for m in members])
    c.ok(np.all(np.diff(waves) > 0), "waves:sorted", where)
    c.ok(np.all(np.isin(waves, allw)), "waves:extra", f"{where}: a wavelength of no filter")
    gap = np.min(np.abs(allw[:, None] - waves[None, :]), axis=1) if len(allw) * len(waves) < 4e6 else np.zeros(1)
    c.ok(gap.max() <= 1e-4, "waves:missing", f"{where}: a filter's wavelength is {gap.max()} away")
    lo, hi = g.wave_bounds()
    c.ok(abs(lo - allw.min()) < 1e-4 and abs(hi - allw.max()) < 1e-4, "bounds", where)
    c.seen("bounds")
    c.equal(set(x.full_name for x in g), {m.full_name for m in members}, "members", where)
    p, q = rng.uniform(100, 900), rng.uniform(0, 6)
    smooth = lambda x: 2 + np.sin(x / p + q)  # noqa: E731
    T = int(rng.integers(1, 5)) if rng.uniform() < 0.8 else 40
    amp = rng.uniform(0.5, 9, T)
    F = amp[:, None] * smooth(waves)[None, :]
    short = {}
    for m in members:
        short.setdefault(m.filter_name, []).append(m)
    c.equal(sorted(g.filters), sorted(short), "filters", where)
    for m in members:
        names = [m.full_name] + ([m.filter_name] if len(short[m.filter_name]) == 1 else [])
        want = amp * m.fluxes_to_bandflux(smooth(np.asarray(m.waves))[None, :])[0]
        for n in names:
            c.close(g.fluxes_to_bandflux(F, n), want, "smooth", rtol=1e-6, msg=f"{where} {n}")
        c.seen("smooth")
        # Noise at every wavelength: each filter must pick its own columns.
        N = rng.normal(size=(T, len(waves)))
        idx = np.argmin(np.abs(np.asarray(m.waves)[:, None] - waves[None, :]), axis=1)
        d = np.abs(np.asarray(m.waves) - waves[idx])
        if d.max() < 1e-9 or len(members) == 1:
            c.close(g.fluxes_to_bandflux(N, m.full_name), m.fluxes_to_bandflux(N[:, idx]), "noise", rtol=1e-9, atol=1e-12, msg=where)
            c.seen("noise")
        c.ok(g[m.full_name] is m or g[m.full_name] == m, "lookup:full")
        c.ok(m.full_name in g and m.filter_name in g, "contains")
        c.seen("lookup", "full")
    out = g.fluxes_to_bandfluxes(F)
    c.equal(set(out), {m.full_name for m in members}, "all_bands", where)
    for m in members:
        c.close(out[m.full_name], g.fluxes_to_bandflux(F, m.full_name), "all_bands", rtol=1e-12)
    c.seen("all_bands")
    for n, ms in short.items():
        if len(ms) == 1:
            c.equal(g[n].full_name, ms[0].full_name, "lookup:short")
            c.seen("lookup", "short")
        else:
            c.raises(KeyError, lambda n=n: g[n], "lookup:ambiguous", where)
            c.raises((KeyError, ValueError), lambda n=n: g.fluxes_to_bandflux(F, n), "lookup:ambiguous", where)
            c.seen("lookup", "ambiguous")
    c.raises(KeyError, lambda: g["nope"], "lookup:unknown")
    c.raises((KeyError, ValueError), lambda: g.fluxes_to_bandflux(F, "nope"), "lookup:unknown")
    c.ok("nope" not in g, "contains")
    c.seen("lookup", "unknown")
    for bad in (np.ones((2, len(waves) + 1)), np.ones((2, max(0, len(waves) - 1)))):
        c.raises(ValueError, lambda bad=bad: g.fluxes_to_bandfluxes(bad), "wrong_size")
    c.seen("wrong_size")
    asked = rng.choice([*[m.full_name for m in members], *short, "nope", "S9_g"], int(rng.integers(0, 12)))
    known = {m.full_name for m in members} | set(short)
    for form in (asked, asked.tolist()):
        c.equal(np.asarray(g.mask_by_filter(form)).tolist(), [str(a) in known for a in asked], "mask", where)
    c.seen("mask")
    # Shapes of overlap seen.
    b = sorted((m.waves[0], m.waves[-1]) for m in members)
    for x, y in zip(b, b[1:], strict=False):
        c.seen("overlap" if y[0] <= x[1] else "disjoint")
    if len(members) == 1:
        c.seen("single")


def histories(c):
    rng = c.rng
    n = int(rng.integers(1, 8))
    grids = make_grids(c, n + 4)
    surveys = [f"S{i}" for i in range(int(rng.integers(1, 4)))]
    names = list("ugrizyJH")
    used = set()
    store = {}
    last = None

    def fresh(w):
        for _ in range(50):
            key = (str(rng.choice(surveys)), str(rng.choice(names)))
            if key not in used:
                used.add(key)
                return new_filter(rng, w, *key, store=store)
        return None

    members = [m for m in (fresh(w) for w in grids[:n]) if m is not None]
    g = PassbandGroup(members if len(members) > 1 or rng.uniform() < 0.5 else members[0])
    judge(c, g, members, "built")
    # A different order of the same filters is the same group.
    perm = [members[i] for i in rng.permutation(len(members))]
    judge(c, PassbandGroup(perm), members, "order")
    c.seen("order")
    # Subsets.
    k = int(rng.integers(1, len(members) + 1))
    pick = [members[i] for i in rng.choice(len(members), k, replace=False)]
    judge(c, PassbandGroup(members, filters=[m.full_name for m in pick]), [m for m in members if m in pick or any(m is x for x in pick)], "subset by full name")
    c.seen("subset", "full")
    sn = {m.filter_name for m in pick}
    judge(c, PassbandGroup(members, filters=list(sn)), [m for m in members if m.filter_name in sn], "subset by short name")
    c.seen("subset", "short")
    c.raises(ValueError, lambda: PassbandGroup(members, filters=[*sn, "nope"]), "subset:missing")
    c.seen("subset", "missing")
    ops = []
    for i in range(int(rng.integers(0, 5))):
        op = str(rng.choice(["add", "replace", "grid"]))
        if op == "add":
            m = fresh(grids[n + i])
            if m is None:
                continue
            g.add_passband(m)
            members.append(m)
        elif op == "replace":
            j = int(rng.integers(len(members)))
            m = new_filter(rng, grids[n + i], members[j].survey, members[j].filter_name, store=store)
            g.add_passband(m)
            members[j] = m
        else:
            span = min(m.waves[-1] - m.waves[0] for m in members)
            dw = None if rng.uniform() < 0.3 else float(min(rng.choice([1.0, 5.0, 2.7]), span / 3))
            trim = None if rng.uniform() < 0.5 else 1e-3
            if last is not None and rng.uniform() < 0.6:
                # Only one of the two settings changes.
                dw, trim = (last[0], [None, 1e-3, 0.1][int(rng.integers(3))]) if rng.uniform() < 0.7 else (dw, last[1])
            try:
                fresh_pbs = [Passband(store[m.full_name], m.survey, m.filter_name, delta_wave=dw, trim_quantile=trim) for m in members]
            except ValueError:
                continue
            g.process_transmission_tables(dw, trim)
            last = (dw, trim)
            for m, f in zip(members, fresh_pbs, strict=True):
                c.close(np.asarray(g[m.full_name].processed_transmission_table), np.asarray(f.processed_transmission_table), "op:grid", rtol=1e-9, atol=1e-15, msg=f"{m.full_name} after setting the grid to {dw} and the trimming to {trim}")
        ops.append(op)
        c.seen("op", op)
        judge(c, g, members, "+".join(ops))
    c.fact(n=n, names=[m.full_name for m in members], ops=ops)
    if len(members) > 1:
        c.nontrivial(len(members), ops, float(np.sum(g.waves)))


def files(c):
    """Groups read from files, with their options, equal groups of the same tables."""
    rng = c.rng
    d = c.tmp / "SUR"
    d.mkdir()
    names = [str(x) for x in rng.permutation(list("ugrizy"))[: int(rng.integers(1, 5))]]
    tabs = {}
    for n in names:
        tabs[n] = sources.table(rng)
        np.savetxt(d / f"{n}.dat", tabs[n], fmt="%.17g")
    dw, trim, units = rng.choice([None, 5.0, 11.0]), rng.choice([None, 1e-3]), str(rng.choice(["A", "nm"]))
    kw = dict(delta_wave=dw, trim_quantile=trim, units=units)
    want = [Passband(tabs[n], "SUR", n, **kw) for n in names]
    g = PassbandGroup.from_dir(d, **kw)
    c.equal(set(x.full_name for x in g), {f"SUR_{n}" for n in names}, "from_dir")
    for m in want:
        c.close(g[m.full_name].waves, m.waves, "from_dir", rtol=1e-12)
        c.close(g[m.full_name].processed_transmission_table, m.processed_transmission_table, "from_dir", rtol=1e-9)
    judge(c, g, [g[m.full_name] for m in want], "from_dir")
    c.seen("from_dir")
    some = names[: int(rng.integers(1, len(names) + 1))]
    h = PassbandGroup.from_dir(d, filters=some, **kw)
    c.equal(set(h.filters), set(some), "from_dir:filters")
    c.raises(ValueError, lambda: PassbandGroup.from_dir(d, filters=[*some, "Q"]), "from_dir:missing")
    c.raises(ValueError, lambda: PassbandGroup.from_dir(d / "absent"), "from_dir:absent")
    # Dictionaries, each with its own options or the shared ones.
    own = {n: (dict(delta_wave=rng.choice([2.0, 9.0, None]), **({"trim_quantile": rng.choice([None, 0.01])} if rng.uniform() < 0.5 else {})) if rng.uniform() < 0.5 else {}) for n in names}
    dicts = [dict(survey="X", filter_name=n, table_path=str(d / f"{n}.dat"), **own[n]) for n in names]
    keep = [dict(x) for x in dicts]
    g2 = PassbandGroup(dicts, **kw)
    c.equal(dicts, keep, "input_changed")
    for n in names:
        m = Passband(tabs[n], "X", n, **{**kw, **own[n]})
        c.close(g2[f"X_{n}"].processed_transmission_table, m.processed_transmission_table, "options", rtol=1e-9, msg=n)
    judge(c, g2, [g2[f"X_{n}"] for n in names], "dictionaries")
    c.seen("from_dict")
    c.seen("options")
    for bad in ([], None):
        c.raises(ValueError, lambda bad=bad: PassbandGroup(bad), "empty")
    c.raises(TypeError, lambda: PassbandGroup([want[0], 3]), "bad_type")
    c.fact(names=names, **kw)
    c.nontrivial(names, dw, trim, units)


def slices(c):
    """Filters on one common grid, where columns could be taken as a range."""
    rng = c.rng
    step = float(rng.choice([1.0, 5.0, 0.5, 10.0]))
    ms = []
    for i in range(int(rng.integers(2, 6))):
        w = 4000 + step * (int(rng.integers(0, 60)) + np.arange(int(rng.integers(3, 50))))
        ms.append(Passband(rows(w, rng), "S", f"f{i}", delta_wave=step, trim_quantile=None))
    g = PassbandGroup(ms)
    judge(c, g, ms, "common grid")
    if rng.uniform() < 0.5:
        extra = Passband(rows(4000 + step * (np.arange(40) + 0.5), rng), "S", "half", delta_wave=step, trim_quantile=None)
        g.add_passband(extra)
        judge(c, g, [*ms, extra], "common grid and one between")
    c.seen("slice")
    c.fact(step=step, n=len(ms))
    c.nontrivial(step, [float(m.waves[0]) for m in ms])


QUICK_SCALE = 5
SCENARIOS = [
    Scenario(histories, quick=400, thorough=12000),
    Scenario(slices, quick=150, thorough=5000),
    Scenario(files, quick=80, thorough=2000),
]
