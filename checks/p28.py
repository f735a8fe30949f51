"""P28 - sky-position samplers stay inside and fill their coverage."""

import astropy.units as u
import numpy as np
from astropy.coordinates import Latitude, Longitude
from cdshealpix.nested import lonlat_to_healpix
from mocpy import MOC
from scipy import stats

from lclmon import gen, surveys
from lclmon.core import Scenario
from lightcurvelynx.base_models import ParameterizedNode
from lightcurvelynx.math_nodes.ra_dec_sampler import (
    ApproximateMOCSampler,
    ObsTableRADECSampler,
    ObsTableUniformRADECSampler,
    UniformRADEC,
)

RULE = (
    "Position samplers over random surveys (clusters, poles, RA wrap), radii, coverage maps, depths, units and generators; each drawn "
    "position is re-tested with independent spherical geometry or pixel numbering, and counts over a partition of the covered area "
    "are compared with an independent uniform reference (rejection beyond 1e-9). Non-trivial: at least 200 positions judged; "
    "distinct by sampler and survey or map."
)
REQUIRED = [
    "uniform:degrees", "uniform:radians", "uniform:single", "uniform:linked", "survey:inside", "survey:fill", "survey:override_radius", "survey:single",
    "survey:exhausted", "survey:pole", "moc:inside", "moc:fill", "moc:single", "moc:file", "moc:multi_order", "survey_map:default", "survey_map:override", "survey_map:inside", "survey_map:outside", "survey_map:sampled", "pointing:batch", "pointing:single", "pointing:ordered", "pointing:zero_radius",
    "pointing:pole", "pointing:wrap", "pointing:refused", "rng:given", "rng:own",
]
PMIN = 1e-9


def generator(c):
    if c.rng.uniform() < 0.5:
        c.seen("rng", "own")
        return None
    c.seen("rng", "given")
    return np.random.default_rng(int(c.rng.integers(0, 2**31)))


def is_plain(x):
    return np.ndim(x) == 0 and not isinstance(x, np.ndarray)


def draw_pairs(c, node, S, g):
    """Draws S positions, through a linked model parameter half of the time."""
    if c.rng.uniform() < 0.5:
        m = ParameterizedNode()
        m.add_parameter("ra", node.ra)
        m.add_parameter("dec", node.dec)
        st = m.sample_parameters(num_samples=S, rng_info=g)
        ra, dec = m.get_param(st, "ra"), m.get_param(st, "dec")
        if "time" in node.outputs:
            return ra, dec, node.get_param(st, "time")
        return ra, dec
    out = node.generate(num_samples=S, rng_info=g)
    return out[:3] if "time" in node.outputs else out[:2]


def check_plain(c, vals, tag):
    for v in vals:
        c.ok(is_plain(v), tag + ":plain", f"a single draw returned {type(v)} of shape {np.shape(v)}")


def chi2_counts(c, got, ref, tag, msg):
    """Two-sample chi-square over cells (merging sparse ones)."""
    got, ref = np.asarray(got, float), np.asarray(ref, float)
    order = np.argsort(ref)
    cells, a, b = [], 0.0, 0.0
    need = 10 * ref.sum() / max(got.sum(), 1)
    for i in order:
        a, b = a + got[i], b + ref[i]
        if b >= max(need, 10):
            cells.append((a, b))
            a = b = 0.0
    if cells and (a or b):
        cells[-1] = (cells[-1][0] + a, cells[-1][1] + b)
    if len(cells) < 2:
        return
    arr = np.array(cells)
    p = stats.chi2_contingency(arr.T)[1]
    c.ok(p > PMIN, tag, f"{msg}: p={p:.2g} over {len(cells)} cells", cells=arr[:6].tolist())
    c.seen("cells", tag, len(cells))


def uniform_sky(c):
    rng = c.rng
    g = generator(c)
    deg = rng.uniform() < 0.6
    c.seen("uniform", "degrees" if deg else "radians")
    node = UniformRADEC(use_degrees=deg, seed=int(rng.integers(0, 2**31)))
    if c.index % 4 == 3:
        pts = [draw_pairs(c, node, 1, g) for _ in range(300)]
        check_plain(c, pts[0], "uniform")
        ra, dec = np.array(pts).T
        c.seen("uniform", "single")
    else:
        ra, dec = (np.asarray(v) for v in draw_pairs(c, node, 6000, g))
        c.seen("uniform", "linked")
        c.equal(ra.shape, (6000,), "uniform_shape")
    if not deg:
        ra, dec = np.degrees(ra), np.degrees(dec)
    c.ok(np.all((ra >= 0) & (ra <= 360) & (np.abs(dec) <= 90)), "uniform_range", ra=[ra.min(), ra.max()], dec=[dec.min(), dec.max()])
    for v, what in [(ra / 360, "ra"), ((np.sin(np.radians(dec)) + 1) / 2, "sin(dec)")]:
        p = stats.kstest(v, "uniform").pvalue
        c.ok(p > PMIN, "uniform", f"{what}: p={p:.2g}")
    # Jointly uniform: every cell of a rotated frame too.
    axis = gen.unit(*[x[0] for x in gen.sky_points(rng, 1)])
    p = stats.kstest((gen.unit(ra, dec) @ axis + 1) / 2, "uniform").pvalue
    c.ok(p > PMIN, "uniform", f"along a random axis: p={p:.2g}")
    i = (ra / 360 * 6).astype(int).clip(0, 5)
    j = ((np.sin(np.radians(dec)) + 1) / 2 * 6).astype(int).clip(0, 5)
    cnt = np.bincount(i * 6 + j, minlength=36)
    if len(ra) > 3000:
        p = stats.chisquare(cnt).pvalue
        c.ok(p > PMIN, "uniform", f"36 cells: p={p:.2g}")
    c.fact(kind="uniform sky", degrees=deg, n=len(ra))
    c.nontrivial(deg, len(ra), g is None, float(ra[0]))


def coverage(c):
    rng = c.rng
    g = generator(c)
    n = int(rng.integers(1, 7))
    R = float(rng.choice([8.0, 15.0, 25.0, 40.0]))
    ra0, dec0 = gen.sky_points(rng, n)
    if rng.uniform() < 0.3:
        dec0[0] = rng.choice([90.0, -89.0])
        c.seen("survey", "pole")
    if n > 2:
        # Repeated visits of a pointing must not make it more likely.
        ra0[1:3], dec0[1:3] = ra0[0], dec0[0]
    kind = str(rng.choice(["OpSim", "FakeObsTable", "ZTFObsTable"]))
    over = rng.uniform() < 0.5
    sv = surveys.make(rng, kind, n, positions=(ra0, dec0), radius=R * 0.5 if over else R)
    kw = dict(radius=R) if over else {}
    if over:
        c.seen("survey", "override_radius")
    if not over and rng.uniform() < 0.2:
        sv.table.survey_values["radius"] = R
    node = ObsTableUniformRADECSampler(sv.table, seed=int(rng.integers(0, 2**31)), max_iterations=3000, **kw)

    def inside(ra, dec):
        return gen.separation(np.asarray(ra)[:, None], np.asarray(dec)[:, None], ra0[None, :], dec0[None, :]) <= R + 1e-7

    if c.index % 4 == 3:
        pts = [draw_pairs(c, node, 1, g) for _ in range(25)]
        check_plain(c, pts[0], "survey")
        ra, dec = np.array(pts, float).T
        c.seen("survey", "single")
    else:
        S = int(rng.choice([7, 1500]))
        ra, dec = (np.asarray(v) for v in draw_pairs(c, node, S, g))
        c.equal(ra.shape, (S,), "survey_shape")
    m = inside(ra, dec)
    c.ok(np.all(m.any(axis=1)), "survey_inside", f"{np.sum(~m.any(axis=1))} of {len(ra)} positions outside the coverage", ra=ra[~m.any(axis=1)][:3])
    c.seen("survey", "inside", len(ra))
    if len(ra) > 1000:
        # Uniform over the union: compare with our own rejection sample over cells (subset of pointings x octant).
        pr, pd_ = rng.uniform(0, 360, 120000), np.degrees(np.arcsin(rng.uniform(-1, 1, 120000)))
        pm = inside(pr, pd_)
        keep = pm.any(axis=1)
        pr, pd_, pm = pr[keep], pd_[keep], pm[keep]

        def cell(r, d, mm):
            v = gen.unit(r, d)
            o = (v[:, 0] > 0) * 1 + (v[:, 1] > 0) * 2 + (v[:, 2] > 0) * 4
            near = gen.separation(r[:, None], d[:, None], ra0[None], dec0[None]).min(axis=1) > R * 0.7
            return (mm @ (1 << np.arange(n))) * 16 + o * 2 + near

        a, b = cell(ra, dec, m), cell(pr, pd_, pm)
        ids = np.unique(np.concatenate([a, b]))
        chi2_counts(c, [np.sum(a == k) for k in ids], [np.sum(b == k) for k in ids], "survey_fill", f"{n} pointings of {R} deg")
        c.seen("survey", "fill")
    # A hopeless search ends after the stated number of attempts with a position all the same.
    tiny = ObsTableUniformRADECSampler(sv.table, radius=1e-7, max_iterations=2, seed=1)
    out = tiny.generate(num_samples=3, rng_info=g)
    c.ok(np.shape(out[0]) == (3,) and np.all(np.isfinite(out[0])) and np.all(np.abs(out[1]) <= 90), "survey_exhausted")
    c.seen("survey", "exhausted")
    for bad in (0.0, -1.0):
        c.raises((ValueError,), lambda bad=bad: ObsTableUniformRADECSampler(sv.table, radius=bad), "reject")
    c.raises((ValueError,), lambda: ObsTableUniformRADECSampler(sv.table, max_iterations=0), "reject")
    c.fact(kind=kind, pointings=n, R=R, override=over, n=len(ra))
    c.nontrivial(kind, n, R, over, float(ra0[0]))


def maps(c):
    rng = c.rng
    g = generator(c)
    order = int(rng.integers(1, 8))
    npix = 12 * 4**order
    k = int(min(npix, rng.integers(1, 12)))
    pix = np.sort(rng.choice(npix, k, replace=False)).astype(np.uint64)
    weights = np.ones(k)
    depths, pixs = np.full(k, order, np.uint8), pix
    if rng.uniform() < 0.4 and order >= 2 and k > 1:
        # A multi-order map: replace some pixels by one of their children.
        child = rng.uniform(size=k) < 0.5
        pixs = np.where(child, pix * np.uint64(4) + np.uint64(rng.integers(0, 4)), pix).astype(np.uint64)
        depths = np.where(child, order + 1, order).astype(np.uint8)
        weights = np.where(child, 0.25, 1.0)
        c.seen("moc", "multi_order")
    moc = MOC.from_healpix_cells(pixs, depths, max_depth=int(depths.max()))
    depth = int(max(2, depths.max() + rng.integers(0, 3)))
    seed = int(rng.integers(0, 2**31))
    if rng.uniform() < 0.3:
        f = c.tmp / "map.fits"
        moc.save(f, format="fits", overwrite=True)
        node = ApproximateMOCSampler.from_file(f, depth=depth, seed=seed)
        c.seen("moc", "file")
    else:
        node = ApproximateMOCSampler(moc, depth=depth, seed=seed)
    if c.index % 4 == 3:
        pts = [draw_pairs(c, node, 1, g) for _ in range(60)]
        check_plain(c, pts[0], "moc")
        ra, dec = np.array(pts, float).T
        c.seen("moc", "single")
    else:
        ra, dec = (np.asarray(v, float) for v in draw_pairs(c, node, 2000, g))
        c.equal(ra.shape, (2000,), "moc_shape")
    lon, lat = Longitude(ra * u.deg), Latitude(dec * u.deg)
    hit = np.full(len(ra), -1)
    for i in range(k):
        # Sub-pixels at the finest level: borders between pixels are decided by the pixel's own number.
        ids = np.asarray(lonlat_to_healpix(lon, lat, depth=int(depths[i])))
        hit[ids == pixs[i]] = i
    c.ok(np.all(hit >= 0), "moc_inside", f"{np.sum(hit < 0)} of {len(ra)} outside the map", ra=ra[hit < 0][:3], dec=dec[hit < 0][:3])
    c.seen("moc", "inside", len(ra))
    if len(ra) > 1000 and np.all(hit >= 0):
        cnt = np.bincount(hit, minlength=k)
        want = weights / weights.sum() * len(ra)
        if k > 1:
            p = stats.chisquare(cnt, want).pvalue
            c.ok(p > PMIN, "moc_fill", f"pixels: p={p:.2g}", got=cnt, want=want)
        # Within the pixels all depths of sub-pixels are filled.
        for sub in range(1, 4):
            s = np.concatenate([np.asarray(lonlat_to_healpix(lon[hit == i], lat[hit == i], depth=int(depths[i]) + sub)) % 4 for i in range(k)])
            p = stats.chisquare(np.bincount(s.astype(int), minlength=4)).pvalue
            c.ok(p > PMIN, "moc_fill", f"children {sub} levels down: p={p:.2g}")
        c.ok(len(np.unique(ra)) > 0.99 * len(ra), "moc_distinct")
        c.seen("moc", "fill")
    for bad in (1, 30):
        c.raises((ValueError,), lambda bad=bad: ApproximateMOCSampler(moc, depth=bad), "reject")
    c.raises((FileNotFoundError,), lambda: ApproximateMOCSampler.from_file(c.tmp / "none.fits"), "reject")
    c.fact(order=order, pixels=k, depth=depth, n=len(ra))
    c.nontrivial(order, k, depth, int(pix[0]))


def pointings(c):
    rng = c.rng
    g = generator(c)
    n = int(rng.choice([1, 3, 12]))
    ra0, dec0 = gen.sky_points(rng, n)
    time = 60000.0 + rng.permutation(n) * 1.25
    kind = str(rng.choice(["OpSim", "FakeObsTable", "ZTFObsTable"]))
    R = float(rng.choice([0.0, 0.5, 1.75, 10.0]))
    sv = surveys.make(rng, kind, n, positions=(ra0, dec0), radius=2.0, time=time)
    default = rng.uniform() < 0.2
    if default:
        R = 2.0
    ordered = rng.uniform() < 0.5
    node = ObsTableRADECSampler(sv.table, radius=None if default else R, in_order=ordered, seed=int(rng.integers(0, 2**31)))
    look = {float(t): i for i, t in enumerate(sv.cols["time"])}
    rows, seps, pas = [], [], []
    cur = 0
    if np.any(np.abs(dec0) > 89):
        c.seen("pointing", "pole")
    if np.any((ra0 < 0.01) | (ra0 > 359.9)):
        c.seen("pointing", "wrap")
    while True:
        S = int(rng.choice([1, 2, 5])) if ordered else int(rng.choice([1, 1, 150]))
        if ordered and cur + S > n:
            c.raises((IndexError,), lambda S=S: node.generate(num_samples=S, rng_info=g), "pointing_refused")
            c.seen("pointing", "refused")
            if cur == n:
                break
            S = n - cur
        ra, dec, t = draw_pairs(c, node, S, g)
        if S == 1:
            check_plain(c, (ra, dec, t), "pointing")
            c.seen("pointing", "single")
        else:
            c.seen("pointing", "batch")
            c.ok(np.shape(ra) == np.shape(dec) == np.shape(t) == (S,), "pointing_shape")
        ra, dec, t = (np.atleast_1d(v).astype(float) for v in (ra, dec, t))
        if not c.ok(all(float(x) in look for x in t), "pointing_time", "the time is none of the survey's", got=t[:4]):
            return
        r = np.array([look[float(x)] for x in t])
        if ordered:
            c.equal(r, np.arange(cur, cur + S), "pointing_order")
            cur += S
            c.seen("pointing", "ordered")
        s = gen.separation(ra, dec, ra0[r], dec0[r])
        c.ok(np.all(s <= R * (1 + 1e-9) + 2e-9), "pointing_inside", f"offset {s.max():.6g} of a pointing, allowed {R}", ra=ra[:3], dec=dec[:3])
        c.ok(np.all(np.abs(dec) <= 90), "pointing_range")
        rows += list(r)
        seps += list(s)
        pas += list(gen.position_angle(ra0[r], dec0[r], ra, dec))
        if not ordered and len(rows) > 300:
            break
        if ordered and cur == n:
            c.raises((IndexError,), lambda: node.generate(num_samples=1, rng_info=g), "pointing_refused")
            c.seen("pointing", "refused")
            break
    if R == 0:
        c.seen("pointing", "zero_radius")
    elif len(rows) > 200:
        seps, pas = np.array(seps), np.array(pas)
        c.ok(seps.max() > 0.8 * R and np.min(seps) < 0.4 * R, "pointing_fill", "offsets reach over the given radius", hi=seps.max(), lo=seps.min(), R=R)
        p = stats.kstest((pas + 180) / 360, "uniform").pvalue
        c.ok(p > PMIN, "pointing_fill", f"directions around the pointing: p={p:.2g}")
        cnt = np.bincount(rows, minlength=n)
        if n > 1:
            p = stats.chisquare(cnt).pvalue
            c.ok(p > PMIN, "pointing_fill", f"pointings: p={p:.2g}")
    c.raises((ValueError,), lambda: ObsTableRADECSampler(sv.table, radius=-1.0), "reject")
    c.fact(kind=kind, n=n, R=R, ordered=ordered, draws=len(rows))
    c.nontrivial(kind, n, R, ordered, float(ra0[0]))


def survey_maps(c):
    """The coverage map of a survey holds every field of view, nothing far from all of them, and feeds the map sampler."""
    rng = c.rng
    n = int(rng.choice([1, 2, 8, 40]))
    depth = int(rng.integers(3, 10))
    pixel = 58.64 / 2**depth
    ra0, dec0 = gen.sky_points(rng, n)
    R = float(rng.uniform(0.5, 4)) * float(rng.choice([pixel, 2.0]))
    R = min(R, 60.0, 250 * pixel)
    over = rng.uniform() < 0.5
    kind = str(rng.choice(["OpSim", "FakeObsTable", "ZTFObsTable"]))
    sv = surveys.make(rng, kind, n, positions=(ra0, dec0), radius=R * float(rng.uniform(0.3, 2)) if over else R)
    moc = sv.table.build_moc(max_depth=depth, **(dict(radius=R) if over else {}))
    c.seen("survey_map", "override" if over else "default")
    c.ok(moc.max_order <= depth, "survey_map_depth", f"order {moc.max_order}, asked for {depth}")
    m = 400
    j = rng.integers(0, n, m)
    ra, dec = gen.destination(ra0[j], dec0[j], rng.uniform(0, 360, m), R * np.sqrt(rng.uniform(0, 1, m)) * (1 - 1e-6))
    sr, sd = gen.sky_points(rng, 600)
    er, ed = gen.destination(ra0[j], dec0[j], rng.uniform(0, 360, m), R + pixel * rng.uniform(0, 8, m))
    ra, dec = np.concatenate([ra, sr, er]), np.concatenate([dec, sd, ed])
    near = gen.separation(ra[:, None], dec[:, None], ra0[None, :], dec0[None, :]).min(axis=1)
    got = np.asarray(moc.contains_lonlat(Longitude(ra * u.deg), Latitude(dec * u.deg)))
    sure, far = near < R - 1e-7, near > R + 3 * pixel
    c.ok(np.all(got[sure]), "survey_map", f"{np.sum(~got[sure])} of {np.sum(sure)} positions in a field of view are missing from the map (radius {R:.4g}, depth {depth})", ra=ra[sure & ~got][:3], dec=dec[sure & ~got][:3])
    c.ok(not np.any(got[far]), "survey_map", f"{np.sum(got[far])} positions far from all fields of view are in the map (radius {R:.4g}, depth {depth})", ra=ra[far & got][:3], dec=dec[far & got][:3])
    c.seen("survey_map", "inside", int(sure.sum()))
    c.seen("survey_map", "outside", int(far.sum()))
    node = ApproximateMOCSampler(moc, depth=max(2, depth), seed=int(rng.integers(2**31)))
    r, d = (np.asarray(v, float) for v in node.generate(num_samples=200))
    q = gen.separation(r[:, None], d[:, None], ra0[None, :], dec0[None, :]).min(axis=1)
    c.ok(np.all(q <= R + 3 * pixel), "survey_map_sampled", "positions sampled from the survey's map", far=q.max(), R=R)
    c.seen("survey_map", "sampled")
    bare = surveys.make(rng, kind, 2).table
    bare.survey_values["radius"] = None
    c.raises((ValueError,), lambda: bare.build_moc(max_depth=4), "reject", "no radius known")
    c.fact(kind=kind, pointings=n, R=R, depth=depth)
    c.nontrivial(kind, n, R, depth)


QUICK_SCALE = 4
SCENARIOS = [Scenario(uniform_sky, quick=60, thorough=600), Scenario(coverage, quick=60, thorough=600), Scenario(maps, quick=80, thorough=800),
             Scenario(pointings, quick=160, thorough=1600), Scenario(survey_maps, quick=80, thorough=1500)]
