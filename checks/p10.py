"""P10 - detector footprints against an independent tangent-plane reference."""

import astropy.units as u
import numpy as np
import pandas as pd
from astropy.coordinates import SkyCoord
from astropy.wcs import WCS
from regions import (
    CirclePixelRegion,
    CircleSkyRegion,
    EllipseSkyRegion,
    PixCoord,
    PolygonPixelRegion,
    PolygonSkyRegion,
    RectanglePixelRegion,
    RectangleSkyRegion,
)

from lclmon import gen
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint
from lightcurvelynx.obstable.obs_table import ObsTable
from lightcurvelynx.obstable.opsim import OpSim

RULE = (
    "Random shapes (rectangle, circle, ellipse, polygon, tilted pixel rectangle), pixel scales and WCS, pointings over "
    "the whole sphere with random rotations and RA representations, and positions scattered around the shape border; "
    "containment is compared with an independent tangent-plane construction (great-circle distance and position "
    "angle). A case is non-trivial when the reference has positions both inside and outside; distinct by shape, "
    "pointing and answer pattern."
)
REQUIRED = [
    "inside", "outside", "shape:rect", "shape:circle", "shape:ellipse", "shape:polygon", "shape:pixel_rect",
    "shape:pixel_circle", "shape:pixel_polygon", "rot:none", "rot:array", "rot:scalar", "form:scalar", "form:one_center", "form:paired",
    "pole", "survey:removed", "survey:kept", "survey:pixel_region", "wcs:given", "wcs:default", "far", "offset:paired", "offset:scalar", "refused:shapes",
    "misplaced:x", "misplaced:y", "misplaced:both", "misplaced:over",
]
ASSUMPTIONS = [
    "Positions closer to the border than 1e-6 of the shape size (one pixel for pixel regions, whose default "
    "reference pixel is offset by half a pixel) may go either way.",
    "Rotation is measured as documented: degrees clockwise with east to the right.",
]


def tangent(ra, dec, cra, cdec, rot):
    """Offsets in tangent-plane degrees after undoing the rotation; NaN beyond 90 degrees."""
    s = np.radians(gen.separation(cra, cdec, ra, dec))
    pa = np.radians(gen.position_angle(cra, cdec, ra, dec) - rot)
    r = np.where(s < np.pi / 2 - 1e-9, np.degrees(np.tan(np.minimum(s, np.pi / 2 - 1e-9))), np.nan)
    return r * np.sin(pa), r * np.cos(pa)


def poly_margin(x, y, vx, vy):
    """Signed distance to a polygon (positive inside), with an even-odd test."""
    inside = np.zeros(np.shape(x), bool)
    dist = np.full(np.shape(x), np.inf)
    n = len(vx)
    for i in range(n):
        x1, y1, x2, y2 = vx[i], vy[i], vx[(i + 1) % n], vy[(i + 1) % n]
        cond = (y1 > y) != (y2 > y)
        with np.errstate(all="ignore"):
            xi = (x2 - x1) * (y - y1) / (y2 - y1) + x1
        inside ^= cond & (x < xi)
        L2 = (x2 - x1) ** 2 + (y2 - y1) ** 2
        t = np.clip(((x - x1) * (x2 - x1) + (y - y1) * (y2 - y1)) / L2, 0, 1)
        dist = np.minimum(dist, np.hypot(x - x1 - t * (x2 - x1), y - y1 - t * (y2 - y1)))
    return np.where(inside, dist, -dist)


def sky(lon, lat):
    return SkyCoord(ra=np.asarray(lon) * u.deg, dec=np.asarray(lat) * u.deg)


def untangent(x, y):
    """Sky position whose tangent-plane offset about (0, 0) is (x, y) degrees."""
    r = np.hypot(x, y)
    return gen.destination(0.0, 0.0, np.degrees(np.arctan2(x, y)), np.degrees(np.arctan(np.radians(r))))


def make_shape(c):
    """Returns (region or None for from_rect args, margin function, size, tolerance, pixel scale)."""
    rng = c.rng
    size = float(10.0 ** rng.uniform(-1.3, 0.9))
    scale = size / float(10.0 ** rng.uniform(1.0, 3.0))  # degrees per pixel
    kind = ["rect", "circle", "ellipse", "polygon", "pixel_rect", "pixel_circle", "pixel_polygon"][
        int(rng.integers(0, 7))
    ]
    origin = SkyCoord(ra=0 * u.deg, dec=0 * u.deg)
    tol = 1e-6 * size
    w, h = size * rng.uniform(0.3, 1.0), size * rng.uniform(0.3, 1.0)
    if kind == "rect":
        reg = RectangleSkyRegion(origin, width=w * u.deg, height=h * u.deg)
        fun = lambda x, y: np.minimum(w / 2 - np.abs(x), h / 2 - np.abs(y))
    elif kind == "circle":
        reg = CircleSkyRegion(origin, radius=w / 2 * u.deg)
        fun = lambda x, y: w / 2 - np.hypot(x, y)
    elif kind == "ellipse":
        reg = EllipseSkyRegion(origin, width=w * u.deg, height=h * u.deg)
        fun = lambda x, y: (1 - np.hypot(x / (w / 2), y / (h / 2))) * min(w, h)
    elif kind == "polygon" or kind == "pixel_polygon":
        k = int(rng.integers(3, 8))
        ang = np.sort(rng.uniform(0, 2 * np.pi, k))
        while np.max(np.diff(np.append(ang, ang[0] + 2 * np.pi))) > 2.6:
            ang = np.sort(rng.uniform(0, 2 * np.pi, k))
        rad = size * rng.uniform(0.25, 0.5, k)
        vx, vy = rad * np.cos(ang), rad * np.sin(ang)
        fun = lambda x, y: poly_margin(x, y, vx, vy)
        if kind == "polygon":
            lon, lat = untangent(vx, vy)
            reg = PolygonSkyRegion(sky(lon, lat))
        else:
            reg = PolygonPixelRegion(PixCoord(vx / scale, vy / scale))
            tol = 1.001 * scale
    elif kind == "pixel_circle":
        reg = CirclePixelRegion(PixCoord(0, 0), radius=w / 2 / scale)
        fun = lambda x, y: w / 2 - np.hypot(x, y)
        tol = 1.001 * scale
    else:
        a = rng.uniform(0, np.pi)
        reg = RectanglePixelRegion(PixCoord(0, 0), width=w / scale, height=h / scale, angle=a * u.rad)
        tol = 1.001 * scale

        def fun(x, y):
            xr, yr = x * np.cos(a) + y * np.sin(a), -x * np.sin(a) + y * np.cos(a)
            return np.minimum(w / 2 - np.abs(xr), h / 2 - np.abs(yr))

    c.seen("shape", kind)
    return kind, reg, fun, size, tol, scale, (w, h)


def make_wcs(scale):
    w = WCS(naxis=2)
    w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    w.wcs.crval = [0.0, 0.0]
    w.wcs.crpix = [1.0, 1.0]
    w.wcs.cdelt = [scale, scale]
    return w


def footprint(c, kind, reg, scale, wh):
    kw = {"pixel_scale": scale}
    if c.rng.uniform() < 0.3:
        kw = {"wcs": make_wcs(scale)}
        c.seen("wcs", "given")
    else:
        c.seen("wcs", "default")
    if kind == "rect" and c.rng.uniform() < 0.7:
        return DetectorFootprint.from_rect(wh[0], wh[1], **kw)
    return DetectorFootprint(reg, **kw)


def scatter(c, n, cra, cdec, rot, size):
    """Positions around each pointing, a few of them far away."""
    rng = c.rng
    x, y = rng.uniform(-0.75, 0.75, n) * size, rng.uniform(-0.75, 0.75, n) * size
    near = rng.uniform(size=n) < 0.2
    x, y = np.where(near, x * 0.1, x), np.where(near, y * 0.1, y)
    dist = np.degrees(np.arctan(np.radians(np.hypot(x, y))))
    pa = np.degrees(np.arctan2(x, y)) + rot
    ra, dec = gen.destination(cra, cdec, pa, dist)
    far = rng.uniform(size=n) < 0.1
    fra, fdec = gen.sky_points(rng, n)
    c.seen("far", n=int(far.sum()))
    return np.where(far, fra, ra), np.where(far, fdec, dec)


def compare(c, got, marg, tol, tag, **data):
    got = np.asarray(got)
    if not c.ok(got.shape == np.shape(marg), tag + "_shape", "wrong shape", got=got):
        return
    inn = np.nan_to_num(marg, nan=-np.inf)
    bad_in = (inn > tol) & ~got
    bad_out = (inn < -tol) & got
    c.ok(not bad_in.any(), tag + "_missed", "a position inside the footprint was rejected", n=int(bad_in.sum()), **data)
    c.ok(not bad_out.any(), tag + "_extra", "a position outside the footprint was accepted", n=int(bad_out.sum()), **data)
    c.seen("inside", n=int((inn > tol).sum()))
    c.seen("outside", n=int((inn < -tol).sum()))


def contains(c):
    rng = c.rng
    kind, reg, fun, size, tol, scale, wh = make_shape(c)
    fp = footprint(c, kind, reg, scale, wh)
    n = int(rng.choice([1, 5, 40, 200]))
    cra, cdec = gen.sky_points(rng, n)
    rk = int(rng.integers(0, 3))
    rot = np.zeros(n)
    if rk == 1:
        rot = rng.uniform(-400, 400, n)
    elif rk == 2:
        rot = np.full(n, float(rng.choice([0.0, 90.0, -90.0, 180.0, 33.3, 271.0])))
    c.seen("rot", ["none", "array", "scalar"][rk])
    c.seen("pole", n=int(np.sum(np.abs(cdec) > 89)))
    ra, dec = scatter(c, n, cra, cdec, rot, size)
    c.fact(kind=kind, size=size, n=n, rot=rk)
    marg = fun(*tangent(ra, dec, cra, cdec, rot))
    shift = rng.choice([0.0, 360.0, -360.0], n)
    qra = ra + rng.choice([0.0, -360.0])
    kw = {}
    if rk == 1:
        kw["rotation"] = rot
    elif rk == 2:
        kw["rotation"] = float(rot[0])
    got = fp.contains(qra, dec, cra + shift, cdec, **kw)
    compare(c, got, marg, tol, "paired", kind=kind, size=size)
    c.seen("form", "paired")
    for i in range(min(n, 3)):
        kws = {} if rk == 0 else {"rotation": float(rot[i])}
        one = fp.contains(float(ra[i]), float(dec[i]), float(cra[i]), float(cdec[i]), **kws)
        compare(c, bool(one), marg[i], tol, "scalar", kind=kind)
        c.seen("form", "scalar")
    # many positions against one pointing
    j = int(rng.integers(0, n))
    m = int(rng.choice([2, 30]))
    r1 = float(rot[j])
    ra2, dec2 = scatter(c, m, cra[j], cdec[j], r1, size)
    kws = {} if rk == 0 else {"rotation": r1 if rng.uniform() < 0.5 else np.full(m, r1)}
    got = fp.contains(ra2, dec2, float(cra[j]), float(cdec[j]), **kws)
    m2 = fun(*tangent(ra2, dec2, cra[j], cdec[j], r1))
    compare(c, got, m2, tol, "one_center", kind=kind)
    c.seen("form", "one_center")
    offsets(c, fp, scale, ra, dec, cra, cdec, rot, rk)
    refused(c, fp, ra, dec, cra, cdec)
    if (marg > tol).any() and not (marg > tol).all():
        c.nontrivial(kind, size, n, int((marg > tol).sum()))


def offsets(c, fp, scale, ra, dec, cra, cdec, rot, rk):
    """Where positions land relative to the detector's centre, in degrees and in pixels."""
    x, y = tangent(ra, dec, cra, cdec, rot)
    near = np.flatnonzero(np.nan_to_num(np.hypot(x, y), nan=1e9) < 60.0)
    if len(near) == 0:
        return
    x, y, ra, dec, cra, cdec, rot = (v[near] for v in (x, y, ra, dec, cra, cdec, rot))
    kw = {"rotation": rot} if rk else {}
    want = untangent(x, y)

    def judge(lon, lat, px, py, pick, how):
        lon, lat, px, py = (np.asarray(v, float) for v in (lon, lat, px, py))
        c.ok(lon.shape == lat.shape == px.shape == py.shape == x[pick].shape, "offset", f"{how}: shape", shapes=[lon.shape, px.shape])
        off = gen.separation(lon, lat, want[0][pick], want[1][pick])
        c.ok(np.all(off < 1e-7) and np.all(np.abs(lon) <= 180.0), "offset", f"{how}: off by {np.max(off)} degrees")
        c.ok(np.all(np.hypot(px * scale - x[pick], py * scale - y[pick]) < 1.5 * scale + 1e-6), "offset", f"{how}: pixels of the tangent plane", px=px, want=x[pick] / scale)

    judge(*fp.rotate_to_center(ra, dec, cra, cdec, **kw), *fp.sky_to_pixel(ra, dec, cra, cdec, **kw), slice(None), "paired")
    c.seen("offset", "paired")
    px, py = fp.sky_to_pixel(ra, dec, cra, cdec, **kw)
    d = np.hypot((px - px[0]) * scale - (x - x[0]), (py - py[0]) * scale - (y - y[0]))
    c.ok(np.all(d < 1e-6 * (1 + np.hypot(x, y))), "offset", f"distances in pixels off by {d.max()}")
    i = int(c.rng.integers(len(near)))
    one = {"rotation": float(rot[i])} if rk else {}
    args = [float(v[i]) for v in (ra, dec, cra, cdec)]
    judge(*fp.rotate_to_center(*args, **one), *fp.sky_to_pixel(*args, **one), i, "scalar")
    c.seen("offset", "scalar")
    many = [v.tolist() for v in (ra, dec)]
    same = fp.sky_to_pixel(*many, cra.tolist(), cdec.tolist(), **({"rotation": rot.tolist()} if rk else {}))
    c.ok(np.array_equal(same[0], px) and np.array_equal(same[1], py), "offset", "lists and arrays alike")


def refused(c, fp, ra, dec, cra, cdec):
    """Pointings that cannot be paired with the positions."""
    if len(ra) < 5:
        return
    c.raises(ValueError, lambda: fp.contains(ra, dec[:-1], cra, cdec), "refused", "more right ascensions than declinations")
    c.raises(ValueError, lambda: fp.contains(ra, dec, cra[:-1], cdec), "refused", "too few centres")
    c.raises(ValueError, lambda: fp.contains(ra, dec, cra, cdec[:3]), "refused", "too few centre declinations")
    c.raises(ValueError, lambda: fp.contains(ra, dec, cra, cdec, rotation=np.zeros(len(ra) + 1)), "refused", "too many rotations")
    c.raises(ValueError, lambda: fp.contains(ra, dec, cra, cdec, rotation=[1.0, 2.0]), "refused", "too few rotations")
    c.seen("refused", "shapes")


def survey(c):
    rng = c.rng
    kind, reg, fun, size, tol, scale, wh = make_shape(c)
    n = int(rng.choice([1, 4, 60, 250]))
    qra, qdec = gen.sky_points(rng, 1)
    has_rot = rng.uniform() < 0.6
    rot = rng.uniform(0, 360, n) if has_rot else np.zeros(n)
    d = size * rng.uniform(0, 1.2, n)
    ra, dec = gen.destination(qra[0], qdec[0], rng.uniform(0, 360, n), np.minimum(d, 170))
    time = 60000 + rng.integers(0, 30, n).astype(float)
    cols = {"ra": ra, "dec": dec, "time": time, "filter": rng.choice(["g", "r"], n)}
    if has_rot:
        cols["rotation"] = rot
    use_region = rng.uniform() < 0.5
    kw = {"radius": size * 0.9}
    if use_region:
        kw["detector_footprint"] = reg
        if rng.uniform() < 0.3:
            kw["wcs"] = make_wcs(scale)
        else:
            kw["pixel_scale"] = scale * 3600.0  # surveys give arcseconds per pixel
        if kind.startswith("pixel"):
            c.seen("survey", "pixel_region")
    else:
        kw["detector_footprint"] = footprint(c, kind, reg, scale, wh)
    cls = ObsTable
    if rng.uniform() < 0.3:
        cls = OpSim
        cols["zp"] = 1.0
    t = cls(pd.DataFrame(cols), **kw)
    c.fact(kind=kind, n=n, has_rot=has_rot, use_region=use_region)
    plain = ObsTable({k: v for k, v in cols.items()}, radius=size * 0.9)
    tmin = float(rng.choice(time)) if rng.uniform() < 0.4 else None
    others_ra, others_dec = scatter(c, 4, qra[0], qdec[0], 0.0, size)
    Q = [(float(qra[0]), float(qdec[0]))] + [(float(a), float(b)) for a, b in zip(others_ra, others_dec)]
    Q = [(a + 360.0 * int(rng.choice([0, 0, -1])), b) for a, b in Q]

    def judge(table):
        for a, b in Q:
            base = np.asarray(plain.range_search(a, b, t_min=tmin), dtype=int)
            got = np.asarray(table.range_search(a, b, t_min=tmin), dtype=int)
            c.ok(set(got) <= set(base), "subset", "the footprint added rows", extra=sorted(set(got) - set(base)))
            if base.size == 0:
                continue
            marg = np.nan_to_num(fun(*tangent(a, b, ra[base], dec[base], rot[base])), nan=-np.inf)
            flags = np.isin(base, got)
            compare(c, flags, marg, tol, "survey", kind=kind, q=(a, b))
            c.seen("survey", "removed", int((~flags).sum()))
            c.seen("survey", "kept", int(flags.sum()))

    judge(t)
    batch = t.range_search(np.array([q[0] for q in Q]), np.array([q[1] for q in Q]), t_min=tmin)
    for (a, b), rows in zip(Q, batch):
        c.equal(sorted(int(v) for v in rows), sorted(int(v) for v in t.range_search(a, b, t_min=tmin)), "batch")
    t.clear_detector_footprint()
    for a, b in Q:
        c.equal(sorted(t.range_search(a, b, t_min=tmin)), sorted(plain.range_search(a, b, t_min=tmin)), "cleared")
    c.nontrivial(kind, n, round(size, 9))


def misplaced(c):
    """A region lying beside the origin, even in one direction only, is refused; one reaching over it is taken."""
    rng = c.rng
    scale = float(10 ** rng.uniform(-4, -2))
    w, h = (float(rng.uniform(10, 300)) for _ in range(2))
    fx, fy = (float(v) for v in rng.choice([-1.0, 1.0], 2) * rng.uniform(1.15, 3, 2))
    side = str(rng.choice(["x", "y", "both", "over"]))
    ox, oy = (fx * w / 2 + np.sign(fx) * 2, float(rng.uniform(-0.4, 0.4)) * h), (float(rng.uniform(-0.4, 0.4)) * w, fy * h / 2 + np.sign(fy) * 2)
    x, y = {"x": ox, "y": oy, "both": (ox[0], oy[1]), "over": (oy[0], ox[1])}[side]
    kind = str(rng.choice(["rect", "ellipse", "sky"]))
    if kind == "rect":
        reg = RectanglePixelRegion(PixCoord(x, y), width=w, height=h)
    elif kind == "ellipse":
        from regions import EllipsePixelRegion

        reg = EllipsePixelRegion(PixCoord(x, y), width=w, height=h)
    else:
        lon, lat = untangent(np.array([x * scale]), np.array([y * scale]))
        reg = RectangleSkyRegion(sky(lon, lat)[0], width=w * scale * u.deg, height=h * scale * u.deg)
    c.fact(side=side, kind=kind, w=w, h=h, x=x, y=y)
    if side == "over":
        fp = DetectorFootprint(reg, pixel_scale=scale)
        c.ok(kind == "ellipse" or bool(fp.contains(10.0, 0.0, 10.0, 0.0)), "over_origin", "the pointing's centre lies on the detector")
    else:
        c.raises(ValueError, lambda: DetectorFootprint(reg, pixel_scale=scale), "misplaced", f"{kind} region beside the origin in {side}")
    c.seen("misplaced", side)
    c.raises(ValueError, lambda: DetectorFootprint(RectanglePixelRegion(PixCoord(0, 0), 4, 4)), "scale")
    c.raises(ValueError, lambda: DetectorFootprint(RectanglePixelRegion(PixCoord(0, 0), 4, 4), pixel_scale=float(rng.choice([0.0, -scale]))), "scale")
    c.nontrivial(side, kind, round(w, 6))


QUICK_SCALE = 8
SCENARIOS = [Scenario(contains, quick=300, thorough=6000), Scenario(survey, quick=200, thorough=4000), Scenario(misplaced, quick=60, thorough=1000)]
