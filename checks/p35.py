"""P35 - dust-map lookups."""

import math

import numpy as np
from astropy.coordinates import SkyCoord
from astropy.io import fits

from lclmon import sources
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.dustmap import ConstantHemisphereDustMap, DustEBV, DustmapWrapper, SFDMap
from lightcurvelynx.effects.extinction import ExtinctionEffect
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.math_nodes.ra_dec_sampler import UniformRADEC
from lightcurvelynx.models.basic_models import ConstantSEDModel

RULE = (
    "Random maps (smooth functions of galactic or equatorial position, hemisphere constants, functions, two-hemisphere image maps written to disk in the published projection) with and without a conversion function, looked up at positions from "
    "constants, lists, nodes, sky samplers or another model's coordinates: both hemispheres, poles, the equator, RA near 0 and 360. Each sample's value is compared with the map evaluated by the oracle at that sample's recorded position; "
    "batches are compared with single lookups and followed through an extinction effect to the spectrum. Non-trivial: every case. Distinct by map and positions."
)
REQUIRED = [
    "map:function", "map:galactic", "map:hemisphere", "map:image", "positions:constant", "positions:list", "positions:node", "positions:sky", "positions:model", "samples:one", "samples:many", "scaling", "scaling:none", "north", "south", "equator", "pole", "ra_wrap",
    "batch_vs_single", "direct:scalar", "direct:array", "extinction", "extinction:rest", "extinction:observer", "refused:no_position", "refused:no_map", "refused:no_files", "image:north", "image:south", "depends_on_position",
]
ASSUMPTIONS = ["Image maps are checked away from the seam between the two images (galactic latitude 0), where rounding decides the image."]


def law(seed):
    """A smooth map on the sphere as scalar Python."""
    r = np.random.default_rng(seed)
    a = r.uniform(-1, 1, (6, 3))
    ph = r.uniform(0, 6, 6)

    def f(lon, lat):
        lo, la = math.radians(lon), math.radians(lat)
        v = (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))
        return 0.5 + 0.05 * sum(math.sin(3 * (q[0] * v[0] + q[1] * v[1] + q[2] * v[2]) + x) for q, x in zip(a, ph))

    return f


class GalacticMap:
    """A map that answers in galactic coordinates, like the published packages."""

    def __init__(self, f):
        self.f = f
        self.asked = 0

    def query(self, coords):
        g = coords.galactic
        lon, lat = np.asarray(g.l.deg), np.asarray(g.b.deg)
        self.asked += lon.size
        if lon.ndim == 0:
            return self.f(float(lon), float(lat))
        return np.array([self.f(x, y) for x, y in zip(lon, lat)])


def positions(c, S):
    """(ra parameter, dec parameter, kind)."""
    rng = c.rng
    kind = str(rng.choice(["constant", "list", "list", "node", "sky"]))
    c.seen("positions", kind)
    special_dec = [0.0, -0.0, 90.0, -90.0, 1e-12, -1e-12, 89.9999]
    special_ra = [0.0, 359.99999, 360.0, 1e-9, 180.0]

    def ra1():
        return float(rng.choice(special_ra)) if rng.uniform() < 0.15 else float(rng.uniform(0, 360))

    def dec1():
        return float(rng.choice(special_dec)) if rng.uniform() < 0.2 else float(np.degrees(np.arcsin(rng.uniform(-1, 1))))

    if kind == "constant":
        return ra1(), dec1()
    if kind == "list":
        return GivenValueList([ra1() for _ in range(S)]), GivenValueList([dec1() for _ in range(S)])
    if kind == "node":
        return NumpyRandomFunc("uniform", low=0, high=360, seed=int(rng.integers(2**31))), NumpyRandomFunc("uniform", low=-90, high=90, seed=int(rng.integers(2**31)))
    s = UniformRADEC(seed=int(rng.integers(2**31)))
    return s.ra, s.dec


def note(c, ras, decs):
    for r, d in zip(ras, decs):
        c.seen("north" if d > 0 else "south" if d < 0 else "equator")
        if abs(d) == 90:
            c.seen("pole")
        if r == 360.0 or r == 0.0 or r > 359.9:
            c.seen("ra_wrap")


def read(node, state, S, name):
    v = node.get_param(state, name)
    return [float(v)] if S == 1 else [float(x) for x in v]


def lookup(c, node, ref, S, tol=1e-9):
    """Samples the node and checks each value against the recorded position."""
    state = node.sample_parameters(num_samples=S)
    ras, decs = read(node, state, S, "ra"), read(node, state, S, "dec")
    got = read(node, state, S, "ebv")
    c.seen("samples", "one" if S == 1 else "many")
    note(c, ras, decs)
    c.nontrivial(str(ras), str(decs), str(got[:2]))
    want = [ref(r, d) for r, d in zip(ras, decs)]
    c.close(np.array(got), np.array(want), "value", tol, tol, "map value at each sample's own position", ras=ras[:5], decs=decs[:5])
    if S > 1 and max(want) - min(want) > 1e-6:
        c.seen("depends_on_position")
    return ras, decs, got


def toy(c):
    """Function and package-style maps."""
    rng = c.rng
    S = int(rng.choice([1, 2, 5, 40]))
    f = law(int(rng.integers(2**31)))
    ra, dec = positions(c, S)
    if rng.uniform() < 0.4:
        def fn(ra, dec):
            return np.vectorize(f, otypes=[float])(ra, dec) if np.ndim(ra) else f(float(ra), float(dec))

        node = DustEBV(fn, ra=ra, dec=dec)
        ref = f
        c.seen("map", "function")
        again = lambda r, d: fn(r, d)  # noqa: E731
    else:
        m = GalacticMap(f)
        style = str(rng.choice(["none", "linear", "curve"]))
        func = {"none": None, "linear": lambda x: 0.86 * x, "curve": lambda x: np.sqrt(x) + 0.01}[style]
        c.seen("scaling", "none") if func is None else c.seen("scaling")
        node = DustmapWrapper(m, ra=ra, dec=dec, ebv_func=func)
        c.seen("map", "galactic")

        def ref(r, d):
            g = SkyCoord(r, d, unit="deg", frame="icrs").galactic
            v = f(float(g.l.deg), float(g.b.deg))
            return v if func is None else float(func(v))

        again = node.compute_ebv
    ras, decs, got = lookup(c, node, ref, S)
    c.close(np.array([float(again(r, d)) for r, d in zip(ras, decs)]), np.array(got), "single", 1e-11, 1e-11, "single lookups agree with the batch")
    c.close(np.asarray(again(np.array(ras), np.array(decs)), float), np.array(got), "array", 1e-11, 1e-11, "array lookup")
    c.seen("batch_vs_single")
    k = np.array(rng.permutation(len(ras)))
    c.close(np.asarray(again(np.array(ras)[k], np.array(decs)[k]), float), np.array(got)[k], "permuted", 1e-11, 1e-11, "permuted lookup")


def hemisphere(c):
    """Hemisphere constants."""
    rng = c.rng
    S = int(rng.choice([1, 2, 30]))
    n, s = float(rng.uniform(0, 2)), float(rng.uniform(0, 2))
    m = ConstantHemisphereDustMap(n, s)
    ref = lambda r, d: n if d >= 0 else s  # noqa: E731
    ra, dec = positions(c, S)
    func = (lambda x: 3 * x) if rng.uniform() < 0.4 else None
    node = DustmapWrapper(m, ra=ra, dec=dec, ebv_func=func)
    c.seen("map", "hemisphere")
    ras, decs, _ = lookup(c, node, lambda r, d: ref(r, d) * (3 if func else 1), S, 1e-12)
    c.equal([float(m.compute_ebv(r, d)) for r, d in zip(ras, decs)], [ref(r, d) for r, d in zip(ras, decs)], "scalar", "scalar lookup")
    c.seen("direct", "scalar")
    c.equal(np.asarray(m.compute_ebv(np.array(ras), np.array(decs))).tolist(), [ref(r, d) for r, d in zip(ras, decs)], "array", "array lookup")
    q = m.query(SkyCoord(np.array(ras), np.array(decs), unit="deg"))
    c.equal(np.asarray(q).tolist(), [ref(r, d) for r, d in zip(ras, decs)], "query", "query by coordinates")
    c.seen("direct", "array")


def image_maps(c, rng):
    """Two small hemisphere images in the published zenithal equal-area projection."""
    n = 64
    yy, xx = np.mgrid[0:n, 0:n]
    data = {}
    for name, sign in (("ngp", 1), ("sgp", -1)):
        k = rng.uniform(-1, 1, 4)
        d = 0.4 + 0.1 * np.sin(k[0] * xx / 6 + k[1] * yy / 6 + k[2]) + 0.05 * rng.uniform(0, 1, (n, n)) + (0.3 if sign < 0 else 0.0)
        h = fits.Header()
        h["CRPIX1"], h["CRPIX2"], h["LAM_SCAL"], h["LAM_NSGP"] = 32.5, 32.5, 31.0, sign
        fits.PrimaryHDU(d.astype(np.float32), header=h).writeto(c.tmp / f"SFD_dust_4096_{name}.fits", overwrite=True)
        data[sign] = d.astype(np.float32)
    return data


def image(c):
    """The image-map class on synthetic images."""
    rng = c.rng
    S = int(rng.choice([1, 3, 40]))
    data = image_maps(c, rng)
    used = set()

    def ref(r, d):
        g = SkyCoord(r, d, unit="deg", frame="icrs").galactic
        lon, lat = math.radians(g.l.deg), math.radians(g.b.deg)
        s = 1 if lat >= 0 else -1
        used.add(s)
        q = math.sqrt(1 - s * math.sin(lat))
        x, y = 31.5 + 31.0 * math.cos(lon) * q, 31.5 - s * 31.0 * math.sin(lon) * q
        i, j = int(math.floor(y)), int(math.floor(x))
        fy, fx = y - i, x - j
        img, lim = data[s], 63

        def at(a, b):
            return float(img[min(max(a, 0), lim), min(max(b, 0), lim)])

        return 0.86 * ((1 - fy) * ((1 - fx) * at(i, j) + fx * at(i, j + 1)) + fy * ((1 - fx) * at(i + 1, j) + fx * at(i + 1, j + 1)))

    while True:
        gl, gb = rng.uniform(0, 360, S), np.degrees(np.arcsin(rng.uniform(-1, 1, S)))
        if np.all(np.abs(gb) > 0.01):
            break
    e = SkyCoord(gl, gb, unit="deg", frame="galactic").icrs
    ras, decs = e.ra.deg, e.dec.deg
    node = SFDMap(c.tmp if rng.uniform() < 0.5 else str(c.tmp), ra=GivenValueList(ras.tolist()) if S > 1 else float(ras[0]), dec=GivenValueList(decs.tolist()) if S > 1 else float(decs[0]))
    c.seen("map", "image")
    c.seen("positions", "list")
    _, _, got = lookup(c, node, ref, S, 1e-5)
    for s in used:
        c.seen("image", "north" if s > 0 else "south")
    c.close([float(node.compute_ebv(float(r), float(d))) for r, d in zip(ras, decs)], got, "single", 1e-7, 0, "single lookups")


def extinction(c):
    """From the map through an extinction effect to the spectrum."""
    from dust_extinction.parameter_averages import CCM89

    rng = c.rng
    S = int(rng.choice([1, 2, 6]))
    f = law(int(rng.integers(2**31)))
    scale = float(rng.uniform(0.3, 2))
    m = GalacticMap(f)
    frame = str(rng.choice(["rest", "observer"]))
    z = GivenValueList([float(x) for x in rng.uniform(0.01, 0.6, S)]) if rng.uniform() < 0.5 else None
    ra, dec = positions(c, S)
    src = ConstantSEDModel(brightness=GivenValueList([float(x) for x in rng.uniform(10, 100, S)]), ra=ra, dec=dec, **({"redshift": z, "t0": 0.0} if z is not None else {}))
    node = DustmapWrapper(m, ra=src.ra, dec=src.dec, ebv_func=lambda x: scale * x)
    c.seen("positions", "model")
    law_ = CCM89(Rv=3.1)
    src.add_effect(ExtinctionEffect(law_, ebv=node, frame=frame))
    c.seen("extinction", frame)
    c.seen("extinction")
    state = src.sample_parameters(num_samples=S)
    w = np.sort(rng.uniform(3500, 9000, 4))
    out = src.evaluate_sed(np.array([0.0, 1.0]), w, state)
    for i, x in enumerate(sources.singles(state)):
        r, d, b = (float(src.get_param(x, n)) for n in ("ra", "dec", "brightness"))
        zz = float(src.get_param(x, "redshift")) if z is not None else 0.0
        note(c, [r], [d])
        g = SkyCoord(r, d, unit="deg", frame="icrs").galactic
        ebv = scale * f(float(g.l.deg), float(g.b.deg))
        c.close(float(src.get_param(x, "ebv")), ebv, "recorded", 1e-9, 0, "recorded reddening")
        ww = w / (1 + zz) if frame == "rest" else w
        want = b * (1 + zz) * 10 ** (-0.4 * 3.1 * ebv * sources.ccm_av(law_, ww))
        c.close(out[i] if S > 1 else out, np.array([want, want]), "extinct", 1e-8, 0, "spectrum dimmed by that sample's reddening", sample=i)
    c.nontrivial(str(ra), str(out[0])[:80])
    if c.index % 8 == 0:
        c.raises(ValueError, lambda: DustmapWrapper(m), "refused", "no position")
        c.raises(ValueError, lambda: DustmapWrapper(m, ra=1.0), "refused", "no declination")
        c.raises(ValueError, lambda: DustEBV(lambda ra, dec: 1.0, dec=1.0), "refused", "no right ascension")
        c.raises(ValueError, lambda: SFDMap(c.tmp), "refused", "no position")
        c.seen("refused", "no_position")
        c.raises(ValueError, lambda: DustmapWrapper(None, ra=1.0, dec=2.0).sample_parameters(), "refused", "no map")
        c.seen("refused", "no_map")


def missing(c):
    """A directory without the map files is not silently used (the download is replaced by a stand-in)."""
    import pooch

    real = pooch.retrieve
    pooch.retrieve = lambda *a, **k: None
    try:
        c.raises(Exception, lambda: SFDMap(c.tmp / "none", ra=1.0, dec=2.0), "refused", "files missing after the download")
    finally:
        pooch.retrieve = real
    c.seen("refused", "no_files")
    c.nontrivial(c.index)


QUICK_SCALE = 8
SCENARIOS = [
    Scenario(toy, quick=200, thorough=5000),
    Scenario(hemisphere, quick=150, thorough=3000),
    Scenario(image, quick=60, thorough=1500),
    Scenario(extinction, quick=120, thorough=3000),
    Scenario(missing, quick=2, thorough=4),
]
