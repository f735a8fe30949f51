"""P33 - distances and supernova population parameters."""

import logging
import math

import numpy as np
import sncosmo
from astropy.cosmology import FlatLambdaCDM, FlatwCDM, LambdaCDM, Planck18
from scipy import integrate, stats
from scipy.interpolate import interp1d

from lclmon import sims
from lclmon.core import Scenario, Skip
from lightcurvelynx.astro_utils import obs_utils, redshift
from lightcurvelynx.astro_utils.redshift import RedshiftDistFunc
from lightcurvelynx.astro_utils.snia_utils import (
    DistModFromRedshift,
    HostmassX1Distr,
    HostmassX1Func,
    SNCoordGivenPhysicalSep,
    X0FromDistMod,
    num_snia_per_redshift_bin,
    snia_volumetric_rates,
)
from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.math_nodes.scipy_random import SamplePDF
from lightcurvelynx.models.basic_models import ConstantSEDModel
from lightcurvelynx.models.snia_host import SNIaHost
from lightcurvelynx.obstable.opsim import OpSim

RULE = (
    "Random cosmologies (flat, curved, dark-energy, Planck), redshifts, stretches, colours, standardisation constants, host masses, separations and survey areas are given as constants, lists, random nodes or another model's parameters, singly and in batches. "
    "Distances are compared with a direct numerical integral of the Friedmann equation; amplitudes with the Tripp relation evaluated in scalar Python on the recorded inputs; counts with an adaptive integral of rate times comoving volume; "
    "draws with exact distributions (Kolmogorov-Smirnov); positions with the great-circle separation. The complete supernova example is run against a survey with a registered spectral template and its results re-derived. Non-trivial: every case. Distinct by inputs."
)
REQUIRED = [
    "distmod", "distmod:single", "distmod:batch", "distmod:node", "cosmology:flat", "cosmology:curved", "cosmology:wcdm", "cosmology:planck", "distance:model", "distance:function", "z:tiny", "z:high", "x0", "x0:brighter_slow", "x0:fainter_red", "x0:inverse", "refused:cosmology",
    "x1:low", "x1:high", "x1:threshold", "x1:constant", "x1:single", "x1:generator", "x1:own_seed", "x1_pdf", "rates", "counts", "counts:default_area", "counts:one_bin", "counts:wide", "counts:additive", "separation", "separation:pole", "separation:wrap", "separation:batch", "separation:single", "separation:angles", "efficiency",
    "redshift_draws", "run", "run:observed", "run:reproducible", "run:count", "run:flux", "run:window",
]
ASSUMPTIONS = ["Statistical decisions use p-value thresholds of 1e-9, so a false alarm is not expected in any realistic number of runs.", "The example's counts use the stated rate per observer year without time dilation, as documented."]
PMIN = 1e-9
C = 299792.458


def hubble(cos):
    """Scalar reference for a cosmology: (luminosity distance in Mpc as function of z)."""
    kind, H0, Om, extra = cos

    def E(z):
        if kind == "flat":
            return math.sqrt(Om * (1 + z) ** 3 + 1 - Om)
        if kind == "curved":
            return math.sqrt(Om * (1 + z) ** 3 + extra + (1 - Om - extra) * (1 + z) ** 2)
        return math.sqrt(Om * (1 + z) ** 3 + (1 - Om) * (1 + z) ** (3 * (1 + extra)))

    def comoving(z):
        d = C / H0 * integrate.quad(lambda x: 1 / E(x), 0, z, epsabs=0, epsrel=1e-11, limit=200)[0]
        if kind == "curved":
            ok = 1 - Om - extra
            s = math.sqrt(abs(ok)) * H0 / C
            if ok > 1e-12:
                return math.sinh(s * d) / s
            if ok < -1e-12:
                return math.sin(s * d) / s
        return d

    return comoving, E


def cosmology(rng):
    kind = str(rng.choice(["flat", "curved", "wcdm"]))
    H0, Om = float(rng.uniform(50, 90)), float(rng.uniform(0.1, 0.6))
    if kind == "flat":
        return (kind, H0, Om, 0), FlatLambdaCDM(H0=H0, Om0=Om)
    if kind == "curved":
        x = float(rng.uniform(0.3, 0.9))
        return (kind, H0, Om, x), LambdaCDM(H0=H0, Om0=Om, Ode0=x)
    x = float(rng.uniform(-1.4, -0.6))
    return (kind, H0, Om, x), FlatwCDM(H0=H0, Om0=Om, w0=x)


def zdraw(c, n):
    rng = c.rng
    z = rng.choice([1e-4, 1e-3, 0.01, 3.0, 8.0], n) if rng.uniform() < 0.3 else rng.uniform(0.001, 2.0, n)
    for q in z:
        if q <= 1e-3:
            c.seen("z", "tiny")
        if q >= 3:
            c.seen("z", "high")
    return [float(q) for q in z]


def values(state, node, name, S):
    v = node.get_param(state, name)
    if S == 1:
        return [float(np.asarray(v).reshape(-1)[0])]
    return [float(x) for x in np.broadcast_to(np.asarray(v), (S,))]


def given(c, vals, S, kind=None):
    """A setter that gives the values one per sample (or one for all)."""
    rng = c.rng
    kind = kind or str(rng.choice(["list", "list", "constant", "node"]))
    if kind == "constant":
        return float(vals[0])
    if kind == "node":
        lo, hi = min(vals), max(vals)
        return NumpyRandomFunc("uniform", low=lo, high=hi if hi > lo else lo + abs(lo) * 1e-3 + 1e-6, seed=int(rng.integers(2**31)))
    return GivenValueList(list(vals))


def distances(c):
    """Distance modulus and luminosity distance."""
    rng = c.rng
    S = int(rng.choice([1, 2, 7, 30]))
    z = zdraw(c, S)
    src = given(c, z, S)
    if rng.uniform() < 0.5:
        H0, Om = float(rng.uniform(50, 90)), float(rng.uniform(0.1, 0.6))
        kw = dict(H0=H0, Omega_m=Om)
        if rng.uniform() < 0.25:
            kw, H0, Om = {}, 73.0, 0.3
        node = DistModFromRedshift(src, **kw)
        state = node.sample_parameters(num_samples=S)
        zz = values(state, node, "redshift", S)
        got = values(state, node, "function_node_result", S)
        com, _ = hubble(("flat", H0, Om, 0))
        want = [5 * math.log10((1 + q) * com(q)) + 25 for q in zz]
        c.close(np.array(got), np.array(want), "distmod", 0, 1e-6, "distance modulus per sample", z=zz[:4])
        c.seen("distmod")
        c.seen("distmod", "single" if S == 1 else "batch")
        if not isinstance(src, float) and not isinstance(src, GivenValueList):
            c.seen("distmod", "node")
        if rng.uniform() < 0.3:
            bad = NumpyRandomFunc("uniform", low=0.2, high=0.4)
            c.raises(ValueError, lambda: DistModFromRedshift(0.3, H0=bad), "refused", "random H0")
            c.raises(ValueError, lambda: DistModFromRedshift(0.3, Omega_m=bad), "refused", "random Omega_m")
            c.raises(ValueError, lambda: SNCoordGivenPhysicalSep(1.0, 1.0, 1.0, 0.3, Omega_m=bad), "refused", "random Omega_m")
            c.seen("refused", "cosmology")
        c.nontrivial("mu", H0, Om, *zz)
        return
    if rng.uniform() < 0.2:
        cos, ap = None, Planck18
        c.seen("cosmology", "planck")
        ref = lambda q: ap.luminosity_distance(q).value * 1e6
    else:
        cos, ap = cosmology(rng)
        c.seen("cosmology", cos[0])
        com, _ = hubble(cos)
        ref = lambda q: (1 + q) * com(q) * 1e6
    if rng.uniform() < 0.5:
        m = ConstantSEDModel(brightness=1.0, redshift=src, t0=0.0, cosmology=ap) if rng.uniform() < 0.5 else SNIaHost(redshift=src, t0=0.0, cosmology=ap, hostmass=float(rng.uniform(7, 12)), ra=1.0, dec=2.0)
        state = m.sample_parameters(num_samples=S)
        zz, got = values(state, m, "redshift", S), values(state, m, "distance", S)
        c.seen("distance", "model")
    else:
        node = RedshiftDistFunc(redshift=src, cosmology=ap)
        state = node.sample_parameters(num_samples=S)
        zz, got = values(state, node, "redshift", S), values(state, node, "function_node_result", S)
        c.close(np.asarray(redshift.redshift_to_distance(zz[0], ap)), got[0], "distance", 1e-9, 0, "direct call")
        c.seen("distance", "function")
    c.close(np.array(got), np.array([ref(q) for q in zz]), "distance", 3e-7, 0, "luminosity distance in pc per sample", z=zz[:4], cosmology=str(cos))
    c.nontrivial("dl", str(cos), *zz)


def tripp(mu, x1, col, a, b, M):
    mB = mu - a * x1 + b * col + M
    return 10 ** (-0.4 * (mB - 10.635))


def amplitude(c):
    """Standardised amplitude through the chain of nodes."""
    rng = c.rng
    S = int(rng.choice([1, 2, 9, 25]))
    z = zdraw(c, S)
    host = SNIaHost(ra=10.0, dec=0.0, redshift=given(c, z, S), t0=0.0, hostmass=given(c, rng.uniform(7, 12, S), S))
    mu = DistModFromRedshift(host.redshift, H0=70.0)
    x1 = given(c, rng.normal(0, 1.5, S), S)
    if isinstance(x1, GivenValueList) and rng.uniform() < 0.5:
        x1 = HostmassX1Func(host.hostmass, seed=int(rng.integers(2**31)))
    col = given(c, rng.normal(0, 0.2, S), S)
    a, b = given(c, rng.uniform(0.1, 0.2, S), S), given(c, rng.uniform(2.5, 3.5, S), S)
    M = given(c, rng.normal(-19.3, 0.2, S), S)
    node = X0FromDistMod(distmod=mu, x1=x1, c=col, alpha=a, beta=b, m_abs=M, node_label="x0f")
    state = node.sample_parameters(num_samples=S)
    p = {k: values(state, node, k, S) for k in ("distmod", "x1", "c", "alpha", "beta", "m_abs")}
    got = values(state, node, "function_node_result", S)
    zz = values(state, host, "redshift", S)
    com, _ = hubble(("flat", 70.0, 0.3, 0))
    c.close(np.array(p["distmod"]), np.array([5 * math.log10((1 + q) * com(q)) + 25 for q in zz]), "x0:distmod", 0, 1e-6, "distance modulus of each sample's host")
    want = [tripp(*v) for v in zip(p["distmod"], p["x1"], p["c"], p["alpha"], p["beta"], p["m_abs"])]
    c.close(np.array(got), np.array(want), "x0", 1e-9, 0, "amplitude per sample", inputs=str({k: v[:3] for k, v in p.items()}))
    c.seen("x0")
    back = [-2.5 * math.log10(g) + al * s - be * k - m + 10.635 for g, s, k, al, be, m in zip(got, p["x1"], p["c"], p["alpha"], p["beta"], p["m_abs"])]
    c.close(np.array(back), np.array(p["distmod"]), "x0:inverse", 0, 1e-9, "distance modulus recovered from the amplitude")
    c.seen("x0", "inverse")
    for s, k, g, q in zip(p["x1"], p["c"], got, zip(p["distmod"], p["alpha"], p["beta"], p["m_abs"])):
        mean = tripp(q[0], 0, 0, q[1], q[2], q[3])
        if s > 0 and k == 0 or (s > 0 and -0.4 * (-q[1] * s + q[2] * k) > 0):
            c.ok(g > mean, "x0:direction", "slow decliners are brighter")
            c.seen("x0", "brighter_slow")
        if s < 0 and k > 0:
            c.ok(g < mean, "x0:direction", "fast and red are fainter")
            c.seen("x0", "fainter_red")
    c.nontrivial(*got)


LOW_LEFT = (0.5 / math.sqrt(3)) / (0.5 / math.sqrt(3) + 0.5)


def cdf_low(x):
    x = np.asarray(x, float)
    Z = 0.5 / math.sqrt(3) + 0.5
    left = stats.norm.cdf(np.minimum(x, 0) * math.sqrt(3)) / math.sqrt(3)
    right = stats.norm.cdf(np.maximum(x, 0)) - 0.5
    return (left + right) / Z


def ks(c, x, cdf, tag, msg):
    p = stats.kstest(np.asarray(x), cdf).pvalue
    c.ok(p > PMIN, tag, f"{msg}: KS p={p:.2g} over {len(x)}", mean=float(np.mean(x)), std=float(np.std(x)))


def stretch(c):
    """Host-mass dependent stretch."""
    rng = c.rng
    style = str(rng.choice(["mixed", "mixed", "threshold", "constant", "single"]))
    gen = rng.uniform() < 0.5
    n = 3000 if c.thorough else 1200
    seed = int(rng.integers(2**31))
    use = lambda: dict(rng_info=np.random.default_rng(seed)) if gen else {}
    c.seen("x1", "generator" if gen else "own_seed")
    if style == "constant":
        mass = float(rng.choice([7.0, 9.999999, 10.0, 11.5]))
        node = HostmassX1Func(mass, seed=seed)
        st = node.sample_parameters(num_samples=n, **use())
        got, ms = values(st, node, "function_node_result", n), [mass] * n
    elif style == "single":
        mass = float(rng.choice([8.0, 10.0, 11.0]))
        node = HostmassX1Func(mass, seed=seed)
        r = use()
        n = 250
        got = [float(node.get_param(node.sample_parameters(num_samples=1, **r), "function_node_result")) for _ in range(n)]
        ms = [mass] * n
    else:
        src = GivenValueList([float(x) for x in rng.choice([9.999999999, 10.0, 10.000000001, 0.0, 13.0], n)]) if style == "threshold" else NumpyRandomFunc("uniform", low=7, high=12, seed=seed + 1)
        node = HostmassX1Func(src, seed=seed)
        st = node.sample_parameters(num_samples=n, **use())
        got, ms = values(st, node, "function_node_result", n), values(st, node, "hostmass", n)
    got, ms = np.array(got), np.array(ms)
    c.seen("x1", style if style in ("constant", "single", "threshold") else "mixed")
    c.ok(np.all(np.isfinite(got)), "x1:finite", "draws are finite")
    for cls, sel, cdf in (("low", ms < 10, cdf_low), ("high", ms >= 10, stats.norm.cdf)):
        if np.count_nonzero(sel) < 100:
            continue
        ks(c, got[sel], cdf, f"x1:{cls}", f"stretch of {cls}-mass hosts ({style})")
        c.seen("x1", cls, int(np.count_nonzero(sel)))
        if cls == "low":
            c.ok(np.all(np.abs(got[sel]) < 5), "x1:range", "low-mass stretch stays within 5")
        z = stats.norm.ppf(np.clip(cdf(got[sel]), 1e-12, 1 - 1e-12))
        r = float(np.mean(z[1:] * z[:-1])) * math.sqrt(len(z) - 1)
        c.ok(abs(r) < 6.5, "x1:independence", f"draws are independent ({r:.2f} sigma)")
        c.ok(len(np.unique(got[sel])) == np.count_nonzero(sel), "x1:distinct", "no repeated draws")
    x = rng.uniform(-7, 7, 40)
    mass = float(rng.choice([5, 9.99, 10.0, 12]))
    want = [math.exp(-0.5 * q * q) / math.sqrt(2 * math.pi) * (1.0 if mass >= 10 else (math.exp(-min(0, q) ** 2) if abs(q) < 5 else 0.0)) for q in x]
    c.close(HostmassX1Distr(mass).pdf(x), np.array(want), "x1_pdf", 1e-12, 0, "unnormalised density")
    c.seen("x1_pdf")
    c.nontrivial(style, *got[:5])


def counts(c):
    """Rates and predicted numbers."""
    rng = c.rng
    z = rng.uniform(0, 3, 20)
    c.close(snia_volumetric_rates(z), np.array([2.27e-5 * (1 + q) ** 1.7 for q in z]), "rates", 1e-12, 0, "volumetric rate")
    c.close(np.asarray(snia_volumetric_rates(float(z[0]))), 2.27e-5 * (1 + z[0]) ** 1.7, "rates", 1e-12, 0, "scalar rate")
    c.seen("rates")
    H0, Om = float(rng.uniform(50, 90)), float(rng.uniform(0.1, 0.6))
    wide = rng.uniform() < 0.2
    lo = float(rng.choice([0.001, 0.0, rng.uniform(0, 1)]))
    hi = float(rng.uniform(4, 10)) if wide else lo + float(rng.uniform(0.02, 1.5))
    bins = 1 if rng.uniform() < 0.25 and not wide else int(rng.integers(2, 40))
    area = None if rng.uniform() < 0.3 else float(rng.choice([1e-4, 4 * np.pi, rng.uniform(0, 1)]))
    kw = {} if area is None else dict(solid_angle=area)
    num, zm = num_snia_per_redshift_bin(lo, hi, bins, H0=H0, Omega_m=Om, **kw)
    c.equal(len(num), bins, "counts:bins", "one count per bin")
    c.equal(len(zm), bins, "counts:bins", "one centre per bin")
    edges = [lo + (hi - lo) * i / bins for i in range(bins + 1)]
    c.close(zm, np.array([(a + b) / 2 for a, b in zip(edges[:-1], edges[1:])]), "counts:centre", 1e-9, 1e-12, "bin centres")
    com, E = hubble(("flat", H0, Om, 0))
    sr = 4 * math.pi if area is None else area

    def dn(q):
        return 2.27e-5 * (1 + q) ** 1.7 * (H0 / 70) ** 3 * sr * C / H0 * com(q) ** 2 / E(q)

    for i in range(bins) if bins < 6 else rng.choice(bins, 4, replace=False):
        want = integrate.quad(dn, edges[i], edges[i + 1], epsrel=1e-8)[0]
        c.close(np.asarray(num[i]), want, "counts", 2e-3, 0, f"count in bin {i} of {bins}", lo=lo, hi=hi)
    c.seen("counts")
    c.seen("counts", "default_area" if area is None else "area")
    c.seen("counts", "one_bin" if bins == 1 else "wide" if wide else "many")
    if not wide:
        total, _ = num_snia_per_redshift_bin(lo, hi, 1, H0=H0, Omega_m=Om, **kw)
        c.close(np.sum(num), float(total[0]), "counts:additive", 3e-3, 0, "bins add up to the whole range")
        c.seen("counts", "additive")
    c.nontrivial(lo, hi, bins, H0, Om, str(area))


def unit(ra, dec):
    ra, dec = math.radians(ra), math.radians(dec)
    return np.array([math.cos(dec) * math.cos(ra), math.cos(dec) * math.sin(ra), math.sin(dec)])


def separation(c):
    """Positions around hosts."""
    rng = c.rng
    S = int(rng.choice([1, 3, 60]))
    pole = rng.uniform() < 0.25
    dec = [float(rng.choice([90.0, -90.0, 89.9999, -89.99])) if pole else float(np.degrees(np.arcsin(rng.uniform(-0.99, 0.99)))) for _ in range(S)]
    wrap = rng.uniform() < 0.3
    ra = [float(rng.choice([0.0, 360.0, 359.9999999, 1e-7])) if wrap else float(rng.uniform(0, 360)) for _ in range(S)]
    z = [float(q) for q in rng.choice([1e-4, 0.01, 0.5, 2.0, rng.uniform(0.02, 1)], S)]
    sep = [float(q) for q in rng.choice([0.0, 0.5, 5.0, 80.0, rng.uniform(0.1, 30)], S)]
    H0, Om = float(rng.uniform(50, 90)), float(rng.uniform(0.1, 0.6))
    consts = rng.uniform() < 0.3
    if consts:
        ra, dec, z, sep = [ra[0]] * S, [dec[0]] * S, [z[0]] * S, [sep[0]] * S
        args = (ra[0], dec[0], sep[0], z[0])
    else:
        host = ConstantSEDModel(brightness=1.0, ra=GivenValueList(ra), dec=GivenValueList(dec), redshift=GivenValueList(z), t0=0.0)
        args = (host.ra, host.dec, GivenValueList(sep), host.redshift)
    node = SNCoordGivenPhysicalSep(*args, H0=H0, Omega_m=Om, seed=int(rng.integers(2**31)), node_label="sn")
    rr = dict(rng_info=np.random.default_rng(int(rng.integers(2**31)))) if rng.uniform() < 0.5 else {}
    st = node.sample_parameters(num_samples=S, **rr)
    gra, gdec = values(st, node, "ra", S), values(st, node, "dec", S)
    c.seen("separation", "single" if S == 1 else "batch")
    com, _ = hubble(("flat", H0, Om, 0))
    angles = []
    for i in range(S):
        want = sep[i] / (com(z[i]) / (1 + z[i]) * 1e3)
        a, b = unit(ra[i], dec[i]), unit(gra[i], gdec[i])
        got = math.atan2(np.linalg.norm(np.cross(a, b)), float(np.dot(a, b)))
        tol = 3e-8 if abs(dec[i]) > 85 else 1e-13
        c.ok(abs(got - want) <= 2e-6 * want + tol, "separation", f"sample {i}: separation {got} rad, expected {want}", ra=ra[i], dec=dec[i], z=z[i], sep=sep[i])
        c.ok(-90 <= gdec[i] <= 90 and -1e-9 <= gra[i] <= 360 + 1e-9, "separation:range", f"coordinates on the sphere ({gra[i]}, {gdec[i]})")
        if want > 1e-9 and abs(dec[i]) < 85:
            d, r = math.radians(gdec[i] - dec[i]), math.radians((gra[i] - ra[i] + 180) % 360 - 180)
            y = math.sin(r) * math.cos(math.radians(gdec[i]))
            x = math.sin(d) + 2 * math.sin(math.radians(dec[i])) * math.cos(math.radians(gdec[i])) * math.sin(r / 2) ** 2
            if want > 1e-7:
                angles.append((math.atan2(y, x) / (2 * math.pi)) % 1.0)
    c.seen("separation")
    if pole:
        c.seen("separation", "pole")
    if wrap:
        c.seen("separation", "wrap")
    if len(angles) >= 30:
        ks(c, angles, "uniform", "separation:angles", "position angles are uniform")
        c.ok(len({round(x, 7) for x in angles}) > 0.9 * len(angles), "separation:angles", "every sample has its own position angle")
        c.seen("separation", "angles", len(angles))
    c.nontrivial(*gra, *gdec)


def efficiency(c):
    """Detection and follow-up efficiencies."""
    rng = c.rng
    snr = np.concatenate([rng.uniform(-5, 20, 20), [5.0, np.nextafter(5, 6), np.nextafter(5, 4), 0.0, np.inf]])
    arg = list(snr) if rng.uniform() < 0.5 else snr
    c.equal([float(x) for x in np.asarray(obs_utils.phot_eff_function(arg))], [1.0 if s > 5 else 0.0 for s in snr], "efficiency", "photometric efficiency is a step at 5")
    mag = rng.uniform(15, 30, 20)
    got = np.asarray(obs_utils.spec_eff_function(list(mag) if rng.uniform() < 0.5 else mag), float)
    c.close(got, np.array([1 / (1 + math.exp(2.36 * m - 51.9)) for m in mag]), "efficiency", 1e-12, 0, "spectroscopic efficiency")
    s = obs_utils.spec_eff_function(float(mag[0]))
    c.close(np.asarray(s), got[0], "efficiency", 1e-12, 0, "scalar")
    c.seen("efficiency")
    c.nontrivial(*mag)


def draws(c):
    """Redshift draws follow the predicted counts."""
    rng = c.rng
    lo = float(rng.uniform(0.01, 0.3))
    hi = lo + float(rng.uniform(0.1, 1.0))
    nsn, z = num_snia_per_redshift_bin(lo, hi, 100, H0=70.0, Omega_m=0.3)
    node = SamplePDF(interp1d(z, nsn, bounds_error=False, fill_value=0), seed=int(rng.integers(2**31)))
    n = 4000
    got = np.array(values(node.sample_parameters(num_samples=n), node, "function_node_result", n))
    c.ok(np.all((got >= lo) & (got <= hi)), "redshift_draws", "redshifts stay in range", min=got.min(), max=got.max(), lo=lo, hi=hi)
    com, E = hubble(("flat", 70.0, 0.3, 0))
    g = np.linspace(lo, hi, 400)
    w = np.array([(1 + q) ** 1.7 * com(q) ** 2 / E(q) for q in g])
    cum = integrate.cumulative_trapezoid(w, g, initial=0)
    u = np.interp(np.sort(got), g, cum / cum[-1])
    D = np.max(np.abs(u - (np.arange(n) + 0.5) / n))
    c.ok(D < 0.03 + math.sqrt(math.log(2 / PMIN) / (2 * n)), "redshift_draws", f"redshifts follow rate times volume (D={D:.3f})")
    c.seen("redshift_draws", "", n)
    c.nontrivial(lo, hi)


def survey(c):
    rng = c.rng
    n = int(rng.integers(60, 200))
    t = 60000 + np.sort(rng.uniform(0, 120, n))
    tab = dict(
        observationStartMJD=t, fieldRA=rng.uniform(-1, 1, n) % 360, fieldDec=rng.uniform(-1, 1, n), filter=rng.choice(list("gr"), n), airmass=rng.uniform(1, 2, n), visitExposureTime=np.full(n, 30.0),
        seeingFwhmEff=rng.uniform(0.7, 1.2, n), skyBrightness=rng.uniform(20, 22, n), numExposures=np.ones(n), zp_nJy=rng.uniform(0.1, 1, n),
    )
    return OpSim(tab), tab


def template():
    sncosmo.register(sncosmo.SALT2Source(modeldir="/repo/tests/lightcurvelynx/data/truncated-salt2-h17"), name="salt3", force=True)


def run(c):
    """The complete supernova example."""
    from lightcurvelynx.example_runs.simulate_snia import run_snia_end2end

    logging.disable(logging.INFO)
    rng = c.rng
    template()
    ops, tab = survey(c)
    d = c.tmp
    (d / "LSST").mkdir(exist_ok=True)
    for b, mid in (("g", 480), ("r", 620)):
        w = np.arange(mid - 70, mid + 71.0, 1)
        np.savetxt(d / "LSST" / f"{b}.dat", np.c_[w, np.exp(-(((w - mid) / 40) ** 4))])
    seed = int(rng.integers(2**31))
    by_count = rng.uniform() < 0.4
    com, E = hubble(("flat", 70.0, 0.3, 0))
    if by_count:
        full = integrate.quad(lambda q: 2.27e-5 * (1 + q) ** 1.7 * C / 70.0 * com(q) ** 2 / E(q), 0.1, 0.4)[0]
        area = float(rng.uniform(1.5, 6)) / full
        full *= area
        kw = dict(nsample=None, solid_angle=area)
        res, pb = run_snia_end2end(ops, d, rng_info=np.random.default_rng(seed), **kw)
        c.ok(abs(len(res) - full) < 1.01 + 2e-3 * full, "run:count", f"{len(res)} supernovae drawn, expected {full:.2f}")
        c.seen("run", "count")
    else:
        kw = dict(nsample=int(rng.integers(1, 6)))
        res, pb = run_snia_end2end(ops, d, rng_info=np.random.default_rng(seed), **kw)
        c.equal(len(res), kw["nsample"], "run:count", "one result per supernova")
    c.seen("run")
    mu = hubble(("flat", 73.0, 0.3, 0))[0]
    model = sncosmo.Model("salt3")
    lo, hi = tab["observationStartMJD"].min(), tab["observationStartMJD"].max()
    for r in res:
        p = r["parameter_values"]
        z = p["redshift"]
        c.ok(0.1 <= z <= 0.4 and lo <= p["t0"] <= hi and 7 <= p["hostmass"] <= 12, "run:range", f"parameters in range: {p}")
        c.close(np.asarray(p["distmod"]), 5 * math.log10((1 + z) * mu(z)) + 25, "run:distmod", 0, 1e-6, "distance modulus")
        M = -2.5 * math.log10(p["x0"]) + 10.635 - p["distmod"] + 0.14 * p["x1"] - 3.1 * p["c"]
        c.ok(abs(M + 19.3) < 0.8 and abs(p["c"]) < 0.16 and abs(p["x1"]) < 7, "run:x0", f"amplitude implies absolute magnitude {M}")
        times = np.asarray(r["times"])
        off = [math.degrees(math.acos(min(1, float(np.dot(unit(p["ra"], p["dec"]), unit(a, b)))))) for a, b in zip(tab["fieldRA"], tab["fieldDec"])]
        ph = tab["observationStartMJD"] - p["t0"]
        near = np.abs(np.array(off) - 1.75) > 1e-6
        want = (np.array(off) <= 1.75) & (ph > -20 * (1 + z)) & (ph < 50 * (1 + z))
        if np.all(near):
            c.equal(sorted(times.tolist()), sorted(tab["observationStartMJD"][want].tolist()), "run:window", "exactly the visits of the field during the supernova")
            c.seen("run", "window")
        if len(times) == 0:
            continue
        where = {t: k for k, t in enumerate(tab["observationStartMJD"])}
        rows = [where[t] for t in times]
        c.equal([str(f) for f in r["filters"]], ["LSST_" + str(tab["filter"][k]) for k in rows], "run:filters", "each visit's filter")
        model.set(z=z, t0=p["t0"], x0=p["x0"], x1=p["x1"], c=p["c"])
        waves = pb.waves
        o = np.argsort(times)
        flam = np.zeros((len(times), len(waves)))
        flam[o] = model.flux(times[o], waves)
        fnu = flam * waves**2 / 2.99792458e18 * 1e32
        c.close(r["flux_nJy"], fnu, "run:flux", 1e-6, 1e-6 * max(1.0, np.abs(fnu).max()), "spectra of the template with the recorded parameters")
        c.close(r["flux_flam"], flam, "run:flux", 1e-5, 1e-30 + 1e-6 * np.abs(flam).max(), "wavelength densities")
        if np.abs(fnu).max() > 0:
            c.seen("run", "flux")
        z_ = (r["bandfluxes"] - r["bandfluxes_perfect"]) / r["bandfluxes_error"]
        c.ok(np.all(np.abs(z_) < 7) and np.all(np.asarray(r["bandfluxes_error"]) > 0), "run:noise", "noise within its standard deviation")
        c.seen("run", "observed", len(times))
    again, _ = run_snia_end2end(ops, d, rng_info=np.random.default_rng(seed), **kw)
    c.equal([str(x["parameter_values"]) for x in again], [str(x["parameter_values"]) for x in res], "run:reproducible", "same generator, same supernovae")
    c.ok(all(np.array_equal(a["bandfluxes"], b["bandfluxes"]) for a, b in zip(again, res)), "run:reproducible", "same generator, same noise")
    other, _ = run_snia_end2end(ops, d, rng_info=np.random.default_rng(seed + 1), **kw)
    if other and res:
        c.ok(str(other[0]["parameter_values"]) != str(res[0]["parameter_values"]), "run:varies", "another generator draws other supernovae")
    c.seen("run", "reproducible")
    c.nontrivial(seed)


SCENARIOS = [
    Scenario(distances, quick=300, thorough=6000),
    Scenario(amplitude, quick=150, thorough=3000),
    Scenario(stretch, quick=40, thorough=400),
    Scenario(counts, quick=80, thorough=1500),
    Scenario(separation, quick=150, thorough=3000),
    Scenario(efficiency, quick=30, thorough=300),
    Scenario(draws, quick=4, thorough=40),
    Scenario(run, quick=8, thorough=80),
]
