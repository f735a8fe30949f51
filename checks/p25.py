"""P25 - periodic stars and eclipsing binaries."""

import math

import numpy as np
from scipy.integrate import quad

from lclmon.core import Scenario
from lightcurvelynx.astro_utils.black_body import black_body_luminosity_density_per_solid
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.periodic_variable_star import EclipsingBinaryStar

RULE = (
    "Random detached binaries (radius ratios 0.02-50, inclinations from pole-on to edge-on and beyond 90 degrees, separations from barely detached to wide, periods 0.05-500 days, temperatures 1500-60000 K), several samples at once, with and without redshift; "
    "times are aimed at the contacts, minima, ingress and full phase, many cycles away on either side. The oracle places the two stars in three dimensions, takes the lens-shaped overlap from a well-conditioned formula (itself checked against numerical "
    "integration) and Planck's law in scalar arithmetic, and allows for the rounding of the folded phase. Non-trivial: some time inside and some outside eclipse. Distinct by the parameters."
)
REQUIRED = [
    "phase:full", "phase:partial", "phase:total", "phase:annular", "minimum:primary", "minimum:secondary", "periodic:exact", "periodic:far", "periodic:redshift", "periodic:negative", "symmetric", "swap", "ceiling", "samples:many", "planck", "planck:extremes",
    "tangent", "tangent:inner", "tangent:outer", "equal_radii", "edge_on", "no_eclipse", "reversed_orbit", "distance", "overlap_integral", "refused", "t0:vary", "conserved",
]
ASSUMPTIONS = ["The stars are detached (separation larger than the sum of the radii) and orbits circular, as documented.", "Lengths are in centimetres and distance in parsec, the units the code and its tests use."]

H, K, C, PC = 6.62607015e-27, 1.380649e-16, 2.99792458e10, 3.0856775814913673e18


def planck(T, lam):
    """B_nu(T) at a wavelength in cm."""
    nu = C / lam
    x = H * nu / (K * T)
    return 0.0 if x > 700 else 2 * H * nu**3 / C**2 / math.expm1(x)


def overlap(d, a, b):
    """Common area of two discs."""
    if d >= a + b:
        return 0.0
    if d <= abs(a - b):
        return math.pi * min(a, b) ** 2
    x, y, z = sorted((d, a, b), reverse=True)
    area = math.sqrt(max(0.0, (x + (y + z)) * (z - (x - y)) * (z + (x - y)) * (x + (y - z))))
    return a * a * math.atan2(area, (d - b) * (d + b) + a * a) + b * b * math.atan2(area, (d - a) * (d + a) + b * b) - area / 2


def system(p, phase, wave):
    """Received flux of a two-star system in nJy at one phase and wavelength in Angstrom."""
    i, ph = math.radians(p["inclination"]), 2 * math.pi * phase
    x, y, z = math.sin(ph), math.cos(ph) * math.cos(i), math.cos(ph) * math.sin(i)
    d = p["major_semiaxis"] * math.hypot(x, y)
    r1, r2 = p["primary_radius"], p["secondary_radius"]
    b1, b2 = planck(p["primary_temperature"], wave * 1e-8), planck(p["secondary_temperature"], wave * 1e-8)
    lost = overlap(d, r1, r2) * (b1 if math.cos(ph) > 0 else b2)
    return (math.pi * (r1 * r1 * b1 + r2 * r2 * b2) - lost) / (p["distance"] * PC) ** 2 * 1e32


NAMES = ["primary_radius", "secondary_radius", "primary_temperature", "secondary_temperature", "major_semiaxis", "inclination", "distance", "period", "t0", "redshift"]


def draw(rng):
    r1 = 7e10 * 10 ** rng.uniform(-1.7, 1.7)
    r2 = r1 if rng.uniform() < 0.1 else r1 * 10 ** rng.choice([rng.uniform(-1.7, 1.7), rng.uniform(-0.6, 0.6)])
    a = (r1 + r2) * float(1.0 + 10 ** rng.uniform(-2, 2))
    style = rng.uniform()
    lim = math.degrees(math.acos(min(1.0, (r1 + r2) / a)))  # below this inclination nothing is covered
    if style < 0.15:
        inc = 90.0
    elif style < 0.75:
        inc = float(rng.uniform(lim, 90))
    elif style < 0.85:
        inc = float(180 - rng.uniform(lim, 90))
    else:
        inc = float(rng.uniform(0, lim))
    return dict(primary_radius=r1, secondary_radius=r2, primary_temperature=float(10 ** rng.uniform(3.2, 4.7)), secondary_temperature=float(10 ** rng.uniform(3.2, 4.7)), major_semiaxis=a, inclination=inc,
                distance=float(10 ** rng.uniform(0.5, 5)), period=float(rng.choice([0.25, 1.5, 3.0, 96.0, 10 ** rng.uniform(-1.3, 2.7)])), t0=float(rng.choice([0.0, 57000.5, rng.uniform(-1000, 60000)])))


def phases_of_interest(rng, p):
    """Phases at and around the contacts of both eclipses, and anywhere."""
    out = [0.0, 0.5, 0.25, 0.75]
    ci = math.cos(math.radians(p["inclination"]))
    r1, r2, a = p["primary_radius"], p["secondary_radius"], p["major_semiaxis"]
    for edge in (r1 + r2, abs(r1 - r2)):
        s2 = ((edge / a) ** 2 - ci * ci) / max(1e-300, 1 - ci * ci)
        if 0 <= s2 <= 1:
            ph = math.asin(math.sqrt(s2)) / (2 * math.pi)
            for f in (0.3, 0.9, 0.999, 1.0, 1.001, 1.3):
                q = ph * f
                out += [q, -q, 0.5 + q, 0.5 - q]
    out += list(rng.uniform(0, 1, 6))
    return np.array(out) % 1.0


def slack(p, phase, wave, dphase):
    """How far the reference moves within the rounding of the phase."""
    f = system(p, phase, wave)
    return max(abs(system(p, phase + s * dphase, wave) - f) for s in (-1, -0.5, 0.5, 1)) + 1e-7 * f + cancel(p, phase, wave)


def cancel(p, phase, wave):
    """Rounding of the covered area when a small star crosses the limb of a large one (difference of
    large sectors): a fraction of the light of the star behind."""
    big = max(p["primary_radius"], p["secondary_radius"])
    b = planck(p["primary_temperature"] if math.cos(2 * math.pi * phase) > 0 else p["secondary_temperature"], wave * 1e-8)
    return 1e-7 * big * big * math.pi * b / (p["distance"] * PC) ** 2 * 1e32


def spectra(c):
    """Spectra of one or several binaries against three-dimensional geometry."""
    rng = c.rng
    S = int(rng.choice([1, 1, 2, 4]))
    P = [draw(rng) for _ in range(S)]
    z = float(rng.uniform(0.01, 1.5)) if rng.uniform() < 0.25 else None
    args = {k: P[0][k] if S == 1 else GivenValueList([p[k] for p in P]) for k in P[0]}
    if z is not None:
        args["redshift"] = z
    if S > 1:
        c.seen("samples", "many")
    m = EclipsingBinaryStar(**args)
    state = m.sample_parameters(num_samples=S)
    ref = P[int(rng.integers(S))]
    c.fact(first=P[0], z=z)
    c.nontrivial(*[p["primary_radius"] for p in P], z)
    cyc = int(rng.choice([0, 0, 1, -1, -7, 40, 1000]))
    scale = 1.0 if z is None else 1 + z
    ph = phases_of_interest(rng, ref)
    t = ref["t0"] + (ph + cyc) * ref["period"] * scale
    if cyc < 0:
        c.seen("periodic", "negative")
    w = np.sort(10 ** rng.uniform(3.2, 4.4, 3))
    f = m.evaluate_sed(t, w, state)
    c.ok(f.shape == ((S, len(t), 3) if S > 1 else (len(t), 3)), "shape", f"{f.shape}")
    for i, p in enumerate(P):
        fi = f[i] if S > 1 else f
        rest_w = w / scale
        top = [math.pi * (p["primary_radius"] ** 2 * planck(p["primary_temperature"], x * 1e-8) + p["secondary_radius"] ** 2 * planck(p["secondary_temperature"], x * 1e-8)) / (p["distance"] * PC) ** 2 * 1e32 * scale for x in rest_w]
        c.ok(np.all(fi <= np.array(top) * (1 + 1e-9)), "ceiling", "never more than both stars")
        c.seen("ceiling")
        kinds = set()
        for j, x in enumerate(t):
            phase = (x - p["t0"]) / scale / p["period"]
            dph = 8 * (np.spacing(abs(x)) + np.spacing(abs(p["t0"]))) / p["period"] + 4e-16
            q = phase - math.floor(phase)
            edge = min(abs(q - 0.25), abs(q - 0.75)) < 1e-9
            for k, y in enumerate(rest_w):
                want = system(p, q, y) * scale
                tol = slack(p, q, y, dph) * scale
                if edge:
                    tol = max(tol, top[k] * 1e-9)
                c.ok(abs(fi[j, k] - want) <= tol + 1e-9 * top[k] + 1e-300, "spectrum", f"phase {q}: {fi[j, k]} instead of {want}", sample=i, params=str(p), wave=float(w[k]), tol=tol)
            i_, a = math.radians(p["inclination"]), p["major_semiaxis"]
            d = a * math.hypot(math.sin(2 * math.pi * q), math.cos(2 * math.pi * q) * math.cos(i_))
            r1, r2 = p["primary_radius"], p["secondary_radius"]
            if d >= r1 + r2:
                kinds.add("full")
            elif d > abs(r1 - r2):
                kinds.add("partial")
                if r1 == r2:
                    c.seen("equal_radii")
            else:
                front_bigger = (r2 > r1) == (math.cos(2 * math.pi * q) > 0)
                kinds.add("total" if front_bigger else "annular")
        for k in kinds:
            c.seen("phase", k)
        if kinds == {"full"}:
            c.seen("no_eclipse")
        if p["inclination"] == 90.0:
            c.seen("edge_on")
        if p["inclination"] > 90.0:
            c.seen("reversed_orbit")
    if P[0]["t0"]:
        c.seen("t0", "vary")


def repeats(c):
    """Whole periods apart, mirrored about the minima and with the names swapped."""
    rng = c.rng
    p = draw(rng)
    # Binary fractions: adding whole periods is exact, so is the folded phase.
    p["period"] = float(rng.integers(1, 4000)) / 16.0
    p["t0"] = float(rng.integers(-400000, 1600000)) / 16.0
    c.fact(params=p)
    c.nontrivial(p["primary_radius"], p["t0"])
    m = EclipsingBinaryStar(**p)
    w = np.sort(10 ** rng.uniform(3.3, 4.3, 3))
    ph = phases_of_interest(rng, p)
    d = np.round(ph * p["period"] * 2**20) / 2**20
    base = m.evaluate_sed(p["t0"] + d, w)
    top = base.max(axis=0)
    for n in (1, -1, int(rng.integers(-50, 50)), int(rng.integers(2, 500))):
        c.equal(m.evaluate_sed(p["t0"] + d + n * p["period"], w).tolist(), base.tolist(), "period", f"{n} periods later")
    c.seen("periodic", "exact")
    far = m.evaluate_sed(p["t0"] + d + 4096 * p["period"], w)
    c.equal(far.tolist(), base.tolist(), "period", "thousands of periods later")
    c.seen("periodic", "far")
    # Mirror about both minima (the two sides fold to phases that differ in rounding).
    for mid, name in ((0.0, "primary"), (0.5, "secondary")):
        s = p["t0"] + mid * p["period"]
        left, right = m.evaluate_sed(s - d, w), m.evaluate_sed(s + d, w)
        for j in range(len(d)):
            q = mid + d[j] / p["period"]
            tol = np.array([slack(p, q, x, 1e-14) for x in w])
            if min(abs(q % 1 - 0.25), abs(q % 1 - 0.75)) < 1e-9:
                tol = tol + 1e-9 * top
            c.ok(np.all(np.abs(left[j] - right[j]) <= 2 * tol), "symmetric", f"mirror images about the {name} minimum", left=left[j], right=right[j], phase=q)
        c.seen("symmetric")
        mini = m.evaluate_sed(np.array([s]), w)[0]
        half = np.abs(((d / p["period"] - mid + 0.5) % 1) - 0.5) < 0.25
        c.ok(np.all(base[half] >= mini * (1 - 1e-7) - np.array([2 * cancel(p, mid, x) for x in w])), "minimum", f"nothing in that half of the orbit is fainter than the {name} minimum")
        c.seen("minimum", name)
    q = dict(p, primary_radius=p["secondary_radius"], secondary_radius=p["primary_radius"], primary_temperature=p["secondary_temperature"], secondary_temperature=p["primary_temperature"], t0=p["t0"] + p["period"] / 2)
    other = EclipsingBinaryStar(**q).evaluate_sed(p["t0"] + d, w)
    for j in range(len(d)):
        x = d[j] / p["period"]
        tol = np.array([slack(p, x, y, 1e-14) for y in w])
        if min(abs(x % 1 - 0.25), abs(x % 1 - 0.75)) < 1e-9:
            tol = tol + 1e-9 * top
        c.ok(np.all(np.abs(other[j] - base[j]) <= 2 * tol), "swap", "names of the stars swapped, half a period later", phase=x, a=base[j], b=other[j])
    c.seen("swap")
    k = float(rng.uniform(1.5, 30))
    c.close(EclipsingBinaryStar(**dict(p, distance=p["distance"] * k)).evaluate_sed(p["t0"] + d, w) * k * k, base, "distance", 1e-11, 0, "inverse square of the distance")
    c.seen("distance")
    # What is lost in eclipse comes back: the covered fraction is the same in every wavelength.
    full = np.array([math.pi * (p["primary_radius"] ** 2 * planck(p["primary_temperature"], x * 1e-8) + p["secondary_radius"] ** 2 * planck(p["secondary_temperature"], x * 1e-8)) for x in w]) / (p["distance"] * PC) ** 2 * 1e32
    for mid, T in ((0.0, p["primary_temperature"]), (0.5, p["secondary_temperature"])):
        lost = full - m.evaluate_sed(np.array([p["t0"] + mid * p["period"]]), w)[0]
        area = lost / (np.array([planck(T, x * 1e-8) for x in w]) / (p["distance"] * PC) ** 2 * 1e32)
        want = overlap(p["major_semiaxis"] * abs(math.cos(math.radians(p["inclination"]))), p["primary_radius"], p["secondary_radius"])
        size = np.array([full[i] / (planck(T, x * 1e-8) / (p["distance"] * PC) ** 2 * 1e32) for i, x in enumerate(w)])
        c.ok(np.all(np.abs(area - want) <= 1e-7 * size + 3e-7 * max(p['primary_radius'], p['secondary_radius']) ** 2), "conserved", "the light lost is the covered area times the surface brightness behind", area=area, want=want)
    c.seen("conserved")
    if rng.uniform() < 0.3:
        z = float(rng.uniform(0.05, 3))
        mz = EclipsingBinaryStar(**p, redshift=z)
        a = mz.evaluate_sed(p["t0"] + d * (1 + z), w)
        b = mz.evaluate_sed(p["t0"] + d * (1 + z) + 3 * p["period"] * (1 + z), w)
        for j in range(len(d)):
            dph = 16 * np.spacing(abs(p["t0"]) + 9 * p["period"] * (1 + z)) / p["period"] + 1e-15
            tol = (1 + z) * np.array([slack(p, d[j] / p["period"], x / (1 + z), dph) for x in w])
            if min(abs(d[j] / p["period"] % 1 - 0.25), abs(d[j] / p["period"] % 1 - 0.75)) < 1e-9:
                continue
            c.ok(np.all(np.abs(a[j] - b[j]) <= 2 * tol), "period_redshift", "the observed period is longer by one plus redshift", a=a[j], b=b[j])
        c.seen("periodic", "redshift")


def tangent(c):
    """Minima where one disc only just touches or just covers the other."""
    rng = c.rng
    r1, r2 = (7e10 * 10 ** rng.uniform(-1, 1) for _ in range(2))
    a = (r1 + r2) * float(rng.uniform(1.2, 6))
    inner = bool(rng.uniform() < 0.6)
    edge = abs(r1 - r2) if inner else r1 + r2
    p = dict(draw(rng), primary_radius=r1, secondary_radius=r2, major_semiaxis=a, t0=0.0, period=4.0)
    p["inclination"] = math.degrees(math.acos(edge / a))
    m0 = p["inclination"]
    w = np.array([4000.0, 9000.0])
    c.nontrivial(r1, r2, a)
    for k in range(-6, 7):
        p["inclination"] = m0 + k * float(np.spacing(m0))
        f = EclipsingBinaryStar(**p).evaluate_sed(np.array([0.0, 2.0]), w)
        for j, ph in enumerate((0.0, 0.5)):
            for n, x in enumerate(w):
                want = system(p, ph, x)
                c.ok(abs(f[j, n] - want) <= 1e-6 * want + 3 * cancel(p, ph, x) + 1e-300, "tangent", f"{'inner' if inner else 'outer'} contact: {f[j, n]} instead of {want}", params=str(p), phase=ph)
    c.seen("tangent", "inner" if inner else "outer")
    c.seen("tangent")


def blackbody(c):
    """Planck's law, the overlap formula of the oracle and refusals."""
    rng = c.rng
    T, r = float(10 ** rng.uniform(1, 6)), float(10 ** rng.uniform(5, 14))
    w = 10 ** rng.uniform(-6, 0, 8)
    c.nontrivial(T, r)
    got = np.asarray(black_body_luminosity_density_per_solid(T, r, w), float)
    want = np.array([math.pi * planck(T, x) * r * r for x in w])
    c.close(got, want, "planck", 1e-9, 1e-250, "Planck's law")
    c.seen("planck")
    if np.any(want == 0):
        c.seen("planck", "extremes")
    a, b = rng.uniform(0.05, 3, 2)
    d = float(rng.uniform(abs(a - b), a + b))

    def chord(x):
        return 2 * math.sqrt(max(0.0, min(a * a - x * x, b * b - (x - d) ** 2)))

    x0 = (d * d + a * a - b * b) / (2 * d)
    lo, hi = max(-a, d - b), min(a, d + b)
    pts = sorted({min(max(x0, lo), hi)})
    area = quad(chord, lo, pts[0], limit=200)[0] + quad(chord, pts[0], hi, limit=200)[0]
    c.close(overlap(d, a, b), area, "oracle_overlap", 1e-5, 1e-7, "overlap formula against numerical integration")
    c.seen("overlap_integral")
    if c.index % 10 == 0:
        p = draw(rng)
        no = {k: v for k, v in p.items() if k != "distance"}
        c.raises(ValueError, lambda: EclipsingBinaryStar(**no), "refused", "no distance")
        c.seen("refused")
    if rng.uniform() < 0.2:
        # Several samples from nodes.
        p = draw(rng)
        inc = NumpyRandomFunc("uniform", low=60, high=90, seed=int(rng.integers(2**31)))
        m = EclipsingBinaryStar(**dict(p, inclination=inc))
        st = m.sample_parameters(num_samples=3)
        f = m.evaluate_sed(np.array([p["t0"]]), np.array([5000.0]), st)
        for i in range(3):
            q = dict(p, inclination=float(np.asarray(m.get_param(st, "inclination"))[i]))
            want = system(q, 0.0, 5000.0)
            c.close(float(f[i, 0, 0]), want, "node", 1e-6, 0, "each sample its own inclination")


QUICK_SCALE = 4
SCENARIOS = [
    Scenario(spectra, quick=250, thorough=6000),
    Scenario(repeats, quick=200, thorough=5000),
    Scenario(tangent, quick=150, thorough=4000),
    Scenario(blackbody, quick=150, thorough=3000),
]
