"""P34 - accretion-disc (AGN) light curves."""

import math

import numpy as np
from astropy.cosmology import Planck18
from scipy import integrate, stats

from lclmon.core import Scenario
from lightcurvelynx.astro_utils.agn_utils import eddington_ratio_dist_fun
from lightcurvelynx.astro_utils.passbands import Passband
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.agn import AGN

RULE = (
    "AGN with random masses, accretion ratios, redshifts, distances and inclinations (constants, lists, random nodes; single and batched) are sampled and evaluated at random times (unordered, repeated, at the reference time, close together, far apart) and wavelengths. Derived parameters are compared with their formulas "
    "sample by sample; the disc spectrum with a direct integral of the Planck function over the disc; the walk is recovered from the observed fluxes and followed online: at every step the fresh innovation implied by the stated decay and amplitude must be one number for all wavelengths, in [0, 1), uniform and independent of earlier ones. "
    "Seeds, generators, repeated times, distance scaling and redshift are checked on the same records. Non-trivial: every case. Distinct by parameters."
)
REQUIRED = [
    "params", "params:single", "params:batch", "params:node", "params:list", "inclination", "inclination:given", "distance:cosmology", "distance:given", "disc", "disc:uv", "disc:infrared", "disc:edge_on", "disc:array", "walk", "walk:start", "walk:unordered", "walk:repeated", "walk:many_waves", "walk:one_wave", "walk:later_start", "walk:redshifted",
    "walk:not_redshifted", "innovations", "seed", "generator", "samples_differ", "inverse_square", "refused:redshift", "refused:distance", "eddington", "eddington:spread", "per_band", "standard",
]
ASSUMPTIONS = [
    "Times are at or after the reference time: the walk is defined from there on.",
    "The walk's innovations are uniform on [0, 1) (its own tests fix their mean); a symmetric walk is not claimed.",
]
MSUN = 1.98840987069805e33
GRAV, LIGHT, PLANCK, BOLTZ, SB = 6.6743e-8, 2.99792458e10, 6.62607015e-27, 1.380649e-16, 5.6703744191844314e-5
PC = 3.0856775814913674e18


def as_list(v, S):
    return [float(np.asarray(v).reshape(-1)[0])] if S == 1 else [float(x) for x in np.broadcast_to(np.asarray(v), (S,))]


def setter(c, vals):
    rng = c.rng
    kind = str(rng.choice(["constant", "list", "list", "node"]))
    c.seen("params", kind)
    if kind == "constant":
        return float(vals[0])
    if kind == "node":
        lo, hi = min(vals), max(vals)
        return NumpyRandomFunc("uniform", low=lo, high=hi if hi > lo else lo * 1.01, seed=int(rng.integers(2**31)))
    return GivenValueList([float(v) for v in vals])


def derived(mass, edd):
    """Derived quantities in scalar Python."""
    L = 1.26e38 * edd * mass
    mi = 90 - 2.5 * math.log10(L)
    return {
        "critical_accretion_rate": 1.4e18 * mass,
        "blackhole_accretion_rate": 1.4e18 * mass * edd,
        "bolometric_luminosity": L,
        "mag_i": mi,
        "sf_inf_4000aa": 10 ** (-0.476 + 0.118 * (mi + 23) + 0.118 * math.log10(mass / 1e9)),
        "tau_4000aa": 10 ** (2.597 + 0.035 * (mi + 23) + 0.141 * math.log10(mass / 1e9)),
        "blackhole_mass_gram": mass * MSUN,
    }


def make(c, S, z=None, t0=None, inc=None, seed=None, distance=None):
    rng = c.rng
    kw = dict(redshift=z if z is not None else setter(c, rng.uniform(0.05, 3, S)))
    if distance is None and rng.uniform() < 0.5:
        kw["cosmology"] = Planck18
        c.seen("distance", "cosmology")
    else:
        kw["distance"] = distance if distance is not None else setter(c, 10 ** rng.uniform(7, 10.5, S))
        c.seen("distance", "given")
    if seed is not None:
        kw["seed"] = seed
    m = AGN(t0=60000.0 if t0 is None else t0, blackhole_mass=setter(c, 10 ** rng.uniform(6, 10, S)), edd_ratio=setter(c, 10 ** rng.uniform(-3, 0.3, S)), ra=1.0, dec=2.0, node_label="agn", **kw)
    if inc is not None:
        m.set_parameter("inclination_rad", inc)
        c.seen("inclination", "given")
    return m


def params(c):
    """Derived parameters, sample by sample."""
    rng = c.rng
    S = int(rng.choice([1, 2, 6, 300]))
    inc = None if rng.uniform() < 0.6 else setter(c, rng.uniform(0, 1.5, S))
    m = make(c, S, inc=inc)
    rr = dict(rng_info=np.random.default_rng(int(rng.integers(2**31)))) if rng.uniform() < 0.4 else {}
    st = m.sample_parameters(num_samples=S, **rr)
    c.seen("params")
    c.seen("params", "single" if S == 1 else "batch")
    mass, edd = as_list(m.get_param(st, "blackhole_mass"), S), as_list(m.get_param(st, "edd_ratio"), S)
    want = [derived(a, b) for a, b in zip(mass, edd)]
    for k in want[0]:
        got = as_list(m.get_param(st, k), S)
        c.close(np.array(got), np.array([w[k] for w in want]), "derived", 1e-7, 1e-9, f"{k} of each sample", mass=mass[:3], edd=edd[:3])
    incl = as_list(m.get_param(st, "inclination_rad"), S)
    if inc is None:
        c.ok(all(0 <= x <= math.pi / 2 for x in incl), "inclination", "inclination between face-on and edge-on")
        if S == 300:
            p = stats.kstest(np.array(incl) / (math.pi / 2), "uniform").pvalue
            c.ok(p > 1e-9, "inclination", f"inclinations uniform (p={p:.2g})")
            c.seen("inclination")
    if m.get_param(st, "distance") is not None:
        d, z = as_list(m.get_param(st, "distance"), S), as_list(m.get_param(st, "redshift"), S)
        c.ok(all(x > 0 for x in d), "distance", "distances are positive")
        if rng.uniform() < 0.3:
            mm = AGN(t0=0.0, blackhole_mass=1e8, edd_ratio=0.1, redshift=GivenValueList(z), cosmology=Planck18)
            d2 = as_list(mm.get_param(mm.sample_parameters(num_samples=S), "distance"), S)
            c.close(np.array(d2), np.array([Planck18.luminosity_distance(q).value * 1e6 for q in z]), "distance", 1e-6, 0, "distance from the cosmology")
    if rng.uniform() < 0.2:
        c.raises(ValueError, lambda: AGN(t0=0.0, blackhole_mass=1e8, edd_ratio=0.1, distance=1e9), "refused", "no redshift")
        c.seen("refused", "redshift")
        c.raises(ValueError, lambda: AGN(t0=0.0, blackhole_mass=1e8, edd_ratio=0.1, redshift=0.4), "refused", "no distance or cosmology")
        c.seen("refused", "distance")
    c.nontrivial(*mass, *edd)


def disc_flux(mass, edd, inc, dist_pc, wave_aa):
    """Planck emission of the power-law disc, integrated over radius (nJy)."""
    M, Md = mass * MSUN, 1.4e18 * mass * edd
    rin = 6 * GRAV * M / LIGHT**2
    r0 = 49 / 36 * rin
    T0 = (3 * GRAV * M * Md / (8 * math.pi * SB * r0**3) * (1 - math.sqrt(rin / r0))) ** 0.25
    nu = LIGHT / (wave_aa * 1e-8)
    d = dist_pc * PC

    def f(u):  # u = log(r / rin)
        r = rin * math.exp(u)
        x = PLANCK * nu / (BOLTZ * T0 * (r / r0) ** -0.75)
        if x > 600:
            return 0.0
        return 2 * PLANCK * nu**3 / LIGHT**2 / math.expm1(x) * r * r

    # the integrand peaks where x ~ 2.3
    xin = PLANCK * nu / (BOLTZ * T0 * (rin / r0) ** -0.75)
    up = max(4 / 3 * math.log(60 / xin), 0.0) + 1e-9
    peak = min(max(4 / 3 * math.log(2.3 / xin), 0.0), up)
    val = 0.0
    for a, b in ((0.0, peak), (peak, up)):
        if b > a:
            val += integrate.quad(f, a, b, epsabs=0, epsrel=1e-10, limit=400)[0]
    if up > 1e-8:
        return 2 * math.pi * math.cos(inc) / d**2 * val * 1e32, xin
    val = integrate.quad(f, 0, 3, epsabs=0, epsrel=1e-10, limit=400)[0]
    return 2 * math.pi * math.cos(inc) / d**2 * val * 1e32, xin


def disc(c):
    """The static disc spectrum."""
    rng = c.rng
    mass, edd = 10 ** float(rng.uniform(5, 10.3)), 10 ** float(rng.uniform(-3.5, 0.5))
    inc = float(rng.choice([0.0, 1.57, rng.uniform(0, 1.5)]))
    d = 10 ** float(rng.uniform(6, 10.5))
    waves = 10 ** rng.uniform(2.7, 5.5, 12)
    args = dict(rin_to_rg=6.0, i=inc, d=d * PC, M=mass * MSUN)
    got = AGN.compute_sed_standard_disk(Mdot=1.4e18 * mass * edd, nu=LIGHT / (waves * 1e-8), **args)
    ref = [disc_flux(mass, edd, inc, d, w) for w in waves]
    scale = max(r[0] for r in ref)
    for w, g, (r, x) in zip(waves, got, ref):
        if x > 50:
            c.ok(0 <= g <= 1e-12 * scale + r * 2, "disc", "exponential cut-off")
            continue
        c.ok(abs(g - r) <= (1e-5 if x < 10 else 2e-3) * r, "disc", f"disc flux at {w:.1f} A is {g}, expected {r}", mass=mass, edd=edd, x=x)
        c.seen("disc", "uv" if x > 2 else "infrared" if x < 1e-2 else "optical")
    if inc > 1.5:
        c.seen("disc", "edge_on")
    c.seen("disc")
    one = AGN.compute_sed_standard_disk(Mdot=1.4e18 * mass * edd, nu=LIGHT / (waves[0] * 1e-8), **args)
    c.close(np.asarray(one), got[0], "disc", 1e-9, 0, "scalar frequency")
    far = AGN.compute_sed_standard_disk(Mdot=1.4e18 * mass * edd, nu=LIGHT / (waves * 1e-8), **{**args, "d": 3 * d * PC})
    c.close(far, got / 9, "inverse_square", 1e-9, 0, "flux falls with the square of distance")
    c.seen("disc", "array")
    # Structure function and damping time, for a given magnitude and mass or the standard ones.
    mag, lg = float(rng.uniform(-30, -15)), math.log10(mass / 1e9)
    for f, (a, b, k) in ((AGN.compute_sf_inf_4000aa, (-0.476, 0.118, 0.118)), (AGN.compute_tau_4000aa, (2.597, 0.035, 0.141))):
        for kw, want in (({}, a), (dict(mag_i=mag), a + b * (mag + 23)), (dict(blackhole_mass=mass * MSUN), a + k * lg), (dict(mag_i=mag, blackhole_mass=mass * MSUN), a + b * (mag + 23) + k * lg)):
            c.close(np.asarray(f(**kw), float), 10.0**want, "standard", 2e-3, 0, f"{f.__name__} of {sorted(kw)}")
    c.seen("standard")
    c.nontrivial(mass, edd, inc, d)


def steady(p, waves, factor=1.0):
    """The disc spectrum of these parameters (judged on its own in `disc`)."""
    return factor * AGN.compute_sed_standard_disk(
        Mdot=1.4e18 * p["blackhole_mass"] * p["edd_ratio"], nu=LIGHT / (np.asarray(waves) * 1e-8), rin_to_rg=6.0, i=p["inclination_rad"], d=p["distance"] * PC, M=p["blackhole_mass"] * MSUN
    )


def scaled(how, value, expo, w):
    return value * (w / 4000.0) ** expo if how == "power" else value * 10**expo * w / 4000.0


def innovations(x, times, t0, tau, sf, step):
    """Innovations implied by the walk x (T x W) under one reading of the recurrence; None for an unobserved start."""
    out = []
    prev, pt = None, t0
    for k, t in enumerate(times):
        dt = t - (pt if step == "previous" else t0)
        a, b = np.exp(-dt / tau), sf * np.sqrt(-np.expm1(-2 * dt / tau))
        if prev is None:
            if dt == 0:
                out.append(x[k] / sf)
            elif len(sf) >= 2:
                # unknown start value u0 and first innovation u1, shared by all wavelengths
                A = np.column_stack([sf * a, b])
                sol, *_ = np.linalg.lstsq(A, x[k], rcond=None)
                cond = np.linalg.cond(A)
                if cond < 1e6:
                    out.append(np.full(len(sf), sol[0]) + 0 * sf)
                    out.append((x[k] - sf * a * sol[0]) / b)
        elif np.all(b > 1e-6 * sf):
            out.append((x[k] - prev * a) / b)
        prev, pt = x[k], t
    return out


def judge(c, x, times, t0, tau4, sf4, waves, pool):
    """Which reading of the walk the fluxes follow; deviations that are recorded findings are reported as such."""
    fits = []
    for scale in ("power", "linear"):
        tau, sf = scaled(scale, tau4, 0.17, waves), scaled(scale, sf4, -0.479, waves)
        for step in ("previous", "start"):
            inn = innovations(x, times, t0, tau, sf, step)
            err = max([0.0] + [float(max(np.max(np.abs(u - u.mean())), -u.min(), u.max() - 1)) for u in inn])
            fits.append((err, scale, step, inn))
    ok = [f for f in fits if f[0] < 2e-6]
    if not ok:
        best = min(fits, key=lambda f: f[0])
        c.fail("walk", f"fluxes do not follow a damped random walk of the stated amplitude and time (closest reading misses by {best[0]:.3g})", times=times, walk=x, waves=waves, readings=[f[:3] for f in fits])
        return
    c.rec.asserts["walk"] += len(times)
    err, scale, step, inn = ok[0]  # in order: the stated one first
    c.seen("reading", f"{scale}/{step}")
    if scale == "linear":
        c.fact(reading="10**B times wavelength ratio")
        c.fail("wave_scaling", "amplitude and damping time scale with 10**B * (wavelength / 4000 A) instead of (wavelength / 4000 A)**B", err=err)
    if step == "start":
        c.fact(reading="decay counted from the reference time")
        c.fail("walk_step", "each step's decay is counted from the reference time instead of the previous observation", err=err)
    pool.extend(float(u.mean()) for u in inn)
    c.seen("innovations", "", len(inn))


def gather(c, m, st, i, S, z):
    """One sample's parameters as floats."""
    g = lambda k: as_list(m.get_param(st, k), S)[i]
    return {k: g(k) for k in ("blackhole_mass", "edd_ratio", "inclination_rad", "distance", "t0", "tau_4000aa", "sf_inf_4000aa")}


def walk(c):
    """Walks recovered from observed spectra."""
    rng = c.rng
    S = int(rng.choice([1, 1, 2, 4]))
    zs = [0.0] * S if rng.uniform() < 0.3 else [float(q) for q in rng.uniform(0.05, 3, S)]
    shifted = rng.uniform() < 0.7
    seed = int(rng.integers(2**31))
    t0 = float(rng.choice([0.0, 60000.0]))
    m = make(c, S, z=GivenValueList(zs), t0=t0, seed=seed, distance=GivenValueList(list(10 ** rng.uniform(7, 10.5, S))) if min(zs) == 0 else None, inc=GivenValueList(list(rng.uniform(0, 1.4, S))))
    if not shifted:
        m.set_apply_redshift(False)
    st = m.sample_parameters(num_samples=S)
    T = int(rng.integers(1, 12))
    gap = float(rng.choice([1.0, 30.0, 1000.0]))
    times = t0 + np.cumsum(rng.uniform(0.3, 1.7, T) * gap)
    if rng.uniform() < 0.6:
        times[0] = t0
        c.seen("walk", "start")
    else:
        c.seen("walk", "later_start")
    order = np.arange(T)
    if rng.uniform() < 0.4 and T > 1:
        order = rng.permutation(T)
        c.seen("walk", "unordered")
    if rng.uniform() < 0.4:
        order = np.concatenate([order, rng.integers(0, T, 3)])
        c.seen("walk", "repeated")
    N = int(rng.choice([1, 3, 6]))
    c.seen("walk", "one_wave" if N == 1 else "many_waves")
    waves = np.sort(rng.uniform(1500, 12000, N))
    if rng.uniform() < 0.3:
        waves = waves[::-1].copy()
    rr = lambda k: dict(rng_info=np.random.default_rng(k)) if k is not None else {}
    gen = int(rng.integers(2**31)) if rng.uniform() < 0.5 else None
    flux = m.evaluate_sed(times[order], waves, st, **rr(gen))
    flux = flux[None] if S == 1 else flux
    c.equal(flux.shape, (S, len(order), N), "shape", "one value per sample, time and wavelength")
    c.seen("walk")
    pool = []
    for i in range(S):
        p = gather(c, m, st, i, S, zs)
        q = 1 + zs[i] if shifted else 1.0
        c.seen("walk", "redshifted" if q > 1 else "not_redshifted")
        rest = waves / q
        base = steady(p, rest, q)
        sky = np.zeros((T, N))
        for k in range(T):
            rows = np.flatnonzero(order == k)
            c.ok(all(np.array_equal(flux[i, r], flux[i, rows[0]]) for r in rows), "same_time", "observations at one time agree", rows=rows)
            sky[k] = flux[i, rows[0]]
        c.ok(np.all(np.isfinite(sky)) and np.all(sky > 0), "finite", "fluxes are positive and finite")
        x = -2.5 * np.log10(sky / base)
        # the oracle's own integral limits the walk's resolution to about 1e-9
        judge(c, x, (times - t0) / q + t0, t0, p["tau_4000aa"], p["sf_inf_4000aa"], rest, pool)
    if S > 1 and len({round(v, 9) for v in pool}) > 1:
        c.ok(len({round(v, 7) for v in pool}) > 0.8 * len(pool), "samples_differ", "every sample and step has its own innovation", pool=pool[:10])
        c.seen("samples_differ")
    if gen is not None:
        again = m.evaluate_sed(times[order], waves, st, **rr(gen))
        c.ok(np.array_equal(again.reshape(flux.shape), flux), "generator", "same generator, same walk")
        other = m.evaluate_sed(times[order], waves, st, **rr(gen + 1))
        c.ok(not np.array_equal(other.reshape(flux.shape), flux), "generator", "another generator, another walk")
        c.seen("generator")
    c.nontrivial(str(flux.ravel()[:6]))


def seeds(c):
    """Seeded models and pooled innovations."""
    rng = c.rng
    seed = int(rng.integers(2**31))
    N = 3
    waves = np.sort(rng.uniform(2000, 9000, N))
    times = 60000.0 + np.cumsum(np.concatenate([[0.0], rng.uniform(20, 90, 60)]))
    vals = dict(blackhole_mass=10 ** float(rng.uniform(7, 9.5)), edd_ratio=float(rng.uniform(0.01, 1)), redshift=0.0, distance=10 ** float(rng.uniform(8, 10)))
    out = []
    for s in (seed, seed, seed + 1):
        m = AGN(t0=60000.0, seed=s, **vals)
        st = m.sample_parameters(num_samples=1)
        out.append((m, st, m.evaluate_sed(times, waves, st)))
    c.ok(np.array_equal(out[0][2], out[1][2]), "seed", "same seed, same light curve")
    c.ok(not np.array_equal(out[0][2], out[2][2]), "seed", "another seed, another light curve")
    c.seen("seed")
    m, st, flux = out[0]
    p = gather(c, m, st, 0, 1, [0.0])
    base = steady(p, waves)
    pool = []
    judge(c, -2.5 * np.log10(flux / base), times, 60000.0, p["tau_4000aa"], p["sf_inf_4000aa"], waves, pool)
    second = m.evaluate_sed(times, waves, st)
    judge(c, -2.5 * np.log10(second / base), times, 60000.0, p["tau_4000aa"], p["sf_inf_4000aa"], waves, pool)
    pool = np.array(pool)
    if len(pool) > 100:
        pv = stats.kstest(pool, "uniform").pvalue
        c.ok(pv > 1e-9, "innovations", f"innovations uniform on [0, 1) (p={pv:.2g})", mean=pool.mean())
        r = float(np.mean((pool[1:] - 0.5) * (pool[:-1] - 0.5)) * 12 * math.sqrt(len(pool) - 1))
        c.ok(abs(r) < 6.5, "innovations", f"innovations independent ({r:.1f} sigma)")
    far = AGN(t0=60000.0, seed=seed, **{**vals, "distance": 2 * vals["distance"]})
    f2 = far.evaluate_sed(times, waves, far.sample_parameters(num_samples=1))
    c.close(f2, out[0][2] / 4, "inverse_square", 1e-9, 0, "twice as far, a quarter of the flux")
    c.seen("inverse_square")
    c.nontrivial(seed)


def eddington(c):
    """Population helper: reproducible, per-sample draws."""
    rng = c.rng
    kind = str(rng.choice(["Red", "Blue", "red", "BLUE", "RED", "blue"]))
    e = 10 ** float(rng.uniform(-3, 0.5))
    n = int(rng.choice([1, 2, 50]))
    seed = int(rng.integers(2**31))
    a = eddington_ratio_dist_fun(e, kind, np.random.default_rng(seed), n)
    b = eddington_ratio_dist_fun(e, kind.lower(), np.random.default_rng(seed), n)
    c.ok(np.array_equal(a, b), "eddington", "same generator, same draws")
    c.equal(np.shape(a), () if n == 1 else (n,), "eddington", "one value per sample")
    c.ok(np.all(np.asarray(a) > 0) and len(np.unique(a)) == n, "eddington", "positive, independent draws")
    # Far from the break one slope rules, so the logarithm's spread shows whether every sample has its own slope and break.
    red = kind.lower() == "red"
    for x in (1e-30, 1e30):
        g, h = np.random.default_rng(seed + 1), np.random.default_rng(seed + 2)
        m = 2000
        got = np.log10(eddington_ratio_dist_fun(x, kind, g, m))
        br = h.normal(-2.81 if red else -1.84, 0.18 if red else 0.335, m)
        low, high = h.normal((0.41 if red else 0.471) - 0.7, 0.02, m), h.normal(1.22 if red else 2.53, 0.16 if red else 0.53, m)
        ratio = np.log10(x) - br
        a1, a2 = low * ratio, high * ratio
        want = (-2.13 if red else -1.65) + np.maximum(a1, a2) + np.log10(1 + 10 ** -np.abs(a1 - a2))
        c.ok(stats.ks_2samp(got, want).pvalue > 1e-9, "eddington", f"distribution of {kind} at ratio {x}: mean {got.mean():.3f} sd {got.std():.3f}, expected {want.mean():.3f} {want.std():.3f}")
    c.seen("eddington", "spread")
    c.raises(ValueError, lambda: eddington_ratio_dist_fun(e, "green"), "refused", "unknown galaxy type")
    c.seen("eddington")
    c.nontrivial(e, kind, n)


def bands(c):
    """Band fluxes average the walking spectrum."""
    rng = c.rng
    seed = int(rng.integers(2**31))
    m = AGN(t0=60000.0, blackhole_mass=1e8, edd_ratio=0.2, redshift=0.0, distance=1e9, seed=seed)
    st = m.sample_parameters(num_samples=1)
    w = np.arange(4000.0, 6001.0, 10.0)
    pb = Passband(np.column_stack([w, np.exp(-(((w - 5000) / float(rng.uniform(200, 600))) ** 2))]), "survey", "band")
    times = 60000.0 + np.cumsum(rng.uniform(1, 40, 6))
    g = int(rng.integers(2**31))
    sed = m.evaluate_sed(times, pb.waves, st, rng_info=np.random.default_rng(g))
    got = m.evaluate_bandfluxes(pb, times, None, st, rng_info=np.random.default_rng(g))
    want = pb.fluxes_to_bandflux(sed)
    c.close(np.asarray(got), want, "per_band", 1e-9, 0, "the band flux of the same walk")
    c.seen("per_band")
    c.nontrivial(seed)


QUICK_SCALE = 8
SCENARIOS = [
    Scenario(params, quick=300, thorough=5000),
    Scenario(disc, quick=400, thorough=6000),
    Scenario(walk, quick=600, thorough=15000),
    Scenario(seeds, quick=40, thorough=900),
    Scenario(eddington, quick=20, thorough=200),
    Scenario(bands, quick=15, thorough=200),
]
