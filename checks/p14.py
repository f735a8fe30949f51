"""P14 - magnitudes, zero points and flux units against SI definitions."""

import astropy.units as u
import numpy as np

from lclmon import ref
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.mag_flux import flux2mag, mag2flux
from lightcurvelynx.astro_utils.noise_model import poisson_bandflux_std
from lightcurvelynx.astro_utils.obs_utils import phot_eff_function, spec_eff_function
from lightcurvelynx.astro_utils.unit_utils import bulk_convert_matrix, flam_to_fnu, fnu_to_flam
from lightcurvelynx.astro_utils.zeropoint import (
    calculate_zp_from_maglim,
    flux_electron_zeropoint,
    magnitude_electron_zeropoint,
)

RULE = (
    "Magnitudes over -30..60, fluxes over 40 decades, wavelengths from X-ray to radio in several units, scalars, vectors, matrices, integers "
    "and empty arrays are converted forth and back and compared with the definitions in SI units written independently; zero points for "
    "random throughput tables, bands, airmasses and exposures, and limiting magnitudes fed back through the noise model. "
    "Every case is non-trivial; distinct by shapes, units and first values."
)
REQUIRED = [
    "shape:scalar", "shape:int", "shape:vector", "shape:matrix", "shape:empty", "round:mag", "round:flux", "round:density", "unit:wave:Angstrom", "unit:wave:nm", "unit:wave:um", "unit:wave:m",
    "waves:shared", "waves:own", "mismatch", "zp:default", "zp:custom", "zp:own_zp", "zp:own_ext", "zp:scalar", "zp:unknown", "zp:vector", "snr", "snr:scalar", "snr:vector", "efficiency", "bulk", "list", "negative",
]
ASSUMPTIONS = ["The zero point of a limiting magnitude uses the footprint constant 2.266 (rounded); the signal-to-noise may differ from 5 by 2e-4 relative."]

C_SI = 299792458.0
WAVE = {"Angstrom": (u.AA, 1e-10), "nm": (u.nm, 1e-9), "um": (u.um, 1e-6), "m": (u.m, 1.0)}
FLAM = {
    "erg/s/cm2/A": (u.erg / u.s / u.cm**2 / u.AA, 1e-7 * 1e4 * 1e10),
    "W/m2/um": (u.W / u.m**2 / u.um, 1e6),
    "erg/s/cm2/nm": (u.erg / u.s / u.cm**2 / u.nm, 1e-3 * 1e9),
}
FNU = {"nJy": (u.nJy, 1e-35), "Jy": (u.Jy, 1e-26), "erg/s/cm2/Hz": (u.erg / u.s / u.cm**2 / u.Hz, 1e-3), "mJy": (u.mJy, 1e-29)}


def shaped(c, lo, hi, log=False):
    """A scalar, integer, vector, matrix or empty input."""
    rng = c.rng
    kind = str(rng.choice(["scalar", "int", "vector", "matrix", "empty"], p=[0.2, 0.1, 0.3, 0.35, 0.05]))
    c.seen("shape", kind)
    draw = (lambda s: 10.0 ** rng.uniform(lo, hi, s)) if log else (lambda s: rng.uniform(lo, hi, s))
    if kind == "scalar":
        return float(draw(None))
    if kind == "int":
        return int(rng.integers(1, 40)) if rng.uniform() < 0.5 else rng.integers(1, 40, int(rng.integers(1, 9)))
    if kind == "empty":
        return np.zeros(0)
    if kind == "vector":
        return draw(int(rng.integers(1, 30)))
    return draw((int(rng.integers(1, 6)), int(rng.integers(1, 9))))


def magnitudes(c):
    rng = c.rng
    m = shaped(c, -30, 60)
    keep = np.copy(m)
    f = mag2flux(m)
    c.close(f, ref.nJy(m), "mag2flux", rtol=1e-11)
    c.close(flux2mag(f), m, "mag_round", rtol=0, atol=1e-10)
    c.equal(np.asarray(m), keep, "input_changed")
    c.seen("round", "mag")
    x = shaped(c, -20, 20, log=True)
    c.close(flux2mag(x), ref.ab(np.asarray(x, float)), "flux2mag", rtol=0, atol=1e-10)
    c.close(mag2flux(flux2mag(x)), x, "flux_round", rtol=1e-10)
    c.seen("round", "flux")
    # The definition and one magnitude step.
    c.close(mag2flux(31.4), 1.0, "definition", rtol=1e-12)
    c.close(flux2mag(1e9 * 3631.0), 0.0, "definition:AB", rtol=0, atol=2e-4)
    with np.errstate(all="ignore"):
        c.ok(not np.any(np.isfinite(flux2mag(-np.abs(np.asarray(x, float))))), "flux2mag:negative", "a magnitude for a negative flux")
        c.ok(not np.isfinite(flux2mag(0.0)), "flux2mag:negative", "a finite magnitude for no flux")
    c.seen("negative")
    d = float(rng.uniform(-9, 9))
    c.close(mag2flux(np.asarray(m, float) + d), np.asarray(f) * 10 ** (-0.4 * d), "step", rtol=1e-11)
    c.fact(shape=np.shape(m), first=float(np.ravel(m)[0]) if np.size(m) else None)
    c.nontrivial(np.shape(m), np.shape(x), str(np.ravel(x)[:1]), str(np.ravel(m)[:1]))


def densities(c):
    rng = c.rng
    wn, ln, nn = (str(rng.choice(list(d))) for d in (WAVE, FLAM, FNU))
    (wu, ws), (lu, ls), (nu, ns) = WAVE[wn], FLAM[ln], FNU[nn]
    c.seen("unit", "wave:" + wn)
    n = int(rng.integers(1, 20))
    lam = 10.0 ** rng.uniform(-9, -1, n)  # metres
    own = False
    if rng.uniform() < 0.35:
        flux = 10.0 ** rng.uniform(-20, 5, n)
    else:
        k = int(rng.integers(1, 6))
        flux = 10.0 ** rng.uniform(-20, 5, (k, n))
        if rng.uniform() < 0.4:
            own = True
            lam = 10.0 ** rng.uniform(-9, -1, (k, n))
    flux = flux * np.where(rng.uniform(size=flux.shape) < 0.1, -1, 1) * np.where(rng.uniform(size=flux.shape) < 0.05, 0, 1)
    waves = lam / ws
    c.seen("waves", "own" if own else "shared")
    fk, wk = flux.copy(), waves.copy()
    kw = dict(wave_unit=wu, flam_unit=lu, fnu_unit=nu)
    got = flam_to_fnu(flux, waves, **kw)
    c.close(got, flux * ls * lam**2 / C_SI / ns, "flam_to_fnu", rtol=1e-10)
    c.close(fnu_to_flam(got, waves, **kw), flux, "density_round", rtol=1e-10)
    c.close(fnu_to_flam(flux, waves, **kw), flux * ns * C_SI / lam**2 / ls, "fnu_to_flam", rtol=1e-10)
    c.ok(np.array_equal(flux, fk) and np.array_equal(waves, wk), "input_changed")
    c.seen("round", "density")
    if rng.uniform() < 0.3:
        c.close(flam_to_fnu(flux.tolist(), waves.tolist(), **kw), got, "list", rtol=1e-12)
        c.seen("list")
    # Element by element: one value alone is the same.
    i = tuple(int(rng.integers(s)) for s in flux.shape)
    w1 = waves[i] if own else waves[i[-1]]
    c.close(flam_to_fnu(flux[i], w1, **kw), got[i], "element", rtol=1e-12)
    for fn in (flam_to_fnu, fnu_to_flam):
        c.raises(ValueError, lambda fn=fn: fn(np.ones(n + 2), np.ones(n + 4), **kw), "mismatch")
    c.seen("mismatch")
    a, b = rng.choice(len(FNU), 2, replace=False)
    (ua, sa), (ub, sb) = list(FNU.values())[a], list(FNU.values())[b]
    c.close(bulk_convert_matrix(flux, ua, ub), flux * sa / sb, "bulk", rtol=1e-10)
    c.raises(u.UnitConversionError, lambda: bulk_convert_matrix(flux, u.nJy, u.m), "bulk_units")
    c.seen("bulk")
    c.fact(units=(wn, ln, nn), shape=flux.shape)
    c.nontrivial(wn, ln, nn, flux.shape, str(flux.ravel()[0]))


def zero_points(c):
    rng = c.rng
    # Both sets of coefficients may be given, or only one of them (the other is then the built-in one).
    style = str(rng.choice(["default", "custom", "custom", "own_zp", "own_ext"]))
    custom = style == "custom"
    bands = list("ugrizy") if not custom else [f"b{i}" for i in range(int(rng.integers(1, 9)))]
    own_zp, own_ext = style in ("custom", "own_zp"), style in ("custom", "own_ext")
    zp = {b: float(rng.uniform(20, 32)) if rng.uniform() < 0.8 else int(rng.integers(20, 32)) for b in bands} if own_zp else ref.LSST["zp_per_sec"]
    ext = {b: float(rng.uniform(-0.6, 0)) for b in bands} if own_ext else ref.LSST["ext_coeff"]
    c.seen("zp", style)
    explicit = rng.uniform() < 0.3
    given_zp = zp if own_zp or explicit else None
    kw = dict(ext_coeff=ext if own_ext or explicit else None)
    n = int(rng.integers(1, 40))
    b = rng.choice(bands, n)
    air, exp = rng.uniform(1, 3, n), 10 ** rng.uniform(-1, 4, n)
    scalar = rng.uniform() < 0.25
    if scalar:
        b, air, exp = str(b[0]), float(air[0]), float(exp[0])
    c.seen("zp", "scalar" if scalar else "vector")
    want = np.array([zp[x] for x in np.atleast_1d(b)], float) + np.array([ext[x] for x in np.atleast_1d(b)]) * (np.atleast_1d(air) - 1) + 2.5 * np.log10(np.atleast_1d(exp))
    got = magnitude_electron_zeropoint(band=b, airmass=air, exptime=exp, instr_zp=given_zp, **kw)
    c.close(np.atleast_1d(got), want, "zeropoint", rtol=0, atol=1e-9)
    gf = flux_electron_zeropoint(band=b, airmass=air, exptime=exp, instr_zp_mag=given_zp, **kw)
    c.close(np.atleast_1d(gf), ref.nJy(want), "zeropoint_flux", rtol=1e-9)
    # Twice the exposure collects twice the electrons; a deeper atmosphere fewer.
    g2 = flux_electron_zeropoint(band=b, airmass=air, exptime=2 * exp, instr_zp_mag=given_zp, **kw)
    c.close(2 * np.asarray(g2), gf, "exposure", rtol=1e-9)
    g3 = flux_electron_zeropoint(band=b, airmass=air + 0.5, exptime=exp, instr_zp_mag=given_zp, **kw)
    c.ok(np.all(np.asarray(g3) >= np.asarray(gf)), "airmass", "more airmass must need more flux per electron")
    # A band without a zero point has none.
    lone = dict(list(zp.items())[1:]) if rng.uniform() < 0.5 else {"other": 25.0}
    lost = str(next(iter(zp)))
    try:
        odd = magnitude_electron_zeropoint(band=lost, airmass=1.2, exptime=30.0, instr_zp=lone, ext_coeff=ext)
        c.ok(bool(np.all(np.isnan(np.asarray(odd, float)))), "unknown_band", f"band {lost} without a zero point gave {odd}")
    except (KeyError, ValueError, TypeError):
        pass
    c.seen("zp", "unknown")
    c.fact(style=style, n=n, scalar=scalar)
    c.nontrivial(style, n, scalar, float(np.ravel(got)[0]))


def depths(c):
    rng = c.rng
    n = None if rng.uniform() < 0.3 else int(rng.integers(1, 40))
    c.seen("snr", "scalar" if n is None else "vector")
    U = lambda lo, hi: rng.uniform(lo, hi, n) if n is None or rng.uniform() < 0.8 else float(rng.uniform(lo, hi))  # noqa: E731
    mag, sky, fwhm, gain, read, dark, exp = U(14, 28), 10 ** U(-3, 5), U(0.5, 9), U(0.5, 8), U(0, 20), U(0, 3), 10 ** U(-1, 3)
    nexp = 1 if rng.uniform() < 0.5 else (int(rng.integers(1, 9)) if n is None else rng.integers(1, 9, n))
    kw = dict(maglim=mag, sky=sky, fwhm=fwhm, gain=gain, readnoise=read, darkcurrent=dark, exptime=exp)
    if np.ndim(nexp) or nexp != 1:
        kw["nexposure"] = nexp
    zp = calculate_zp_from_maglim(**kw)
    f = ref.nJy(mag)
    z = ref.nJy(zp)
    err = ref.electrons_noise(f, z, sky * gain, ref.AREA * fwhm**2, read, nexp, dark, exp * nexp)
    c.close(f / err, np.full(np.shape(f / err), 5.0), "snr", rtol=2e-4)
    std = poisson_bandflux_std(f, total_exposure_time=exp * nexp, exposure_count=nexp, psf_footprint=ref.AREA * np.asarray(fwhm) ** 2, sky=sky * gain, zp=z, readout_noise=read, dark_current=dark)
    c.close(f / std, np.full(np.shape(f / std), 5.0), "snr:model", rtol=2e-4)
    # A limit one magnitude deeper at the same conditions means a zero point one magnitude fainter.
    c.close(np.asarray(calculate_zp_from_maglim(**{**kw, "maglim": np.asarray(mag) + 1})) - zp, np.ones(np.shape(zp)), "depth_step", rtol=0, atol=1e-9)
    c.seen("snr")
    # Detection and follow-up efficiencies.
    s = rng.uniform(0, 10, 12)
    s[0] = 5.0
    c.equal(phot_eff_function(s), (s > 5).astype(float), "photometric_efficiency")
    c.equal(float(phot_eff_function(float(s[1]))), float(s[1] > 5), "photometric_efficiency")
    m = rng.uniform(15, 30, 12)
    e = spec_eff_function(m)
    c.close(e, 1 / (1 + np.exp(2.36 * m - 51.9)), "spectroscopic_efficiency", rtol=1e-9)
    c.ok(np.all(np.diff(spec_eff_function(np.sort(m))) <= 0) and np.all((e >= 0) & (e <= 1)), "efficiency_range")
    c.seen("efficiency")
    c.fact(n=n, nexp=np.ravel(nexp)[:3])
    c.nontrivial(n, float(np.ravel(zp)[0]))


QUICK_SCALE = 8
SCENARIOS = [
    Scenario(magnitudes, quick=1500, thorough=60000),
    Scenario(densities, quick=1500, thorough=60000),
    Scenario(zero_points, quick=1200, thorough=40000),
    Scenario(depths, quick=1200, thorough=40000),
]
