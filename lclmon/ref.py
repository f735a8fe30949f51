"""Independent reference formulas (written from the documentation, not from the code under test)."""

import numpy as np

AREA = np.pi / (2 * np.log(2))


def nJy(mag):
    """AB magnitude to nanojansky."""
    return 10.0 ** ((31.4 - np.asarray(mag, float)) / 2.5)


def ab(flux):
    return 31.4 - 2.5 * np.log10(flux)


def electrons_noise(flux, zp, sky, footprint, read, nexp, dark, exptime, read_total=None):
    """Root sum of squares of source, sky, dark and read noise, in nJy."""
    var = flux / zp + sky * footprint + dark * exptime * footprint
    var = var + (read**2 * footprint * nexp if read_total is None else read_total**2)
    return np.sqrt(var) * zp


LSST = dict(
    dark_current=0.2,
    pixel_scale=0.2,
    read_noise=8.8,
    ext_coeff={"u": -0.458, "g": -0.208, "r": -0.122, "i": -0.074, "z": -0.057, "y": -0.095},
    zp_per_sec={"u": 26.524, "g": 28.508, "r": 28.361, "i": 28.171, "z": 27.782, "y": 26.818},
)
ZTF = dict(dark_current=0.0, pixel_scale=1.01, read_noise=8.0, gain=6.2)


def opsim_zp(cols, s):
    band = cols["filter"]
    z = np.array([s["zp_per_sec"][b] for b in band], float)
    e = np.array([s["ext_coeff"][b] for b in band], float)
    return nJy(z + e * (np.asarray(cols["airmass"], float) - 1.0) + 2.5 * np.log10(np.asarray(cols["exptime"], float)))


def opsim_noise(flux, cols, i, s):
    zp = cols["zp"][i] if "zp" in cols else opsim_zp(cols, s)[i]
    fp = AREA * (cols["seeing"][i] / s["pixel_scale"]) ** 2
    sky = nJy(cols["skybrightness"][i]) * s["pixel_scale"] ** 2 / zp
    return electrons_noise(
        flux, zp, sky, fp, s["read_noise"], cols["nexposure"][i], s["dark_current"], cols["exptime"][i]
    )


def ztf_zp(cols, s):
    """Zero point from the 5-sigma limit: 5 = N / sqrt(N + B) with N electrons at the limit."""
    npix = AREA * np.asarray(cols["fwhm"], float) ** 2
    B = npix * (cols["sky"] * s["gain"] + s["read_noise"] ** 2 + s["dark_current"] * cols["exptime"])
    N = (25.0 + np.sqrt(625.0 + 100.0 * B)) / 2.0
    return nJy(cols["maglim"] + 2.5 * np.log10(N))


def ztf_noise(flux, cols, i, s):
    zp = cols["zp"][i] if "zp" in cols else ztf_zp(cols, s)[i]
    fp = AREA * cols["fwhm"][i] ** 2
    return electrons_noise(
        flux, zp, cols["sky"][i] * s["gain"], fp, s["read_noise"], 1, s["dark_current"], cols["exptime"][i]
    )


def roman_noise(flux, zp_mag, npix, zodi_level, zodi, thermal, dark, exptime):
    zp = nJy(zp_mag) / exptime
    sky = exptime * (zodi_level * zodi + thermal)
    n = exptime / 3.04
    read = np.sqrt(25.0 + 3072.0 * (n - 1) / n / (n + 1))
    return electrons_noise(flux, zp, sky, npix, 0.0, 1, dark, exptime, read_total=read)


def fake_noise(flux, cols, i, s):
    if s.get("const_flux_error") is not None:
        ce = s["const_flux_error"]
        f = cols["filter"][i]
        if isinstance(ce, dict):
            return np.array([ce[b] for b in np.atleast_1d(f)], float)
        return np.full(np.shape(np.atleast_1d(f)), float(ce))
    n = len(cols["ra"])

    def col(name):
        if name in cols:
            return np.asarray(cols[name], float)
        v = s[name]
        if isinstance(v, dict):
            return np.array([v[b] for b in cols["filter"]], float)
        return np.full(n, float(v))

    if "psf_footprint" in cols or s.get("psf_footprint") is not None:
        fp = col("psf_footprint")
    else:
        fp = AREA * col("fwhm_px") ** 2
    zp = col("zp") if "zp" in cols else np.array([s["zp_per_band"][b] for b in cols["filter"]], float)
    return electrons_noise(
        flux, zp[i], col("sky")[i], fp[i], s["read_noise"], col("nexposure")[i], s["dark_current"], col("exptime")[i]
    )
