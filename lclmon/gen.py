"""Seeded generators and independent reference geometry shared by the checks."""

import numpy as np
import pandas as pd

FILTERS = ["u", "g", "r", "i", "z", "y"]
# Longer names, some of them beginning alike.
LONG_FILTERS = ["g", "gp", "g2", "F158W", "F158", "W1", "ZTF_g", "Ks band", "survey_filter_10", "survey_filter_1"]


def unit(ra, dec):
    """Unit vectors from degrees."""
    ra, dec = np.radians(np.asarray(ra, float)), np.radians(np.asarray(dec, float))
    return np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], axis=-1)


def separation(ra1, dec1, ra2, dec2):
    """Great-circle distance in degrees (Vincenty-like atan2 form: accurate at all separations)."""
    a, b = unit(ra1, dec1), unit(ra2, dec2)
    cr = np.linalg.norm(np.cross(a, b), axis=-1)
    dt = np.sum(a * b, axis=-1)
    return np.degrees(np.arctan2(cr, dt))


def destination(ra, dec, pa, dist):
    """The point at distance `dist` (deg) and position angle `pa` (deg, east of north)."""
    ra, dec, pa, d = (np.radians(np.asarray(v, float)) for v in (ra, dec, pa, dist))
    sd = np.sin(dec) * np.cos(d) + np.cos(dec) * np.sin(d) * np.cos(pa)
    dec2 = np.arcsin(np.clip(sd, -1, 1))
    dra = np.arctan2(np.sin(pa) * np.sin(d), np.cos(dec) * np.cos(d) - np.sin(dec) * np.sin(d) * np.cos(pa))
    return np.degrees(ra + dra) % 360.0, np.degrees(dec2)


def position_angle(ra1, dec1, ra2, dec2):
    """Position angle (deg, east of north) of point 2 as seen from point 1."""
    ra1, dec1, ra2, dec2 = (np.radians(np.asarray(v, float)) for v in (ra1, dec1, ra2, dec2))
    dl = ra2 - ra1
    y = np.sin(dl) * np.cos(dec2)
    x = np.cos(dec1) * np.sin(dec2) - np.sin(dec1) * np.cos(dec2) * np.cos(dl)
    return np.degrees(np.arctan2(y, x))


def sky_points(rng, n):
    """Points over the sphere with extra weight on poles, the RA wrap and the equator."""
    ra = rng.uniform(0, 360, n)
    dec = np.degrees(np.arcsin(rng.uniform(-1, 1, n)))
    kind = rng.integers(0, 8, n)
    ra = np.where(kind == 0, rng.choice([0.0, 360.0, 359.9999, 1e-4, 180.0], n), ra)
    dec = np.where(kind == 1, rng.choice([90.0, -90.0, 89.999, -89.999, 89.5, -89.9], n), dec)
    dec = np.where(kind == 2, rng.choice([0.0, 1e-6, -1e-6], n), dec)
    return ra, dec


def clustered_points(rng, n, scale):
    """Pointings in a few clusters of the given angular size plus a sprinkle over the sphere."""
    k = int(rng.integers(1, 5))
    cra, cdec = sky_points(rng, k)
    which = rng.integers(0, k, n)
    ra, dec = destination(cra[which], cdec[which], rng.uniform(0, 360, n), scale * rng.uniform(0, 2.5, n) ** 1.5)
    far = rng.uniform(size=n) < 0.15
    fra, fdec = sky_points(rng, n)
    ra, dec = np.where(far, fra, ra), np.where(far, fdec, dec)
    return ra, dec, cra, cdec


def obs_columns(rng, n, scale=2.0, filters=None, with_filter=True):
    """Raw columns of a survey: duplicated and unsorted times included."""
    ra, dec, cra, cdec = clustered_points(rng, n, scale)
    time = 60000.0 + np.round(rng.uniform(0, 60, n), int(rng.integers(0, 6)))
    filters = filters or FILTERS[: int(rng.integers(1, 7))]
    cols = {"ra": ra, "dec": dec, "time": time}
    if with_filter:
        cols["filter"] = rng.choice(filters, n)
    return cols, cra, cdec


def weird_index(rng, n):
    """Row labels a caller's data frame may legitimately have."""
    k = int(rng.integers(0, 6))
    if k == 0:
        return pd.RangeIndex(n)
    if k == 1:
        return pd.Index(rng.permutation(n))
    if k == 2:
        return pd.Index(rng.integers(0, max(1, n // 2), n))
    if k == 3:
        return pd.Index([f"v{i}" for i in range(n)])
    if k == 4:
        return pd.Index(np.arange(n) * 7 + 1000)
    return pd.RangeIndex(n, 0, -1)
