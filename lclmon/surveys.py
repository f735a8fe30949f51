"""Random surveys of every table class with a plain-column shadow and a reference noise model."""

import numpy as np
import pandas as pd

from lclmon import gen, ref
from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
from lightcurvelynx.obstable.obs_table import ObsTable
from lightcurvelynx.obstable.opsim import OpSim
from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

STD2NATIVE = {
    "OpSim": {
        "ra": "fieldRA", "dec": "fieldDec", "time": "observationStartMJD", "exptime": "visitExposureTime",
        "seeing": "seeingFwhmEff", "skybrightness": "skyBrightness", "nexposure": "numExposures",
    },
    "ZTFObsTable": {"time": "obsmjd", "sky": "scibckgnd"},
    "FakeObsTable": {},
    "ObsTable": {},
}


class Survey:
    """`cols` shadows the table under standard names; `noise(flux, i)` is the reference."""

    def __init__(self, kind, table, cols, settings, noise, native, source, source_copy, ctor):
        self.kind, self.table, self.cols, self.settings = kind, table, cols, settings
        self._noise, self.native, self.source, self.source_copy, self.ctor = noise, native, source, source_copy, ctor

    def noise(self, flux, i):
        return self._noise(np.asarray(flux, float), self.cols, np.asarray(i, int), self.settings)

    def __len__(self):
        return len(self.cols["ra"])

    def source_untouched(self):
        a, b = self.source, self.source_copy
        if isinstance(a, dict):
            return list(a) == list(b) and all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in b)
        return list(a.columns) == list(b.columns) and a.equals(b) and a.index.equals(b.index) and a.attrs == b.attrs


def override(rng, settings, names, p=0.5):
    """Overrides for survey settings, some of them dictionaries per band."""
    out = {}
    for k in names:
        if rng.uniform() > p:
            continue
        v = settings[k]
        if isinstance(v, dict):
            out[k] = {b: float(x * rng.uniform(0.9, 1.1)) for b, x in v.items()}
        else:
            out[k] = float((v if v else 0.3) * rng.uniform(0.3, 3.0))
    return out


def make(rng, kind, n, *, positions=None, filters=None, radius=2.0, indexed=True, colmap_custom=False,
         extra=True, with_zp=None, const_error=None, time=None, as_dict=None):
    """Build one survey.  `positions` = (ra, dec) or None."""
    filters = list(filters) if filters is not None else gen.FILTERS[: int(rng.integers(1, 7))]
    if positions is None:
        base, _, _ = gen.obs_columns(rng, n, radius, filters=filters)
    else:
        base = {"ra": np.asarray(positions[0], float), "dec": np.asarray(positions[1], float)}
        base["time"] = 60000.0 + rng.uniform(0, 60, n)
        base["filter"] = rng.choice(filters, n)
    if time is not None:
        base["time"] = np.asarray(time, float)
    if positions is None and time is None and n > 1 and rng.uniform() < 0.25:
        # Visits of one pointing at one time, in several filters.
        again = np.where(rng.uniform(size=n) < 0.3, rng.integers(0, n, n), np.arange(n))
        for k in ("ra", "dec", "time"):
            base[k] = np.asarray(base[k])[again]
    cols = dict(base)
    kw = {"radius": radius}
    noise = None
    settings = {}
    with_zp = bool(rng.uniform() < 0.4) if with_zp is None else with_zp
    if kind == "OpSim":
        cols["airmass"] = rng.uniform(1.0, 2.5, n)
        cols["exptime"] = rng.uniform(5.0, 300.0, n)
        cols["seeing"] = rng.uniform(0.3, 3.0, n)
        cols["skybrightness"] = rng.uniform(16.0, 23.0, n)
        cols["nexposure"] = rng.integers(1, 5, n)
        settings = dict(ref.LSST)
        o = override(rng, settings, ["dark_current", "pixel_scale", "read_noise", "ext_coeff", "zp_per_sec"], 0.3)
        if not set(filters) <= set(gen.FILTERS):
            # The built-in tables only know the six standard names.
            o["ext_coeff"] = {f: float(rng.uniform(-0.6, -0.02)) for f in filters}
            o["zp_per_sec"] = {f: float(rng.uniform(26.0, 29.0)) for f in filters}
        settings.update(o)
        kw.update(o)
        if with_zp:
            cols["zp"] = rng.uniform(0.1, 3.0, n)
        noise = ref.opsim_noise
        cls = OpSim
    elif kind == "ZTFObsTable":
        cols["maglim"] = rng.uniform(18.0, 22.0, n)
        cols["sky"] = rng.uniform(50.0, 1000.0, n)
        cols["fwhm"] = rng.uniform(1.0, 5.0, n)
        cols["exptime"] = rng.uniform(10.0, 300.0, n)
        settings = dict(ref.ZTF)
        o = override(rng, settings, ["dark_current", "read_noise", "gain"], 0.3)
        settings.update(o)
        kw.update(o)
        if with_zp:
            cols["zp"] = rng.uniform(10, 3000.0, n)
        noise = ref.ztf_noise
        cls = ZTFObsTable
    elif kind == "FakeObsTable":
        settings = dict(dark_current=0.0, read_noise=0.0, nexposure=1, exptime=30.0, const_flux_error=None)
        if rng.uniform() < 0.5:
            settings["dark_current"] = kw["dark_current"] = float(rng.uniform(0, 2))
        if rng.uniform() < 0.5:
            settings["read_noise"] = kw["read_noise"] = float(rng.uniform(0, 20))
        const = bool(rng.uniform() < 0.25) if const_error is None else const_error
        if const:
            ce = float(rng.uniform(0.1, 5)) if rng.uniform() < 0.5 else {
                f: float(rng.uniform(0.1, 5)) for f in filters
            }
            settings["const_flux_error"] = kw["const_flux_error"] = ce
        else:
            for name, lo, hi in (("sky", 0.0, 500.0), ("exptime", 1.0, 200.0)):
                w = int(rng.integers(0, 3))
                if w == 0:
                    cols[name] = rng.uniform(lo, hi, n)
                elif w == 1 or name == "sky":
                    settings[name] = kw[name] = float(rng.uniform(lo + 1, hi))
                    if rng.uniform() < 0.4:
                        settings[name] = kw[name] = {f: float(rng.uniform(lo + 1, hi)) for f in filters}
            if rng.uniform() < 0.5:
                settings["nexposure"] = kw["nexposure"] = int(rng.integers(1, 6))
            w = int(rng.integers(0, 4))
            if w == 0:
                cols["psf_footprint"] = rng.uniform(1, 50, n)
            elif w == 1:
                settings["psf_footprint"] = kw["psf_footprint"] = float(rng.uniform(1, 50))
            elif w == 2:
                settings["fwhm_px"] = kw["fwhm_px"] = {f: float(rng.uniform(1, 5)) for f in filters}
            else:
                cols["fwhm_px"] = rng.uniform(1, 5, n)
        if with_zp:
            cols["zp"] = rng.uniform(0.1, 30.0, n)
        else:
            settings["zp_per_band"] = kw["zp_per_band"] = {f: float(rng.uniform(0.1, 30)) for f in filters}
        noise = ref.fake_noise
        cls = FakeObsTable
    else:
        cls = ObsTable
    if extra:
        cols["tag"] = rng.integers(0, 10**6, n)
        cols["note"] = rng.choice(["a", "b", "cc"], n)
    # native column names
    native = dict(STD2NATIVE[kind])
    if colmap_custom:
        native = {k: f"my_{k}" for k in cols if rng.uniform() < 0.5 or k in ("time", "ra")}
        kw["colmap"] = dict(native)
        for k in native:
            native[k] = f"my_{k}"
    named = {native.get(k, k): np.array(v) for k, v in cols.items()}
    if as_dict is None:
        as_dict = rng.uniform() < 0.3
    if as_dict:
        source = named
        source_copy = {k: v.copy() for k, v in named.items()}
    else:
        source = pd.DataFrame(named, index=gen.weird_index(rng, n) if indexed else None)
        source_copy = source.copy(deep=True)
    table = cls(source, **kw)
    native = {k: v for k, v in native.items() if k in cols}
    return Survey(kind, table, cols, settings, noise, native, source, source_copy, kw)
