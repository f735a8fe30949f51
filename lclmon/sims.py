"""Random simulation set-ups: surveys, filter groups, object positions, and result tables as plain lists."""

import numpy as np
import pandas as pd

from lclmon import gen, sources, surveys
from lightcurvelynx.simulate import simulate_lightcurves

NOISY = ["OpSim", "FakeObsTable", "ZTFObsTable"]
BORDER = 1e-7  # degrees


class Setup:
    """Surveys with their filter groups and S object positions near their pointings."""

    def __init__(self, rng, S, *, n_surveys=None, rows=None, kinds=NOISY, filtered=True, **survey_kw):
        self.rng, self.S = rng, S
        k = n_surveys or int(rng.choice([1, 1, 2, 3]))
        rmax = rows or int(rng.choice([3, 30, 120]))
        self.surveys, self.groups, self.filters = [], [], []
        centre = gen.sky_points(rng, int(rng.integers(1, 4)))
        long_names = self.long_names = bool(rng.uniform() < 0.3)
        for s in range(k):
            n = int(rng.integers(1, rmax + 1)) if rows is None else rows
            pool = gen.LONG_FILTERS if long_names else gen.FILTERS
            fl = [str(f) for f in rng.permutation(pool)[: int(rng.integers(1, 5))]]
            radius = float(rng.uniform(0.05, 4))
            j = rng.integers(0, len(centre[0]), n)
            ra, dec = gen.destination(centre[0][j], centre[1][j], rng.uniform(0, 360, n), radius * rng.uniform(0, 2, n))
            far = rng.uniform(size=n) < 0.1
            fr = gen.sky_points(rng, n)
            ra, dec = np.where(far, fr[0], ra), np.where(far, fr[1], dec)
            kw = dict(survey_kw)
            if rng.uniform() < 0.3:
                kw["time"] = 60000.0 + rng.integers(0, 40, n)  # ties
            sv = surveys.make(rng, str(rng.choice(kinds)), n, positions=(ra, dec), filters=fl, radius=radius, **kw)
            sv.cols["tag"] = np.asarray(sv.cols["tag"])
            sv.radius = radius
            if filtered and rng.uniform() < 0.3 and n > 1:
                keep = rng.uniform(size=n) < 0.7
                keep[int(rng.integers(n))] = True
                sv.table.filter_rows(keep if rng.uniform() < 0.5 else np.flatnonzero(keep))
                sv.cols = {c: np.asarray(v)[keep] for c, v in sv.cols.items()}
            self.surveys.append(sv)
            self.filters.append(fl)
            self.groups.append(sources.group(rng, fl, survey=f"S{s}"))
        ra, dec = [], []
        for _ in range(S):
            sv = self.surveys[int(rng.integers(k))]
            i = int(rng.integers(len(sv)))
            if rng.uniform() < 0.15:
                p = [float(x[0]) for x in gen.sky_points(rng, 1)]
            else:
                p = [float(x) for x in gen.destination(sv.cols["ra"][i], sv.cols["dec"][i], rng.uniform(0, 360), sv.radius * rng.uniform(0, 1.4))]
            ra.append(p[0])
            dec.append(p[1])
        self.ra, self.dec = np.array(ra), np.array(dec)

    @property
    def all_filters(self):
        return sorted({f for fl in self.filters for f in fl})

    def position(self):
        """Explicit lists (one position per sample), or one shared position."""
        if self.S == 1 or self.rng.uniform() < 0.15:
            self.ra[:], self.dec[:] = self.ra[0], self.dec[0]
            return float(self.ra[0]), float(self.dec[0])
        return self.ra, self.dec

    def run(self, model, **kw):
        tables = [s.table for s in self.surveys]
        one = len(tables) == 1 and self.rng.uniform() < 0.5
        return simulate_lightcurves(model, self.S, tables[0] if one else tables, self.groups[0] if one else self.groups, **kw)

    def covering(self, survey, obj, lo=None, hi=None):
        """(rows surely seen, rows on the border) for one object."""
        c = survey.cols
        d = gen.separation(c["ra"], c["dec"], self.ra[obj], self.dec[obj]) - survey.radius
        ok = np.ones(len(d), bool)
        t = np.asarray(c["time"], float)
        if lo is not None:
            ok &= t >= lo
        if hi is not None:
            ok &= t <= hi
        return (d < -BORDER) & ok, (np.abs(d) <= BORDER) & ok


def light_curve(res, i):
    """The observations of one result row as a dictionary of lists (empty for unobserved objects)."""
    lc = res["lightcurve"].iloc[i]
    cols = list(res["lightcurve"].nest.columns) if hasattr(res["lightcurve"].nest, "columns") else list(res["lightcurve"].nest.fields)
    if lc is None or (not hasattr(lc, "columns") and pd.isna(lc)):
        return {c: [] for c in cols}
    return {c: lc[c].tolist() for c in cols}


def null(x):
    return x is None or (np.isscalar(x) and pd.isna(x))


def restrict(c, model):
    """Options that leave out some of the rows: a mask of the model's own and a time window (in a third of the cases each)."""
    rng, kw = c.rng, {}
    if rng.uniform() < 0.35:
        a, b = float(rng.uniform(0.3, 3.0)), float(rng.uniform(0, 6))
        model.mask_by_time = lambda times, graph_state=None: np.sin(a * np.asarray(times, float) + b) > 0.2
        kw["apply_obs_mask"] = True
        c.seen("restricted", "mask")
    if rng.uniform() < 0.25:
        kw["time_window_offset"] = tuple(None if rng.uniform() < 0.3 else float(rng.uniform(5, 300)) for _ in range(2))
        c.seen("restricted", "window")
    return kw
