"""Stand-in for the Roman characterisation files, served where the reader would fetch them from the network."""

from unittest import mock

import numpy as np
import pandas as pd
from astropy.table import Table

BANDS = ["F062", "F087", "F106", "F129", "F158", "F184"]


def char_tables(rng):
    n = len(BANDS)
    order = rng.permutation(n)
    b = np.array(BANDS)
    return {
        "psf": pd.DataFrame({"Filter": b[order], "N_Eff_Pix": rng.uniform(5, 30, n)}),
        "zp": pd.DataFrame({"element": b, "ABMag": rng.uniform(24, 28, n)}),
        "thermal": pd.DataFrame({"filter": b[order[::-1]], "rate": rng.uniform(0.0, 0.3, n)}),
        "zodi": pd.DataFrame({"filter": b, "rate": rng.uniform(0.1, 0.6, n)}),
    }


def serve(tables):
    def fake_read(url, *args, **kwargs):
        u = str(url).lower()
        key = "psf" if "psf" in u else "zp" if "zeropoint" in u else "thermal" if "thermal" in u else "zodi"
        return Table.from_pandas(tables[key])

    return mock.patch.object(Table, "read", fake_read)


def apt(rng, n):
    return pd.DataFrame(
        {
            "RA": rng.uniform(0, 360, n),
            "DEC": rng.uniform(-80, 80, n),
            "PA": rng.uniform(0, 360, n),
            "BANDPASS": rng.choice(BANDS[: int(rng.integers(1, 7))], n),
            "MA_TABLE_NUMBER": rng.choice([1001, 1002, 1007, 1010], n),
            "DURATION": 100,
            "PLAN": 1,
            "PASS": np.sort(rng.choice([1, 2, 3, 5, 9], n)),
            "SEGMENT": 1,
            "OBSERVATION": 1,
            "VISIT": 1,
            "EXPOSURE": np.arange(n),
        }
    )


def ma_table(rng):
    return pd.DataFrame(
        {"MATableNumber": [1010, 1001, 1007, 1002, 1003], "Exptime": np.round(rng.uniform(20, 500, 5), 3), "x": 1}
    )
