"""P12 - saving and loading observation tables: column-exact comparison, searches, noise and overwrite rules."""

import sqlite3
from types import SimpleNamespace

import numpy as np
import pandas as pd
from astropy.time import Time

from lclmon import gen, roman, surveys
from lclmon.core import Scenario
from lightcurvelynx.obstable.opsim import OpSim
from lightcurvelynx.obstable.roman_obstable import RomanObsTable
from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable, create_random_ztf_obs_data

RULE = (
    "Random tables of each class (optionally filtered, with extra float/int/string/NaN columns, custom column names "
    "and overridden settings) written to a database and a parquet file, with refused and accepted overwrites by a "
    "different table, then read back and compared column by column (exact), by searches, by noise and by settings. "
    "Every case is non-trivial; distinct by class, size, filtering and first position."
)
REQUIRED = [
    "fmt:db", "fmt:parquet", "refused:db", "refused:parquet", "overwritten:db", "overwritten:parquet", "filtered",
    "class:ObsTable", "class:OpSim", "class:FakeObsTable", "class:ZTFObsTable", "settings", "noise", "search_hit",
    "missing_file", "colmap:custom", "settings:zero", "settings:numpy", "colmap:database", "other_table", "second_generation", "second_generation:db", "file_name:odd",
    "ztf:dates", "class:RomanObsTable",
]
ASSUMPTIONS = ["The database reader may report additional columns (the stored row labels) besides the written ones."]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" or b.dtype.kind == "f":
        return bool(np.array_equal(a.astype(float), b.astype(float), equal_nan=True))
    return bool(np.all(a == b))


def norm(v):
    return {k: norm(x) for k, x in v.items()} if isinstance(v, dict) else v


def compare(c, fmt, old, new, s, queries, *, check_settings):
    c.equal(len(new), len(old), fmt + "_len")
    for col in old.columns:
        c.ok(col in new and same(new[col], old[col]), fmt + "_column", f"column {col} changed", old=np.asarray(old[col])[:5])
        if col in new:
            kinds = (np.asarray(old[col]).dtype.kind, np.asarray(new[col]).dtype.kind)
            c.ok(kinds[0] == kinds[1] or {*kinds} <= set("OUT"), fmt + "_dtype", f"{col}: {kinds}")
    c.equal(sorted(map(str, new.filters)), sorted(map(str, old.filters)), fmt + "_filters")
    c.equal(tuple(new.time_bounds()), tuple(old.time_bounds()), fmt + "_bounds")
    if check_settings:
        for k, v in old.survey_values.items():
            c.ok(norm(new.survey_values.get(k)) == norm(v), fmt + "_setting", f"{k}: {new.survey_values.get(k)} != {v}")
        c.equal(set(new.survey_values), set(old.survey_values), fmt + "_setting_names")
        c.seen("settings", n=len(old.survey_values))
    for a, b in queries:
        x = sorted(int(v) for v in old.range_search(a, b))
        y = sorted(int(v) for v in new.range_search(a, b))
        c.equal(y, x, fmt + "_search")
        if x:
            c.seen("search_hit")
    if s.kind != "ObsTable":
        n = len(old)
        idx = np.arange(n)
        flux = np.abs(np.sin(idx + 1.0)) * 1e4
        c.close(
            np.asarray(new.bandflux_error_point_source(flux, idx), float),
            np.asarray(old.bandflux_error_point_source(flux, idx), float),
            fmt + "_noise",
            rtol=1e-12,
        )
        c.seen("noise", n=n)


def build(c, custom):
    rng = c.rng
    kind = ["ObsTable", "OpSim", "FakeObsTable", "ZTFObsTable"][int(rng.integers(0, 4))]
    n = int(rng.choice([1, 2, 7, 40, 150]))
    s = surveys.make(rng, kind, n, colmap_custom=custom)
    t = s.table
    m = n
    if rng.uniform() < 0.5 and n > 1:
        keep = rng.uniform(size=n) < 0.6
        keep[int(rng.integers(0, n))] = True
        t.filter_rows(keep)
        m = int(keep.sum())
        c.seen("filtered")
    extra = rng.normal(size=m) * 10.0 ** rng.uniform(-300, 300, m)
    extra[rng.uniform(size=m) < 0.2] = np.nan
    extra[0] = 1.0 / 3.0
    t.add_column("huge", extra)
    t.add_column("count", rng.integers(-(2**53), 2**53, m))
    t.add_column("label", [f"it's \"{i}\", é" for i in range(m)])
    if rng.uniform() < 0.4:
        # Settings that are zero, false or empty are settings too.
        zero = {"tries": 0, "flagged": False, "remark": "", "offset": 0.0, "nothing": None}
        if kind != "ObsTable":
            zero |= {"read_noise": 0.0, "dark_current": 0.0}
        for k in rng.permutation(sorted(zero))[: int(rng.integers(1, len(zero) + 1))]:
            t.survey_values[str(k)] = s.ctor[str(k)] = zero[str(k)]
        c.seen("settings", "zero")
    if rng.uniform() < 0.3:
        # Settings are often numpy numbers.
        wrap = lambda v: np.int64(v) if isinstance(v, int) else np.float64(v)
        for k, v in list(t.survey_values.items()):
            if isinstance(v, int | float) and not isinstance(v, bool):
                t.survey_values[k] = s.ctor[k] = wrap(v)
            elif isinstance(v, dict):
                t.survey_values[k] = s.ctor[k] = {np.str_(f): wrap(x) for f, x in v.items()}
        for k, v in {"weight": np.float32(rng.uniform()), "visits": np.int32(7), "depths": {"g": np.float32(1.5), "r": {"deep": np.int64(2)}}, "on": np.bool_(True)}.items():
            t.survey_values[k] = s.ctor[k] = v
        c.seen("settings", "numpy")
    c.seen("class", kind)
    c.fact(kind=kind, n=n, m=m, custom=custom)
    c.nontrivial(kind, n, m, float(t["ra"].iloc[0]))
    return s, t, m


def read_db(s, path, tablename="observations"):
    sql = f"SELECT * FROM {tablename}"
    kw = {k: v for k, v in s.ctor.items() if k != "colmap"}
    if isinstance(s.table, ZTFObsTable):
        t = ZTFObsTable.from_db(path, sql_query=sql)
        t.survey_values.update(kw)
        return t
    if tablename == "observations":
        return type(s.table).from_db(path, **kw)
    return type(s.table).from_db(path, sql_query=sql, **kw)


def roundtrip(c):
    rng = c.rng
    custom = bool(rng.uniform() < 0.25)
    if custom:
        c.seen("colmap", "custom")
    s, t, m = build(c, custom)
    s2, t2, m2 = build(c, False)
    queries = [(float(t["ra"].iloc[i]), float(t["dec"].iloc[i])) for i in rng.integers(0, m, 3)]
    queries += [(float(a), float(b)) for a, b in zip(*gen.sky_points(rng, 2))]

    # -- parquet
    name = str(rng.choice(["t", "survey v1.2", "run#3", "why?", "50%41", "a&b=c", "ünï", "it's"], p=[0.3] + [0.1] * 7))
    folder = c.tmp if rng.uniform() < 0.7 else c.tmp / "part#1 of 2?"
    folder.mkdir(exist_ok=True)
    if name != "t" or folder != c.tmp:
        c.seen("file_name", "odd")
    p = folder / f"{name}.parquet"
    c.raises(FileNotFoundError, lambda: type(t).from_parquet(p), "parquet_missing")
    t.write_parquet(p)
    new = type(t).from_parquet(p)
    compare(c, "parquet", t, new, s, queries, check_settings=True)
    c.seen("fmt", "parquet")
    c.raises(FileExistsError, lambda: t2.write_parquet(p), "parquet_refused")
    compare(c, "parquet_kept", t, type(t).from_parquet(p), s, queries[:1], check_settings=True)
    c.seen("refused", "parquet")
    # a second generation is as good as the first
    p2 = folder / f"{name}2.parquet"
    new.write_parquet(p2)
    compare(c, "parquet_again", t, type(t).from_parquet(p2), s, queries[:1], check_settings=True)
    c.seen("second_generation")
    t2.write_parquet(p, overwrite=True)
    compare(c, "parquet_over", t2, type(t2).from_parquet(p), s2, queries[:1], check_settings=True)
    c.seen("overwritten", "parquet")

    # -- database
    d = folder / f"{name}.db"
    if rng.uniform() < 0.3:
        d = str(d)
    c.raises(FileNotFoundError, lambda: type(t).from_db(d), "db_missing")
    c.seen("missing_file")
    t.write_db(d)
    compare(c, "db", t, read_db(s, d), s, queries, check_settings=False)
    c.seen("fmt", "db")
    c.raises((ValueError, FileExistsError), lambda: t2.write_db(d), "db_refused")
    compare(c, "db_kept", t, read_db(s, d), s, queries[:1], check_settings=False)
    c.seen("refused", "db")
    t2.write_db(d, tablename="other")
    compare(c, "db_other", t2, read_db(s2, d, "other"), s2, queries[:1], check_settings=False)
    compare(c, "db_first", t, read_db(s, d), s, queries[:1], check_settings=False)
    c.seen("other_table")
    # any number of generations
    last = t
    for i in range(3):
        g = folder / f"{name}-{i}.db"
        last.write_db(g)
        last = read_db(s, g)
    compare(c, "db_again", t, last, s, queries[:1], check_settings=False)
    c.seen("second_generation", "db")
    t2.write_db(d, overwrite=True)
    compare(c, "db_over", t2, read_db(s2, d), s2, queries[:1], check_settings=False)
    c.seen("overwritten", "db")
    c.raises(ValueError, lambda: type(t).from_db(d, sql_query="SELECT * FROM nothing_here"), "db_bad_query")
    foreign_names(c, folder)


def foreign_names(c, folder):
    """A database with column names of its own is read through the given column map."""
    rng = c.rng
    n = int(rng.choice([1, 4, 20]))
    cls = [OpSim, ZTFObsTable][int(rng.integers(2))]
    df = pd.DataFrame({"RAJ": rng.uniform(0, 360, n), "DEJ": rng.uniform(-90, 90, n), "epoch": 60000 + rng.uniform(0, 50, n), "band": rng.choice(["g", "r"], n), "mine": rng.uniform(1, 5, n)})
    colmap = {"ra": "RAJ", "dec": "DEJ", "time": "epoch", "filter": "band", "zp": "mine"}
    path = folder / "foreign.db"
    if path.exists():
        path.unlink()
    con = sqlite3.connect(path)
    df.to_sql("visits", con, index=False)
    con.close()
    t = cls.from_db(path, sql_query="SELECT * FROM visits", colmap=colmap)
    for k, v in colmap.items():
        c.ok(k in t and same(t[k], df[v]), "foreign", f"{cls.__name__}: column {v} is not available as {k}")
    r = float(t.survey_values["radius"])
    i = int(rng.integers(n))
    c.ok(i in set(int(x) for x in t.range_search(float(df["RAJ"][i]), float(df["DEJ"][i]))), "foreign", f"{cls.__name__}: a visit is not found at its own position (radius {r})")
    c.seen("colmap", "database")


def both_ways(c, t, read):
    """Write a table to both formats, read each back and compare."""
    s = SimpleNamespace(kind=type(t).__name__)
    queries = [(float(t["ra"].iloc[i]), float(t["dec"].iloc[i])) for i in c.rng.integers(0, len(t), 3)]
    p, d = c.tmp / "t.parquet", c.tmp / "t.db"
    t.write_parquet(p)
    t.write_db(d)
    compare(c, "parquet", t, read(lambda: type(t).from_parquet(p)), s, queries, check_settings=True)
    new = read(lambda: type(t).from_db(d, sql_query="SELECT * FROM observations"))
    new.survey_values.update(t.survey_values)
    compare(c, "db", t, new, s, queries, check_settings=False)


def some_rows(c, t):
    """Perhaps drop some of the rows before the table is written."""
    n = len(t)
    if n > 1 and c.rng.uniform() < 0.5:
        keep = c.rng.uniform(size=n) < 0.6
        keep[int(c.rng.integers(0, n))] = True
        t.filter_rows(keep)
        c.seen("filtered")


def dated(c):
    """ZTF visits given by calendar dates keep their times."""
    rng = c.rng
    n = int(rng.choice([1, 3, 20, 60]))
    df = create_random_ztf_obs_data(n, seed=int(rng.integers(1, 10**6)))
    mjd = 58000.0 + np.round(rng.uniform(0, 2000, n), 6)
    df["obsdate"] = [v[:23] for v in Time(mjd, format="mjd", scale="utc").iso]
    t = ZTFObsTable(df, **({"gain": float(rng.uniform(1, 10))} if rng.uniform() < 0.5 else {}))
    some_rows(c, t)
    both_ways(c, t, lambda f: f())
    c.seen("ztf", "dates")
    c.fact(n=n, m=len(t))
    c.nontrivial("ztf dates", n, len(t), float(t["ra"].iloc[0]))


def roman_table(c):
    """Roman visits keep the times, zero points and backgrounds derived for them, also when only some of them were kept."""
    rng = c.rng
    n = int(rng.choice([1, 3, 20, 60]))
    ma = roman.ma_table(rng)
    path = c.tmp / "ma.csv"
    ma.to_csv(path, index=False)
    kw = {"zodi_level": float(rng.uniform(1, 6))} if rng.uniform() < 0.5 else {}
    with roman.serve(roman.char_tables(rng)):
        t = RomanObsTable(roman.apt(rng, n), ma_table_path=path, **kw)
    some_rows(c, t)

    def read(f):
        # The characterisation files of the day may differ from those the table was made with.
        with roman.serve(roman.char_tables(rng)):
            return f()

    both_ways(c, t, read)
    c.seen("class", "RomanObsTable")
    c.fact(n=n, m=len(t), kw=kw)
    c.nontrivial("roman", n, len(t), float(t["ra"].iloc[0]))


QUICK_SCALE = 8
SCENARIOS = [
    Scenario(roundtrip, quick=80, thorough=1200),
    Scenario(dated, quick=6, thorough=150),
    Scenario(roman_table, quick=6, thorough=150),
]
