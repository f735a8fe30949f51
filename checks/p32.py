"""P32 - data files."""

import gzip
import http.server
import io
import logging
import os
import sqlite3
import threading

import numpy as np
from astropy.table import Table

from lclmon import away, sources
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.models.lightcurve_template_model import MultiLightcurveTemplateModel
from lightcurvelynx.models.static_sed_model import StaticSEDModel
from lightcurvelynx.utils.bicubic_interp import BicubicInterpolator
from lightcurvelynx.utils.io_utils import read_grid_data, read_lclib_data, read_numpy_data, write_numpy_data

RULE = (
    "Random arrays, grids, light-curve libraries and filter tables are written by the oracle in every supported format (plain and compressed; rows sorted or shuffled; comments, blank lines, documentation blocks; header and per-event keys), read back and "
    "compared entry by entry with what was written. Then one corruption at a time (row dropped, repeated, swapped or cut short, field missing or not a number, event cut off, mismatched identifier, unknown suffix, missing file, damaged "
    "compression) must be refused. Non-trivial: more than one row. Distinct by content."
)
REQUIRED = [
    "array:.npy", "array:.npz", "array:.csv", "array:.ecsv", "array:.txt", "array:extreme", "array:integer", "array:1d", "array:3d", "array:refused_suffix", "array:refused_missing", "array:refused_ragged", "array:refused_text", "array:refused_cut",
    "grid:ascii", "grid:ascii.csv", "grid:ascii.ecsv", "grid:fits", "grid:shuffled", "grid:validated", "grid:comments", "grid:refused_dropped", "grid:refused_order", "grid:refused_repeated", "grid:refused_columns", "grid:refused_text", "grid:refused_blank", "grid:refused_missing", "grid:interpolator",
    "lclib:plain", "lclib:gzip", "lclib:types", "lclib:params", "lclib:params_blank", "lclib:params_missing", "lclib:own_keys", "lclib:late_keys", "grid:long", "lclib:documentation", "lclib:comments", "lclib:empty_event", "lclib:refused_id", "lclib:refused_cut", "lclib:refused_fields", "lclib:refused_number", "lclib:refused_filters", "lclib:refused_params", "lclib:refused_suffix",
    "lclib:refused_missing", "lclib:refused_no_start", "lclib:refused_no_end", "lclib:refused_gzip", "filter:.csv", "filter:.txt", "filter:.dat", "filter:.ecsv", "filter:.xml", "filter:nm", "filter:A", "filter:duplicates", "filter:directory", "filter:refused_order", "filter:refused_columns", "filter:refused_suffix", "filter:refused_units",
    "spectrum:refused", "preset:lsst", "preset:roman", "preset:svo", "preset:subset", "preset:refused_units", "preset:stated_units",
    "download:fetched", "download:forced", "download:held", "download:held_old", "download:no_url", "download:error_kept", "download:error_empty", "download:cut_kept", "download:cut_empty",
    "survey:fetched", "survey:forced", "survey:held", "survey:held_old", "survey:failed", "survey:other", "default:preset", "default:file", "default:svo", "default:url",
    "library:none", "library:scalar", "library:array", "library:subset", "library:weights", "library:template", "library:refused_epochs",
]
ASSUMPTIONS = ["Text arrays are one-dimensional (two or more entries) or have at least two rows and two columns: text cannot tell a row from a column."]


def numbers(rng, shape, extreme):
    x = rng.normal(0, 100, shape)
    if extreme:
        flat = x.reshape(-1)
        pool = [1e300, -1e-300, 0.0, -0.0, np.nan, np.inf, -np.inf, 5e-324, 0.1 + 0.2, np.pi]
        for i in range(min(len(flat), 6)):
            flat[int(rng.integers(len(flat)))] = pool[int(rng.integers(len(pool)))]
    return x


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a.astype(float)) & np.isnan(b.astype(float)))))


def arrays(c):
    """Numeric arrays."""
    rng = c.rng
    suffix = str(rng.choice([".npy", ".npz", ".csv", ".ecsv", ".txt"]))
    binary = suffix in (".npy", ".npz")
    style = str(rng.choice(["2d", "2d", "1d"] + (["3d"] if binary else [])))
    shape = {"2d": (int(rng.integers(2, 30)), int(rng.integers(2, 8))), "1d": (int(rng.integers(2, 40)),), "3d": (2, 3, int(rng.integers(1, 5)))}[style]
    extreme = rng.uniform() < 0.3
    x = numbers(rng, shape, extreme)
    if rng.uniform() < 0.2:
        x = rng.integers(-(2**53), 2**53, shape)
        c.seen("array", "integer")
    elif extreme:
        c.seen("array", "extreme")
    if style != "2d":
        c.seen("array", style)
    c.seen("array", suffix)
    path = c.tmp / f"data{suffix}"
    keep = x.copy()
    write_numpy_data(path if rng.uniform() < 0.5 else str(path), x)
    got = read_numpy_data(path if rng.uniform() < 0.5 else str(path))
    c.nontrivial(suffix, str(x.ravel()[:5]))
    c.ok(same(got, keep), "array", f"{suffix} array of shape {shape} reads back as written", got=str(got)[:200], want=str(keep)[:200])
    c.ok(same(x, keep), "input", "writing does not change the array")
    y = numbers(rng, shape, False)
    write_numpy_data(path, y)
    c.ok(same(read_numpy_data(path), y), "overwrite", "a second write replaces the first")
    # Corruptions.
    bad = str(rng.choice(["suffix", "missing", "ragged", "text", "cut"]))
    if bad == "suffix":
        c.raises(ValueError, lambda: write_numpy_data(c.tmp / "x.foo", x), "refused", "unknown suffix to write")
        (c.tmp / "x.foo").write_text("1 2\n")
        c.raises(ValueError, lambda: read_numpy_data(c.tmp / "x.foo"), "refused", "unknown suffix to read")
        c.seen("array", "refused_suffix")
    elif bad == "missing":
        c.raises(FileNotFoundError, lambda: read_numpy_data(c.tmp / "gone.npy"), "refused", "missing file")
        c.raises(FileNotFoundError, lambda: read_numpy_data(c.tmp), "refused", "a directory")
        c.seen("array", "refused_missing")
    elif binary and bad == "cut":
        raw = path.read_bytes()
        path.write_bytes(raw[: len(raw) - int(rng.integers(1, 9))] if suffix == ".npy" else raw[: len(raw) // 2])
        c.raises(Exception, lambda: read_numpy_data(path), "refused", "cut short")
        c.seen("array", "refused_cut")
    elif not binary and style == "2d" and bad in ("ragged", "text"):
        lines = path.read_text().splitlines()
        k = int(rng.integers(len(lines)))
        sep = "," if suffix != ".txt" else " "
        parts = lines[k].split(sep)
        if bad == "ragged":
            parts = parts[:-1]
        else:
            parts[int(rng.integers(len(parts)))] = "abc"
        lines[k] = sep.join(parts)
        path.write_text("\n".join(lines) + "\n")
        c.raises(ValueError, lambda: read_numpy_data(path), "refused", f"{bad} row")
        c.seen("array", f"refused_{bad}")


def write_grid(rng, path, fmt, rows, names=("x", "y", "v"), comments=False):
    T = Table(np.array(rows, float).reshape(-1, len(names)), names=names)
    if fmt == "ascii":
        lines = [" ".join(repr(float(v)) for v in r) for r in rows]
        if comments:
            lines.insert(0, "# a comment, with: punctuation")
            lines.insert(int(rng.integers(1, len(lines))), "   # another one")
        path.write_text("\n".join(lines) + "\n")
    else:
        T.write(path, format=fmt, overwrite=True)
        if comments and fmt == "ascii.csv":
            path.write_text("# first line\n" + path.read_text())


def grids(c):
    """Gridded data."""
    rng = c.rng
    fmt = str(rng.choice(["ascii", "ascii.csv", "ascii.ecsv", "fits"]))
    nx, ny = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    if rng.uniform() < 0.05:
        nx, ny = int(rng.integers(30, 90)), int(rng.integers(2, 12))
        c.seen("grid", "long")
    xs, ys = np.unique(np.round(rng.uniform(-100, 100, nx), 6)), np.unique(rng.normal(0, 1e4, ny))
    nx, ny = len(xs), len(ys)
    V = numbers(rng, (nx, ny), False)
    rows = [[xs[i], ys[j], V[i, j]] for i in range(nx) for j in range(ny)]
    shuffled = rng.uniform() < 0.4
    order = rng.permutation(len(rows)) if shuffled else np.arange(len(rows))
    comments = rng.uniform() < 0.4 and fmt in ("ascii", "ascii.csv")
    path = c.tmp / "grid.dat"
    write_grid(rng, path, fmt, [rows[k] for k in order], comments=comments)
    c.nontrivial(fmt, str(xs), str(ys[:3]))
    c.seen("grid", fmt)
    if comments:
        c.seen("grid", "comments")
    validate = not shuffled and rng.uniform() < 0.6
    a, b, v = read_grid_data(path if rng.uniform() < 0.5 else str(path), format=fmt, validate=validate)
    if shuffled:
        c.seen("grid", "shuffled")
    if validate:
        c.seen("grid", "validated")
    c.ok(same(a, xs) and same(b, ys), "axes", "sorted axes", a=str(a), b=str(b))
    c.ok(same(v, V), "values", f"the value of every grid point ({'shuffled' if shuffled else 'ordered'} rows)", got=str(v)[:200], want=str(V)[:200])
    if fmt == "ascii" and min(nx, ny) >= 3 and rng.uniform() < 0.5:
        nodes = BicubicInterpolator.from_grid_file(path)
        g = np.asarray(nodes(xs, ys))
        c.close(g, V.astype(np.float32), "interpolator", 1e-4, 1e-2, "interpolator built from the file gives the grid values")
        c.seen("grid", "interpolator")
    # One corruption.
    bad = str(rng.choice(["dropped", "order", "repeated", "columns", "text", "blank", "missing"]))
    R = [list(r) for r in rows]
    kw = dict(format=fmt, validate=bool(rng.uniform() < 0.5))
    if bad == "dropped":
        R.pop(int(rng.integers(len(R))))
        if len({r[0] for r in R}) < nx or len({r[1] for r in R}) < ny:
            return
    elif bad == "order":
        i, j = rng.choice(len(R), 2, replace=False)
        R[i], R[j] = R[j], R[i]
        kw["validate"] = True
    elif bad == "repeated":
        i, j = rng.choice(len(R), 2, replace=False)
        R[i][:2] = R[j][:2]
        if len({r[0] for r in R}) < nx or len({r[1] for r in R}) < ny:
            return
    elif bad == "columns":
        extra = bool(rng.uniform() < 0.5)
        R = [r + [0.0] if extra else r[:2] for r in R]
        write_grid(rng, path, fmt, R, names=("x", "y", "v", "w")[: len(R[0])])
        c.raises(ValueError, lambda: read_grid_data(path, **kw), "refused", f"{len(R[0])} columns")
        c.seen("grid", "refused_columns")
        return
    elif bad in ("text", "blank"):
        if fmt != "ascii.csv":
            return
        write_grid(rng, path, fmt, R)
        lines = path.read_text().splitlines()
        k = int(rng.integers(1, len(lines)))
        p = lines[k].split(",")
        p[int(rng.integers(3))] = "oops" if bad == "text" else ""
        lines[k] = ",".join(p)
        path.write_text("\n".join(lines) + "\n")
        c.raises(ValueError, lambda: read_grid_data(path, **kw), "refused", f"{bad} entry")
        c.seen("grid", f"refused_{bad}")
        return
    else:
        c.raises(FileNotFoundError, lambda: read_grid_data(c.tmp / "gone.dat", **kw), "refused", "missing file")
        c.seen("grid", "refused_missing")
        return
    write_grid(rng, path, fmt, R)
    c.raises(ValueError, lambda: read_grid_data(path, **kw), "refused", f"{bad} row")
    c.seen("grid", f"refused_{bad}")


def library(rng):
    """(lines, events): a random light-curve library."""
    filters = "".join(str(x) for x in rng.permutation(list("ugrizY"))[: int(rng.integers(1, 6))])
    pars = [str(x) for x in rng.permutation(["TYPE", "AMP", "dm15", "X_1"])[: int(rng.integers(1, 4))]]
    header, lines = {}, []
    seen = set()
    if rng.uniform() < 0.6:
        lines += ["DOCUMENTATION:", "  PURPOSE: not data", "  S: 1 2 3", "  START_EVENT: 9", "- FILTERS: zz", "DOCUMENTATION_END:", ""]
        seen.add("documentation")
    if rng.uniform() < 0.6:
        lines += ["# header comment: with colon", "COMMENT: free text START_EVENT: 3"]
        seen.add("comments")
    for k in ("SURVEY", "MODEL", "RECUR_CLASS"):
        if rng.uniform() < 0.7:
            header[k] = {"SURVEY": "TOY", "MODEL": "M:1", "RECUR_CLASS": str(rng.choice(["NON-RECUR", "PERIODIC"]))}[k]
            lines.append(f"{k}:  {header[k]}")
    lines.append(f"FILTERS: {filters}")
    style = str(rng.choice(["comma", "blank_comma"]))
    has_pars = rng.uniform() < 0.8
    if has_pars:
        lines.append(("MODEL_PARNAMES: " if rng.uniform() < 0.5 else "MODEL_PARAMETERS: ") + (", " if style == "blank_comma" else ",").join(pars))
        if style == "blank_comma":
            seen.add("params_blank")
    events, used = [], set()
    late = {}
    for _ in range(int(rng.integers(1, 6))):
        if events and rng.uniform() < 0.2:
            # A key between two events describes the events that follow.
            k = str(rng.choice(["FIELD", "NOTE"]))
            late[k] = f"v{int(rng.integers(99))}"
            lines.append(f"{k}: {late[k]}")
            seen.add("late_keys")
        eid = str(int(rng.integers(10**6)))
        if eid in used:
            continue
        used.add(eid)
        n = int(rng.choice([0, 1, 2, 8, 30], p=[0.05, 0.15, 0.2, 0.3, 0.3]))
        ev = dict(id=eid, meta={}, rows=[], par=None, late=dict(late))
        lines += ["", f"START_EVENT: {eid}", f"NROW: {n}"]
        ev["meta"]["NROW"] = str(n)
        if has_pars and rng.uniform() < 0.8:
            vals = [f"{rng.normal():.5f}" for _ in pars]
            lines.append("PARVAL: " + {0: ",", 1: ", ", 2: "  "}[int(rng.integers(3))].join(vals))
            ev["par"] = dict(zip(pars, vals))
            seen.add("params")
        elif has_pars:
            seen.add("params_missing")
        if rng.uniform() < 0.4:
            ev["meta"]["ANGLEMATCH_b"] = f"{rng.uniform(-90, 90):.3f}"
            lines.append(f"ANGLEMATCH_b: {ev['meta']['ANGLEMATCH_b']}   # trailing: comment")
            seen.add("own_keys")
        t = 59000.0
        for _ in range(n):
            t += float(np.round(rng.uniform(0.01, 3), 4))
            kind = "T" if rng.uniform() < 0.15 else "S"
            if kind == "T":
                seen.add("types")
            row = [float(f"{t:.4f}")] + [float(f"{m:.4f}") for m in rng.uniform(15, 30, len(filters))]
            ev["rows"].append((kind, row))
            lines.append(f"{kind}: " + " ".join(f"{x:.4f}" for x in row) + ("  # note" if rng.uniform() < 0.05 else ""))
            if rng.uniform() < 0.05:
                lines.append(str(rng.choice(["", "# in between", "free text without a key"])))
        if n == 0:
            seen.add("empty_event")
        lines.append(f"END_EVENT: {eid}")
        events.append(ev)
    return lines, filters, header, events, seen


def save(c, lines, packed):
    text = "\n".join(lines) + "\n"
    if packed:
        path = c.tmp / f"lib{c.rng.choice(['.gz', '.TEXT.gz', '.gzip'])}"
        with gzip.open(path, "wt") as f:
            f.write(text)
    else:
        path = c.tmp / f"lib{c.rng.choice(['.dat', '.txt', '.TEXT', '.text'])}"
        path.write_text(text)
    return path


def lclib(c):
    """Light-curve libraries."""
    rng = c.rng
    lines, filters, header, events, seen = library(rng)
    packed = bool(rng.uniform() < 0.4)
    path = save(c, lines, packed)
    c.seen("lclib", "gzip" if packed else "plain")
    for s in seen:
        c.seen("lclib", s)
    got = read_lclib_data(path if rng.uniform() < 0.5 else str(path))
    c.equal(len(got), len(events), "count", "every event once")
    c.nontrivial(filters, str([e["id"] for e in events]))
    for e, t in zip(events, got):
        c.equal(sorted(t.colnames), sorted(["type", "time"] + list(filters)), "columns", "time, type and one column per filter")
        c.equal(t.meta["id"], e["id"], "id", "identifier")
        c.equal([str(x) for x in t["type"]], [k for k, _ in e["rows"]], "types", "row types in order")
        for j, name in enumerate(["time"] + list(filters)):
            c.equal([float(x) for x in t[name]], [r[j] for _, r in e["rows"]], "column", f"column {name} of event {e['id']}")
        if e["par"] is None:
            c.ok("PARVAL" not in t.meta, "params", "no parameters of another event", meta=str(t.meta))
        else:
            c.equal(dict(t.meta["PARVAL"]), e["par"], "params", "the event's own parameters")
        for k, v in header.items():
            c.equal(t.meta.get(k), v, "header", f"header key {k}")
        for k in ("NROW", "ANGLEMATCH_b"):
            c.equal(t.meta.get(k), e["meta"].get(k), "own_keys", f"the event's own {k}")
        for k in ("FIELD", "NOTE"):
            c.equal(t.meta.get(k), e["late"].get(k), "late_keys", f"key {k}, given between events")
        c.ok("PURPOSE" not in t.meta, "documentation", "the documentation block is not data")
    # One corruption.
    bad = str(rng.choice(["id", "cut", "fields", "number", "filters", "params", "suffix", "missing", "no_start", "no_end", "gzip"]))
    L = list(lines)

    def at(prefix):
        in_doc, k = False, []
        for i, x in enumerate(L):
            in_doc = in_doc or x.startswith("DOCUMENTATION:")
            if x.startswith("DOCUMENTATION_END"):
                in_doc = False
            if not in_doc and x.startswith(prefix):
                k.append(i)
        return k

    if bad == "id":
        k = int(rng.choice(at("END_EVENT")))
        own = L[k].split(":", 1)[1].strip()
        L[k] = "END_EVENT: " + str(rng.choice(["123456789", own + "0", "1" + own, own[:-1] + ("7" if own[-1:] != "7" else "8")]))
    elif bad == "cut":
        k = at("END_EVENT")
        L = L[: k[-1]]
    elif bad in ("fields", "number"):
        k = at("S:") + at("T:")
        if not k:
            return
        k = int(rng.choice(k))
        p = L[k].split("#")[0].split()
        if bad == "fields":
            p = p[:-1] if rng.uniform() < 0.5 else p + ["1.0"]
        else:
            p[int(rng.integers(1, len(p)))] = "x1"
        L[k] = " ".join(p)
    elif bad == "filters":
        L = [x for i, x in enumerate(L) if i not in at("FILTERS:")]
    elif bad == "params":
        k = at("PARVAL")
        if not k:
            return
        k = int(rng.choice(k))
        L[k] = L[k] + (",9.0" if "," in L[k] else " 9.0")
        if L[k].count(",") and False:
            return
    elif bad == "suffix":
        p = c.tmp / "lib.fits"
        p.write_text("\n".join(L))
        c.raises(ValueError, lambda: read_lclib_data(p), "refused", "unknown suffix")
        c.seen("lclib", "refused_suffix")
        return
    elif bad == "missing":
        c.raises(FileNotFoundError, lambda: read_lclib_data(c.tmp / "gone.txt"), "refused", "missing file")
        c.seen("lclib", "refused_missing")
        return
    elif bad == "gzip":
        if not packed:
            return
        raw = path.read_bytes()
        path.write_bytes(raw[: len(raw) // 2])
        c.raises(Exception, lambda: read_lclib_data(path), "refused", "damaged compression")
        c.seen("lclib", "refused_gzip")
        return
    elif bad == "no_start":
        L.pop(int(rng.choice(at("START_EVENT"))))
    elif bad == "no_end":
        L.pop(int(rng.choice(at("END_EVENT"))))
    p = save(c, L, bool(rng.uniform() < 0.3))
    c.raises(ValueError, lambda: read_lclib_data(p), "refused", f"corruption: {bad}")
    c.seen("lclib", f"refused_{bad}")


def filters(c):
    """Filter tables."""
    rng = c.rng
    suffix = str(rng.choice([".csv", ".txt", ".dat", ".ecsv", ".xml"]))
    unit = str(rng.choice(["A", "nm"]))
    t = sources.table(rng, lo=float(rng.uniform(3000, 8000)), width=float(rng.uniform(300, 2000)))
    w = t[:, 0] / (10.0 if unit == "nm" else 1.0)
    written = np.column_stack([w, t[:, 1]])
    want = np.column_stack([w * (10.0 if unit == "nm" else 1.0), t[:, 1]])
    dup = rng.uniform() < 0.2
    if dup:
        k = int(rng.integers(len(w)))
        extra = written[k].copy()
        extra[1] += 0.02
        written = np.insert(written, k, extra, axis=0)
        want[k, 1] = (extra[1] + t[k, 1]) / 2
        c.seen("filter", "duplicates")
    path = c.tmp / f"f{suffix}"
    load = {"wave_units": unit}
    if suffix == ".xml":
        Table(written, names=("Wavelength", "Transmission"), units=("nm" if unit == "nm" else "Angstrom", None)).write(path, format="votable", overwrite=True)
        load = {} if rng.uniform() < 0.5 else load
    else:
        np.savetxt(path, written, delimiter="," if suffix in (".csv", ".ecsv") else " ", header="a comment")
    c.seen("filter", suffix)
    c.seen("filter", unit)
    c.nontrivial(suffix, str(w[:3]))
    got = Passband.load_transmission_table(path if rng.uniform() < 0.5 else str(path), **load)
    c.close(got, want, "table", 1e-12, 1e-12, "table in Angstrom as written")
    # The filter made from the file is the filter made from the array.
    kw = dict(delta_wave=5.0, trim_quantile=None)
    a = Passband(got, "S", "f", **kw)
    b = Passband(want, "S", "f", **kw)
    c.close(a.processed_transmission_table, b.processed_transmission_table, "passband", 1e-9, 1e-12, "filter from the file equals the filter from the table")
    if suffix in (".dat",) and not dup:
        names = ["u", "r", "Zed"]
        d = c.tmp / "Q"
        d.mkdir(exist_ok=True)
        tabs = {}
        for n in names:
            x = sources.table(rng, lo=float(rng.uniform(3000, 8000)), width=900.0)
            np.savetxt(d / f"{n}.dat", x)
            tabs[n] = x
        picked = None
        if rng.uniform() < 0.4:
            picked = names = [str(x) for x in rng.permutation(names)[:2]]
        where = d if rng.uniform() < 0.5 else os.path.relpath(d)
        if not isinstance(where, str):
            where = str(where) if rng.uniform() < 0.5 else where
        grp = PassbandGroup.from_dir(where, filters=picked, delta_wave=5.0, trim_quantile=None)
        c.ok(all(grp[n].full_name == f"Q_{n}" for n in names), "directory", "survey named after the directory")
        c.equal(sorted(p for p in grp.filters), sorted(names), "directory", "one filter per file, named after it")
        for n in names:
            ref = Passband(tabs[n], "Q", n, **kw)
            c.close(grp[n].processed_transmission_table, ref.processed_transmission_table, "directory", 1e-9, 1e-12, f"filter {n}")
        c.seen("filter", "directory")
    bad = str(rng.choice(["order", "columns", "suffix", "units"]))
    p = c.tmp / "bad.txt"
    if bad == "order":
        np.savetxt(p, want[::-1])
    elif bad == "columns":
        np.savetxt(p, np.column_stack([want, want[:, 1]]))
    elif bad == "suffix":
        p = c.tmp / "bad.jpg"
        np.savetxt(p, want)
    else:
        np.savetxt(p, want)
    c.raises(ValueError, lambda: Passband.load_transmission_table(p, wave_units="um" if bad == "units" else "A"), "refused", bad)
    c.seen("filter", f"refused_{bad}")
    c.raises(FileNotFoundError, lambda: Passband.load_transmission_table(c.tmp / "gone.dat"), "refused", "missing")
    if rng.uniform() < 0.4:
        q = c.tmp / "spec.csv"
        x = np.column_stack([want, want[:, 1]]) if rng.uniform() < 0.5 else want[::-1]
        write_numpy_data(q, x)
        c.raises(ValueError, lambda: StaticSEDModel.from_file(q), "refused", "malformed spectrum")
        c.seen("spectrum", "refused")


ROMAN = ["F062", "F087", "F106", "F129", "F146", "F158", "F184", "F213"]


def presets(c):
    """Named filter sets and archive filters from local copies of their published files."""
    rng = c.rng
    base = c.tmp / "tables"
    dw = rng.choice([5.0, 20.0, None])
    tq = rng.choice([None, 1e-3])
    kw = dict(delta_wave=None if dw is None else float(dw), trim_quantile=None if tq is None else float(tq))
    which = str(rng.choice(["lsst", "roman", "svo"]))
    where = base if rng.uniform() < 0.5 else str(base)
    ref, survey = {}, {}
    if which == "lsst":
        names = list("ugrizy")
        (base / "LSST").mkdir(parents=True, exist_ok=True)
        for f in names:
            t = sources.table(rng, width=float(rng.uniform(500, 2000)))
            np.savetxt(base / "LSST" / f"{f}.dat", np.column_stack([t[:, 0] / 10, t[:, 1]]), header="nm and throughput")
            ref[f], survey[f] = t, "LSST"
        extra = dict(units="nm") if rng.uniform() < 0.5 else {}
        bad = "A"
    elif which == "roman":
        names = ROMAN
        (base / "Roman").mkdir(parents=True, exist_ok=True)
        w = np.round(np.linspace(0.4, 2.6, int(rng.integers(60, 200))), 5)
        cols = [float(rng.uniform(1, 2)) * np.exp(-(((w - m) / 0.08) ** 4)) for m in np.linspace(0.6, 2.3, 8)]
        order = rng.permutation(8)
        sep = str(rng.choice([",", " "]))
        text = ["# %ECSV 1.0", "# ---", sep.join(["Wave"] + [names[i] for i in order])]
        text += [sep.join([repr(float(w[k]))] + [repr(float(cols[i][k])) for i in order]) for k in range(len(w))]
        (base / "Roman" / "roman_wfi_filters.ecsv").write_text("\n".join(text) + "\n")
        for i, f in enumerate(names):
            ref[f], survey[f] = np.column_stack([w * 1e4, cols[i]]), "Roman"
        extra = dict(units="micron") if rng.uniform() < 0.5 else {}
        bad = str(rng.choice(["nm", "A"]))
    else:
        names = [str(x) for x in rng.permutation(["u", "G_prime", "F606W", "x9"])[: int(rng.integers(1, 4))]]
        for f in names:
            sv = str(rng.choice(["SLOAN/SDSS", "HST/ACS_WFC"]))
            t = sources.table(rng, width=float(rng.uniform(500, 2000)))
            (base / sv).mkdir(parents=True, exist_ok=True)
            Table(t, names=("Wavelength", "Transmission"), units=("Angstrom", None)).write(base / sv / f"{f}.xml", format="votable", overwrite=True)
            ref[f], survey[f] = t, sv
        extra = {}
    if which == "svo":
        full = [f"{survey[f]}.{f}" for f in names]
        grp = PassbandGroup.from_svo(full, table_dir=where, **kw)
        one = Passband.from_svo(full[0], table_dir=where, **kw)
        c.equal(one.full_name, f"{survey[names[0]]}_{names[0]}", "preset", "archive filter named after its survey")
        c.ok(one == grp[names[0]], "preset", "the same filter alone and in a group")
        picked = names
    else:
        picked = names
        sub = {}
        if rng.uniform() < 0.4:
            picked = [str(x) for x in rng.permutation(names)[: int(rng.integers(1, 5))]]
            sub = dict(filters=picked if rng.uniform() < 0.5 else [f"{survey[f]}_{f}" for f in picked])
            c.seen("preset", "subset")
        grp = PassbandGroup.from_preset(str(rng.choice([which, which.upper(), which.capitalize()])), table_dir=where, **kw, **sub, **extra)
        c.raises(ValueError, lambda: PassbandGroup.from_preset(which, table_dir=where, units=bad, **kw), "refused", "units the preset does not use")
        c.seen("preset", "refused_units")
        c.raises(ValueError, lambda: PassbandGroup.from_preset(which + "x", table_dir=where), "refused", "unknown preset")
        if extra:
            c.seen("preset", "stated_units")
    c.equal(sorted(str(x) for x in grp.filters), sorted(picked), "preset", "filters of the set")
    c.equal(len(grp), len(picked), "preset", "one filter each")
    for f in picked:
        want = Passband(ref[f], survey[f], f, **kw)
        c.equal(grp[f].full_name, f"{survey[f]}_{f}", "preset", "name")
        c.close(grp[f].processed_transmission_table, want.processed_transmission_table, "preset", 1e-9, 1e-12, f"{which} filter {f} equals the file's table")
        c.ok(grp[f] == want and not (grp[f] == Passband(ref[f] * [1.0, 1.0] + [7.0, 0.0], survey[f], f, **kw)), "preset", "equality of filters")
    c.seen("preset", which)
    c.nontrivial(which, str(picked), str(ref[names[0]][:2]))


class Server:
    """A local file server whose answers can be changed or cut short."""

    def __init__(self):
        self.files, self.hits, self.mode = {}, [], "ok"
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                outer.hits.append(self.path)
                body = outer.files.get(self.path)
                if outer.mode == "error" or body is None:
                    self.send_error(500 if body is not None else 404)
                    return
                self.send_response(200)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                self.wfile.write(body[: len(body) // 2] if outer.mode == "cut" else body)

            def log_message(self, *a):
                pass

        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.url = f"http://127.0.0.1:{self.srv.server_address[1]}"
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()


def downloads(c):
    """Remote files: fetched when missing or on request, kept otherwise, never left half-written."""
    rng = c.rng
    os.environ["NO_PROXY"] = os.environ["no_proxy"] = "127.0.0.1,localhost"
    logging.getLogger("pooch").setLevel(logging.CRITICAL)
    srv = Server()
    try:
        path = c.tmp / "deep" / "er" / "f.dat"
        url = f"{srv.url}/some/where/total_f.dat"
        held = None  # version now on disk
        ver = 0
        tabs = {}

        def publish():
            nonlocal ver
            ver += 1
            tabs[ver] = sources.table(rng, width=800.0)
            tabs[ver][:, 0] = np.round(tabs[ver][:, 0], 3)
            b = io.BytesIO()
            np.savetxt(b, tabs[ver], fmt="%.12g")
            srv.files["/some/where/total_f.dat"] = b.getvalue()

        publish()
        for _ in range(int(rng.integers(3, 10))):
            op = str(rng.choice(["load", "load", "force", "publish", "error", "cut", "gone", "no_url", "damage"]))
            if op == "publish":
                publish()
                continue
            if op == "gone":
                if path.exists():
                    path.unlink()
                held = None
                continue
            if op == "no_url":
                if held is None:
                    c.raises(ValueError, lambda: Passband.from_file("S", "f", table_path=path), "download", "no copy and no address")
                    c.ok(not path.exists(), "download", "nothing written without an address")
                    c.seen("download", "no_url")
                continue
            srv.mode = op if op in ("error", "cut") else "ok"
            force = op == "force" or (op in ("error", "cut") and rng.uniform() < 0.6)
            n = len(srv.hits)
            fetch = force or held is None
            load = lambda: Passband.from_file("S", "f", table_path=path if rng.uniform() < 0.5 else str(path), table_url=url, force_download=force, delta_wave=None, trim_quantile=None)  # noqa: E731
            if fetch and op in ("error", "cut"):
                c.raises(Exception, load, "download", f"download fails ({op})")
                c.equal(path.exists(), held is not None, "download", f"a failed download ({op}) leaves what was there")
                c.seen("download", f"{op}_{'kept' if held else 'empty'}")
            else:
                pb = load()
                if fetch:
                    c.ok(len(srv.hits) > n, "download", "asks the server" + (" when asked for afresh" if force else ""))
                    c.seen("download", "forced" if force and held is not None else "fetched")
                    held = ver
                else:
                    c.equal(len(srv.hits), n, "download", "does not ask the server for a file it holds")
                    c.seen("download", "held" if held == ver else "held_old")
                want = Passband(tabs[held], "S", "f", delta_wave=None, trim_quantile=None)
                c.close(pb.processed_transmission_table, want.processed_transmission_table, "download", 1e-9, 1e-12, f"version {held} of {ver} (fetched now: {fetch})")
            if held is not None:
                c.close(np.loadtxt(path), tabs[held], "download", 1e-9, 0, "the file held is complete")
            c.ok([q.name for q in path.parent.iterdir()] == (["f.dat"] if held is not None else []) if path.parent.exists() else True, "download", "no partial files left", left=[q.name for q in path.parent.iterdir()] if path.parent.exists() else [])
        c.nontrivial(ver, len(srv.hits), str(tabs[1][:2]))
    finally:
        srv.close()


def archive(rng, path, n):
    """A survey database as published."""
    f = [str(x) for x in rng.choice(list("ugrizy"), n)]
    cols = dict(fieldRA=rng.uniform(0, 360, n), fieldDec=rng.uniform(-90, 90, n), observationStartMJD=np.sort(rng.uniform(60000, 61000, n)), airmass=rng.uniform(1, 2, n), visitExposureTime=rng.choice([15.0, 30.0], n), filter=f, seeingFwhmEff=rng.uniform(0.5, 2, n), skyBrightness=rng.uniform(17, 22, n), numExposures=np.ones(n, int))
    if path.exists():
        path.unlink()
    con = sqlite3.connect(path)
    con.execute("create table observations (observationId integer, " + ", ".join(f"{k} {'text' if k == 'filter' else 'real'}" for k in cols) + ")")
    con.executemany(f"insert into observations values ({','.join('?' * (len(cols) + 1))})", [[i, *[(v[i] if k == "filter" else float(v[i])) for k, v in cols.items()]] for i in range(n)])
    con.commit()
    con.close()
    return cols, path.read_bytes()


def locations(c):
    """Survey archives by address and files in their default places, in a copy of the package with its own data folder."""
    rng = c.rng
    srv = Server()
    w = away.Away(c.tmp / "copy")
    try:
        data = w.data
        names = ["baseline_v3.4_10yrs.db", "other_v2.1-x.db"]
        vers = {q: 0 for q in names}
        held = dict.fromkeys(names)
        pub = {}

        def publish(q):
            vers[q] += 1
            cols, body = archive(rng, c.tmp / "made.db", int(rng.integers(1, 30)))
            pub[q, vers[q]] = cols
            srv.files["/runs/" + q] = body

        for q in names:
            publish(q)
        q = names[0]
        for step in range(14):
            if step > 8 and rng.uniform() < 0.4:
                q = names[1]
            # A fixed opening (fetch, keep, publish, keep the old one, ask afresh), then anything.
            op = ["fail", "load", "load", "publish", "load", "force", "load", "fail"][step] if step < 8 else str(rng.choice(["load", "force", "publish", "fail", "gone"]))
            if op == "publish":
                publish(q)
                continue
            if op == "gone":
                for f in data.rglob(q):
                    f.unlink()
                held[q] = None
                continue
            force = op == "force" or (op == "fail" and (held[q] is None or rng.uniform() < 0.7))
            fetch = force or held[q] is None
            srv.mode = "error" if op == "fail" else "ok"
            hits = len(srv.hits)
            kw = {} if not force and rng.uniform() < 0.5 else {"force_download": bool(force)}
            ans = w.ask(op="opsim", url=f"{srv.url}/runs/{q}", kw=kw)
            if fetch and op == "fail":
                c.ok("error" in ans, "survey", "a survey that cannot be fetched is refused", ans=str(ans)[:200])
                c.seen("survey", "failed")
                continue
            if fetch:
                held[q] = vers[q]
                c.ok(len(srv.hits) > hits, "survey", "asks the server")
                c.seen("survey", "forced" if force else "fetched")
            else:
                c.equal(len(srv.hits), hits, "survey", "does not ask for a survey it holds")
                c.seen("survey", "held" if held[q] == vers[q] else "held_old")
            if q != names[0]:
                c.seen("survey", "other")
            want = pub[q, held[q]]
            c.ok("ok" in ans, "survey", "the survey is read", ans=str(ans)[:300])
            if "ok" in ans:
                got = ans["ok"]
                c.equal(got["n"], len(want["filter"]), "survey", f"rows of version {held[q]} of {vers[q]}")
                c.close(got["ra"], want["fieldRA"], "survey", 1e-12, 0, "positions")
                c.close(got["time"], want["observationStartMJD"], "survey", 1e-13, 0, "times")
                c.equal(got["filter"], list(want["filter"]), "survey", "filters")
                c.ok(len(got["zp"]) == got["n"] and bool(np.all(np.isfinite(got["zp"]))), "survey", "zero points derived")
        srv.mode = "ok"
        # Filters in their default places.
        kw = dict(delta_wave=float(rng.choice([5.0, 20.0])), trim_quantile=None)
        ref = {}
        (data / "passbands" / "LSST").mkdir(parents=True, exist_ok=True)
        for f in "ugrizy":
            ref[f] = sources.table(rng, width=float(rng.uniform(500, 2000)))
            np.savetxt(data / "passbands" / "LSST" / f"{f}.dat", np.column_stack([ref[f][:, 0] / 10, ref[f][:, 1]]))
        ans = w.ask(op="preset", name="LSST", kw=kw)
        c.equal(sorted(ans.get("ok", {})), sorted(f"LSST_{f}" for f in "ugrizy"), "default", f"the set from the default folder {str(ans)[:150]}")
        for k, t in ans.get("ok", {}).items():
            c.close(t, Passband(ref[k[-1]], "LSST", k[-1], **kw).processed_transmission_table, "default", 1e-9, 1e-12, f"filter {k} of the set")
        c.seen("default", "preset")
        f = str(rng.choice(list("ugrizy")))
        ans = w.ask(op="file", survey="LSST", name=f, kw={**kw, "units": "nm"})
        c.equal(list(ans.get("ok", {})), [f"LSST_{f}"], "default", f"one filter from the default folder {str(ans)[:150]}")
        for t in ans.get("ok", {}).values():
            c.close(t, Passband(ref[f], "LSST", f, **kw).processed_transmission_table, "default", 1e-9, 1e-12, f"filter {f}")
        c.seen("default", "file")
        t = sources.table(rng, width=900.0)
        b = io.BytesIO()
        np.savetxt(b, t)
        srv.files["/x/y.dat"] = b.getvalue()
        for again in (False, True):
            hits = len(srv.hits)
            ans = w.ask(op="file", survey="NEW", name="h", kw={**kw, "table_url": f"{srv.url}/x/y.dat"})
            c.equal(list(ans.get("ok", {})), ["NEW_h"], "default", f"one filter from its address {str(ans)[:150]}")
            for got in ans.get("ok", {}).values():
                c.close(got, Passband(t, "NEW", "h", **kw).processed_transmission_table, "default", 1e-9, 1e-12, "filter h")
            c.equal(len(srv.hits) > hits, not again, "default", "fetched once")
        c.seen("default", "url")
        (data / "passbands" / "HST" / "ACS").mkdir(parents=True, exist_ok=True)
        t = sources.table(rng, width=900.0)
        Table(t, names=("Wavelength", "Transmission"), units=("Angstrom", None)).write(data / "passbands" / "HST" / "ACS" / "F606W.xml", format="votable", overwrite=True)
        ans = w.ask(op="svo", name="HST/ACS.F606W", kw=kw)
        c.equal(list(ans.get("ok", {})), ["HST/ACS_F606W"], "default", f"an archive filter from the default folder {str(ans)[:150]}")
        for got in ans.get("ok", {}).values():
            c.close(got, Passband(t, "HST/ACS", "F606W", **kw).processed_transmission_table, "default", 1e-7, 1e-12, "filter F606W")
        c.seen("default", "svo")
        c.nontrivial(float(t[0, 1]), len(srv.hits))
    finally:
        w.close()
        srv.close()


def library_models(c):
    """A template model from a light-curve library: every event's own curve, scaled and shifted as stored."""
    rng = c.rng
    for _ in range(20):
        lines, flt, header, events, seen = library(rng)
        if all(sum(k == "S" for k, _ in e["rows"]) > 1 for e in events) and header.get("RECUR_CLASS") != "PERIODIC":
            break
    else:
        return
    path = save(c, lines, bool(rng.uniform() < 0.4))
    n = len(events)
    flt = list(flt)
    grp = PassbandGroup([Passband(sources.table(rng, lo=3000.0 + 1000 * i, width=900.0), "S", f) for i, f in enumerate(flt)])
    kw = {}
    forced = str(rng.choice(["none", "scalar", "array"]))
    epoch = [e["rows"][[k for k, _ in e["rows"]].index("S")][1][0] for e in events]
    if forced == "scalar":
        kw["forced_lc_t0"] = float(rng.uniform(58990, 59010))
        epoch = [kw["forced_lc_t0"]] * n
    elif forced == "array":
        epoch = [float(q) for q in rng.uniform(58990, 59010, n)]
        kw["forced_lc_t0"] = epoch if rng.uniform() < 0.5 else np.array(epoch)
        c.raises(ValueError, lambda: MultiLightcurveTemplateModel.from_lclib_file(path, grp, forced_lc_t0=[*epoch, 1.0], t0=0.0), "refused", "epochs for the wrong number of events")
        c.seen("library", "refused_epochs")
    sub = flt
    if len(flt) > 1 and rng.uniform() < 0.3:
        sub = kw["filters"] = [str(x) for x in rng.permutation(flt)[:-1]]
        c.seen("library", "subset")
    T0 = float(rng.choice([0.0, 60000.0]))
    weights = None
    if n > 1 and rng.uniform() < 0.3:
        weights = np.ones(n)
        weights[int(rng.integers(n))] = 0.0
        kw["weights"] = weights / weights.sum()
        c.seen("library", "weights")
    m = MultiLightcurveTemplateModel.from_lclib_file(path if rng.uniform() < 0.5 else str(path), grp, t0=T0, ra=10.0, node_label="tmpl", **kw)
    c.equal(len(m), n, "library", "one template per event")
    c.seen("library", forced)
    S = 25
    st = m.sample_parameters(num_samples=S, rng_info=np.random.default_rng(int(rng.integers(2**31))))
    used = set()
    for s in sources.singles(st):
        k = int(m.get_param(s, "selected_lightcurve"))
        c.ok(0 <= k < n and (weights is None or weights[k] > 0), "library", f"event {k} chosen")
        if k in used:
            continue
        used.add(k)
        rows = [r for kind, r in events[k]["rows"] if kind == "S"]
        tmpl = [r for kind, r in events[k]["rows"] if kind != "S"]
        x = np.array([r[0] for r in rows]) - epoch[k]
        for f in sub:
            j = 1 + flt.index(f)
            y = 10 ** (0.4 * (31.4 - np.array([r[j] for r in rows])))
            base = 10 ** (0.4 * (31.4 - tmpl[0][j])) if tmpl else 0.0
            q = np.concatenate([x, [x[0] - 3.0, x[-1] + 3.0]])
            got = np.asarray(m.evaluate_bandfluxes(grp, T0 + q, np.array([f] * len(q)), s))
            slope = np.abs(np.diff(y) / np.diff(x)).max()
            top = max(y.max(), base)
            # The end points may fall on either side of the curve's range when the epoch shift is rounded.
            inner = slice(1, len(x) - 1)
            c.close(got[inner], y[inner], "library", 1e-8, slope * 1e-9 + 1e-12, f"event {k} filter {f} ({forced} epoch)")
            for e in (0, len(x) - 1):
                c.ok(min(abs(got[e] - y[e]) - slope * 1e-9, abs(got[e] - base)) <= 1e-8 * top, "library", f"event {k} filter {f} at its end", got=got[e], want=[y[e], base])
            c.close(got[len(x) :], np.full(2, base), "library", 1e-8, 1e-12, f"event {k} filter {f} outside: template or nothing")
            if tmpl:
                c.seen("library", "template")
    c.nontrivial(n, str(flt), str(events[0]["rows"][:1]))
    c.raises(ValueError, lambda: MultiLightcurveTemplateModel.from_lclib_file(path, grp, filters=["Q"], t0=0.0), "refused", "no filter of the library asked for")


QUICK_SCALE = 2
SCENARIOS = [
    Scenario(arrays, quick=300, thorough=8000),
    Scenario(grids, quick=250, thorough=5000),
    Scenario(lclib, quick=300, thorough=6000),
    Scenario(filters, quick=120, thorough=2500),
    Scenario(presets, quick=80, thorough=1500),
    Scenario(downloads, quick=50, thorough=800),
    Scenario(locations, quick=4, thorough=60),
    Scenario(library_models, quick=80, thorough=2000),
]
