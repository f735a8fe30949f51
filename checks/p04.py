"""P04 - conversions, files, splitting and concatenation of sample sets preserve everything."""

import numpy as np
from astropy.table import Table

from lclmon.core import Scenario
from lightcurvelynx.graph_state import GraphState

RULE = (
    "Random sample sets (1 to 300 samples, several nodes; floats of every magnitude incl. denormals, NaN and "
    "infinities, 64-bit integers, booleans, text) pushed through random chains of conversions (flat or nested "
    "dictionary, table, saved file, split + concatenate, copy) and compared bit by bit with the original; "
    "concatenations of uneven parts. Non-trivial: at least two parameters and a chain of two or more conversions; "
    "distinct by values, layout and chain."
)
REQUIRED = [
    "conv:dict", "conv:nested", "conv:table", "conv:file", "conv:file_overwrite", "conv:split", "conv:copy", "samples:1", "samples:2",
    "samples:many", "dtype:float", "dtype:int", "dtype:bool", "dtype:str", "refused_params", "refused_overwrite", "refused_empty",
    "uneven_parts", "single_parts", "dict_parts", "equality_detects", "bad_table_name", "extract", "simulated_kind",
    "vector:scalar", "vector:one_long", "vector:as_samples", "vector:list", "vector_conv:dict", "vector_conv:nested", "vector_conv:table", "vector_conv:file",
    "vector_conv:split", "vector_conv:copy", "differs:value", "differs:text_for_number", "differs:parameter", "differs:node", "differs:extra",
    "differs:missing", "differs:samples", "differs:fixed",
]
ASSUMPTIONS = [
    "Text parameters are non-empty, do not start with # and have no leading or trailing blanks (the ASCII file format reads such text as "
    "missing values or comments)."
]

NODES = ["src", "host galaxy", "FunctionNode:f_2", "NumpyRandomFunc:uniform_1", "x"]
PARAMS = ["ra", "dec", "x", "brightness", "t0", "function_node_result", "b_1"]
WORDS = ["a", "type Ia", "longer-name", "0", "1.5", "with,comma", 'with"quote', "ßtring", "True", "nan", "two  blanks"]


def floats(rng, n):
    v = rng.normal(size=n) * 10.0 ** rng.integers(-320, 300, n)
    special = rng.uniform(size=n) < 0.15
    v = np.where(special, rng.choice([0.0, -0.0, np.inf, -np.inf, 5e-324, 1.7976931348623157e308, 0.1, 1 / 3], n), v)
    return v


def make(c, n, nan=False):
    rng = c.rng
    nodes = [str(x) for x in rng.choice(NODES, int(rng.integers(1, 5)), replace=False)]
    cols = {}
    for node in nodes:
        for p in rng.choice(PARAMS, int(rng.integers(1, 5)), replace=False):
            kind = str(rng.choice(["float", "int", "bool", "str"], p=[0.55, 0.2, 0.1, 0.15]))
            c.seen("dtype", kind)
            if kind == "float":
                v = floats(rng, n)
                if nan and rng.uniform() < 0.3:
                    v = np.where(rng.uniform(size=n) < 0.3, np.nan, v)
            elif kind == "int":
                v = rng.integers(-(2**63), 2**63 - 1, n)
            elif kind == "bool":
                v = rng.integers(0, 2, n).astype(bool)
            else:
                v = np.array([str(x) for x in rng.choice(WORDS, n)])
            cols[(node, str(p))] = v
    return build(cols, n), cols


def build(cols, n):
    st = GraphState(n)
    for (node, p), v in cols.items():
        st.set(node, p, v[0] if n == 1 else v)
    return st


def bits(v):
    v = np.asarray(v)
    if v.dtype.kind == "f":
        v = v.astype(np.float64)
        return np.where(np.isnan(v), np.uint64(1), v.view(np.uint64) if v.ndim else np.atleast_1d(v).view(np.uint64)[0])
    return v


def check_same(c, st, cols, n, ctx, tag="values"):
    c.equal(st.num_samples, n, "num_samples", ctx)
    c.equal(sorted(st.get_all_params_names()), sorted(f"{a}.{b}" for a, b in cols), "names", ctx)
    c.equal(len(st), len(cols), "count", ctx)
    for (a, b), want in cols.items():
        got = st[f"{a}.{b}"]
        g = np.asarray(got)
        w = want[0] if n == 1 else want
        if not c.equal(g.shape, () if n == 1 else (n,), "shape", f"{a}.{b} {ctx}"):
            continue
        kinds = {"U": "U", "S": "U", "O": "O"}
        gk, wk = kinds.get(g.dtype.kind, g.dtype.kind), kinds.get(np.asarray(w).dtype.kind, np.asarray(w).dtype.kind)
        c.equal(gk, wk, "type", f"{a}.{b} {ctx}")
        c.ok(bool(np.all(bits(g) == bits(w))), tag, f"{a}.{b} {ctx}", got=np.atleast_1d(g)[:5], want=np.atleast_1d(w)[:5])


def chain(c):
    rng = c.rng
    n = int(rng.choice([1, 1, 2, 3, 10, 300], p=[0.2, 0.1, 0.2, 0.2, 0.2, 0.1]))
    c.seen("samples", n if n < 3 else "many")
    nan = rng.uniform() < 0.3
    st, cols = make(c, n, nan=nan)
    steps = [str(x) for x in rng.choice(["dict", "nested", "table", "file", "file", "split", "copy"], int(rng.integers(1, 5)))]
    c.fact(n=n, columns=list(cols)[:6], steps=steps)
    cur = st
    for i, s in enumerate(steps):
        if s == "dict":
            d = cur.to_dict()
            c.equal(sorted(d), sorted(f"{a}.{b}" for a, b in cols), "dict_keys")
            cur = GraphState.from_dict(d, num_samples=n)
        elif s == "nested":
            d = {}
            for a, b in cols:
                d.setdefault(a, {})[b] = cur[f"{a}.{b}"]
            cur = GraphState.from_dict(d, num_samples=n)
        elif s == "table":
            t = cur.to_table()
            c.ok(isinstance(t, Table), "is_table")
            c.equal(len(t), n, "table_rows")
            c.equal(sorted(t.colnames), sorted(f"{a}.{b}" for a, b in cols), "table_columns")
            cur = GraphState.from_table(t)
        elif s == "file":
            path = c.tmp / f"s{i}.ecsv"
            if rng.uniform() < 0.4:
                if rng.uniform() < 0.5:
                    path.write_text("old contents\nmore than one line\n" * 50)
                else:
                    make(c, 5)[0].save_to_file(path)
                before = path.read_bytes()
                c.raises((OSError, FileExistsError), lambda path=path: cur.save_to_file(path), "refused_overwrite")
                c.equal(path.read_bytes(), before, "refused_overwrite_keeps_file")
                c.seen("refused_overwrite")
                cur.save_to_file(path, overwrite=True)
                c.seen("conv", "file_overwrite")
            else:
                cur.save_to_file(path if rng.uniform() < 0.5 else str(path))
            check_same(c, cur, cols, n, f"saved state after {steps[:i]}")
            cur = GraphState.from_file(path)
        elif s == "split":
            parts = list(cur)
            cur = GraphState.from_list([p.to_dict() if rng.uniform() < 0.3 else p for p in parts])
        else:
            cur = cur.copy()
        c.seen("conv", s)
        check_same(c, cur, cols, n, f"after {steps[: i + 1]}")
        if not any(np.asarray(v).dtype.kind == "f" and np.isnan(v).any() for v in cols.values()):
            c.ok(cur == st and st == cur, "equal", f"not equal after {steps[: i + 1]}")
    check_same(c, st, cols, n, "the original")
    # Equality must notice a changed value, a missing parameter, another sample count.
    key = list(cols)[int(rng.integers(0, len(cols)))]
    v = cols[key]
    j = int(rng.integers(0, n))
    w = v.copy()
    if v.dtype.kind == "f":
        w[j] = 1.0 if not np.isfinite(v[j]) or abs(v[j] - 1.0) > 0.01 else 2.0
    elif v.dtype.kind == "i":
        w[j] = v[j] // 2 + 7 if abs(int(v[j])) > 100 else v[j] + 50
    elif v.dtype.kind == "b":
        w[j] = not v[j]
    else:
        w = w.astype(object)
        w[j] = v[j] + "?"
        w = w.astype(str)
    c.ok(not (build({**cols, key: w}, n) == st), "equality_value", f"{key} sample {j}", a=v[j], b=w[j])
    if len(cols) > 1:
        less = {k: x for k, x in cols.items() if k != key}
        c.ok(not (build(less, n) == st), "equality_missing", str(key))
    c.seen("equality_detects")
    # Named extraction.
    for (a, b), want in cols.items():
        got = st.extract_parameters(f"{a}.{b}")
        c.equal(list(got), [f"{a}.{b}"], "extract_name")
        c.ok(bool(np.all(bits(got[f"{a}.{b}"]) == bits(want[0] if n == 1 else want))), "extract", f"{a}.{b}")
    c.seen("extract")
    if len(cols) >= 2 and len(steps) >= 2:
        c.nontrivial(n, tuple(cols), tuple(steps), repr([np.atleast_1d(v)[:2].tolist() for v in cols.values()]))


def concat(c):
    rng = c.rng
    n = int(rng.choice([2, 3, 10, 60]))
    st, cols = make(c, n)
    cuts = np.sort(rng.choice(np.arange(1, n), int(rng.integers(1, min(n, 6))), replace=False))
    pieces = np.split(np.arange(n), cuts)
    if len({len(p) for p in pieces}) > 1:
        c.seen("uneven_parts")
    if any(len(p) == 1 for p in pieces):
        c.seen("single_parts")
    order = rng.permutation(len(pieces))
    parts = []
    for k in order:
        sub = {key: v[pieces[k]] for key, v in cols.items()}
        keys = list(sub)
        sub = {keys[int(i)]: sub[keys[int(i)]] for i in rng.permutation(len(keys))}
        p = build(sub, len(pieces[k]))
        if len(pieces[k]) == 1 and rng.uniform() < 0.5:
            p = p.to_dict()
            c.seen("dict_parts")
        parts.append(p)
    idx = np.concatenate([pieces[k] for k in order])
    res = GraphState.from_list(parts)
    check_same(c, res, {k: v[idx] for k, v in cols.items()}, n, f"concatenation of {[len(pieces[k]) for k in order]}", "concat")
    c.fact(n=n, parts=[len(pieces[k]) for k in order], columns=list(cols)[:5])
    # Parts with different parameters are refused, whichever comes first and whichever lacks one.
    key = list(cols)[int(rng.integers(0, len(cols)))]
    odd = {k: v[:1] for k, v in cols.items()}
    if rng.uniform() < 0.5 and len(cols) > 1:
        del odd[key]
    else:
        odd[("extra", "p")] = np.array([1.0])
    where = int(rng.integers(0, len(parts) + 1))
    bad = parts[:where] + [build(odd, 1)] + parts[where:]
    c.raises((ValueError, KeyError), lambda: GraphState.from_list(bad), "refused_params", f"odd part at {where}")
    c.seen("refused_params")
    c.raises((ValueError,), lambda: GraphState.from_list([]), "refused_empty")
    c.raises((TypeError, ValueError), lambda: GraphState.from_list([3.0]), "refused_type")
    c.seen("refused_empty")
    t = Table({"node.param": [1.0, 2.0], str(rng.choice(["noseparator", "a.b.c"])): [1, 2]})
    c.raises((ValueError,), lambda: GraphState.from_table(t), "bad_table_name")
    c.seen("bad_table_name")
    if len(parts) > 1:
        c.nontrivial(n, tuple(len(pieces[k]) for k in order), tuple(cols), repr([v[:2].tolist() for v in cols.values()]))


def sampled(c):
    """States sampled from a model (as the simulation stores them) survive the dictionary per object and back."""
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList, GivenValueSampler
    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
    from lightcurvelynx.models.basic_models import ConstantSEDModel

    rng = c.rng
    n = int(rng.choice([1, 2, 5, 20]))
    model = ConstantSEDModel(
        brightness=NumpyRandomFunc("uniform", low=1.0, high=NumpyRandomFunc("uniform", low=2.0, high=3.0, seed=int(rng.integers(1e6))), seed=int(rng.integers(1e6))),
        ra=GivenValueList([float(x) for x in rng.uniform(0, 360, n)]),
        dec=1.5,
        t0=GivenValueSampler([1, 2, 3], seed=int(rng.integers(1e6))),
        redshift=0.1,
        node_label=str(rng.choice(["source", "my source"])) if rng.uniform() < 0.6 else None,
    )
    st = model.sample_parameters(num_samples=n)
    names = st.get_all_params_names()
    c.seen("simulated_kind", n)
    rows = [s.to_dict() for s in st]
    back = GraphState.from_list(rows)
    c.equal(back.num_samples, n, "num_samples")
    c.equal(sorted(back.get_all_params_names()), sorted(names), "names")
    for k in names:
        a, b = np.asarray(back[k]), np.asarray(st[k])
        c.equal(a.shape, () if n == 1 else (n,), "shape", k)
        c.equal(a.tolist(), b.tolist(), "sampled_values", k)
    c.ok(back == st, "equal")
    c.fact(n=n, names=names[:6])
    c.nontrivial(n, repr(st[names[0]]), repr(rows[0]))


def vectors(c):
    """Parameters holding a whole list per sample keep it through every conversion."""
    rng = c.rng
    n = int(rng.choice([1, 2, 3, 8]))
    cols = {}
    for p in [str(x) for x in rng.choice(PARAMS, int(rng.integers(1, 5)), replace=False)]:
        node = str(rng.choice(NODES[:3]))
        k = int(rng.choice([1, 2, 3, n]))
        shape = [(n,), (n, k), (n, k), (n, k, 2)][int(rng.integers(0, 4))]
        cols[(node, p)] = rng.normal(size=shape) if rng.uniform() < 0.7 else rng.integers(-9, 9, shape)
        c.seen("vector", "scalar" if len(shape) == 1 else "one_long" if k == 1 else "as_samples" if k == n else "list")
    st = GraphState(n)
    for (a, b), v in cols.items():
        st.set(a, b, v[0] if n == 1 else v)

    def judge(got, rows, ctx):
        m = len(rows)
        c.equal(got.num_samples, m, "num_samples", ctx)
        c.equal(sorted(got.get_all_params_names()), sorted(f"{a}.{b}" for a, b in cols), "names", ctx)
        for (a, b), v in cols.items():
            want = v[rows[0]] if m == 1 else v[rows]
            g = np.asarray(got[f"{a}.{b}"])
            c.ok(g.shape == np.shape(want) and bool(np.all(g == want)), "vector_values", f"{a}.{b} {ctx}", got=g, want=want)

    rows = list(range(n))
    cur, steps = st, []
    for i in range(int(rng.integers(1, 5))):
        step = str(rng.choice(["dict", "nested", "table", "file", "split", "copy"]))
        steps.append(step)
        if step == "dict":
            cur = GraphState.from_dict(cur.to_dict(), num_samples=n)
        elif step == "nested":
            cur = GraphState.from_dict({a: {q: cur[f"{a}.{q}"] for z, q in cols if z == a} for a, _ in cols}, num_samples=n)
        elif step == "table":
            cur = GraphState.from_table(cur.to_table())
        elif step == "file":
            cur.save_to_file(c.tmp / f"v{i}.ecsv")
            cur = GraphState.from_file(c.tmp / f"v{i}.ecsv")
        elif step == "split":
            cur = GraphState.from_list([s.to_dict() if rng.uniform() < 0.3 else s for s in cur])
        else:
            cur = cur.copy()
        c.seen("vector_conv", step)
        judge(cur, rows, f"after {steps}")
    # Uneven parts side by side.
    cuts = np.sort(rng.choice(np.arange(n + 1), int(rng.integers(0, 3))))
    pieces = [[int(r) for r in p] for p in np.split(np.arange(n), cuts) if len(p)]
    pieces = [pieces[int(i)] for i in rng.permutation(len(pieces))]
    parts = []
    for p in pieces:
        s = GraphState(len(p))
        for (a, b), v in cols.items():
            s.set(a, b, v[p[0]] if len(p) == 1 else v[p])
        parts.append(s)
    judge(GraphState.from_list(parts), [r for p in pieces for r in p], f"joined from {[len(p) for p in pieces]}")
    c.fact(n=n, shapes={f"{a}.{b}": list(v.shape) for (a, b), v in cols.items()}, steps=steps)
    if any(v.ndim > 1 for v in cols.values()):
        c.nontrivial(n, tuple(steps), repr([v.tolist() for v in cols.values()]))


def differs(c):
    """Two states compare equal when they hold the same values, and not when any one thing differs."""
    rng = c.rng
    n = int(rng.choice([1, 2, 5]))
    st, cols = make(c, n)
    cols = {k: np.where(np.isfinite(v), v, 2.0) if v.dtype.kind == "f" else v for k, v in cols.items()}
    st, twin = build(cols, n), build({k: cols[k] for k in [list(cols)[int(i)] for i in rng.permutation(len(cols))]}, n)
    c.ok(st == twin and not st != twin, "same", "the same values in another order")
    key = list(cols)[int(rng.integers(0, len(cols)))]
    i = int(rng.integers(0, n))
    how = str(rng.choice(["value", "text_for_number", "parameter", "node", "extra", "missing", "samples", "fixed"]))
    new, m = dict(cols), n
    v = np.array(cols[key], dtype=object)
    if how == "value":
        kind = cols[key].dtype.kind
        v[i] = (not v[i]) if kind == "b" else v[i] + "x" if kind == "U" else (float(v[i]) * 0.5 if abs(v[i]) > 1 else float(v[i]) + 1.0)
        new[key] = np.array(v.tolist(), dtype=float if kind in "if" else None)
    elif how == "text_for_number":
        new[key] = np.array([str(x) + "t" for x in v]) if cols[key].dtype.kind != "U" else np.arange(n) + 0.5
    elif how == "parameter":
        new[(key[0], "other_name")] = new.pop(key)
    elif how == "node":
        new[("other node", key[1])] = new.pop(key)
    elif how == "extra":
        new[(key[0], "other_name")] = cols[key]
    elif how == "missing":
        del new[key]
    elif how == "samples":
        m = n + 1
        new = {k: np.concatenate([v, v[-1:]]) for k, v in cols.items()}
    if how == "fixed":
        other = GraphState(n)
        for (a, b), v in cols.items():
            other.set(a, b, v[0] if n == 1 else v, fixed=(a, b) == key)
    else:
        other = build(new, m)
    c.fact(n=n, how=how, key=key)
    c.ok((st == other) is False or not bool(st == other), "differs", how)
    c.ok(not bool(other == st), "differs", f"{how} (other side)")
    c.seen("differs", how)
    a, b = [("a.b", "x"), ("a", "x.y"), (".", "x"), ("a", ".")][int(rng.integers(0, 4))]
    before = st.to_dict()
    c.raises(ValueError, lambda: st.set(a, b, 1.0), "dotted_name", f"{a!r} {b!r}")
    c.ok(sorted(st.to_dict()) == sorted(before), "dotted_name", "a refused name leaves no trace")
    c.nontrivial(n, how, key, repr(cols[key].tolist()))


QUICK_SCALE = 8
SCENARIOS = [Scenario(vectors, quick=100, thorough=4000), Scenario(chain, quick=400, thorough=6000), Scenario(concat, quick=600, thorough=8000), Scenario(sampled, quick=200, thorough=3000), Scenario(differs, quick=100, thorough=3000)]
