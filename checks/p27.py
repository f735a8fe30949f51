"""P27 - list and table samplers hand out given rows intact and in order."""

import numpy as np
import pandas as pd
from astropy.table import Table

from lclmon import gen
from lclmon.core import Scenario
from lightcurvelynx.base_models import FunctionNode, ParameterizedNode
from lightcurvelynx.math_nodes.given_sampler import GivenValueList, GivenValueSampler, GivenValueSelector, TableSampler

RULE = (
    "Histories of single and batched draws (directly and through parameter graphs that share one sampler), over-long draws "
    "and resets on ordered list and table samplers, followed by a cursor model; random table draws checked row by row; selectors "
    "checked against the index recorded in the same sample. Non-trivial: a history with at least one refusal and one reset, or "
    "a table with 3 or more columns; distinct by sizes and operation sequence."
)
REQUIRED = [
    "list:single", "list:batch", "list:refused", "list:reset", "list:graph", "list:type_str", "list:type_rows", "list:type_int", "list:type_float",
    "list:type_bool", "list:exhausted_exactly", "table:dict", "table:frame", "table:astropy", "table:ordered", "table:one_column", "table:random", "table:refused",
    "table:graph", "table:single", "table:reset", "selector:list", "selector:random", "selector:refused", "selector:rows", "selector:constant", "empty_refused",
    "table:frame_labels",
]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a.tolist() == b.tolist())


def values_of(rng, n, k):
    if k == "str":
        return [f"v{i}" + "x" * int(rng.integers(0, 6)) for i in range(n)]
    if k == "rows":
        return [[float(i), i + 0.5, float(rng.uniform())] for i in range(n)]
    if k == "int":
        return [int(v) for v in rng.integers(-(2**60), 2**60, n)]
    if k == "bool":
        return [bool(v) for v in rng.integers(0, 2, n)]
    return [float(v) for v in rng.normal(0, 1, n) * 10.0 ** rng.integers(-300, 300, n)]


def lists(c):
    rng = c.rng
    n = int(rng.choice([1, 2, 3, 7, 20]))
    k = str(rng.choice(["str", "rows", "int", "bool", "float"]))
    vals = values_of(rng, n, k)
    c.seen("list", f"type_{k}")
    node = GivenValueList(vals if rng.uniform() < 0.5 else np.array(vals), node_label="src" if rng.uniform() < 0.3 else None)
    mode = str(rng.choice(["node", "graph"]))
    if mode == "graph":
        # Several parameters of several nodes share the sampler: one draw takes one entry per sample.
        a = ParameterizedNode()
        a.add_parameter("p", node)
        a.add_parameter("q", node)
        root = ParameterizedNode()
        root.add_parameter("r", node)
        root.add_parameter("s", a.p)
        f = FunctionNode(lambda x: x, x=a.q)
        root.add_parameter("t", f)
        c.seen("list", "graph")
    cur, refused, resets, trace = 0, 0, 0, []
    for _ in range(int(rng.integers(3, 14))):
        if rng.uniform() < 0.12:
            node.reset()
            cur = 0
            resets += 1
            trace.append("R")
            c.seen("list", "reset")
            continue
        S = int(rng.choice([1, 1, 2, 3, n, n + 1]))
        trace.append(S)

        def draw(S=S):
            if mode == "node":
                return [node.generate(num_samples=S)]
            st = root.sample_parameters(num_samples=S, rng_info=np.random.default_rng(1))
            return [root.get_param(st, x) for x in "rst"] + [a.get_param(st, "p"), a.get_param(st, "q")]

        if cur + S > n:
            refused += 1
            c.raises((IndexError,), draw, "list_refused", f"{S} asked, {n - cur} left")
            c.seen("list", "refused")
            continue
        want = vals[cur] if S == 1 else vals[cur : cur + S]
        for got in draw():
            c.ok(same(got, want), "list_order", f"draw of {S} at {cur} of {n}", got=got, want=want)
        cur += S
        c.seen("list", "single" if S == 1 else "batch")
        if cur == n:
            c.seen("list", "exhausted_exactly")
    # Whatever is left comes out one by one, then nothing.
    while cur < n:
        c.ok(same(node.generate(num_samples=1), vals[cur]), "list_order", f"entry {cur}")
        cur += 1
    c.raises((IndexError,), lambda: node.generate(num_samples=1), "list_refused")
    node.reset()
    c.ok(same(node.generate(num_samples=n), vals[0] if n == 1 else vals), "list_restart")
    for empty in ([], np.array([])):
        c.raises((ValueError,), lambda empty=empty: GivenValueList(empty), "empty_refused")
        c.raises((ValueError,), lambda empty=empty: GivenValueSelector(empty, index=0), "empty_refused")
    c.seen("empty_refused")
    c.fact(n=n, type=k, mode=mode, trace=trace)
    if refused and resets:
        c.nontrivial(n, k, mode, str(trace))


def tables(c):
    rng = c.rng
    n = int(rng.choice([1, 2, 5, 17, 60]))
    kinds = [str(x) for x in rng.choice(["str", "int", "float", "bool", "float"], int(rng.choice([0, 1, 2, 3, 4, 5])))]
    names = [f"c{i}" if rng.uniform() < 0.7 else ["ra", "dec", "redshift", "Mass_2", "x1"][i] for i in range(len(kinds))]
    cols = {nm: values_of(rng, n, k) for nm, k in zip(names, kinds, strict=True)}
    cols["row"] = list(range(n))
    names = list(cols)
    if len(names) == 1:
        c.seen("table", "one_column")
    form = str(rng.choice(["dict", "frame", "astropy"]))
    c.seen("table", form)
    if form == "dict":
        data = {k: (np.array(v) if rng.uniform() < 0.5 else v) for k, v in cols.items()}
    elif form == "frame":
        data = pd.DataFrame(cols, index=gen.weird_index(rng, n))
        if not data.index.equals(pd.RangeIndex(n)):
            c.seen("table", "frame_labels")
    else:
        data = Table(cols)
    ordered = rng.uniform() < 0.6
    c.seen("table", "ordered" if ordered else "random")
    node = TableSampler(data, in_order=ordered, seed=int(rng.integers(0, 2**31)))
    if form == "astropy" and rng.uniform() < 0.5:
        data["row"][:] = 10**6
    mode = str(rng.choice(["node", "graph"]))
    roots = []
    if mode == "graph":
        root = ParameterizedNode()
        for nm in names:
            root.add_parameter(nm, node if rng.uniform() < 0.5 else getattr(node, nm))
        other = ParameterizedNode()
        other.add_parameter("again", node.row)
        root.add_parameter("far", other.again)
        c.seen("table", "graph")
    cur, trace, rows = 0, [], []
    for _ in range(int(rng.integers(3, 12))):
        if ordered and rng.uniform() < 0.12:
            node.reset()
            cur = 0
            trace.append("R")
            c.seen("table", "reset")
            continue
        S = int(rng.choice([1, 1, 2, 3, n, n + 1]))
        g = np.random.default_rng(int(rng.integers(0, 2**31))) if rng.uniform() < 0.5 else None
        trace.append(S)

        def draw(S=S, g=g):
            if mode == "node":
                out = node.generate(num_samples=S, rng_info=g)
                if len(names) == 1:
                    out = [out]
                return dict(zip(names, out, strict=True)), []
            st = root.sample_parameters(num_samples=S, rng_info=g)
            return {nm: root.get_param(st, nm) for nm in names}, [other.get_param(st, "again"), root.get_param(st, "far")]

        if ordered and cur + S > n:
            c.raises((IndexError,), draw, "table_refused", f"{S} asked, {n - cur} left")
            c.seen("table", "refused")
            continue
        got, links = draw()
        for nm in names:
            c.equal(np.shape(got[nm])[:1], () if S == 1 else (S,), "table_shape", nm)
        if S == 1:
            c.seen("table", "single")
        r = np.atleast_1d(np.asarray(got["row"])).astype(int)
        if ordered:
            c.equal(r, np.arange(cur, cur + S), "table_order")
            cur += S
        elif not c.ok(np.all((r >= 0) & (r < n)), "table_row", str(r)):
            return
        for x in links:
            c.equal(np.atleast_1d(x).astype(int), r, "table_link")
        for nm in names:
            v = np.atleast_1d(got[nm])
            for j, i in enumerate(r):
                c.ok(v[j] == cols[nm][i], "table_row", f"column {nm}: sample {j} should come from row {i}", got=v[j], want=cols[nm][i])
        rows.append(r)
    if not ordered and rows:
        big = node.generate(num_samples=60 * n)
        r = np.asarray(big[names.index("row")] if len(names) > 1 else big).astype(int)
        cnt = np.bincount(r, minlength=n)
        c.ok(cnt.min() > 60 - 6.5 * 8 and cnt.max() < 60 + 7 * 8, "table_uniform", "every row is equally likely", counts=cnt[:20])
    c.raises((ValueError,), lambda: TableSampler({k: [] for k in names}), "empty_refused")
    c.raises((TypeError,), lambda: TableSampler([1, 2, 3]), "reject")
    c.fact(n=n, columns=kinds, form=form, ordered=ordered, mode=mode, trace=trace)
    if len(names) >= 3:
        c.nontrivial(n, str(kinds), form, ordered, mode, str(trace))


def selectors(c):
    rng = c.rng
    n = int(rng.choice([1, 2, 5, 12]))
    k = str(rng.choice(["str", "rows", "int", "float"]))
    vals = values_of(rng, n, k)
    S = int(rng.choice([1, 2, 9, 40]))
    how = str(rng.choice(["list", "random", "constant"]))
    c.seen("selector", how)
    if k == "rows":
        c.seen("selector", "rows")
    idx = rng.integers(0, n, S)
    if how == "list":
        src = GivenValueList(idx)
    elif how == "random":
        src = GivenValueSampler(n)
    else:
        src = int(idx[0])
    sel = GivenValueSelector(vals if rng.uniform() < 0.5 else np.array(vals), index=src)
    second = values_of(rng, n, "float")
    sel2 = GivenValueSelector(second, index=src if how == "constant" else sel.index)
    root = ParameterizedNode()
    root.add_parameter("a", sel)
    root.add_parameter("b", sel2)
    root.add_parameter("i", sel.index)
    st = root.sample_parameters(num_samples=S, rng_info=np.random.default_rng(int(rng.integers(0, 2**31))))
    i = np.atleast_1d(root.get_param(st, "i")).astype(int)
    if how == "list":
        c.equal(i, idx, "selector_index")
    a, b = root.get_param(st, "a"), root.get_param(st, "b")
    if S == 1:
        c.ok(same(a, vals[i[0]]), "selector", got=a, want=vals[i[0]])
        c.ok(same(b, second[i[0]]), "selector", got=b, want=second[i[0]])
    else:
        for j in range(S):
            c.ok(same(a[j], vals[i[j]]), "selector", f"sample {j}", got=a[j], want=vals[i[j]])
            c.ok(same(b[j], second[i[j]]), "selector", f"sample {j}", got=b[j], want=second[i[j]])
    for bad in (n, -1, n + 7, -n - 1):
        c.raises((IndexError,), lambda bad=bad: GivenValueSelector(vals, index=bad).generate(num_samples=1), "selector_refused", str(bad))
        arr = idx.copy() if S > 1 else np.array([0, 0])
        arr[int(rng.integers(0, len(arr)))] = bad
        c.raises((IndexError,), lambda arr=arr: GivenValueSelector(vals, index=GivenValueList(arr)).generate(num_samples=len(arr)), "selector_refused", str(bad))
        c.seen("selector", "refused")
    c.fact(n=n, type=k, S=S, how=how)
    c.nontrivial("selector", n, k, S, how)


QUICK_SCALE = 8
SCENARIOS = [Scenario(lists, quick=400, thorough=6000), Scenario(tables, quick=400, thorough=6000), Scenario(selectors, quick=200, thorough=3000)]
