"""P03 - sample sets mirrored on a plain table of samples under random operation histories."""

import numpy as np

from lclmon.core import Scenario
from lightcurvelynx.graph_state import GraphState

RULE = (
    "Random histories (10-40 steps) of writes, fixed writes, merges, copies, slices, iterations, concatenations and "
    "look-ups (accepted and refused ones) on sample sets of 1 to 40 samples, every sample set alive in the history "
    "mirrored as a plain table of rows and compared after each step. Non-trivial: a history with at least one fixed "
    "write, one copy or merge and one slice; distinct by operation sequence, sample count and layout."
)
REQUIRED = [
    "op:set_scalar", "op:set_list", "op:set_array", "op:set_none", "op:set_fixed", "op:write_fixed", "op:bad_length",
    "op:dotted", "op:copy", "op:merge_dict", "op:merge_state", "op:merge_one", "op:merge_bad", "op:slice",
    "op:bad_slice", "op:iterate", "op:lookup", "op:absent", "op:node_state", "op:extract", "op:extract_absent",
    "op:concat", "op:mutate_source", "op:mutate_merged", "single_node_short_name", "samples:1", "samples:many", "bad_count", "dtype:str",
    "dtype:int", "dtype:bool", "dtype:object", "dtype:float", "ambiguous_extract", "vector_value:batch",
]

NODES = ["src", "host", "FunctionNode:f_2", "ra", "x"]
PARAMS = ["ra", "dec", "x", "brightness", "t0", "function_node_result"]


def same_value(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str | np.str_) or isinstance(b, str | np.str_):
        return isinstance(a, str | np.str_) and isinstance(b, str | np.str_) and str(a) == str(b)
    if np.shape(a) != () or np.shape(b) != ():
        return np.shape(a) == np.shape(b) and bool(np.array_equal(np.asarray(a), np.asarray(b)))
    if isinstance(a, float | np.floating) and np.isnan(a):
        return isinstance(b, float | np.floating) and bool(np.isnan(b))
    return bool(a == b)


class Shadow:
    """node -> param -> list with one entry per sample."""

    def __init__(self, n):
        self.n, self.rows, self.fixed = n, {}, set()

    def put(self, node, param, per_sample, fixed=False):
        if (node, param) in self.fixed:
            return
        self.rows.setdefault(node, {})[param] = list(per_sample)
        if fixed:
            self.fixed.add((node, param))

    def copy(self):
        s = Shadow(self.n)
        s.rows = {n: {p: list(v) for p, v in ps.items()} for n, ps in self.rows.items()}
        s.fixed = set(self.fixed)
        return s


def compare(c, st, sh, ctx):
    names = sorted(f"{n}.{p}" for n, ps in sh.rows.items() for p in ps)
    c.equal(sorted(st.get_all_params_names()), names, "names", f"after {ctx}")
    c.equal(len(st), len(names), "count", f"after {ctx}")
    c.equal(st.num_samples, sh.n, "num_samples", f"after {ctx}")
    for n, ps in sh.rows.items():
        for p, want in ps.items():
            got = st[f"{n}.{p}"]
            vals = [got] if sh.n == 1 else list(got)
            good = len(vals) == sh.n and all(same_value(a, b) for a, b in zip(vals, want, strict=True))
            c.ok(good, "values", f"{n}.{p} after {ctx}", got=vals[:6], want=want[:6])


def draw_value(c, n, arrays=True):
    """Returns (value to pass, list of per-sample values)."""
    rng = c.rng
    kind = str(rng.choice(["float", "int", "bool", "str", "object"], p=[0.4, 0.2, 0.1, 0.2, 0.1]))
    c.seen("dtype", kind)

    def one():
        if kind == "float":
            return float(rng.choice([rng.normal() * 10.0 ** rng.integers(-300, 300), 0.0, -0.0, np.inf, np.nan,
                                     rng.uniform(-5, 5)]))
        if kind == "int":
            return int(rng.integers(-(2**62), 2**62))
        if kind == "bool":
            return bool(rng.integers(0, 2))
        if kind == "str":
            return str(rng.choice(["", "a", "type Ia", "longer-name", "ß", "0"]))
        return None if rng.uniform() < 0.5 else "obj"

    if n == 1:
        v = one()
        if kind == "float" and rng.uniform() < 0.2:
            v = rng.normal(size=3)
            c.seen("vector_value")
            return v, [v.copy()]
        return v, [v]
    if arrays and kind == "float" and rng.uniform() < 0.25:
        # Every sample holds a vector of its own.
        v = rng.normal(size=(n, int(rng.choice([2, 3, n]))))
        c.seen("vector_value", "batch")
        return v if rng.uniform() < 0.5 else list(v), [x.copy() for x in v]
    how = int(rng.integers(0, 3)) if arrays else 0
    if how == 0:
        v = one()
        if v is None:
            c.seen("op", "set_none")
        c.seen("op", "set_scalar")
        return v, [v] * n
    vals = [one() for _ in range(n)]
    if how == 1:
        c.seen("op", "set_list")
        return vals, vals
    c.seen("op", "set_array")
    if kind == "object":
        return np.array(vals, dtype=object), vals
    arr = np.array(vals)
    return arr, vals


def history(c):
    rng = c.rng
    n = int(rng.choice([1, 1, 2, 3, 7, 40]))
    c.seen("samples", "1" if n == 1 else "many")
    pool = [(GraphState(n), Shadow(n))]
    nodes = list(rng.choice(NODES, int(rng.integers(1, 5)), replace=False))
    nodes = [str(x) for x in nodes]
    done = []
    ops = ["set"] * 8 + ["set_fixed"] * 2 + ["copy", "copy", "merge_dict", "merge_dict", "merge_state", "merge_one",
           "merge_bad", "slice", "slice", "bad_slice", "iterate", "lookup", "lookup", "absent", "node_state",
           "extract", "extract", "extract_absent", "concat", "bad_length", "dotted", "mutate_source", "mutate_merged", "write_fixed"]
    for step in range(int(rng.integers(10, 40))):
        op = str(rng.choice(ops))
        k = int(rng.integers(0, len(pool)))
        st, sh = pool[k]
        m = sh.n
        node, param = str(rng.choice(nodes)), str(rng.choice(PARAMS))
        have = [(a, b) for a, ps in sh.rows.items() for b in ps]
        ctx = f"{op} (step {step}, {done[-5:]})"
        if op in ("set", "set_fixed"):
            v, per = draw_value(c, m)
            fixed = op == "set_fixed"
            st.set(node, param, v, fixed=fixed, force_copy=bool(rng.integers(0, 2)))
            sh.put(node, param, per, fixed)
        elif op == "write_fixed":
            if not sh.fixed:
                continue
            a, b = sorted(sh.fixed)[int(rng.integers(0, len(sh.fixed)))]
            v, per = draw_value(c, m)
            st.set(a, b, v, fixed=bool(rng.integers(0, 2)))
        elif op == "bad_length":
            if m == 1:
                continue
            bad = list(rng.normal(size=m + int(rng.choice([-1, 1, 3]))))
            if len(bad) == m or (node, param) in sh.fixed:
                continue
            c.raises((ValueError, TypeError), lambda: st.set(node, param, bad), "bad_length", ctx)
        elif op == "dotted":
            a, b = ("a.b", "x") if rng.uniform() < 0.5 else (node, "x.y")
            c.raises((ValueError, KeyError), lambda: st.set(a, b, 1.0), "dotted", ctx)
        elif op == "mutate_source":
            # With force_copy the stored values must not follow the caller's array.
            if (node, param) in sh.fixed:
                continue
            arr = rng.normal(size=m if m > 1 else 3)
            keep = arr.copy()
            st.set(node, param, arr, force_copy=True)
            sh.put(node, param, list(keep) if m > 1 else [keep])
            arr[:] = -77.0
        elif op == "mutate_merged":
            # The same when several values arrive in one merge, from a dictionary or from another sample set.
            data, per = {}, {}
            for _ in range(int(rng.integers(1, 4))):
                a, b = str(rng.choice(nodes)), str(rng.choice(PARAMS))
                data.setdefault(a, {})[b] = rng.normal(size=m if m > 1 else 3)
                keep = data[a][b].copy()
                per[(a, b)] = list(keep) if m > 1 else [keep]
            if rng.uniform() < 0.5:
                source = data
            else:
                source = GraphState(m)
                for a, ps in data.items():
                    for b, v in ps.items():
                        source.set(a, b, v)
            st.update(source, force_copy=True)
            for (a, b), v in per.items():
                sh.put(a, b, v)
            for ps in data.values():
                for v in ps.values():
                    v[:] = -78.0
        elif op == "copy":
            s2 = st.copy()
            h2 = sh.copy()
            compare(c, s2, h2, ctx)
            # Writing into the arrays of the copy must leave the original alone (and the reverse).
            for a, b in have:
                got = s2[f"{a}.{b}"]
                if isinstance(got, np.ndarray) and got.dtype.kind == "f" and got.size and rng.uniform() < 0.5:
                    got[...] = 1234.5
                    h2.rows[a][b] = ([1234.5] * m if got.ndim == 1 else [np.full(got.shape[1:], 1234.5)] * m) if m > 1 else [np.full(got.shape, 1234.5)]
            compare(c, st, sh, ctx + " original")
            pool.append((s2, h2))
        elif op == "merge_dict":
            data, per = {}, []
            for _ in range(int(rng.integers(1, 4))):
                a, b = str(rng.choice(nodes)), str(rng.choice(PARAMS))
                v, p = draw_value(c, m)
                data.setdefault(a, {})[b] = v
                per = [x for x in per if x[:2] != (a, b)] + [(a, b, p)]
            allf = bool(rng.uniform() < 0.3)
            st.update(data, all_fixed=allf, force_copy=bool(rng.integers(0, 2)))
            for a, b, p in per:
                sh.put(a, b, p, allf)
        elif op in ("merge_state", "merge_one"):
            nm = m if op == "merge_state" else 1
            other, oh = GraphState(nm), Shadow(nm)
            for _ in range(int(rng.integers(1, 4))):
                a, b = str(rng.choice(nodes)), str(rng.choice(PARAMS))
                v, p = draw_value(c, nm)
                if op == "merge_one" and np.shape(v) != ():
                    continue
                other.set(a, b, v)
                oh.put(a, b, p)
            allf = bool(rng.uniform() < 0.3)
            st.update(other, all_fixed=allf)
            for a, ps in oh.rows.items():
                for b, p in ps.items():
                    sh.put(a, b, p if nm == m else p * m, allf)
            compare(c, other, oh, ctx + " merged-from")
        elif op == "merge_bad":
            other = GraphState(m + 1 if m > 1 else 2)
            other.set(node, param, list(rng.normal(size=other.num_samples)))
            c.raises((ValueError,), lambda: st.update(other), "merge_bad", ctx)
        elif op == "slice":
            i = int(rng.integers(0, m))
            s2 = st.extract_single_sample(i)
            h2 = Shadow(1)
            h2.rows = {a: {b: [v[i]] for b, v in ps.items()} for a, ps in sh.rows.items()}
            h2.fixed = set(sh.fixed)
            compare(c, s2, h2, ctx)
            if rng.uniform() < 0.5:
                pool.append((s2, h2))
        elif op == "bad_slice":
            for i in (m, m + 5, -1, -m - 1):
                c.raises((ValueError, IndexError), lambda i=i: st.extract_single_sample(i), "bad_slice", f"{i} of {m}")
                if have:
                    c.raises((ValueError, IndexError), lambda i=i: st.get_node_state(have[0][0], i), "bad_slice",
                             f"node state {i} of {m}")
        elif op == "iterate":
            parts = list(st)
            c.equal(len(parts), m, "iterate_count", ctx)
            for i, s2 in enumerate(parts):
                h2 = Shadow(1)
                h2.rows = {a: {b: [v[i]] for b, v in ps.items()} for a, ps in sh.rows.items()}
                compare(c, s2, h2, ctx + f" item {i}")
        elif op == "lookup":
            for a in NODES:
                c.equal(a in st, a in sh.rows or (len(sh.rows) == 1 and a in list(sh.rows.values())[0]), "contains_node", f"{a} {ctx}")
                for b in PARAMS:
                    c.equal(f"{a}.{b}" in st, a in sh.rows and b in sh.rows[a], "contains_full", f"{a}.{b} {ctx}")
            for a in sh.rows:
                c.equal(sorted(st[a]), sorted(sh.rows[a]), "node_lookup", f"{a} {ctx}")
            if len(sh.rows) == 1:
                c.seen("single_node_short_name")
                only = list(sh.rows)[0]
                for b in PARAMS:
                    if b == only:
                        continue
                    c.equal(b in st, b in sh.rows[only], "contains_short", f"{b} {ctx}")
                    if b in sh.rows[only]:
                        got = st[b]
                        vals = [got] if m == 1 else list(got)
                        c.ok(all(same_value(x, y) for x, y in zip(vals, sh.rows[only][b], strict=True)), "short_lookup", ctx)
        elif op == "absent":
            bad = ["nope", "nope.x", f"{node}.nope", "a.b.c"]
            for key in bad:
                c.raises((KeyError, ValueError), lambda key=key: st[key], "absent", f"{key} {ctx}")
            c.raises((KeyError, ValueError), lambda: st.get_node_state("nope"), "absent", ctx)
        elif op == "node_state":
            if not have:
                continue
            a = have[int(rng.integers(0, len(have)))][0]
            i = int(rng.integers(0, m))
            got = st.get_node_state(a, i)
            c.equal(sorted(got), sorted(sh.rows[a]), "node_state_names", ctx)
            c.ok(all(same_value(got[b], sh.rows[a][b][i]) for b in sh.rows[a]), "node_state", ctx, got=got)
        elif op in ("extract", "extract_absent"):
            ask, want = [], {}
            for _ in range(int(rng.integers(1, 5))):
                if have and rng.uniform() < 0.5:
                    a, b = have[int(rng.integers(0, len(have)))]
                    ask.append(f"{a}.{b}")
                    want[f"{a}.{b}"] = sh.rows[a][b]
                elif have:
                    b = have[int(rng.integers(0, len(have)))][1]
                    ask.append(b)
                    where = [a for a in sh.rows if b in sh.rows[a]]
                    if len(where) == 1:
                        want[b] = sh.rows[where[0]][b]
                    else:
                        c.seen("ambiguous_extract")
                        for a in where:
                            want[f"{a}.{b}"] = sh.rows[a][b]
            if op == "extract_absent":
                ask.append(str(rng.choice(["nope", "nope.x", f"{node}.nope"])))
                c.raises((KeyError, ValueError), lambda: st.extract_parameters(ask), "extract_absent", f"{ask} {ctx}")
            elif ask:
                got = st.extract_parameters(ask[0] if len(ask) == 1 and rng.uniform() < 0.5 else ask)
                c.equal(sorted(got), sorted(want), "extract_names", f"{ask} {ctx}")
                for key, w in want.items():
                    if key in got:
                        vals = [got[key]] if m == 1 else list(got[key])
                        c.ok(all(same_value(x, y) for x, y in zip(vals, w, strict=True)), "extract", f"{key} {ctx}")
        elif op == "concat":
            if not have:
                continue
            group = [(s, h) for s, h in pool if sorted((a, b) for a in h.rows for b in h.rows[a]) == sorted(have)]
            mixed = {}
            for s, h in group:
                for a, b in have:
                    for v in h.rows[a][b]:
                        mixed.setdefault((a, b), set()).add("v" if np.shape(v) else "o" if v is None else type(v).__name__)
            # Only sets whose columns hold one kind of scalar can be stored side by side.
            group = group if all(len(v) == 1 and "v" not in v for v in mixed.values()) else [(st, sh)] * 2
            if any(np.shape(v) for a, b in have for v in sh.rows[a][b]):
                continue
            group = [group[int(i)] for i in rng.permutation(len(group))]
            res = GraphState.from_list([s for s, _ in group])
            h2 = Shadow(sum(h.n for _, h in group))
            h2.rows = {}
            for a, b in have:
                h2.rows.setdefault(a, {})[b] = [v for _, h in group for v in h.rows[a][b]]
            compare(c, res, h2, ctx)
            for a, b in have:
                got = res[f"{a}.{b}"]
                if isinstance(got, np.ndarray) and got.dtype.kind == "f" and got.flags.writeable:
                    got[...] = -5.5
            for s, h in group:
                compare(c, s, h, ctx + " parts")
        done.append(op)
        c.seen("op", op)
        for s, h in pool:
            compare(c, s, h, ctx)
        if len(pool) > 4:
            pool.pop(int(rng.integers(0, len(pool))))
    c.fact(n=n, nodes=nodes, ops=done[:12], sets=len(pool))
    if {"set_fixed"} & set(done) and {"copy", "merge_dict", "merge_state", "merge_one"} & set(done) and {"slice", "iterate"} & set(done):
        c.nontrivial(n, tuple(nodes), tuple(done))


def counts(c):
    for bad in (0, -1, -7):
        c.raises((ValueError,), lambda bad=bad: GraphState(bad), "bad_count", str(bad))
        c.seen("bad_count")
    s = GraphState(3)
    c.raises((KeyError,), lambda: s["x"], "empty_lookup")
    c.equal("x" in s, False, "empty_contains")
    c.equal(len(s), 0, "empty_len")
    c.equal([x.num_samples for x in s], [1, 1, 1], "empty_iteration")
    c.fact(case="construction")
    c.nontrivial()


QUICK_SCALE = 8
SCENARIOS = [Scenario(history, quick=1500, thorough=20000), Scenario(counts, quick=1, once=True)]
