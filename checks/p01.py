"""P01 - every draw satisfies every declared relation, checked against the record of declarations."""

import numpy as np

from lclmon import graphs
from lclmon.core import Scenario
from lightcurvelynx.base_models import FunctionNode
from lightcurvelynx.graph_state import GraphState
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc

RULE = (
    "Random parameter graphs (2-14 nodes of eleven kinds plus additive, random and nested multi-object roots; chains, "
    "diamonds, shared and multi-output nodes, labelled and not), each drawn several times with 1 to 30 samples, with "
    "values fixed by the caller, after re-assignments of parameters and after draws of other graphs sharing nodes; "
    "every relation is re-evaluated from the recorded values, and instrumented functions count their calls. "
    "Non-trivial: at least 4 reachable nodes with one node used twice; distinct by structure and history."
)
REQUIRED = [
    "node:plain", "node:model", "node:func", "node:rand", "node:list", "node:selector", "node:table", "node:math",
    "node:single", "node:binary", "node:selfref", "node:sampler", "node:additive_multi", "node:random_multi", "node:nested_multi",
    "link:method", "link:node_same_name", "link:function_object", "link:function_same_output", "link:callable", "link:constant",
    "samples:1", "samples:many", "given:dict", "given:state", "given:scalar", "reassign:const", "reassign:link", "reassign:by_name", "reassign:both",
    "reassign:fresh_node", "shared_node", "multi_output", "fixed_params", "calls_counted", "other_graph", "duplicate_label",
    "unlabelled_same_class", "vector:float", "vector:int", "vector:str", "vector:bool", "vector:matrix", "vector:as_many_as_samples",
    "override:falsy", "override:value",
]


def col(c, st, n, p, S):
    got = st[n.name()][p]
    if S == 1:
        return got, [got]
    c.ok(hasattr(got, "__len__") and len(got) == S, "sample_count", f"{n.kind}.{p}: {np.shape(got)} for {S} samples")
    return got, list(got)


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    return bool(a == b)


def check_draw(c, g, st, S, given, ctx):
    reach = g.reachable()
    names = [n.name() for n in reach]
    if not c.ok(len(set(names)) == len(names), "unique_names", f"{names} {ctx}"):
        return
    bare = [x.rsplit("_", 1)[0] for x in names]
    if len(set(bare)) < len(bare):
        c.seen("unlabelled_same_class")
    c.equal(st.num_samples, S, "num_samples", ctx)
    for n in reach:
        c.equal(sorted(st[n.name()]), sorted(n.rel), "parameters", f"{n.kind} {n.name()} {ctx}")
        cols = {p: col(c, st, n, p, S)[1] for p in n.rel}
        # The node's own view of the draw is the same.
        local = n.obj.get_local_params(st)
        c.equal(sorted(local), sorted(n.rel), "own_view", f"{n.name()} {ctx}")
        c.equal(sorted(n.obj.list_params()), sorted(n.rel), "own_view", f"declared parameters of {n.name()} {ctx}")
        for p, vals in cols.items():
            one = n.obj.get_param(st, p)
            c.ok(all(same(a, b) for a, b in zip([one] if S == 1 else list(one), vals, strict=True)), "own_view", f"{n.name()}.{p} {ctx}")
            c.ok(all(same(a, b) for a, b in zip([local[p]] if S == 1 else list(local[p]), vals, strict=True)), "own_view", f"{n.name()}.{p} {ctx}")
            c.ok(n.obj.has_valid_param(p) or all(v is None for v in vals), "own_view", f"{p} has a value in {n.name()} {ctx}")
            if all(v is None for v in vals) and n.rel[p][0] == "const":
                c.ok(not n.obj.has_valid_param(p), "own_view", f"{p} has no value in {n.name()} {ctx}")
        c.ok(not n.obj.has_valid_param("no_such_parameter") and n.obj.get_param(st, "no_such_parameter", 7.5) == 7.5, "own_view", "an absent parameter")
        fixed = {p for (m, p) in given if m is n}
        expect = {}
        for p, r in n.rel.items():
            if p in fixed:
                w = given[(n, p)]
                w = [w] * S if np.ndim(w) == 0 else list(w)
                c.ok(all(same(a, b) for a, b in zip(cols[p], w, strict=True)), "fixed_value", f"{n.kind}.{p} {ctx}", got=cols[p][:4], want=w[:4])
            elif r[0] == "const":
                c.ok(all(same(a, r[1]) for a in cols[p]), "constant", f"{n.kind}.{p} {ctx}", got=cols[p][:4], want=r[1])
            elif r[0] == "link":
                w = col(c, st, r[1], r[2], S)[1]
                c.ok(all(same(a, b) for a, b in zip(cols[p], w, strict=True)), "linked", f"{n.kind}.{p} <- {r[1].kind}.{r[2]} {ctx}", got=cols[p][:4], want=w[:4])
            elif r[0] == "callable":
                c.ok(all(abs(a - r[1].c[0]) < 1e-12 for a in cols[p]), "callable", f"{p} {ctx}")
            elif r[0] == "hidden":
                c.ok(all(str(a) in n.extra["values"] for a in cols[p]), "selected_object", f"{cols[p][:3]} {ctx}")
            elif r[0] == "output":
                expect[p] = r[1]
        k = n.kind
        ins = {i: np.array([float(x) for x in cols[i]]) for i in n.extra.get("inputs", ())}
        if k == "func":
            f = n.extra["func"]
            ref = f.apply({**ins, **n.extra["fixed"]})
            for p, j in expect.items():
                w = np.full(S, ref[j]) if np.ndim(ref[j]) == 0 else ref[j]
                c.close(np.array(cols[p], float), w, "computed", rtol=1e-12, atol=1e-9, msg=f"{n.name()}.{p} {ctx}")
            if len(expect) > 1:
                c.seen("multi_output")
        elif k == "math":
            ca, cb = n.extra["coef"]
            for p in expect:
                c.close(np.array(cols[p], float), ca * ins["a"] - cb * ins["b"] + 1.0, "computed", rtol=1e-12, atol=1e-9, msg=f"math {ctx}")
        elif k == "selector":
            for p in expect:
                w = [n.extra["values"][int(i)] for i in ins["index"]]
                c.equal([float(x) for x in cols[p]], w, "selected", ctx)
        elif k in ("sampler", "binary"):
            for p in expect:
                c.ok(all(x in n.extra["values"] for x in cols[p]), "sampled_from", ctx)
        elif k == "list":
            for p in expect:
                w = n.extra["values"][n.extra["next"] : n.extra["next"] + S]
                c.equal([float(x) for x in cols[p]], w, "list_in_order", ctx)
        elif k == "table":
            for p in expect:
                w = n.extra["columns"][p][n.extra["next"] : n.extra["next"] + S]
                c.equal([float(x) for x in cols[p]], list(w), "table_rows", ctx)
        elif k == "rand":
            for p in expect:
                v = np.array(cols[p], float)
                if n.extra["dist"] == "uniform":
                    c.ok(np.all((v >= ins["low"]) & (v <= ins["high"])), "random_range", ctx, got=v[:4])
                else:
                    c.ok(np.all(np.abs(v - ins["loc"]) < 8 * 0.5), "random_range", ctx, got=v[:4], want=ins["loc"][:4])
                c.ok(len(np.unique(v)) == S, "random_distinct", f"{n.name()} {ctx}", got=v[:6])
                last = n.extra.get("last")
                c.ok(last is None or not np.any(np.isin(v, last)), "random_fresh", f"repeated values in a new draw {ctx}")
    for n in reach:
        if n.kind in ("list", "table"):
            n.extra["next"] += S
        if n.kind == "rand" and not any(m is n and p == "function_node_result" for m, p in given):
            n.extra["last"] = np.atleast_1d(st[n.name()]["function_node_result"]).copy()


def draw(c, g, ctx, given=None, given_form="dict"):
    rng = c.rng
    S = int(rng.choice([1, 1, 2, 3, 8, 30]))
    c.seen("samples", "1" if S == 1 else "many")
    args, record = None, {}
    funcs = [n.extra["func"] for n in g.reachable() if n.kind == "func"] + [r[1] for n in g.reachable() for r in n.rel.values() if r[0] == "callable"]
    if given:
        if any(n.name() for n in []):
            pass
        args = {}
        for n, p in given:
            v = float(rng.uniform(100, 200)) if S == 1 or rng.uniform() < 0.4 else rng.uniform(100, 200, S)
            if np.ndim(v) == 0:
                c.seen("given", "scalar")
            args.setdefault(n.name(), {})[p] = v
            record[(n, p)] = v if np.ndim(v) == 0 else v.copy()
        if given_form == "state":
            gs = GraphState(S)
            for a, ps in args.items():
                for p, v in ps.items():
                    gs.set(a, p, v)
            args = gs
        c.seen("given", given_form)
    before = [f.calls for f in funcs]
    st = g.root.obj.sample_parameters(given_args=args, num_samples=S)
    for f, b in zip(funcs, before, strict=True):
        c.equal(f.calls - b, 1, "calls_per_draw", ctx)
        c.seen("calls_counted")
    check_draw(c, g, st, S, record, ctx + f" (S={S}, fixed {len(record)})")
    return st


def history(c):
    rng = c.rng
    multi = [None, None, "additive", "random", "nested"][int(rng.integers(0, 5))]
    g = graphs.Graph(c, int(rng.integers(2, 13)), multi=multi)
    log = []
    draw(c, g, "first draw")
    uses = {}
    for n in g.reachable():
        for m in set(n.deps()):
            uses[m] = uses.get(m, 0) + 1
    if any(v > 1 for v in uses.values()):
        c.seen("shared_node")
    for step in range(int(rng.integers(1, 5))):
        reach = g.reachable()
        what = str(rng.choice(["draw", "given", "given", "reassign", "other"]))
        log.append(what)
        if what == "draw":
            draw(c, g, f"draw {step} after {log}")
        elif what == "given":
            cands = [(n, p) for n in reach for p, r in n.rel.items()
                     if p not in n.extra.get("nonnumeric", ()) and r[0] not in ("hidden",) and not n.extra.get("private")
                     and n.kind not in ("rand", "selector") or (n.kind == "rand" and p == "function_node_result")]
            # Values for a list index or a distribution's arguments must make sense; leave those alone.
            cands = [(n, p) for n, p in cands if not any(m.kind in ("selector",) and r[0] == "link" and r[1] is n for m in reach for r in m.rel.values())]
            if not cands:
                continue
            pick = [cands[int(i)] for i in rng.choice(len(cands), min(len(cands), int(rng.integers(1, 4))), replace=False)]
            draw(c, g, f"given {step} after {log}", given=pick, given_form=str(rng.choice(["dict", "state"])))
        elif what == "reassign":
            cands = [n for n in reach if n.kind in ("plain", "model", "func", "math", "single", "rand")
                     and not n.extra.get("private") and any(r[0] in ("const", "link") for r in n.rel.values())]
            if not cands:
                continue
            n = cands[int(rng.integers(0, len(cands)))]
            ps = [p for p, r in n.rel.items() if r[0] in ("const", "link") and p not in n.extra.get("nonnumeric", ()) and not (n.kind == "rand" and p != "loc")]
            if not ps:
                continue
            p = ps[int(rng.integers(0, len(ps)))]
            kind = str(rng.choice(["const", "link", "fresh_node", "fresh_node"]))
            if kind == "const":
                v = float(rng.uniform(-5, 5)) if rng.uniform() < 0.7 else 0.0
                form = int(rng.integers(3)) if p not in ("name", "value") else 0
                if form == 0:
                    n.obj.set_parameter(p, v)
                elif form == 1:
                    n.obj.set_parameter(p, **{p: v, "another": 7.0})
                else:
                    n.obj.set_parameter(p, v, **{p: v + 3.0})
                c.seen("reassign", ["value", "by_name", "both"][form])
                n.rel[p] = ("const", v)
            elif kind == "link":
                v, r = g.source(p, below=g.nodes.index(n))
                n.obj.set_parameter(p, v)
                n.rel[p] = r
            else:
                two = rng.uniform() < 0.5 and len(ps) > 1
                for q in ps[:2] if two else [p]:
                    m = g._rand() if rng.uniform() < 0.6 else g._func()
                    if m.kind == "rand":
                        # the fresh node may only use nodes declared before n, to stay acyclic
                        if "loc" in m.rel:
                            m.obj.set_parameter("loc", 1.5)
                            m.rel["loc"] = ("const", 1.5)
                        out = "function_node_result"
                    else:
                        for i in list(m.extra["inputs"]):
                            m.obj.set_parameter(i, 0.25)
                            m.rel[i] = ("const", 0.25)
                        out = [o for o, r in m.rel.items() if r[0] == "output"][0]
                    n.obj.set_parameter(q, getattr(m.obj, out))
                    n.rel[q] = ("link", m, out)
                    # keep the acyclic order for later re-assignments
                    g.nodes.remove(m)
                    g.nodes.insert(g.nodes.index(n), m)
            c.seen("reassign", kind)
            log.append(kind)
            draw(c, g, f"reassign {n.kind}.{p} {kind} after {log}")
        else:
            # Another graph over the same nodes is drawn in between; afterwards this one still works.
            pool = [x for x in g.nodes if x is not g.root and not x.extra.get("private")]
            if not pool:
                continue
            side = graphs.Plain(node_label=None)
            k = int(rng.integers(1, min(4, len(pool)) + 1))
            for i, j in enumerate(rng.choice(len(pool), k, replace=False)):
                m = pool[int(j)]
                side.add(f"q{i}", getattr(m.obj, list(m.rel)[0]))
            S = int(rng.choice([1, 3]))
            counted = [n for n in g.nodes if n.kind in ("list", "table")]
            for m in counted:
                m.obj.reset()
                m.extra["next"] = 0
            side.sample_parameters(num_samples=S)
            for m in counted:
                m.obj.reset()
            for m in g.nodes:
                m.extra.pop("last", None)
            c.seen("other_graph")
            draw(c, g, f"after another graph {log}")
    n_reach = len(g.reachable())
    c.fact(root=g.root.kind, kinds=[n.kind for n in g.reachable()][:14], log=log)
    if n_reach >= 4 and any(v > 1 for v in uses.values()):
        c.nontrivial(tuple(n.kind for n in g.reachable()), tuple(log), tuple(sorted((a[0].kind, a[1], b[0].kind, b[1]) for a, b in g.edges())))


def duplicate_labels(c):
    """Two different nodes under one name must never be mixed up: the draw is refused."""
    rng = c.rng
    a = graphs.Plain(node_label="same", x=float(rng.uniform()))
    b = graphs.Plain(node_label="same", x=float(rng.uniform(2, 3)))
    root = graphs.Plain(p=a.x, q=b.x)
    c.raises((ValueError, KeyError), lambda: root.sample_parameters(num_samples=int(rng.choice([1, 4]))), "duplicate_label")
    c.seen("duplicate_label")
    c.fact(case="duplicate label")
    c.nontrivial()


def vector_constants(c):
    """A parameter set to a list or an array has that same list in every sample."""
    rng = c.rng
    S = int(rng.choice([1, 2, 3, 4, 9]))
    k = S if rng.uniform() < 0.4 else int(rng.choice([1, 2, 3, 5]))
    kind = str(rng.choice(["float", "int", "str", "bool", "matrix"]))
    if kind == "float":
        vec = rng.normal(size=k)
    elif kind == "int":
        vec = rng.integers(-50, 50, k)
    elif kind == "str":
        vec = np.array([str(w) for w in rng.choice(["a", "bb", "ccc", "type Ia"], k)])
    elif kind == "bool":
        vec = rng.integers(0, 2, k).astype(bool)
    else:
        vec = rng.normal(size=(k, 2))
    form = str(rng.choice(["array", "list", "tuple"]))
    value = {"array": vec.copy(), "list": vec.tolist(), "tuple": tuple(vec.tolist())}[form]
    base = graphs.Plain(v=value, x=NumpyRandomFunc("uniform", low=0.0, high=1.0, seed=int(rng.integers(1e6))), node_label="base")
    numeric = kind in ("float", "int")

    def total(x, v):
        return x + (np.sum(np.asarray(v), axis=-1) if numeric else 0.0)

    direct = rng.uniform() < 0.5
    node = FunctionNode(total, x=base.x, v=value if direct else base.v, node_label="fn")
    root = graphs.Plain(w=base.v, y=node, node_label="root")
    st = root.sample_parameters(num_samples=S)
    c.fact(kind=kind, form=form, S=S, k=k, direct=direct)
    c.seen("vector", kind)
    if k == S and S > 1:
        c.seen("vector", "as_many_as_samples")
    for i, one in enumerate(st):
        for name, p in (("base", "v"), ("fn", "v"), ("root", "w")):
            got = np.asarray(one[name][p])
            c.ok(got.shape == vec.shape and bool(np.all(got == vec)), "vector_constant", f"{name}.{p} of sample {i}", got=got, want=vec)
        if numeric:
            c.close(one["root"]["y"], float(one["base"]["x"]) + float(np.sum(vec)), "vector_function", rtol=1e-12, atol=1e-12, msg=f"sample {i}")
        else:
            c.equal(float(one["root"]["y"]), float(one["base"]["x"]), "vector_function", f"sample {i}")
    for name, p in (("base", "v"), ("root", "w")):
        got = np.asarray(st[name][p])
        c.equal(got.shape, vec.shape if S == 1 else (S, *vec.shape), "vector_shape", f"{name}.{p}")
    c.nontrivial(kind, form, S, repr(vec.tolist()))


def overrides(c):
    """Arguments given to a node's own computation replace the sampled ones - whatever their value - and only those."""
    rng = c.rng
    S = int(rng.choice([1, 2, 6]))
    names = [str(n) for n in rng.permutation(["a", "b", "d", "e"])[: int(rng.integers(2, 5))]]
    coef = {n: float(rng.uniform(0.5, 3)) for n in names}

    def formula(**kw):
        return sum(coef[n] * kw[n] for n in names)

    args = {n: NumpyRandomFunc("uniform", low=1.0, high=2.0, seed=int(rng.integers(1e6))) if rng.uniform() < 0.6 else float(rng.uniform(1, 2)) for n in names}
    node = FunctionNode(formula, node_label="fn", **args)
    root = graphs.Plain(y=node, node_label="root")
    st = root.sample_parameters(num_samples=S)
    drawn = {n: np.array(st["fn"][n], dtype=float) for n in names}
    given = {}
    for n in names:
        if rng.uniform() < 0.5:
            given[n] = [0, 0.0, False, float(rng.uniform(3, 9)), rng.uniform(3, 9, S) if S > 1 else 4.5, np.zeros(S) if S > 1 else 0.0][int(rng.integers(0, 6))]
            c.seen("override", "falsy" if np.all(np.asarray(given[n]) == 0) else "value")
    got = node.compute(st, **given)
    want = sum(coef[n] * np.asarray(given.get(n, drawn[n]), dtype=float) for n in names)
    c.close(np.asarray(got, dtype=float) + np.zeros(() if S == 1 else S), want + np.zeros(() if S == 1 else S), "override", rtol=1e-12, atol=1e-12, msg=f"{names} with {sorted(given)} replaced")
    c.close(np.asarray(st["fn"]["function_node_result"], dtype=float), np.asarray(want) + np.zeros(() if S == 1 else S), "override_saved", rtol=1e-12, atol=1e-12)
    for n in names:
        c.ok(bool(np.array_equal(np.asarray(st["fn"][n], dtype=float), drawn[n])), "override_keeps_sample", n)
    # The same for a random node (a zero spread makes its draw certain).
    loc = float(rng.uniform(1, 5))
    draw = NumpyRandomFunc("normal", loc=loc, scale=0.0, seed=int(rng.integers(1e6)), node_label="draw")
    st = draw.sample_parameters(num_samples=S)
    c.ok(bool(np.all(np.asarray(st["draw"]["function_node_result"]) == loc)), "certain_draw")
    new = [0.0, 0, float(rng.uniform(6, 9))][int(rng.integers(0, 3))]
    c.ok(bool(np.all(np.asarray(draw.compute(st, loc=new)) == new)), "override_random", f"loc={new}")
    c.fact(S=S, names=names, given=sorted(given))
    c.nontrivial(S, tuple(names), repr(given), repr(drawn))


QUICK_SCALE = 8
SCENARIOS = [
    Scenario(vector_constants, quick=40, thorough=2000),
    Scenario(overrides, quick=40, thorough=2000),
    Scenario(history, quick=900, thorough=15000), Scenario(duplicate_labels, quick=2, thorough=5)]
