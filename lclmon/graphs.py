"""Random parameter graphs with a plain record of every declared relation."""

import numpy as np

from lightcurvelynx.base_models import FunctionNode, ParameterizedNode
from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
from lightcurvelynx.math_nodes.given_sampler import (
    BinarySampler,
    GivenValueList,
    GivenValueSampler,
    GivenValueSelector,
    TableSampler,
)
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.math_nodes.single_value_node import SingleVariableNode
from lightcurvelynx.models.basic_models import ConstantSEDModel, StepModel
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel


class Plain(ParameterizedNode):
    """A bare node with parameters added in the given order."""

    def __init__(self, node_label=None, **params):
        super().__init__(node_label=node_label)
        for k, v in params.items():
            self.add_parameter(k, v)

    def add(self, name, value):
        self.add_parameter(name, value)


class Counted:
    """A numeric function that records every call: out_j = c_j + sum_k w_jk x_k."""

    def __init__(self, rng, names, n_out, name):
        self.names, self.n_out = list(names), n_out
        self.w = {k: rng.uniform(0.5, 2.0, n_out) * rng.choice([-1, 1], n_out) for k in names}
        self.c = rng.uniform(-10, 10, n_out)
        self.calls = 0
        self.as_list = bool(rng.integers(0, 2))

        def func(**kw):
            self.calls += 1
            out = self.apply(kw)
            if n_out == 1:
                return out[0]
            return list(out) if self.as_list else tuple(out)

        func.__name__ = name
        self.func = func

    def apply(self, kw):
        return [self.c[j] + sum(self.w[k][j] * kw[k] for k in self.names) if self.names else self.c[j] for j in range(self.n_out)]


class Node:
    """One node and how each of its parameters was declared.

    relations: name -> ("const", value) | ("link", Node, param) | ("output", index) | ("free",)
    """

    def __init__(self, obj, kind, relations, extra=None, numeric=True):
        self.obj, self.kind, self.rel, self.extra = obj, kind, dict(relations), extra or {}
        self.objects = []

    def name(self):
        return str(self.obj)

    def deps(self):
        out = [r[1] for r in self.rel.values() if r[0] == "link" and r[1] is not self]
        return out + list(self.objects)


class Graph:
    def __init__(self, c, size, multi=None, allow_callable=True):
        self.c, self.rng = c, c.rng
        self.nodes = []
        self.n_func = 0
        self.labels = 0
        self.callables = []
        self.allow_callable = allow_callable
        for _ in range(size):
            self.add_random_node()
        self.make_root(multi)

    # ---- pieces ---------------------------------------------------------------------------
    def label(self, p=0.4):
        if self.rng.uniform() < p:
            self.labels += 1
            return str(self.rng.choice(["host", "src", "my node", "f:g"])) + str(self.labels)
        return None

    def numeric_params(self, below=None):
        pool = self.nodes if below is None else self.nodes[:below]
        return [(n, p) for n in pool for p in n.rel if p not in n.extra.get("nonnumeric", ())]

    def source(self, name, below=None, p_link=0.7, only_own=False):
        """(value to declare, relation) for a parameter called `name`."""
        rng, c = self.rng, self.c
        cands = self.numeric_params(below)
        if cands and rng.uniform() < p_link:
            # Recent nodes are more likely, which makes longer chains.
            k = int(len(cands) * rng.beta(2, 1)) if rng.uniform() < 0.6 else int(rng.integers(0, len(cands)))
            n, p = cands[min(k, len(cands) - 1)]
            same = [m for m in (self.nodes if below is None else self.nodes[:below]) if name in m.rel and name not in m.extra.get("nonnumeric", ())]
            if same and rng.uniform() < 0.3:
                m = same[int(rng.integers(0, len(same)))]
                if isinstance(m.obj, FunctionNode):
                    if m.rel[name][0] == "output":
                        c.seen("link", "function_same_output")
                        return m.obj, ("link", m, name)
                else:
                    c.seen("link", "node_same_name")
                    return m.obj, ("link", m, name)
            if isinstance(n.obj, FunctionNode) and p == "function_node_result" and rng.uniform() < 0.5:
                c.seen("link", "function_object")
                return n.obj, ("link", n, p)
            c.seen("link", "method")
            return getattr(n.obj, p), ("link", n, p)
        v = float(rng.uniform(-5, 5)) if rng.uniform() < 0.7 else int(rng.integers(-9, 9))
        c.seen("link", "constant")
        return v, ("const", v)

    def add(self, obj, kind, rel, **extra):
        n = Node(obj, kind, rel, extra)
        self.nodes.append(n)
        self.c.seen("node", kind)
        return n

    def add_random_node(self):
        rng = self.rng
        kind = str(rng.choice(["plain", "model", "func", "func", "rand", "rand", "list", "selector", "table", "math", "single", "binary", "selfref", "sampler"]))
        return getattr(self, "_" + kind)()

    def _plain(self):
        names = [str(x) for x in self.rng.choice(["x", "y", "ra", "alpha", "function_node_result", "out_a"], int(self.rng.integers(1, 5)), replace=False)]
        vals, rel = {}, {}
        for k in names:
            vals[k], rel[k] = self.source(k)
        return self.add(Plain(node_label=self.label(), **vals), "plain", rel)

    def _model(self):
        cls = [ConstantSEDModel, StepModel][int(self.rng.integers(0, 2))]
        own = ["brightness"] if cls is ConstantSEDModel else ["brightness", "t1"]
        vals, rel = {}, {"distance": ("const", None)}
        for k in ["ra", "dec", "redshift", "t0"]:
            if self.rng.uniform() < 0.7 or (cls is StepModel and k == "t0"):
                vals[k], rel[k] = self.source(k)
            else:
                rel[k] = ("const", None)
        for k in own:
            vals[k], rel[k] = self.source(k)
        non = [k for k, r in rel.items() if r == ("const", None)]
        return self.add(cls(node_label=self.label(), **vals), "model", rel, nonnumeric=set(non))

    def _func(self):
        rng = self.rng
        names = [str(x) for x in rng.choice(["a", "b", "x", "low", "value"], int(rng.integers(0, 4)), replace=False)]
        n_out = int(rng.choice([1, 1, 2, 3]))
        if n_out == 1:
            outs = None if rng.uniform() < 0.6 else [str(rng.choice(["out_a", "ra", "brightness"]))]
        else:
            outs = [str(x) for x in rng.choice(["out_a", "ra", "dec", "t0", "redshift"], n_out, replace=False)]
        vals, rel = {}, {}
        for k in names:
            vals[k], rel[k] = self.source(k)
        f = Counted(rng, names, n_out, str(rng.choice(["f", "g", "combine"])))
        # Some inputs become fixed parameters of the function rather than graph parameters.
        fixed = {}
        for k in list(names):
            if rel[k][0] == "const" and rng.uniform() < 0.3:
                fixed[k] = vals.pop(k)
                rel.pop(k)
                self.c.seen("fixed_params")
        obj = FunctionNode(f.func, node_label=self.label(), outputs=outs, fixed_params=fixed or None, **vals)
        for j, o in enumerate(outs or ["function_node_result"]):
            rel[o] = ("output", j)
        return self.add(obj, "func", rel, func=f, fixed=fixed, inputs=list(vals))

    def _rand(self):
        rng = self.rng
        name = str(rng.choice(["uniform", "normal"]))
        label, seed = self.label(), int(rng.integers(0, 2**31))
        if name == "uniform":
            v, r = float(rng.uniform(-5, 5)), None
            obj = NumpyRandomFunc("uniform", low=v, high=v + 3.0, seed=seed, node_label=label)
            return self.add(obj, "rand", {"low": ("const", v), "high": ("const", v + 3.0), "function_node_result": ("output", 0)}, dist="uniform", inputs=["low", "high"])
        v, r = self.source("loc", p_link=0.8)
        obj = NumpyRandomFunc("normal", loc=v, scale=0.5, seed=seed, node_label=label)
        return self.add(obj, "rand", {"loc": r, "scale": ("const", 0.5), "function_node_result": ("output", 0)}, dist="normal", inputs=["loc", "scale"])

    def _sampler(self):
        rng = self.rng
        vals = [float(x) for x in rng.uniform(-50, 50, int(rng.integers(1, 6)))]
        obj = GivenValueSampler(vals, seed=int(rng.integers(0, 2**31)), node_label=self.label())
        return self.add(obj, "sampler", {"function_node_result": ("output", 0)}, values=vals, inputs=[])

    def _binary(self):
        obj = BinarySampler(float(self.rng.uniform(0.2, 0.8)), seed=int(self.rng.integers(0, 2**31)), node_label=self.label())
        return self.add(obj, "binary", {"function_node_result": ("output", 0)}, values=[False, True], inputs=[])

    def _list(self):
        vals = [float(x) for x in self.rng.uniform(-50, 50, 400)]
        obj = GivenValueList(vals, node_label=self.label())
        return self.add(obj, "list", {"function_node_result": ("output", 0)}, values=vals, next=0, inputs=[])

    def _table(self):
        cols = {k: self.rng.uniform(-50, 50, 400) for k in ["ra", "out_a"]}
        obj = TableSampler({k: v.copy() for k, v in cols.items()}, in_order=True, node_label=self.label())
        return self.add(obj, "table", {"ra": ("output", 0), "out_a": ("output", 1)}, columns=cols, next=0, inputs=[])

    def _selector(self):
        rng = self.rng
        vals = [float(x) for x in rng.uniform(-50, 50, int(rng.integers(2, 6)))]
        idx = self.add(GivenValueSampler(len(vals), seed=int(rng.integers(0, 2**31)), node_label=self.label()), "sampler",
                       {"function_node_result": ("output", 0)}, values=list(range(len(vals))), inputs=[])
        obj = GivenValueSelector(vals, idx.obj if rng.uniform() < 0.5 else idx.obj.function_node_result, node_label=self.label())
        return self.add(obj, "selector", {"index": ("link", idx, "function_node_result"), "function_node_result": ("output", 0)}, values=vals, inputs=["index"])

    def _math(self):
        va, ra = self.source("a", p_link=0.9)
        vb, rb = self.source("b", p_link=0.9)
        # Every node has coefficients of its own: with equal ones, "k*a - (k*a - b + 1) + 1" would not depend on a.
        ca, cb = (round(float(x), 3) for x in self.rng.uniform(0.5, 3.0, 2))
        obj = BasicMathNode(f"{ca} * a - {cb} * b + 1.0", a=va, b=vb, node_label=self.label())
        return self.add(obj, "math", {"a": ra, "b": rb, "function_node_result": ("output", 0)}, inputs=["a", "b"], coef=(ca, cb))

    def _single(self):
        v, r = self.source("value")
        obj = SingleVariableNode("value", v, **({"node_label": lab} if (lab := self.label()) else {}))
        return self.add(obj, "single", {"value": r})

    def _selfref(self):
        """A node one of whose parameters is computed from another parameter of the same node."""
        v, r = self.source("x")
        obj = Plain(node_label=self.label(), x=v)
        n = Node(obj, "selfref", {"x": r})
        f = Counted(self.rng, ["arg"], 1, "own")
        fobj = FunctionNode(f.func, arg=obj.x, node_label=self.label())
        fn = Node(fobj, "func", {"arg": ("link", n, "x"), "function_node_result": ("output", 0)}, dict(func=f, fixed={}, inputs=["arg"], private=True, nonnumeric={"arg", "function_node_result"}))
        obj.add("z", fobj)
        n.rel["z"] = ("link", fn, "function_node_result")
        if self.rng.uniform() < 0.6:  # a parameter that simply repeats another one of the same node
            obj.add("w", obj.x)
            n.rel["w"] = ("link", n, "x")
            if self.rng.uniform() < 0.5:
                obj.add("v", obj.w if self.rng.uniform() < 0.5 else obj.z)
                n.rel["v"] = ("link", n, obj.setters["v"].value)
            self.c.seen("link", "own_parameter")
        self.nodes.append(n)
        self.nodes.append(fn)
        self.c.seen("node", "selfref")
        return n

    def make_root(self, multi):
        rng = self.rng
        if multi:
            models = [n for n in self.nodes if n.kind == "model"]
            while len(models) < 2:
                models.append(self._model())
            models = [models[int(i)] for i in rng.permutation(len(models))[: int(rng.integers(2, 4))]]
            vals, rel = {}, {"distance": ("const", None), "redshift": ("const", None)}
            for k in ["ra", "dec", "t0"]:
                vals[k], rel[k] = self.source(k, p_link=0.8)
            lab = self.label()
            objs = [m.obj for m in models]
            if multi == "random":
                names = [f"choice{i}" for i in range(len(objs))]
                obj = RandomMultiObjectModel(objs, object_names=names, node_label=lab, **vals)
                rel["selected_object"] = ("hidden",)
                root = self.add(obj, "random_multi", rel, values=names, nonnumeric={"distance", "redshift", "selected_object"})
            elif multi == "nested" and len(objs) > 2:
                inner_obj = AdditiveMultiObjectModel(objs[:2], node_label=self.label())
                inner = self.add(inner_obj, "additive_multi", {k: ("const", None) for k in ["ra", "dec", "redshift", "t0", "distance"]}, nonnumeric={"ra", "dec", "redshift", "t0", "distance"})
                inner.objects = models[:2]
                obj = AdditiveMultiObjectModel([inner_obj] + objs[2:], node_label=lab, **vals)
                root = self.add(obj, "nested_multi", rel, nonnumeric={"distance", "redshift"})
                root.objects = [inner] + models[2:]
                self.root = root
                return
            else:
                obj = AdditiveMultiObjectModel(objs, node_label=lab, **vals)
                root = self.add(obj, "additive_multi", rel, nonnumeric={"distance", "redshift"})
            root.objects = models
            self.root = root
            return
        k = int(rng.integers(1, 6))
        vals, rel = {}, {}
        for i in range(k):
            name = f"p{i}"
            if self.allow_callable and rng.uniform() < 0.1:
                f = Counted(rng, [], 1, "constant")
                vals[name], rel[name] = f.func, ("callable", f)
                self.callables.append(f)
                self.c.seen("link", "callable")
            else:
                vals[name], rel[name] = self.source(name, p_link=0.9)
        self.root = self.add(Plain(node_label=self.label(), **vals), "plain", rel)

    # ---- questions ------------------------------------------------------------------------
    def reachable(self):
        out, todo = [], [self.root]
        while todo:
            n = todo.pop()
            if n in out:
                continue
            out.append(n)
            todo.extend(n.deps())
        return out

    def edges(self):
        """Direct parameter -> parameter relations over reachable nodes, as ((node, p), (node, p))."""
        out = set()
        for n in self.reachable():
            outs = [p for p, r in n.rel.items() if r[0] == "output"]
            for p, r in n.rel.items():
                if r[0] == "link":
                    out.add(((r[1], r[2]), (n, p)))
            for i in n.extra.get("inputs", ()):
                for o in outs:
                    out.add(((n, i), (n, o)))
        return out

    def descendants(self):
        fwd = {}
        for a, b in self.edges():
            fwd.setdefault(a, set()).add(b)
        memo = {}

        def walk(a):
            if a not in memo:
                memo[a] = set()
                for b in fwd.get(a, ()):
                    memo[a] |= {b} | walk(b)
            return memo[a]

        return {(n, p): walk((n, p)) for n in self.reachable() for p in n.rel}
