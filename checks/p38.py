"""P38 - derivatives taken through a parameter graph, and through the SALT2 model written for it."""

import math

import jax
import jax.numpy as jnp
import numpy as np
from sncosmo.models import SALT2Source
from sncosmo.salt2utils import BicubicInterpolator as ReferenceGrid

from lclmon.core import Scenario, Skip
from lightcurvelynx.astro_utils.salt2_color_law import SALT2ColorLaw
from lightcurvelynx.base_models import FunctionNode
from lightcurvelynx.effects.basic_effects import ConstantDimming
from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
from lightcurvelynx.math_nodes.single_value_node import SingleVariableNode
from lightcurvelynx.models.basic_models import ConstantSEDModel
from lightcurvelynx.models.salt2_jax import SALT2JaxModel
from lightcurvelynx.utils.bicubic_interp import BicubicInterpolator

RULE = (
    "Random graphs of jax expressions, function nodes with one or two outputs, single variables and models, with "
    "shared nodes, differentiation switched off for some constants and on for some intermediate values; the "
    "differentiable tree, value and every derivative are compared with double-precision dual numbers evaluated over an "
    "independent description of the graph. The SALT2 model's derivatives with respect to its parameters, and those of "
    "its grids and colour law with respect to position, are compared with the analytic and finite-difference "
    "derivatives of sncosmo's own implementation. Non-trivial: at least three derivatives that are not zero; distinct "
    "by graph or parameters."
)
REQUIRED = [
    "graph", "shared", "two_outputs", "off", "on", "on:output", "through:model", "root:generate", "root:state", "derivative:nonzero",
    "derivative:zero", "depth", "salt2:compute", "salt2:evaluate", "salt2:redshift", "salt2:from_graph", "salt2:dimmed",
    "salt2:outside", "salt2:derivative", "grid:derivative", "law:derivative",
]
ASSUMPTIONS = [
    "jax computes in single precision: derivatives are compared to single-precision accuracy, widened by how much the reference moves when its inputs are rounded to single precision.",
]
DATA = "/repo/tests/lightcurvelynx/data/truncated-salt2-h17"


class Dual:
    """A double-precision number with its derivatives, keyed by leaf."""

    def __init__(self, v, d=None):
        self.v, self.d = float(v), d or {}

    @staticmethod
    def of(x):
        return x if isinstance(x, Dual) else Dual(x)

    def chain(self, v, s):
        return Dual(v, {k: s * x for k, x in self.d.items()})

    @staticmethod
    def mix(v, a, da, b, db):
        out = {k: da * x for k, x in a.d.items()}
        for k, x in b.d.items():
            out[k] = out.get(k, 0.0) + db * x
        return Dual(v, out)

    def __add__(self, o):
        o = Dual.of(o)
        return Dual.mix(self.v + o.v, self, 1.0, o, 1.0)

    def __sub__(self, o):
        o = Dual.of(o)
        return Dual.mix(self.v - o.v, self, 1.0, o, -1.0)

    def __rsub__(self, o):
        return Dual.of(o) - self

    def __mul__(self, o):
        o = Dual.of(o)
        return Dual.mix(self.v * o.v, self, o.v, o, self.v)

    def __truediv__(self, o):
        o = Dual.of(o)
        return Dual.mix(self.v / o.v, self, 1 / o.v, o, -self.v / o.v**2)

    def __rtruediv__(self, o):
        return Dual.of(o) / self

    def __pow__(self, n):
        return self.chain(self.v**n, n * self.v ** (n - 1))

    def __neg__(self):
        return self.chain(-self.v, -1.0)

    __radd__, __rmul__ = __add__, __mul__


FN = {
    "sin": (math.sin, math.cos), "cos": (math.cos, lambda x: -math.sin(x)), "tanh": (math.tanh, lambda x: 1 - math.tanh(x) ** 2),
    "exp": (math.exp, math.exp), "sqrt": (math.sqrt, lambda x: 0.5 / math.sqrt(x)), "log": (math.log, lambda x: 1 / x),
    "log10": (math.log10, lambda x: 1 / (x * math.log(10))), "log2": (math.log2, lambda x: 1 / (x * math.log(2))),
    "atan": (math.atan, lambda x: 1 / (1 + x * x)), "asinh": (math.asinh, lambda x: 1 / math.sqrt(1 + x * x)),
    "degrees": (math.degrees, lambda x: 180 / math.pi), "radians": (math.radians, lambda x: math.pi / 180),
    "fabs": (abs, lambda x: math.copysign(1.0, x)), "floor": (math.floor, lambda x: 0.0),
    "sinh": (math.sinh, math.cosh), "cosh": (math.cosh, math.sinh), "acos": (math.acos, lambda x: -1 / math.sqrt(1 - x * x)),
    "asin": (math.asin, lambda x: 1 / math.sqrt(1 - x * x)), "tan": (math.tan, lambda x: 1 + math.tan(x) ** 2),
}


def call(name):
    f, g = FN[name]
    return lambda x: Dual.of(x).chain(f(Dual.of(x).v), g(Dual.of(x).v))


def pick(a, b, sign):
    """The larger (or smaller) of two; a tie has no derivative."""
    a, b = Dual.of(a), Dual.of(b)
    if abs(a.v - b.v) < 1e-5 * (1 + abs(a.v)):
        raise Skip("tie")
    return a if sign * (a.v - b.v) > 0 else b


NAMES = {k: call(k) for k in FN} | {
    "pi": math.pi, "e": math.e,
    "max": lambda a, b: pick(a, b, 1),
    "min": lambda a, b: pick(a, b, -1),
    "power": lambda a, n: Dual.of(a) ** n,
}

# Expressions of one to three variables; every variable of the node appears in its keyword arguments.
EXPRESSIONS = [
    ("a + b", "ab"), ("a * b - 0.5", "ab"), ("a / (1.5 + b * b)", "ab"), ("a - b * c", "abc"), ("sin(a) * b", "ab"),
    ("cos(a + b)", "ab"), ("tanh(a) - b", "ab"), ("exp(-a * a)", "a"), ("sqrt(1 + a * a)", "a"), ("log(1 + a * a) * b", "ab"),
    ("log10(2 + a * a)", "a"), ("log2(3 + b * b) + a", "ab"), ("a ** 3 - 2 * a", "a"), ("power(a, 2) + b", "ab"),
    ("max(a, b)", "ab"), ("min(a, b) * c", "abc"), ("fabs(a) + b", "ab"), ("pi * a", "a"), ("degrees(a) / 100", "a"),
    ("radians(a) * 10 + b", "ab"), ("-a + c / 2", "ac"), ("floor(a) + b", "ab"), ("sinh(a / 4) + cosh(b / 4)", "ab"),
    ("asinh(a)", "a"), ("atan(a) * c", "ac"), ("acos(tanh(a) * 0.9)", "a"), ("asin(sin(a) * 0.5)", "a"), ("tan(tanh(a))", "a"),
    ("(a + b) * (a - c)", "abc"), ("1 / (1 + exp(a))", "a"), ("a * e", "a"),
]
FUNCTIONS = [
    (lambda a, b: a * b + 1.0, lambda a, b: a * b + 1.0, 1),
    (lambda a, b: jnp.sin(a) - b, lambda a, b: call("sin")(a) - b, 1),
    (lambda a, b: (a + b, a * b), lambda a, b: (a + b, a * b), 2),
    (lambda a, b: [jnp.tanh(a), a - 3.0 * b], lambda a, b: (call("tanh")(a), a - b * 3.0), 2),
]


def _jax_func(i):
    f = FUNCTIONS[i][0]

    def graph_function(a, b):
        return f(a, b)

    return graph_function


class Item:
    """One node: its object, its inputs as (kind, node or value, name) and its outputs."""

    def __init__(self, label, obj, rel, outs, dual):
        self.label, self.obj, self.rel, self.outs, self.dual = label, obj, rel, outs, dual
        self.allow = {p: r[0] == "const" for p, r in rel.items()} | {o: False for o in outs}


def build(c):
    rng = c.rng
    items = []

    def const():
        return ("const", float(np.round(rng.uniform(-2, 2), 3)), None)

    def source():
        """A constant, or a value of an earlier node, with the object to pass as its setter."""
        if not items or rng.uniform() < 0.25:
            r = const()
            return r, r[1]
        it = items[int(rng.integers(len(items)))] if rng.uniform() < 0.5 else items[-1]
        pool = list(it.outs) + (list(it.rel) if rng.uniform() < 0.3 or not it.outs else [])
        p = pool[int(rng.integers(len(pool)))]
        arg = it.obj if it.outs == ["function_node_result"] and p == it.outs[0] and rng.uniform() < 0.5 else getattr(it.obj, p)
        return ("link", it, p), arg

    for k in range(int(rng.integers(2, 9))):
        label = f"n{k}"
        u = rng.uniform()
        if u < 0.2 or k == 0:
            r, arg = source() if k and rng.uniform() < 0.5 else ((lambda x: (x, x[1]))(const()))
            items.append(Item(label, SingleVariableNode("x", arg, node_label=label), {"x": r}, [], None))
        elif u < 0.3:
            r, arg = source()
            obj = ConstantSEDModel(brightness=arg, node_label=label)
            items.append(Item(label, obj, {"brightness": r}, [], None))
            c.seen("through", "model")
        elif u < 0.5:
            i = int(rng.integers(len(FUNCTIONS)))
            (ra, aa), (rb, ab) = source(), source()
            outs = ["p", "q"] if FUNCTIONS[i][2] == 2 else ["function_node_result"]
            obj = FunctionNode(_jax_func(i), node_label=label, outputs=outs if len(outs) > 1 else None, a=aa, b=ab)
            items.append(Item(label, obj, {"a": ra, "b": rb}, outs, FUNCTIONS[i][1]))
        else:
            expr, names = EXPRESSIONS[int(rng.integers(len(EXPRESSIONS)))]
            got = {n: source() for n in names}
            obj = BasicMathNode(expr, backend="jax", node_label=label, **{n: a for n, (_, a) in got.items()})
            dual = (lambda e: lambda **kw: eval(e, {"__builtins__": {}}, {**NAMES, **kw}))(expr)
            items.append(Item(label, obj, {n: r for n, (r, _) in got.items()}, ["function_node_result"], dual))
    if not items[-1].outs:
        src = items[-1]
        p = list(src.rel)[0]
        obj = BasicMathNode("1.5 * a - a * a", backend="jax", node_label="root", a=getattr(src.obj, p))
        items.append(Item("root", obj, {"a": ("link", src, p)}, ["function_node_result"], lambda a: a * 1.5 - a * a))
    return items


def reference(root, leaves, jitter=None):
    """Dual-number values of every (node, parameter); `leaves` are the independent variables."""
    done = {}

    def value(it, p):
        if (it, p) in done:
            return done[(it, p)]
        if p in it.rel:
            r = it.rel[p]
            v = Dual(r[1]) if r[0] == "const" else value(r[1], r[2])
            done[(it, p)] = leaf(it, p, v)
        else:
            args = {q: value(it, q) for q in it.rel}
            out = it.dual(**args)
            for o, v in zip(it.outs, out if len(it.outs) > 1 else [out], strict=True):
                done[(it, o)] = leaf(it, o, Dual.of(v))
        return done[(it, p)]

    def leaf(it, p, v):
        if (it.label, p) not in leaves:
            return v
        x = v.v * (1 + (jitter or {}).get((it.label, p), 0.0))
        return Dual(x, {(it.label, p): 1.0})

    return {o: value(root, o) for o in root.outs}


def graphs(c):
    rng = c.rng
    items = build(c)
    root = items[-1]
    reach, todo = [], [root]
    while todo:
        it = todo.pop()
        if it in reach:
            continue
        reach.append(it)
        todo.extend(r[1] for r in it.rel.values() if r[0] == "link")
    for it in reach:
        for p in list(it.rel) + list(it.outs):
            if rng.uniform() < 0.12 and not (it is root and p in it.outs):
                it.allow[p] = not it.allow[p]
                it.obj.set_allow_gradient(p, it.allow[p])
                c.seen("on" if it.allow[p] else "off")
                if it.allow[p] and p in it.outs:
                    c.seen("on", "output")
    # The tree: the first differentiable value met on every way up.
    leaves, seen, todo = set(), set(), [root]
    while todo:
        it = todo.pop()
        if it in seen:
            continue
        seen.add(it)
        for p in list(it.rel) + list(it.outs):
            if it.allow[p]:
                leaves.add((it.label, p))
            elif p in it.rel and it.rel[p][0] == "link":
                todo.append(it.rel[p][1])
    users = [r[1] for it in reach for r in it.rel.values() if r[0] == "link"]
    if len(users) > len(set(users)):
        c.seen("shared")
    if any(len(it.outs) > 1 for it in reach):
        c.seen("two_outputs")
    st = root.obj.sample_parameters()
    tree = root.obj.build_pytree(st)
    tree = {k: v for k, v in tree.items() if k.startswith("n") or k == "root"}
    got = {(a, p) for a, ps in tree.items() for p in ps if ps[p] is not None}
    extra = {x for x in got if not (x in leaves)} - {(it.label, "t0") for it in reach}
    c.ok(not extra and leaves <= got, "tree", "differentiable values", extra=sorted(extra), missing=sorted(leaves - got))
    if not leaves:
        c.seen("no_leaves")
        return
    which = root.outs[int(rng.integers(len(root.outs)))]
    by_state = rng.uniform() < 0.5
    c.seen("root", "state" if by_state else "generate")

    def through_state(t):
        return root.obj.get_param(root.obj.sample_parameters(given_args=t), which)

    def through_generate(t):
        out = root.obj.generate(t)
        return out if len(root.outs) == 1 else out[root.outs.index(which)]

    f = through_state if by_state else through_generate
    tree = jax.tree_util.tree_map(float, tree)
    value, grads = jax.value_and_grad(f)(tree)
    want = reference(root, leaves)[which]
    jit = reference(root, leaves, {k: float(rng.choice([-1, 1])) * 3e-7 for k in leaves})[which]
    tol = 2e-5 * (1 + abs(want.v)) + 30 * abs(want.v - jit.v)
    if tol > 0.05 * (1 + abs(want.v)) or not np.isfinite(want.v):
        c.seen("ill_conditioned")
        return
    c.ok(abs(float(value) - want.v) <= tol, "value", f"{float(value)} instead of {want.v}")
    c.ok(abs(float(np.asarray(root.obj.get_param(st, which))) - want.v) <= tol, "plain_value", "value drawn without derivatives")
    n = 0
    for a, p in sorted(leaves):
        g = float(grads[a][p])
        w = want.d.get((a, p), 0.0)
        tol = 1e-4 * (1 + abs(w)) + 100 * abs(w - jit.d.get((a, p), 0.0))
        if tol > 0.2 * (1 + abs(w)):
            c.seen("ill_conditioned")
            continue
        c.ok(abs(g - w) <= tol, "derivative", f"d/d {a}.{p}: {g} instead of {w}")
        c.seen("derivative", "nonzero" if w else "zero")
        n += w != 0
    c.seen("graph")
    c.seen("depth", n=len(reach))
    c.fact(nodes=len(reach), leaves=len(leaves), value=want.v)
    if n >= 3:
        c.nontrivial(tuple((type(i.obj).__name__, tuple(i.rel)) for i in reach), tuple(sorted(leaves)), round(want.v, 6))


_CACHE = {}


def _salt():
    if not _CACHE:
        _CACHE["source"] = SALT2Source(modeldir=DATA)
    return _CACHE["source"]


def salt2(c):
    rng = c.rng
    src = _salt()
    z = float(rng.uniform(0.01, 0.6)) if rng.uniform() < 0.5 else None
    zz = z or 0.0
    x0, x1, col = (float(np.round(v, 4)) for v in (rng.uniform(0.1, 2), rng.uniform(-2, 2), rng.uniform(-0.3, 0.3)))
    t0 = float(np.round(rng.uniform(-20, 20), 3))
    dim = float(rng.uniform(0.1, 0.9)) if rng.uniform() < 0.4 else None
    graph = rng.uniform() < 0.4
    hub = SingleVariableNode("v", x0, node_label="hub")
    m = SALT2JaxModel(
        x0=BasicMathNode("2 * v", backend="jax", node_label="twice", v=hub.v) if graph else x0,
        x1=x1, c=col, t0=t0, redshift=z, model_dir=DATA, node_label="sn",
    )
    amp = 2 * x0 if graph else x0
    if dim is not None:
        m.add_effect(ConstantDimming(dim))
        c.seen("salt2", "dimmed")
    lo, hi = float(src.minwave()), float(src.maxwave())
    p0, p1 = float(src.minphase()), float(src.maxphase())
    nt, nw = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    phase = rng.uniform(p0 + 0.2, p1 - 0.2, nt)
    wr = np.sort(rng.uniform(lo + 1, hi - 1, nw))
    if rng.uniform() < 0.2:
        phase[0] = p1 + 5 if rng.uniform() < 0.5 else p0 - 5
        c.seen("salt2", "outside")
    full = rng.uniform() < 0.7 or z is not None or dim is not None
    times, waves = t0 + phase * (1 + zz), wr * (1 + zz)
    i, j = int(rng.integers(nt)), int(rng.integers(nw))
    tree = m.build_pytree(m.sample_parameters())
    tree = {a: {p: v for p, v in ps.items() if v is not None} for a, ps in tree.items()}
    c.equal(sorted((a, p) for a, ps in tree.items() for p in ps), sorted([("sn", k) for k in ("t0", "x1", "c")] + [("hub", "v") if graph else ("sn", "x0")]), "salt2_tree")

    if full:
        def f(t):
            return m.evaluate_sed(times, waves, given_args=t)[i, j]
    else:
        def f(t):
            return m.compute_sed(times, waves, m.sample_parameters(given_args=t))[i, j]
    c.seen("salt2", "evaluate" if full else "compute")
    if z is not None:
        c.seen("salt2", "redshift")
    if graph:
        c.seen("salt2", "from_graph")
    val, g = jax.value_and_grad(f)(tree)
    g = {a: {p: float(v) for p, v in ps.items()} for a, ps in g.items()}

    def grid(ph, w, k):
        """M0 or M1 through sncosmo, which is linear in the two."""
        src.set(x0=1.0, x1=0.0, c=0.0)
        m0 = src._flux(np.array([ph]), np.array([w]))[0, 0]
        if k == 0:
            return m0
        src.set(x1=1.0)
        return src._flux(np.array([ph]), np.array([w]))[0, 0] - m0

    ph, w = (times[i] - t0) / (1 + zz), waves[j] / (1 + zz)
    inside = p0 <= phase[i] <= p1
    law = float(src.colorlaw(np.array([w]))[0])
    # erg/s/cm2/AA to nJy is lambda^2 / c[AA/s] * 1e32.
    unit = w**2 / 2.99792458e18 * 1e32 * (1 + zz) * (1.0 if dim is None else dim)
    base = 10 ** (-0.4 * col * law) * unit
    m0, m1 = (grid(ph, w, 0), grid(ph, w, 1)) if inside else (0.0, 0.0)
    flux = amp * (m0 + x1 * m1) * base
    scale = (abs(amp) + 1) * (abs(m0) + (abs(x1) + 1) * abs(m1)) * base + 1e-12
    tol = 3e-4 * scale
    c.ok(abs(float(val) - flux) <= tol, "salt2_value", f"{float(val)} instead of {flux}")
    d0 = (m0 + x1 * m1) * base * (2 if graph else 1)
    c.ok(abs((g["hub"]["v"] if graph else g["sn"]["x0"]) - d0) <= 2 * tol, "salt2_x0", f"{g} instead of {d0}")
    c.ok(abs(g["sn"]["x1"] - amp * m1 * base) <= tol, "salt2_x1", f"{g['sn']['x1']} instead of {amp * m1 * base}")
    dc = -0.4 * math.log(10) * law * flux
    c.ok(abs(g["sn"]["c"] - dc) <= 3 * tol * (1 + abs(law)), "salt2_c", f"{g['sn']['c']} instead of {dc}")
    if inside:
        h = 1e-4
        left, right = ((grid(ph + s, w, 0) + x1 * grid(ph + s, w, 1)) * amp * base for s in (-h, h))
        mid = amp * (m0 + x1 * m1) * base
        one_sided = abs((right - mid) - (mid - left)) / h
        slope = (right - left) / (2 * h)
        # (the linear edges have kinks at the nodes; a phase within rounding of one has two slopes)
        if one_sided < 0.02 * (abs(slope) + scale * 0.01):
            wt = -slope / (1 + zz)
            c.ok(abs(g["sn"]["t0"] - wt) <= 0.01 * abs(wt) + 2e-2 * scale, "salt2_t0", f"{g['sn']['t0']} instead of {wt}")
            c.seen("salt2", "t0")
        c.seen("salt2", "derivative")
    c.fact(flux=flux, val=float(val), z=z)
    if inside:
        c.nontrivial(x0, x1, col, t0, z)


def grids(c):
    rng = c.rng
    nx, ny = int(rng.integers(6, 14)), int(rng.integers(6, 14))
    x = np.linspace(0, nx - 1, nx) * float(rng.choice([0.5, 1.0, 2.0])) - 3.0
    y = np.linspace(0, ny - 1, ny) * 10.0 + 100.0
    zv = rng.normal(0, 1, (nx, ny))
    mine, other = BicubicInterpolator(x, y, zv), ReferenceGrid(x, y, zv)
    dx, dy = x[1] - x[0], y[1] - y[0]
    for _ in range(4):
        # well inside a cell, away from the outermost ones
        ix, iy = int(rng.integers(1, nx - 2)), int(rng.integers(1, ny - 2))
        px, py = x[ix] + dx * rng.uniform(0.05, 0.95), y[iy] + dy * rng.uniform(0.05, 0.95)
        g = jax.grad(lambda p: mine(jnp.array([p[0]]), jnp.array([p[1]]))[0, 0])(jnp.array([px, py]))
        h = 1e-4
        fx = (other(np.array([px + h * dx]), np.array([py]))[0, 0] - other(np.array([px - h * dx]), np.array([py]))[0, 0]) / (2 * h * dx)
        fy = (other(np.array([px]), np.array([py + h * dy]))[0, 0] - other(np.array([px]), np.array([py - h * dy]))[0, 0]) / (2 * h * dy)
        c.ok(abs(float(g[0]) - fx) <= 2e-3 * (1 + abs(fx)) / min(dx, 1), "grid_x", f"{float(g[0])} instead of {fx}")
        c.ok(abs(float(g[1]) - fy) <= 2e-3 * (1 + abs(fy)), "grid_y", f"{float(g[1])} instead of {fy}")
        c.seen("grid", "derivative")
    src = _salt()
    lawfile = DATA + "/salt2_color_correction.dat"
    law = SALT2ColorLaw.from_file(lawfile)
    for w in rng.uniform(2500, 9500, 4):
        g = float(jax.grad(lambda v: law.apply(jnp.array([v]))[0])(float(w)))
        h = 0.5
        left, mid, right = (float(src.colorlaw(np.array([w + s]))[0]) for s in (-h, 0.0, h))
        if abs((right - mid) - (mid - left)) < 1e-2 * abs(right - left):
            want = (right - left) / (2 * h)
            c.ok(abs(g - want) <= 5e-3 * abs(want) + 1e-6, "law", f"{g} instead of {want} at {w}")
            c.seen("law", "derivative")
    c.nontrivial(nx, ny, float(zv[0, 0]))


SCENARIOS = [
    Scenario(graphs, quick=160, thorough=4000),
    Scenario(salt2, quick=50, thorough=1000),
    Scenario(grids, quick=24, thorough=400),
]
