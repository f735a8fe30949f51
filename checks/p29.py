"""P29 - expression nodes against Python's own reading of the expression, and hostile expressions."""

import ast
import math

import numpy as np

from lclmon.core import Scenario, Skip
from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.single_value_node import SingleVariableNode

RULE = (
    "Random expressions over every operator, function and constant the node lists (written with few parentheses, so "
    "precedence matters), evaluated through each backend for single and batched samples and compared with Python's "
    "evaluation of the same text sample by sample; and a corpus of randomly composed forbidden expressions with canary "
    "side effects that must be refused at construction. Non-trivial: an expression with at least 3 operations and one "
    "variable; distinct by text and backend."
)
FUNCS1 = {
    "abs": None, "fabs": None, "acos": "unit", "asin": "unit", "acosh": "ge1", "asinh": None, "atan": None, "cos": None, "cosh": "small",
    "ceil": None, "floor": None, "trunc": None, "degrees": None, "rad2deg": None, "deg2rad": None, "radians": None,
    "exp": "small", "log": "pos", "log10": "pos", "log2": "pos", "sin": None, "sinh": "small", "sqrt": "pos", "tan": None, "tanh": None,
}
FUNCS2 = ["atan2", "pow", "power", "max", "min"]
REQUIRED = [
    "func:abs", "func:fabs", "func:acos", "func:asin", "func:acosh", "func:asinh", "func:atan", "func:cos", "func:cosh", "func:ceil",
    "func:floor", "func:trunc", "func:degrees", "func:rad2deg", "func:deg2rad", "func:radians", "func:exp", "func:log", "func:log10",
    "func:log2", "func:sin", "func:sinh", "func:sqrt", "func:tan", "func:tanh", "func:atan2", "func:pow", "func:power", "func:max",
    "func:min", "op:+", "op:-", "op:*", "op:/", "op://", "op:%", "op:**", "op:neg", "op:pos", "op:invert", "const:pi", "const:e",
    "backend:numpy", "backend:math", "backend:jax", "samples:1", "samples:many", "compared:numpy", "compared:math", "compared:jax", "max3",
    "refused", "missing_input", "constant_only", "vector_input", "shadowed_constant", "int_input", "division_by_zero", "listed",
]
ASSUMPTIONS = ["The jax backend computes in single precision; its results are compared to single-precision accuracy."]

NS = {f: getattr(math, f) for f in ["acos", "acosh", "asin", "asinh", "atan", "atan2", "cos", "cosh", "ceil", "degrees", "exp", "fabs", "floor",
                                    "log", "log10", "log2", "pow", "radians", "sin", "sinh", "sqrt", "tan", "tanh", "trunc"]}
NS.update(abs=abs, max=max, min=min, pi=math.pi, e=math.e, power=math.pow, deg2rad=math.radians, rad2deg=math.degrees)


class Gen:
    def __init__(self, rng, names, powers=True):
        self.rng, self.names, self.ops, self.powers = rng, names, 0, powers
        self.used = set()

    def atom(self):
        r = self.rng.uniform()
        if r < 0.6 and self.names:
            return str(self.rng.choice(self.names))
        if r < 0.7:
            k = str(self.rng.choice(["pi", "e"]))
            if k not in self.names:
                self.used.add(("const", k))
                return k
        v = self.rng.choice([1, 2, 3, 0.5, 2.5, 10.0, 1e-2, 7])
        return repr(int(v)) if float(v).is_integer() and self.rng.uniform() < 0.5 else repr(float(v))

    def expr(self, depth):
        rng = self.rng
        if depth <= 0 or rng.uniform() < 0.12:
            return self.atom()
        self.ops += 1
        r = rng.uniform()
        if r < 0.5:
            op = str(rng.choice(["+", "-", "*", "/", "//", "%", "**"], p=[0.2, 0.2, 0.2, 0.15, 0.07, 0.08, 0.1]))
            if op == "**" and not self.powers:
                op = "*"
            a, b = self.expr(depth - 1), self.expr(depth - 1)
            self.used.add(("op", op))
            sp = " " if rng.uniform() < 0.7 else ""
            if rng.uniform() < 0.25:
                a = f"({a})"
            if rng.uniform() < 0.25:
                b = f"({b})"
            return f"{a}{sp}{op}{sp}{b}"
        if r < 0.62:
            k = str(rng.choice(["-", "-", "+"]))
            self.used.add(("op", "neg" if k == "-" else "pos"))
            return f"{k}{self.expr(depth - 1)}"
        if r < 0.9:
            f = str(rng.choice(list(FUNCS1)))
            x = self.expr(depth - 1)
            dom = FUNCS1[f]
            if dom == "unit":
                x = f"sin({x})" if rng.uniform() < 0.5 else f"tanh({x})"
            elif dom == "ge1":
                x = f"1.0 + abs({x})"
            elif dom == "pos":
                x = f"abs({x}) + 0.1"
            elif dom == "small":
                x = f"sin({x})"
            self.used.add(("func", f))
            return f"{f}({x})"
        f = str(rng.choice(FUNCS2))
        if f in ("pow", "power") and self.powers:
            self.used.add(("func", f))
            return f"{f}(abs({self.expr(depth - 1)}) + 0.2, sin({self.expr(depth - 1)}))"
        if f in ("max", "min"):
            k = int(rng.choice([2, 2, 3, 4]))
            if k > 2:
                self.used.add(("max3", ""))
            self.used.add(("func", f))
            return f"{f}({', '.join(self.expr(depth - 1) for _ in range(k))})"
        self.used.add(("func", "atan2"))
        return f"atan2({self.expr(depth - 1)}, {self.expr(depth - 1)})"


def safe_eval(text, values):
    v = eval(text, {"__builtins__": {}}, {**NS, **values})
    if isinstance(v, complex):
        raise ArithmeticError("complex")
    v = float(v)
    if not np.isfinite(v) or abs(v) > 1e8:
        raise ArithmeticError("range")
    return v


class Wobble(ast.NodeTransformer):
    """Wraps every intermediate result, so that each can be moved by a few roundings."""

    def generic_visit(self, node):
        node = super().generic_visit(node)
        if isinstance(node, ast.expr) and not (isinstance(node, ast.Name) and node.id in NS and node.id not in ("pi", "e")):
            return ast.Call(func=ast.Name(id="_p", ctx=ast.Load()), args=[node], keywords=[])
        return node

    def visit_Call(self, node):
        node.args = [self.visit(a) for a in node.args]
        return ast.Call(func=ast.Name(id="_p", ctx=ast.Load()), args=[node], keywords=[])


def condition(text, values, eps=4e-7):
    """How much the result moves when every input, constant and intermediate moves by a few (single-precision) roundings."""
    base = safe_eval(text, values)
    tree = ast.fix_missing_locations(Wobble().visit(ast.parse(text, mode="eval")))
    code = compile(tree, "wobble", "eval")
    noise = np.random.default_rng(5)
    worst = 0.0
    for k in range(10):
        def _p(x, k=k):
            s = noise.choice([-1.0, 1.0]) if k > 1 else (-1.0, 1.0)[k]
            return x * (1 + s * eps) + s * eps * 1e-3
        try:
            v = eval(code, {"__builtins__": {}}, {**NS, "_p": _p, **values})
        except Exception:
            return np.inf
        if isinstance(v, complex):
            return np.inf
        worst = max(worst, abs(v - base))
    return worst if np.isfinite(worst) else np.inf


def expressions(c):
    rng = c.rng
    names = [str(x) for x in rng.choice(["a", "b", "redshift", "x1", "Phase", "e", "_q"], int(rng.integers(1, 4)), replace=False)]
    g = Gen(rng, names)
    text = g.expr(int(rng.integers(1, 5)))
    S = int(rng.choice([1, 1, 2, 6]))
    vals = {n: np.where(rng.uniform(size=S) < 0.5, rng.uniform(-5, 5, S), np.round(rng.uniform(-5, 5, S), 1)) for n in names}
    want, cond = [], []
    for i in range(S):
        row = {n: float(vals[n][i]) for n in names}
        try:
            want.append(safe_eval(text, row))
            cond.append(condition(text, row))
        except Exception:
            raise Skip from None
    want = np.array(want)
    try:
        mid = [float(np.max(np.abs([safe_eval(ast.unparse(n), {k: float(vals[k][i]) for k in names}) for i in range(S)])))
               for n in ast.walk(ast.parse(text)) if isinstance(n, ast.expr) and not (isinstance(n, ast.Name) and n.id in NS)]
    except Exception:
        raise Skip from None
    big = max(mid + [1.0])
    c.fact(expression=text, S=S, values={k: v[:3].tolist() for k, v in vals.items()})
    if "e" in names:
        c.seen("shadowed_constant")
    for backend in ["numpy", "math", "jax"]:
        c.seen("backend", backend)
        c.seen("samples", "1" if S == 1 else "many")
        inputs = {}
        for n in names:
            if S == 1:
                v = float(vals[n][0])
                inputs[n] = v if rng.uniform() < 0.4 else SingleVariableNode("val", v).val
            else:
                inputs[n] = GivenValueList([float(x) for x in vals[n]])
        node = BasicMathNode(text, backend=backend, node_label="expr" if rng.uniform() < 0.5 else None, **inputs)
        got = node.generate(num_samples=S)
        stored = np.asarray(got, float)
        if not c.equal(stored.shape, () if S == 1 else (S,), "shape", f"{backend}: {text}"):
            continue
        got = np.atleast_1d(stored)
        for i in range(S):
            if backend == "jax":
                if not np.isfinite(cond[i]) or cond[i] > 0.02 * max(1.0, abs(want[i])) or big > 1e5:
                    continue
                tol = 30 * cond[i] + 3e-5 * max(1.0, big)
            else:
                # A last-digit difference between math libraries can only matter next to a discontinuity.
                if not np.isfinite(cond[i]) or cond[i] > 0.05 * max(1.0, abs(want[i])):
                    continue
                tol = 1e-5 * cond[i] + 1e-12 * max(1.0, big)
            c.ok(abs(got[i] - want[i]) <= tol, "value", f"{backend} sample {i}: {text}", got=got[i], want=want[i], inputs={k: vals[k][i] for k in names})
            c.seen("compared", backend)
        for k, v in g.used:
            c.seen(k, v)
    if g.ops >= 3:
        c.nontrivial(text, S)


def special(c):
    rng = c.rng
    S = int(rng.choice([1, 5]))
    # The published list names exactly what expressions may use, and each of them works.
    c.equal(sorted(BasicMathNode.list_functions()), sorted([*FUNCS1, *FUNCS2, "pi", "e"]), "listed", "functions and constants on offer")
    name = str(rng.choice(BasicMathNode.list_functions()))
    x, y = float(rng.uniform(0.1, 0.9)) + (1.0 if name == "acosh" else 0.0), float(rng.uniform(0.1, 3))
    used = name if name in ("pi", "e") else f"{name}(x, y)" if name in FUNCS2 else f"{name}(x)"
    for backend in ["numpy", "math", "jax"]:
        node = BasicMathNode(f"{used} + 0 * x + 0 * y", backend=backend, x=x, y=y)
        c.close(np.asarray(node.generate(num_samples=1), float), safe_eval(used, dict(x=x, y=y)), "listed", 2e-5 if backend == "jax" else 1e-12, 1e-6 if backend == "jax" else 1e-12, f"{used} in {backend}")
        z = float(rng.uniform(0.1, 0.9)) + (1.0 if name == "acosh" else 0.0)
        c.close(np.asarray(node.eval(x=z, y=y), float), safe_eval(used, dict(x=z, y=y)), "eval", 2e-5 if backend == "jax" else 1e-12, 1e-6 if backend == "jax" else 1e-12, f"{used} in {backend}, evaluated directly")
    c.seen("listed")
    # Constant-only expressions repeat for every sample.
    g = Gen(rng, [], powers=False)
    text = g.expr(3)
    try:
        want = safe_eval(text, {})
        cond = condition(text, {})
    except Exception:
        raise Skip from None
    if cond > 0.05 * max(1.0, abs(want)):
        raise Skip
    for backend in ["numpy", "math"]:
        got = np.asarray(BasicMathNode(text, backend=backend).generate(num_samples=S), float)
        c.close(got, np.full(S, want) if S > 1 else want, "constant_only", rtol=1e-9, atol=1e-9 + 1e-4 * cond, msg=f"{backend} {text}")
    c.seen("constant_only")
    # Integers: the integer operators keep their Python meaning.
    n = rng.integers(1, 50, S)
    m = rng.integers(1, 9, S)
    for text, f in [("~n + m", lambda a, b: ~a + b), ("n // m * 3 - n % m", lambda a, b: a // b * 3 - a % b), ("-n // m", lambda a, b: -a // b),
                    ("-n % m", lambda a, b: -a % b), ("n / m", lambda a, b: a / b), ("-n**2", lambda a, b: -(a**2)), ("max(n, m, 7) - min(n, 3)", lambda a, b: max(a, b, 7) - min(a, 3)),
                    ("n - m - 2", lambda a, b: a - b - 2), ("n / m / 2", lambda a, b: a / b / 2), ("2**m**2 % 1000", lambda a, b: 2 ** b**2 % 1000 if b < 5 else None)]:
        want = [f(int(a), int(b)) for a, b in zip(n, m, strict=True)]
        if None in want:
            continue
        for backend in ["numpy", "math", "jax"]:
            ins = dict(n=int(n[0]), m=int(m[0])) if S == 1 else dict(n=GivenValueList(n), m=GivenValueList(m))
            ins = {k: v for k, v in ins.items() if k in text}
            got = np.asarray(BasicMathNode(text, backend=backend, **ins).generate(num_samples=S), float)
            c.close(got, np.array(want, float) if S > 1 else float(want[0]), "integers", rtol=1e-6, msg=f"{backend} {text}")
            c.seen("int_input")
    c.seen("op", "invert")
    # Vector-valued parameters stay element-wise, each sample with its own vector.
    v = rng.uniform(0.1, 5, (S, 3)) if S > 1 else rng.uniform(0.1, 5, 3)
    node = BasicMathNode("max(sqrt(v), w) * 2 + log10(v)", v=SingleVariableNode("v", v).v if S == 1 else GivenValueList(v), w=1.2)
    if S == 1:
        c.close(node.generate(num_samples=1), np.maximum(np.sqrt(v), 1.2) * 2 + np.log10(v), "vector", rtol=1e-9)
    c.seen("vector_input")
    # Division by zero never yields an ordinary number.
    node = BasicMathNode("1.0 / (x - x)", x=GivenValueList([1.0] * S) if S > 1 else 1.0, backend=str(rng.choice(["numpy", "math"])))
    try:
        got = node.generate(num_samples=S)
        c.ok(not np.any(np.isfinite(got)), "division_by_zero", str(got))
    except ZeroDivisionError:
        pass
    c.seen("division_by_zero")
    c.fact(case="constants, integers, vectors", S=S, constant=text)
    c.nontrivial(S, n.tolist(), m.tolist())


def hostile(c):
    rng = c.rng
    canary = c.tmp / "canary"
    p = str(canary)
    cores = [
        f"open('{p}', 'w')", f"__import__('pathlib').Path('{p}').touch()", f"exec('open(\"{p}\", \"w\")')", f"eval('open(\"{p}\", \"w\")')",
        "().__class__.__bases__[0].__subclasses__()", "x.__class__", "x.real", "x.tobytes()", "np.sin(x)", "math.sin(x)", "jnp.sin(x)", "x[0]", "x[0:1]",
        "(lambda: 1)()", "(lambda y: y)(x)", "[y for y in [x]]", "{x}", "{1: x}", "[x]", "(x, x)", "x if x else 1.0", "x == 1", "x < 2", "x and x", "not x",
        "y := x", "(y := x)", "'text'", "b'bytes'", "f'{x}'", "median(x)", "sum(x)", "print(x)", "globals()", "locals()", "getattr(x, 'real')", "unknown_name",
        "unknown + x", "sin(*[x])", "sin(x, out=x)", "sin(**{})", "await x", "yield x", "x @ x", "x | 1", "x & 1", "x << 1", "x ^ 1", "None", "...", "1j * x",
        "import os", "del x", "x = 3", "x += 1", "x; x", "x\nx", "assert x", "return x", "pass", "from os import path", "for i in x: pass", "while x: pass",
        "class A: pass", "def f(): pass", "raise x", "x.__class__()", "(1).real", "sin.__self__", "x()()", "sin(x)(x)", "'a'()", "breakpoint()", "type(x)", "", "sin(",
    ]
    for core in cores:
        text = core
        # Often buried inside an otherwise fine expression.
        if not any(core.startswith(k) for k in ("import", "del", "x =", "x +=", "x;", "x\n", "assert", "return", "pass", "from", "for", "while", "class", "def", "raise", "y :=", "sin(")) and core:
            for _ in range(int(rng.integers(0, 4))):
                w = str(rng.choice(["sin({})", "1.0 + ({})", "({}) * x", "max(x, ({}))", "-({})", "x ** ({})", "({}) % 2"]))
                text = w.format(text)
        backend = str(rng.choice(["numpy", "math", "jax"]))
        c.raises((ValueError, SyntaxError, TypeError), lambda text=text, backend=backend: BasicMathNode(text, backend=backend, x=2.0), "refused", f"{text!r} ({backend})")
        c.seen("refused", core)
        c.ok(not canary.exists(), "executed", text)
    for text in ["x + y", "sin(y)", "redshift * 2"]:
        c.raises((ValueError, KeyError), lambda text=text: BasicMathNode(text, x=1.0), "missing_input", text)
        c.seen("missing_input")
    c.raises((ValueError,), lambda: BasicMathNode("x", backend=str(rng.choice(["torch", "", "NumPy"])), x=1.0), "backend")
    c.fact(case="hostile", forms=len(cores))
    c.nontrivial(int(rng.integers(0, 2**31)))


QUICK_SCALE = 7
SCENARIOS = [Scenario(expressions, quick=700, thorough=10000), Scenario(special, quick=60, thorough=600), Scenario(hostile, quick=12, thorough=150)]
