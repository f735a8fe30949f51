"""P26 - random parameter nodes draw from the distribution they declare."""

import numpy as np
from scipy import stats

from lclmon.core import Scenario
from lightcurvelynx.base_models import ParameterizedNode
from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler
from lightcurvelynx.math_nodes.given_sampler import BinarySampler, GivenValueList, GivenValueSampler, TableSampler
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.math_nodes.scipy_random import NumericalInversePolynomialFunc, SampleLogPDF, SamplePDF

RULE = (
    "Random nodes of every kind with random parameters, drawn in batches, in vector-valued batches with different arguments per "
    "sample and one at a time, with and without a caller's generator, judged by support checks and by Kolmogorov-Smirnov / "
    "chi-square / serial-correlation tests of the probability-transformed draws (rejection only beyond 1e-9). Non-trivial: at "
    "least 200 draws compared with an independent CDF; distinct by node kind, parameters and mode."
)
REQUIRED = [
    "dist:uniform", "dist:normal", "dist:exponential", "dist:gamma", "dist:beta", "dist:lognormal", "dist:triangular", "dist:laplace",
    "dist:rayleigh", "dist:weibull", "dist:poisson", "dist:binomial", "dist:integers", "dist:geometric", "dist:chisquare", "dist:vonmises",
    "mode:batch", "mode:per_sample", "mode:vector", "mode:vector_per_sample", "mode:single", "rng:given", "rng:own",
    "scipy:object", "scipy:class", "scipy:class_single", "scipy:pdf", "scipy:logpdf", "scipy:pdf_object", "table:uneven", "table:dense", "table:zero_density", "table:single",
    "weights:none", "weights:float", "weights:integer", "weights:zero", "values:str", "values:rows", "values:count", "binary:edge",
    "binary:middle", "mode:vector_same_length", "flow:plain", "flow:conditional", "flow:linked", "flow:constant", "flow:refused", "multi_dim", "seed_set", "linked",
    "bilby:batch", "bilby:single", "bilby:conditional", "bilby:constraint", "bilby:uniform", "bilby:gaussian", "bilby:power", "bilby:sine", "bilby:cosine",
]
ASSUMPTIONS = ["Statistical tests reject only at probability below 1e-9 per decision, so agreement is to sampling accuracy."]
PMIN = 1e-9


class Wrapped:
    """Von Mises on [-pi, pi], unrolled around its centre."""

    def __init__(self, mu, kappa):
        self.mu, self.kappa = mu, kappa

    def cdf(self, x):
        inside = (np.asarray(x) >= -np.pi) & (np.asarray(x) <= np.pi)
        d = (np.asarray(x) - self.mu + np.pi) % (2 * np.pi) - np.pi
        return np.where(inside, stats.vonmises(self.kappa).cdf(d), -1.0)


def continuous(rng, k):
    """(node arguments, frozen reference) for each continuous numpy distribution."""
    u = rng.uniform
    if k == "uniform":
        lo, w = u(-100, 100), u(0.1, 50)
        return dict(low=lo, high=lo + w), lambda a: stats.uniform(a["low"], a["high"] - a["low"])
    if k == "normal":
        return dict(loc=u(-10, 10), scale=u(0.1, 5)), lambda a: stats.norm(a["loc"], a["scale"])
    if k == "exponential":
        return dict(scale=u(0.1, 10)), lambda a: stats.expon(scale=a["scale"])
    if k == "gamma":
        return dict(shape=u(0.5, 5), scale=u(0.1, 4)), lambda a: stats.gamma(a["shape"], scale=a["scale"])
    if k == "beta":
        return dict(a=u(0.5, 5), b=u(0.5, 5)), lambda a: stats.beta(a["a"], a["b"])
    if k == "lognormal":
        return dict(mean=u(-1, 1), sigma=u(0.1, 1)), lambda a: stats.lognorm(a["sigma"], scale=np.exp(a["mean"]))
    if k == "triangular":
        lo, w, m = u(-5, 5), u(0.5, 5), u(0.05, 0.95)
        return dict(left=lo, mode=lo + m * w, right=lo + w), lambda a: stats.triang(
            (a["mode"] - a["left"]) / (a["right"] - a["left"]), a["left"], a["right"] - a["left"])
    if k == "laplace":
        return dict(loc=u(-5, 5), scale=u(0.1, 5)), lambda a: stats.laplace(a["loc"], a["scale"])
    if k == "rayleigh":
        return dict(scale=u(0.1, 5)), lambda a: stats.rayleigh(scale=a["scale"])
    if k == "weibull":
        return dict(a=u(0.6, 4)), lambda a: stats.weibull_min(a["a"])
    if k == "chisquare":
        return dict(df=u(1, 8)), lambda a: stats.chi2(a["df"])
    return dict(mu=u(-2, 2), kappa=u(0.3, 3)), lambda a: Wrapped(a["mu"], a["kappa"])


def discrete(rng, k):
    if k == "poisson":
        return dict(lam=rng.uniform(0.3, 8)), lambda a: stats.poisson(a["lam"])
    if k == "binomial":
        return dict(n=int(rng.integers(1, 12)), p=rng.uniform(0.05, 0.95)), lambda a: stats.binom(a["n"], a["p"])
    if k == "geometric":
        return dict(p=rng.uniform(0.15, 0.9)), lambda a: stats.geom(a["p"])
    lo = int(rng.integers(-5, 5))
    return dict(low=lo, high=lo + int(rng.integers(1, 9))), lambda a: stats.randint(a["low"], a["high"])


CONT = ["uniform", "normal", "exponential", "gamma", "beta", "lognormal", "triangular", "laplace", "rayleigh", "weibull", "chisquare", "vonmises"]
DISC = ["poisson", "binomial", "integers", "geometric"]


def uniformity(c, u, tag, msg, serial=True):
    """The probability-transformed draws must look like independent uniforms."""
    u = np.asarray(u, float).ravel()
    c.ok(np.all((u >= 0) & (u <= 1)), tag + ":support", msg)
    p = stats.kstest(u, "uniform").pvalue
    c.ok(p > PMIN, tag, f"{msg}: KS p={p:.2g} over {u.size} draws", mean=u.mean(), std=u.std())
    if serial and u.size > 50:
        z = stats.norm.ppf(np.clip(u, 1e-12, 1 - 1e-12))
        for lag in (1, 2):
            r = float(np.mean(z[:-lag] * z[lag:])) * np.sqrt(z.size - lag)
            c.ok(abs(r) < 6.5, tag + ":independence", f"{msg}: lag {lag} correlation {r:.2f} sigma")
    c.seen("draws", tag, u.size)


def pit(dist, x, rng):
    """Probability transform; randomised within the jump for discrete distributions."""
    if isinstance(dist, Wrapped):
        return dist.cdf(x)
    if hasattr(dist, "pmf"):
        return dist.cdf(x - 1) + rng.uniform(size=np.shape(x)) * dist.pmf(x)
    return dist.cdf(x)


def generator(c):
    if c.rng.uniform() < 0.5:
        c.seen("rng", "own")
        return None
    c.seen("rng", "given")
    return np.random.default_rng(int(c.rng.integers(0, 2**31)))


def numpy_dists(c):
    rng = c.rng
    name = (CONT + DISC)[c.index % len(CONT + DISC)]
    make = continuous if name in CONT else discrete
    mode = str(rng.choice(["batch", "per_sample", "vector", "vector_per_sample", "single", "per_sample"]))
    args, ref = make(rng, name)
    g = generator(c)
    own = int(rng.integers(0, 2**31))
    size = None
    if mode == "batch":
        S, per, size = 4000, False, [None, 1][int(rng.integers(0, 2))]
    elif mode == "per_sample":
        S, per, size = 1500, True, None
    elif mode == "vector":
        S, per, size = 800, False, [4, (3, 2), (5,), (1,)][int(rng.integers(0, 4))]
    elif mode == "vector_per_sample":
        S, per, size = int(rng.choice([300, 2, 3, 4, 200])), True, [4, (3, 2), (200,)][int(rng.integers(0, 3))]
    else:
        S, per, size = 1, False, None
    c.fact(dist=name, mode=mode, S=S, size=size, args=args)
    c.seen("dist", name)
    c.seen("mode", mode)
    if per:
        rows = [make(rng, name)[0] for _ in range(S)]
        cols = {k: np.array([r[k] for r in rows]) for k in args}
        kw = {k: GivenValueList(v) for k, v in cols.items()}
    else:
        cols, kw = args, dict(args)
    node = NumpyRandomFunc(name, size=size, seed=own, **kw)
    if mode == "single":
        x = np.array([node.generate(num_samples=1, rng_info=g) for _ in range(300)])
        c.equal(x.shape, (300,), "single_shape")
        uniformity(c, pit(ref(args), x, rng), "single", f"{name} {args}")
    else:
        if rng.uniform() < 0.4:
            # Through a graph, as a parameter of another node.
            m = ParameterizedNode()
            m.add_parameter("value", node)
            st = m.sample_parameters(num_samples=S, rng_info=g)
            x = np.asarray(m.get_param(st, "value"))
            c.seen("linked")
        else:
            x = np.asarray(node.generate(num_samples=S, rng_info=g))
        extra = () if size in (None, 1) else (size if isinstance(size, tuple) else (size,))
        if c.equal(x.shape, (S, *extra), "shape", f"{name} size={size}"):
            if per and extra and S == extra[-1]:
                c.seen("mode", "vector_same_length")
            if per:
                shaped = {k: v.reshape((S,) + (1,) * len(extra)) for k, v in cols.items()}
                u = pit(ref(shaped), x, rng)
                # Per-sample pairing: every sample's own draws fit its own arguments.
                if u[0].size >= 100:
                    for i in range(S):
                        uniformity(c, u[i], "pairing", f"{name} sample {i}", serial=False)
            else:
                u = pit(ref(args), x, rng)
            uniformity(c, u, mode, f"{name} {args if not per else 'per sample'} size={size}")
            if name in CONT:
                c.ok(len(np.unique(x)) > 0.999 * x.size, "distinct_draws", f"{name}: {len(np.unique(x))} distinct of {x.size}")
    if extra_size(size):
        one = np.asarray(node.generate(num_samples=1, rng_info=g)) if not per else np.zeros(0)
        c.ok(per or one.size == np.prod(extra_size(size)), "vector_single", f"{name}: a single draw of size {size} has shape {one.shape}")
    if size == (1,):
        c.seen("multi_dim")
    elif isinstance(size, tuple):
        c.seen("multi_dim")
    c.nontrivial(name, mode, str(size), repr(args))


def extra_size(size):
    return () if size in (None, 1) else (size if isinstance(size, tuple) else (size,))


class Ramp:
    """Density 2(x-lo)/w^2 on [lo, lo+w]."""

    def __init__(self, lo=0.0, w=1.0):
        self.lo, self.w = float(lo), float(w)

    def pdf(self, x):
        return 2 * (x - self.lo) / self.w**2 if self.lo <= x <= self.lo + self.w else 0.0

    def support(self):
        return self.lo, self.lo + self.w

    def cdf(self, x):
        return np.clip((np.asarray(x) - self.lo) / self.w, 0, 1) ** 2


def scipy_nodes(c):
    rng = c.rng
    g = generator(c)
    seed = int(rng.integers(0, 2**31))
    kind = ["object", "class", "class_single", "pdf", "logpdf", "pdf_object"][c.index % 6]
    c.seen("scipy", kind)
    lo, w = rng.uniform(-5, 5), rng.uniform(0.5, 4)
    S = int(rng.choice([1000, 3000]))
    msg = f"{kind} lo={lo:.3g} w={w:.3g}"
    if kind == "object":
        d = [Ramp(lo, w), stats.norm(lo, w), stats.logistic(lo, w)][int(rng.integers(0, 3))]
        node = NumericalInversePolynomialFunc(d, seed=seed)
        u = d.cdf(np.asarray(node.generate(num_samples=S, rng_info=g)))
    elif kind == "class":
        S = 120 if not c.thorough else 300
        los, ws = rng.uniform(-50, 50, S), rng.uniform(0.5, 4, S)
        node = NumericalInversePolynomialFunc(Ramp, seed=seed, lo=GivenValueList(los), w=GivenValueList(ws))
        x = np.asarray(node.generate(num_samples=S, rng_info=g))
        c.ok(np.all((x >= los - 1e-6) & (x <= los + ws + 1e-6)), "pairing", "each sample lies in its own support", x=x[:4], lo=los[:4])
        u = Ramp.cdf(type("R", (), dict(lo=los, w=ws)), x)
    elif kind == "class_single":
        node = NumericalInversePolynomialFunc(Ramp, seed=seed, lo=lo, w=w)
        u = Ramp(lo, w).cdf([node.generate(num_samples=1, rng_info=g) for _ in range(100)])
    elif kind == "pdf":
        a, b = rng.uniform(0.3, 2), rng.uniform(-3, 3)
        node = SamplePDF(lambda x: 0.2 * np.exp(-0.5 * ((x - b) / a) ** 2), seed=seed)
        u = stats.norm(b, a).cdf(np.asarray(node.generate(num_samples=S, rng_info=g)))
        msg = f"pdf N({b:.3g},{a:.3g})"
    elif kind == "logpdf":
        a, b = rng.uniform(0.3, 2), rng.uniform(-3, 3)
        node = SampleLogPDF(lambda x: 1.0 - 0.5 * ((x - b) / a) ** 2, seed=seed)
        if rng.uniform() < 0.5:
            u = stats.norm(b, a).cdf(np.asarray(node.generate(num_samples=S, rng_info=g)))
        else:
            u = stats.norm(b, a).cdf([node.generate(num_samples=1, rng_info=g) for _ in range(300)])
        msg = f"logpdf N({b:.3g},{a:.3g})"
    else:
        node = SamplePDF(Ramp(lo, w), seed=seed)
        u = Ramp(lo, w).cdf(np.asarray(node.generate(num_samples=S, rng_info=g)))
    uniformity(c, u, f"scipy_{kind}", msg)
    # Setting the seed restarts the node's own sequence.
    if rng.uniform() < 0.5 and kind != "class":
        k = 1 if rng.uniform() < 0.4 else 5
        node.set_seed(seed)
        a = node.generate(num_samples=k)
        node.set_seed(seed)
        c.equal(node.generate(num_samples=k), a, "set_seed")
        c.seen("seed_set")
    # The next batch is a new one.
    if kind == "class":
        again = NumericalInversePolynomialFunc(Ramp, seed=seed, lo=lo, w=w)
        a, b = (np.asarray(again.generate(num_samples=60, rng_info=g)) for _ in range(2))
    else:
        a, b = (np.asarray(node.generate(num_samples=60, rng_info=g)) if kind != "class_single" else np.asarray([node.generate(num_samples=1, rng_info=g) for _ in range(4)]) for _ in range(2))
    c.ok(len(set(a.tolist()) | set(b.tolist())) > 0.9 * (len(a) + len(b)), "fresh", f"{kind}: successive batches repeat values", a=a[:4], b=b[:4])
    for bad in [3.0, "norm", None]:
        c.raises((ValueError, TypeError), lambda bad=bad: SamplePDF(bad), "reject", repr(bad))
    c.fact(kind=kind, S=S, what=msg)
    c.nontrivial(kind, S, lo, w)


def tables(c):
    rng = c.rng
    g = generator(c)
    n = int(rng.integers(2, 30))
    kind = str(rng.choice(["linear", "linear", "slinear"]))
    if c.index % 3 == 2:
        # A finely tabulated smooth density on an uneven grid.
        mu, sg = rng.uniform(-3, 3), rng.uniform(0.3, 2)
        x = np.sort(np.concatenate([mu + sg * np.linspace(-7, 7, 700), mu + sg * rng.uniform(-7, 0, 900)]))
        x = np.unique(x)
        y = np.exp(-0.5 * ((x - mu) / sg) ** 2) * rng.uniform(0.1, 50)
        S = 3000
        d = DistributionSampler(x, y, kind=str(rng.choice(["linear", "slinear"])), seed=int(rng.integers(0, 2**31))).generate(num_samples=S, rng_info=g)
        uniformity(c, stats.norm(mu, sg).cdf(np.asarray(d)), "table_dense", f"N({mu:.3g},{sg:.3g})")
        c.seen("table", "dense")
        c.fact(kind="dense", mu=mu, sigma=sg)
        c.nontrivial("dense", mu, sg)
        return
    x = np.cumsum(np.concatenate([[rng.uniform(-50, 50)], rng.uniform(0.01, 1, n - 1) ** 2 * 10]))
    y = rng.uniform(0, 3, n)
    if n > 5 and kind == "linear" and rng.uniform() < 0.6:
        k = int(rng.integers(1, n - 3))
        y[k : k + 3] = 0.0
        c.seen("table", "zero_density")
    if not np.any(y[:-1] + y[1:] > 0.01):
        y[-1] += 1
    mass = (y[1:] + y[:-1]) / 2 * np.diff(x)
    mass = mass / mass.sum()
    node = DistributionSampler(list(x) if rng.uniform() < 0.3 else x, y, kind=kind, seed=int(rng.integers(0, 2**31)))
    single = rng.uniform() < 0.3
    if single:
        d = np.array([node.generate(num_samples=1, rng_info=g) for _ in range(400)])
        c.seen("table", "single")
    else:
        d = np.asarray(node.generate(num_samples=5000, rng_info=g))
    c.equal(d.ndim, 1, "table_shape")
    eps = 1e-9 * (1 + np.abs(x).max())
    c.ok(np.all((d >= x[0] - eps) & (d <= x[-1] + eps)), "table_support", x0=x[0], x1=x[-1], lo=d.min(), hi=d.max())
    cell = np.clip(np.searchsorted(x, d, side="right") - 1, 0, n - 2)
    cnt = np.bincount(cell, minlength=n - 1)
    edge = (np.abs(d - x[cell]) < eps) | (np.abs(d - x[cell + 1]) < eps)
    c.ok(np.all((mass[cell] > 0) | edge), "table_zero_mass", "a draw fell where the density is zero")
    exp = mass * len(d)
    keep = exp >= 8
    if np.sum(keep) >= 1:
        oc, ec = list(cnt[keep]), list(exp[keep])
        oc.append(len(d) - sum(oc))
        ec.append(max(len(d) - sum(ec), 0))
        if ec[-1] < 8:
            if ec[-1] < 1e-6:
                c.ok(oc[-1] <= 1, "table_cells", "draws in cells without mass")
                oc, ec = oc[:-1], ec[:-1]
            else:
                j = int(np.argmax(ec[:-1]))
                oc[j] += oc[-1]
                ec[j] += ec[-1]
                oc, ec = oc[:-1], ec[:-1]
        if len(oc) > 1:
            oc, ec = np.array(oc, float), np.array(ec, float)
            chi = float(np.sum((oc - ec) ** 2 / ec))
            p = stats.chi2.sf(chi, len(oc) - 1)
            c.ok(p > PMIN, "table_cells", f"chi2={chi:.1f} over {len(oc)} cells p={p:.2g}", got=oc[:8], want=ec[:8])
    c.ok(len(np.unique(d)) > 0.99 * len(d), "table_distinct")
    c.seen("table", "uneven")
    c.raises((ValueError,), lambda: DistributionSampler(x, y[:-1]), "reject")
    c.raises((ValueError,), lambda: DistributionSampler(x, np.where(np.arange(n) == 0, -1.0, y)), "reject")
    c.fact(kind=kind, n=n, single=single, x=x[:4], y=y[:4])
    c.nontrivial(kind, n, float(x[0]))


def weighted(c):
    rng = c.rng
    g = generator(c)
    n = int(rng.integers(1, 9))
    vk = str(rng.choice(["float", "str", "rows", "count"]))
    wk = str(rng.choice(["none", "float", "integer", "zero"]))
    c.seen("values", vk)
    c.seen("weights", wk)
    vals = {"float": lambda: list(np.round(rng.permutation(50)[:n] * 1.5, 2)), "str": lambda: [f"name{i}" * (1 + i % 3) for i in range(n)],
            "rows": lambda: [[float(i), float(i) ** 2, -float(i)] for i in range(n)], "count": lambda: n}[vk]()
    if wk == "none":
        w = None
        p = np.full(n, 1 / n)
    else:
        w = rng.uniform(0.1, 4, n) if wk != "integer" else rng.integers(1, 6, n)
        if wk == "zero":
            w[rng.uniform(size=n) < 0.4] = 0
            w[int(rng.integers(0, n))] = 2.0
        p = np.asarray(w, float) / np.sum(w)
    given = w if rng.uniform() < 0.5 or w is None else list(w)
    before = None if w is None else np.array(w)
    node = GivenValueSampler(vals, weights=given, seed=int(rng.integers(0, 2**31)))
    keys = list(range(n)) if vk == "count" else [tuple(v) if isinstance(v, list) else v for v in vals]
    look = {k: i for i, k in enumerate(keys)}
    single = rng.uniform() < 0.25
    if single:
        draws = [node.generate(num_samples=1, rng_info=g) for _ in range(300)]
    else:
        draws = list(node.generate(num_samples=3000, rng_info=g))
        c.equal(len(draws), 3000, "count")
    idx = []
    for d in draws:
        k = tuple(np.asarray(d).tolist()) if vk == "rows" else (str(d) if vk == "str" else (int(d) if vk == "count" else float(d)))
        if not c.ok(k in look, "member", f"{k!r} is not one of the given values"):
            return
        idx.append(look[k])
    idx = np.array(idx)
    cnt = np.bincount(idx, minlength=n)
    c.ok(np.all(cnt[p == 0] == 0), "zero_weight", counts=cnt, weights=p)
    for i in range(n):
        q = stats.binomtest(int(cnt[i]), len(idx), float(p[i])).pvalue if 0 < p[i] < 1 else 1.0
        c.ok(q > PMIN, "frequency", f"entry {i}: {cnt[i]} of {len(idx)}, probability {p[i]:.4f}")
    if n > 1 and np.max(p) < 1:
        same = float(np.mean(idx[1:] == idx[:-1]))
        want = float(np.sum(p**2))
        c.ok(abs(same - want) < 6.5 * np.sqrt(want * (1 - want) / len(idx)) + 0.02, "independent", f"repeats {same:.3f}, expected {want:.3f}")
    if w is not None:
        c.equal(np.asarray(given), before, "weights_untouched")
    c.raises((ValueError,), lambda: GivenValueSampler([]), "reject")
    if w is not None:
        c.raises((ValueError,), lambda: GivenValueSampler(vals, weights=np.ones(n + 1)), "reject")
    # As many samples as there are entries: drawn with replacement, so some entry comes twice.
    m = int(rng.integers(35, 80))
    c.ok(len(set(np.asarray(GivenValueSampler(list(range(m)), seed=int(rng.integers(0, 2**31))).generate(num_samples=m, rng_info=g)).tolist())) < m, "independent", f"{m} draws from a list of {m} are all different")
    c.ok(len(set(np.asarray(TableSampler({"a": np.arange(m)}, seed=int(rng.integers(0, 2**31))).generate(num_samples=m, rng_info=g)).tolist())) < m, "independent", f"{m} draws from a table of {m} rows are all different")
    # Yes / no events.
    pr = [0.0, 1.0, rng.uniform(0, 1), rng.uniform(0, 0.05), 0.5][int(rng.integers(0, 5))]
    b = BinarySampler(pr, seed=int(rng.integers(0, 2**31)))
    if rng.uniform() < 0.3:
        x = np.array([b.generate(num_samples=1, rng_info=g) for _ in range(300)])
    else:
        x = np.asarray(b.generate(num_samples=3000, rng_info=g))
    c.equal(x.dtype, np.dtype(bool), "binary_type")
    if pr in (0.0, 1.0):
        c.ok(np.all(x == bool(pr)), "binary_edge")
        c.seen("binary", "edge")
    else:
        q = stats.binomtest(int(x.sum()), len(x), pr).pvalue
        c.ok(q > PMIN, "binary", f"{x.sum()} of {len(x)}, probability {pr}")
        c.seen("binary", "middle")
    for bad in (-0.01, 1.01):
        c.raises((ValueError,), lambda bad=bad: BinarySampler(bad), "reject")
    c.fact(n=n, values=vk, weights=wk, single=single, probability=pr)
    c.nontrivial(n, vk, wk, single, pr)



def _bilby_prior(rng):
    """A bilby prior, the cumulative distribution it declares, and its support."""
    from bilby.core import prior as bp

    k = str(rng.choice(["uniform", "gaussian", "truncated", "exponential", "power", "sine", "cosine", "loguniform", "beta"]))
    lo = float(rng.uniform(-5, 5))
    hi = lo + float(rng.uniform(0.5, 8))
    mu, sd = float(rng.uniform(-3, 3)), float(rng.uniform(0.2, 3))
    if k == "uniform":
        return k, bp.Uniform(lo, hi), stats.uniform(lo, hi - lo).cdf
    if k == "gaussian":
        return k, bp.Gaussian(mu, sd), stats.norm(mu, sd).cdf
    if k == "truncated":
        return k, bp.TruncatedGaussian(mu, sd, mu - sd, mu + 2 * sd), stats.truncnorm(-1, 2, loc=mu, scale=sd).cdf
    if k == "exponential":
        return k, bp.Exponential(sd), stats.expon(scale=sd).cdf
    if k == "power":
        a, x0, x1 = float(rng.uniform(0.5, 3)), 1.0, float(rng.uniform(2, 50))
        return k, bp.PowerLaw(a, x0, x1), lambda x: (x ** (1 + a) - x0 ** (1 + a)) / (x1 ** (1 + a) - x0 ** (1 + a))
    if k == "sine":
        return k, bp.Sine(), lambda x: (1 - np.cos(x)) / 2
    if k == "cosine":
        return k, bp.Cosine(), lambda x: (1 + np.sin(x)) / 2
    if k == "loguniform":
        x0 = float(10 ** rng.uniform(-3, 1))
        x1 = x0 * float(10 ** rng.uniform(0.5, 3))
        return k, bp.LogUniform(x0, x1), stats.loguniform(x0, x1).cdf
    a, b = float(rng.uniform(0.6, 4)), float(rng.uniform(0.6, 4))
    return k, bp.Beta(a, b), stats.beta(a, b).cdf


def bilby_nodes(c):
    """Joint priors of the bilby package: every parameter follows its own prior, under its own name."""
    from bilby.core.prior import ConditionalPriorDict, ConditionalUniform, Constraint, DeltaFunction, PriorDict, Uniform
    from lightcurvelynx.math_nodes.bilby_priors import BilbyPriorNode

    rng = c.rng
    n = int(rng.integers(1, 6))
    names = [f"{chr(97 + int(k))}{i}" for i, k in enumerate(rng.integers(0, 26, n))]
    made = [_bilby_prior(rng) for _ in names]
    pri = {k: m[1] for k, m in zip(names, made)}
    const = None
    if rng.uniform() < 0.3:
        const = float(rng.uniform(-5, 5))
        pri["fixed"] = DeltaFunction(const)
    given = PriorDict(pri) if rng.uniform() < 0.5 else dict(pri)
    conditional = rng.uniform() < 0.3
    if conditional:
        def below(reference_params, upper):
            return dict(minimum=0.0, maximum=upper)

        pri["upper"] = Uniform(1.0, 10.0)
        pri["inside"] = ConditionalUniform(below, minimum=0.0, maximum=1.0)
        given = ConditionalPriorDict(pri)
        c.seen("bilby", "conditional")
    elif rng.uniform() < 0.2:
        cut = float(rng.uniform(0.5, 1.5))

        def total(p):
            return {**p, "total": p["p"] + p["q"]}

        pri["p"], pri["q"] = Uniform(0.0, 1.0), Uniform(0.0, 1.0)
        given = PriorDict({**pri, "total": Constraint(0.0, cut)}, conversion_function=total)
        c.seen("bilby", "constraint")
    seed = int(rng.integers(0, 2**31))
    node = BilbyPriorNode(prior=given, seed=seed, node_label="pri")
    c.equal(sorted(node.outputs), sorted(pri), "bilby:outputs")
    user = ParameterizedNode(node_label="user")
    user.add_parameter("x", getattr(node, names[-1]))
    S = 3000
    if rng.uniform() < 0.8:
        st = user.sample_parameters(num_samples=S, rng_info=generator(c))
        draws = {k: np.asarray(st["pri"][k], float) for k in pri}
        linked = np.asarray(st["user"]["x"], float)
        node.set_seed(seed)
        again = user.sample_parameters(num_samples=S)
        for k in pri:
            c.ok(np.array_equal(draws[k], np.asarray(again["pri"][k], float)), "bilby:seed", f"{k}: same seed, other draws")
        c.seen("bilby", "batch")
    else:
        S = 300
        rows = []
        for _ in range(S):
            st = user.sample_parameters()
            c.ok(all(np.ndim(st["pri"][k]) == 0 for k in pri), "bilby:scalar", "a single draw must be a plain number")
            rows.append([float(st["pri"][k]) for k in pri] + [float(st["user"]["x"])])
        rows = np.array(rows)
        draws = {k: rows[:, i] for i, k in enumerate(pri)}
        linked = rows[:, -1]
        c.seen("bilby", "single")
    c.equal(linked, draws[names[-1]], "bilby:linked")
    for k, (kind, _, cdf) in zip(names, made):
        c.equal(draws[k].shape, (S,), "bilby:shape")
        uniformity(c, cdf(draws[k]), "bilby", f"{kind} named {k}")
        c.seen("bilby", kind)
    for i in range(n):
        for j in range(i):
            z = [stats.norm.ppf(np.clip(made[k][2](draws[names[k]]), 1e-12, 1 - 1e-12)) for k in (i, j)]
            r = float(np.mean(z[0] * z[1])) * np.sqrt(S)
            c.ok(abs(r) < 6.5, "bilby:joint", f"{names[i]} and {names[j]} correlate at {r:.1f} sigma")
    if const is not None:
        c.ok(np.all(draws["fixed"] == const), "bilby:fixed", "a constant prior drew other values")
    if conditional:
        uniformity(c, (draws["upper"] - 1) / 9, "bilby", "upper")
        uniformity(c, draws["inside"] / draws["upper"], "bilby:conditional", "inside, given its own sample's upper")
    if "p" in pri:
        p, q = draws["p"], draws["q"]
        c.ok(np.all(p + q <= cut), "bilby:constraint", f"a draw beyond the constraint {cut}: {np.max(p + q)}")
        # The sum of two uniforms below the cut has the distribution of the cut triangle.
        t = lambda x: np.where(x < 1, x**2 / 2, 1 - (2 - x) ** 2 / 2)
        uniformity(c, t(p + q) / t(np.array(cut)), "bilby:constraint", "sum of the two")
    c.raises(ValueError, lambda: BilbyPriorNode(prior={}), "bilby:empty")
    c.fact(kinds=[m[0] for m in made], names=names, S=S)
    c.nontrivial(tuple(m[0] for m in made), tuple(names), conditional)


QUICK_SCALE = 8
class Stand:
    """Stands in for a trained flow: every row of a sample follows from its own condition and the seed."""

    def __init__(self, columns, conditional, back):
        self.data_columns, self.conditional_columns, self.back = tuple(columns), conditional and tuple(conditional), back
        self.asked = []

    def sample(self, n, conditions=None, seed=None, **kw):
        import pandas as pd

        g = np.random.default_rng(seed)
        self.asked.append((n, None if conditions is None else list(conditions.columns)))
        rows = n if conditions is None else n * len(conditions)
        noise = g.uniform(0, 0.1, (rows, len(self.data_columns)))
        base = np.zeros(rows) if conditions is None else np.repeat(sum((j + 1) * np.asarray(conditions[k], float) for j, k in enumerate(self.conditional_columns)), n)
        cols = {k: base + 10.0 * j + noise[:, j] for j, k in enumerate(self.data_columns)}
        if self.back and conditions is not None:
            cols.update({k: np.repeat(np.asarray(conditions[k]), n) for k in self.conditional_columns})
        return pd.DataFrame(cols)


def flow_nodes(c):
    """Draws of a normalising flow: every sample uses its own conditions and every column goes out under its own name."""
    from lightcurvelynx.astro_utils.pzflow_node import PZFlowNode

    rng = c.rng
    columns = [str(x) for x in rng.permutation(["mass", "redshift", "a", "Z", "color"])[: int(rng.integers(1, 5))]]
    conditional = [str(x) for x in rng.permutation(["u", "g", "size"])[: int(rng.integers(0, 4))]] or None
    S = int(rng.choice([1, 2, 3, 7, 40]))
    values = {k: [float(x) for x in rng.uniform(0, 1e4, S)] for k in conditional or []}
    kw = {}
    src = ParameterizedNode(node_label="src")
    for k, v in values.items():
        if rng.uniform() < 0.3:
            v = values[k] = [v[0]] * S
            kw[k] = v[0]
            c.seen("flow", "constant")
        elif rng.uniform() < 0.5:
            src.add_parameter(k, GivenValueList(v))
            kw[k] = getattr(src, k)
            c.seen("flow", "linked")
        else:
            kw[k] = GivenValueList(v)
    node = PZFlowNode(Stand(columns, conditional, bool(rng.uniform() < 0.5)), node_label="flow", **kw)
    c.equal(sorted(node.outputs), sorted(columns), "flow:outputs")
    user = ParameterizedNode(node_label="user")
    for k in columns:
        user.add_parameter(f"from_{k}", getattr(node, k))
    st = user.sample_parameters(num_samples=S, rng_info=generator(c))
    base = np.zeros(S)
    for j, k in enumerate(conditional or []):
        base = base + (j + 1) * np.asarray(values[k])
    for j, k in enumerate(columns):
        got = np.asarray(st["user"][f"from_{k}"], float)
        if c.equal(got.shape, () if S == 1 else (S,), "flow:shape", f"{k} of {columns}"):
            r = got - base - 10.0 * j
            if S > 1:
                # Values of one batch are told apart by their own noise, whatever conditions they share.
                c.ok(len(set(np.round(np.atleast_1d(r), 9).tolist())) >= 0.9 * S, "flow:independent", f"{k}: {S} samples share draws {np.atleast_1d(r)[:5]}")
            c.ok(np.all((r > -1e-6) & (r < 0.1 + 1e-6)), "flow:pairing", f"{k} of {columns} given {conditional}: {got} against {base + 10.0 * j}")
            c.equal(np.atleast_1d(got).tolist(), np.atleast_1d(st["flow"][k]).tolist(), "flow:linked")
    if conditional:
        c.raises(ValueError, lambda: PZFlowNode(Stand(columns, conditional, False), **{k: 1.0 for k in conditional[1:]}), "flow:missing")
    # One draw after another, each its own.
    one = PZFlowNode(Stand(columns, conditional, False), node_label="flow", **{k: 0.0 for k in conditional or []})
    g = np.random.default_rng(int(rng.integers(2**31)))
    many = [float(one.sample_parameters(num_samples=1, rng_info=g)["flow"][columns[0]]) for _ in range(80)]
    c.ok(len(set(many)) >= 79, "flow:fresh", f"80 successive draws gave {len(set(many))} values")
    if conditional:
        c.seen("flow", "refused")
        c.seen("flow", "conditional")
    else:
        c.seen("flow", "plain")
    c.nontrivial(columns, conditional, S, base.tolist())


SCENARIOS = [Scenario(numpy_dists, quick=240, thorough=3000), Scenario(scipy_nodes, quick=42, thorough=400), Scenario(tables, quick=90, thorough=1500),
             Scenario(weighted, quick=90, thorough=1500),
             Scenario(bilby_nodes, quick=60, thorough=1000), Scenario(flow_nodes, quick=120, thorough=1500)]
