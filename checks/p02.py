"""P02 - a random generator's seed reproduces samples, light curves and noise."""

import contextlib
import io
import os
import random
import subprocess
import sys
import warnings
from pathlib import Path

import numpy as np
from astropy.table import Table
from scipy import stats

from lclmon import gen, sims, sources, surveys
from lclmon.core import Scenario
from lightcurvelynx.astro_utils.agn_utils import eddington_ratio_dist_fun
from lightcurvelynx.astro_utils.noise_model import apply_noise
from lightcurvelynx.astro_utils.snia_utils import HostmassX1Func, SNCoordGivenPhysicalSep
from lightcurvelynx.base_models import ParameterizedNode
from lightcurvelynx.effects.white_noise import WhiteNoise
from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler
from lightcurvelynx.math_nodes.given_sampler import BinarySampler, GivenValueSampler, TableSampler
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.math_nodes.ra_dec_sampler import ApproximateMOCSampler, ObsTableRADECSampler, ObsTableUniformRADECSampler, UniformRADEC
from lightcurvelynx.math_nodes.scipy_random import NumericalInversePolynomialFunc, SampleLogPDF, SamplePDF
from lightcurvelynx.models.agn import AGN, sample_damped_random_walk
from lightcurvelynx.models.lightcurve_template_model import LightcurveData, MultiLightcurveTemplateModel
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel
from lightcurvelynx.models.snia_host import SNIaHost
from lightcurvelynx.obstable.opsim import create_random_opsim
from lightcurvelynx.obstable.ztf_obstable import create_random_ztf_obs_data

RULE = (
    "Every random node kind, random graphs mixing them, models with random effects, accretion discs and random choices, and whole "
    "simulations over several surveys are built twice from the same recipe with unpredictable seeds of their own and run with equal "
    "generators (and separately with equal own seeds), one of the twins while the process-wide generators and other nodes are being used; "
    "all values are compared bit by bit and the process-wide generator states are checked to be untouched. Generators in different states "
    "must give different continuous draws. Non-trivial: at least one random continuous value compared; distinct by recipe, sizes and seeds."
)
REQUIRED = [
    "node:uniform", "node:normal_linked", "node:vector", "node:binary", "node:sampler", "node:weighted", "node:table", "node:pdf_table", "node:inverse", "node:inverse_class", "node:pdf", "node:logpdf",
    "node:uniform_radec", "node:pointing", "node:coverage", "node:moc", "node:x1", "node:sn_coord", "node:host", "node:flow", "node:cond_flow", "mode:generator", "mode:seed", "mode:reseed",
    "graph", "eval:sed", "eval:band", "eval:white_noise", "eval:agn", "eval:agn_member", "eval:choice", "eval:templates", "eval:sampled_inside", "sim:1", "sim:2", "sim:own_seed", "sim:reused", "sim:citations", "helper:opsim", "helper:ztf",
    "helper:edd", "helper:walk", "helper:noise", "perturbed", "differs", "node_order", "long_chain", "process",
]
ASSUMPTIONS = [
    "Bilby prior nodes draw from bilby's own process-wide generator (documented in their class) and are outside the claim.",
    "Nodes without own seed and without a given generator draw unpredictably by design.",
]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return all(x is y or x == y or (x != x and y != y) or same(x, y) for x, y in zip(a.ravel(), b.ravel(), strict=True)) if a.ndim else a.item() == b.item()
    return np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc")


class Globals:
    """The process-wide generators must be untouched by the code under test."""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.np, self.py = np.random.get_state(), random.getstate()
        return self

    def __exit__(self, *exc):
        if exc[0] is None:
            s = np.random.get_state()
            self.c.ok(s[0] == self.np[0] and np.array_equal(s[1], self.np[1]) and s[2:] == self.np[2:], "global_numpy", "numpy's process-wide generator was used")
            self.c.ok(random.getstate() == self.py, "global_python", "python's process-wide generator was used")


def perturb(c):
    """Other random use in the same process."""
    np.random.seed(int(c.rng.integers(2**31)))
    np.random.random(int(c.rng.integers(0, 9)))
    random.seed(int(c.rng.integers(2**31)))
    other = NumpyRandomFunc("normal", loc=0.0, scale=1.0)
    other.generate(num_samples=int(c.rng.integers(1, 5)), rng_info=np.random.default_rng(1) if c.rng.uniform() < 0.5 else None)
    c.seen("perturbed")


def clones(state):
    g = np.random.default_rng()
    g.bit_generator.state = state
    h = np.random.default_rng()
    h.bit_generator.state = state
    return g, h


def start(rng):
    """A generator state somewhere along a stream."""
    g = np.random.default_rng(int(rng.integers(2**31)))
    g.normal(size=int(rng.integers(0, 20)))
    return g.bit_generator.state


# ---- recipes for single nodes -------------------------------------------------------------------
def smooth_pdf(x):
    return np.exp(-0.5 * (np.asarray(x) - 1.0) ** 2)


class Bump:
    """A scipy-like distribution class with one argument."""

    def __init__(self, loc=0.0):
        self.loc = loc

    def pdf(self, x):
        return np.exp(-0.5 * (x - self.loc) ** 2)

    def dpdf(self, x):
        return -(x - self.loc) * self.pdf(x)


FLOWS = {}


def flow(conditional):
    if conditional not in FLOWS:
        from pzflow import Flow
        from pzflow.bijectors import Reverse

        FLOWS[conditional] = Flow(("a", "b"), Reverse(), conditional_columns=("redshift",)) if conditional else Flow(("x", "y"), Reverse())
    return FLOWS[conditional]


def recipes(rng, kind):
    """seed -> node with the same recipe each time; and whether all outputs are continuous."""
    lo, w = float(rng.uniform(-9, 9)), float(rng.uniform(0.1, 9))
    if kind == "uniform":
        return lambda s: NumpyRandomFunc("uniform", low=lo, high=lo + w, seed=s), True
    if kind == "normal_linked":
        return lambda s: NumpyRandomFunc("normal", loc=NumpyRandomFunc("exponential", scale=w, seed=None if s is None else s + 1), scale=0.3, seed=s), True
    if kind == "vector":
        k = int(rng.integers(2, 5))
        return lambda s: NumpyRandomFunc("normal", loc=lo, scale=w, size=k, seed=s), True
    if kind == "binary":
        return lambda s: BinarySampler(0.4, seed=s), False
    if kind in ("sampler", "weighted"):
        v = [float(x) for x in rng.uniform(0, 9, 40)]
        wt = rng.uniform(0.1, 2, 40) if kind == "weighted" else None
        return lambda s: GivenValueSampler(v, weights=wt, seed=s), False
    if kind == "table":
        d = {"ra": rng.uniform(0, 9, 60), "x": rng.uniform(0, 9, 60)}
        return lambda s: TableSampler(d, seed=s), False
    if kind == "pdf_table":
        x = np.linspace(lo, lo + w, 20)
        y = rng.uniform(0.2, 2, 20)
        return lambda s: DistributionSampler(x, y, seed=s), True
    if kind == "inverse":
        return lambda s: NumericalInversePolynomialFunc(dist=stats.norm(lo, w), seed=s), True
    if kind == "inverse_class":
        return lambda s: NumericalInversePolynomialFunc(dist=Bump, loc=NumpyRandomFunc("uniform", low=0.0, high=1.0, seed=None if s is None else s + 1), seed=s), True
    if kind == "pdf":
        return lambda s: SamplePDF(smooth_pdf, seed=s), True
    if kind == "logpdf":
        return lambda s: SampleLogPDF(lambda x: -0.5 * (x - lo) ** 2, seed=s), True
    if kind == "uniform_radec":
        return lambda s: UniformRADEC(seed=s), True
    if kind in ("pointing", "coverage"):
        sv = surveys.make(rng, str(rng.choice(sims.NOISY)), int(rng.integers(2, 30)), radius=float(rng.uniform(1, 20)))
        if kind == "pointing":
            return lambda s: ObsTableRADECSampler(sv.table, radius=2.0, seed=s), True
        return lambda s: ObsTableUniformRADECSampler(sv.table, radius=30.0, seed=s), True
    if kind == "moc":
        import astropy.units as u
        from mocpy import MOC

        moc = MOC.from_cone(lon=float(rng.uniform(0, 360)) * u.deg, lat=float(rng.uniform(-80, 80)) * u.deg, radius=float(rng.uniform(2, 9)) * u.deg, max_depth=8)
        return lambda s: ApproximateMOCSampler(moc, depth=9, seed=s), True
    if kind == "x1":
        return lambda s: HostmassX1Func(NumpyRandomFunc("uniform", low=8.0, high=12.0, seed=None if s is None else s + 1), seed=s), True
    if kind == "sn_coord":
        return lambda s: SNCoordGivenPhysicalSep(10.0, 20.0, float(w), 0.1, seed=s), True
    if kind == "host":
        return lambda s: SNIaHost(ra=1.0, dec=NumpyRandomFunc("uniform", low=0.0, high=1.0, seed=s), hostmass=NumpyRandomFunc("uniform", low=8.0, high=12.0, seed=None if s is None else s + 7), redshift=0.1), True
    from lightcurvelynx.astro_utils.pzflow_node import PZFlowNode

    if kind == "cond_flow":
        return lambda s: PZFlowNode(flow(True), redshift=NumpyRandomFunc("uniform", low=0.1, high=1.0)), True
    return lambda s: PZFlowNode(flow(False)), True


NODES = [
    "uniform", "normal_linked", "vector", "binary", "sampler", "weighted", "table", "pdf_table", "inverse", "inverse_class", "pdf", "logpdf", "uniform_radec", "pointing", "coverage",
    "moc", "x1", "sn_coord", "host",
]


def flat(state):
    """Values by parameter name only (node numbers differ between twins)."""
    out = []
    for node in sorted(state.states, key=lambda n: list(state.states).index(n)):
        for p, v in state.states[node].items():
            out.append((p, v))
    return out


def compare(c, a, b, tag, msg):
    fa, fb = flat(a), flat(b)
    c.equal([p for p, _ in fa], [p for p, _ in fb], tag + ":names", msg)
    for (p, x), (_, y) in zip(fa, fb, strict=False):
        c.ok(same(x, y), tag, f"{msg}: {p}: {str(x)[:80]} != {str(y)[:80]}")
    return len(fa)


def changed(a, b, continuous_only=True):
    """Does any sampled parameter differ?"""
    return any(not same(x, y) for (_, x), (_, y) in zip(flat(a), flat(b), strict=False))


def draws(node, sizes, g):
    return [node.sample_parameters(num_samples=k, rng_info=g) for k in sizes]


def nodes(c):
    rng = c.rng
    kind = NODES[c.index % len(NODES)]
    judge_node(c, kind, seeded=True)


def flows(c):
    kind = ["flow", "cond_flow"][c.index % 2]
    judge_node(c, kind, seeded=False)


def judge_node(c, kind, seeded):
    rng = c.rng
    make, cont = recipes(rng, kind)
    c.seen("node", kind)
    sizes = [int(k) for k in rng.choice([1, 1, 2, 5, 40], int(rng.integers(1, 4)))]
    st = start(rng)
    ga, gb = clones(st)
    A, B = make(None), make(None)
    perturb(c)
    with Globals(c):
        a = draws(A, sizes, ga)
    perturb(c)
    if rng.uniform() < 0.5:
        B.sample_parameters(num_samples=3, rng_info=np.random.default_rng(0))
    b = draws(B, sizes, gb)
    n = sum(compare(c, x, y, "generator", f"{kind} sizes {sizes}") for x, y in zip(a, b, strict=True))
    c.ok(ga.bit_generator.state == gb.bit_generator.state, "generator:state", f"{kind}: the two generators ended differently")
    c.ok(ga.bit_generator.state != st, "generator:unused", f"{kind}: the given generator was not used")
    c.seen("mode", "generator")
    # A generator in another state gives something else.
    o = draws(make(None), sizes, np.random.default_rng(int(rng.integers(2**31))))
    if cont or sum(sizes) > 20:
        c.ok(any(changed(x, y) for x, y in zip(a, o, strict=True)), "differs", f"{kind}: same values from another generator")
        c.seen("differs")
    # Two draws in a row from one generator differ too.
    two = draws(make(None), [sizes[0]] * 2, np.random.default_rng(5))
    if cont:
        c.ok(changed(*two), "differs:sequence", f"{kind}: the same values twice in a row")
    if seeded:
        s = int(rng.integers(2**31))
        A, B = make(s), make(s)
        perturb(c)
        with Globals(c):
            a = draws(A, sizes, None)
        perturb(c)
        b = draws(B, sizes, None)
        for x, y in zip(a, b, strict=True):
            compare(c, x, y, "seed", f"{kind} own seed {s}")
        c.seen("mode", "seed")
        o = draws(make(s + 1000), sizes, None)
        if cont:
            c.ok(any(changed(x, y) for x, y in zip(a, o, strict=True)), "differs:seed", f"{kind}: same values from another seed")
        if hasattr(A, "set_seed") and kind in ("uniform", "vector", "binary", "sampler", "weighted", "table", "pdf_table", "inverse", "pdf", "logpdf", "uniform_radec", "coverage", "moc", "sn_coord"):
            A.set_seed(s)
            B = make(None)
            B.set_seed(s)
            for x, y, z in zip(a, draws(A, sizes, None), draws(B, sizes, None), strict=True):
                compare(c, x, y, "reseed", f"{kind} set_seed")
                compare(c, x, z, "reseed", f"{kind} set_seed of another node")
            c.seen("mode", "reseed")
    c.fact(kind=kind, sizes=sizes, values=n)
    c.nontrivial(kind, sizes, str(st)[-60:])


class Bag(ParameterizedNode):
    def __init__(self, **kw):
        super().__init__()
        for k, v in kw.items():
            self.add_parameter(k, v)


def graphs(c):
    """Graphs drawing from several kinds of nodes at once."""
    rng = c.rng
    kinds = [str(k) for k in rng.permutation([k for k in NODES if k not in ("uniform_radec", "pointing", "coverage", "moc", "host", "table", "sn_coord")])[: int(rng.integers(2, 7))]]
    rs = [recipes(rng, k)[0] for k in kinds]

    def build(seed):
        kw = {}
        for i, r in enumerate(rs):
            kw[f"p{i}"] = r(None if seed is None else seed + 10 * i)
        # A chain of nodes, each taking a value of an earlier one; only the last one is sampled.
        bags = [Bag(own=1.0, **kw)]
        for i, j in enumerate(links):
            own = NumpyRandomFunc("normal", loc=bags[j].own, scale=0.5, seed=None if seed is None else seed + 1000 + i)
            bags.append(Bag(before=bags[-1].own, own=own))
        return bags[-1]

    length = int(rng.integers(3, 14)) if rng.uniform() < 0.5 else 0
    links = [int(rng.integers(max(0, i - 2), i + 1)) for i in range(length)]
    if length > 7:
        c.seen("long_chain")

    S = int(rng.choice([1, 3, 50]))
    st = start(rng)
    ga, gb = clones(st)
    A, B = build(None), build(None)
    with Globals(c):
        a = A.sample_parameters(num_samples=S, rng_info=ga)
    perturb(c)
    b = B.sample_parameters(num_samples=S, rng_info=gb)
    n = compare(c, a, b, "graph", f"{kinds} S={S}")
    # Labelled twins give the same values whatever the labels.
    seed = int(rng.integers(2**30))
    a, b = build(seed), build(seed)
    perturb(c)
    compare(c, a.sample_parameters(num_samples=S), b.sample_parameters(num_samples=S), "graph_seed", f"{kinds}")
    c.seen("graph")
    c.seen("node_order")
    c.fact(kinds=kinds, links=links, S=S, values=n)
    c.nontrivial(kinds, links, S, seed)


# ---- evaluations ----------------------------------------------------------------------------------
def agn(rng, seed, label=None):
    return AGN(t0=59990.0, blackhole_mass=NumpyRandomFunc("uniform", low=1e7, high=1e9, seed=seed), edd_ratio=0.4, redshift=0.3, cosmology="Planck18", seed=seed, ra=10.0, dec=10.0, node_label=label)


def lc_data(rng, filters):
    out = []
    for _ in range(3):
        t = np.sort(rng.uniform(0, 30, 8))
        out.append(LightcurveData({f: np.column_stack([t, rng.uniform(1, 90, 8)]) for f in filters}, lc_data_t0=0.0))
    return out


def disjoint_group(rng, filters):
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

    return PassbandGroup([Passband(sources.table(rng, lo=3000.0 + 1500 * i, width=1000.0), "S", f) for i, f in enumerate(filters)])


def build_model(k, what, S, seeded, filters):
    """The same model for the same k, its nodes' own seeds unpredictable unless seeded."""
    rng = np.random.default_rng(k)
    sources.SEEDED = seeded
    try:
        s = k if seeded else None
        z = [None, "zero", "vary"][int(rng.integers(3))]
        if what == "agn":
            m = agn(rng, s)
        elif what == "agn_member":
            other = sources.sed_source(rng, 1, kind="sin", redshift=None, position=(10.0, 10.0))
            m = AdditiveMultiObjectModel([agn(rng, s, "disc"), other.model], ra=10.0, dec=10.0)
        elif what == "choice":
            m = sources.combination(rng, 1, kind="pick", n=3, position=(10.0, 10.0), kinds=["constant", "sin"], redshift=z, member_effects=True).model
        elif what == "templates":
            m = MultiLightcurveTemplateModel(lc_data(rng, filters), disjoint_group(rng, filters), t0=sources.vary(rng, 60000, 60010), ra=10.0, dec=10.0)
        else:
            m = sources.any_source(rng, 1, position=(10.0, 10.0), filters=filters, allow_band=False, redshift=z).model
        if what == "white_noise" or (what in ("plain", "agn") and rng.uniform() < 0.4):
            m.add_effect(WhiteNoise(sources.vary(rng, 0.1, 5.0), rest_frame=bool(rng.uniform() < 0.5)))
    finally:
        sources.SEEDED = True
    return m


WHAT = ["plain", "white_noise", "agn", "agn_member", "choice", "templates"]


def evaluations(c):
    rng = c.rng
    what = WHAT[c.index % len(WHAT)]
    c.seen("eval", what)
    k, S = int(rng.integers(2**31)), int(rng.choice([1, 1, 4]))
    filters = ["g", "r", "i"][: int(rng.integers(1, 4))]
    pbs = disjoint_group(np.random.default_rng(k), filters)
    t = 60000.0 + np.sort(rng.uniform(0, 60, int(rng.integers(1, 12))))
    if rng.uniform() < 0.4:
        t = rng.permutation(t)
    w = np.sort(rng.uniform(3000, 9000, 6))
    f = rng.choice(filters, len(t))
    st = start(rng)

    def run(g):
        m = build_model(k, what, S, False, filters)
        state = m.sample_parameters(num_samples=S, rng_info=g)
        out = [state]
        if what != "templates":
            out.append(m.evaluate_sed(t, w, state, rng_info=g))
        out.append(m.evaluate_bandfluxes(pbs, t, f, state, rng_info=g))
        out.append(m.evaluate_bandfluxes(pbs, t, f, None, rng_info=g))
        if what != "templates":
            out.append(m.evaluate_sed(t, w, rng_info=g))
        return out

    ga, gb = clones(st)
    with Globals(c):
        a = run(ga)
    perturb(c)
    b = run(gb)
    compare(c, a[0], b[0], "eval:params", what)
    for i, (x, y) in enumerate(zip(a[1:], b[1:], strict=True)):
        c.ok(same(x, y), "eval", f"{what}: evaluation {i} differs between equal generators (max {np.nanmax(np.abs(np.asarray(x) - np.asarray(y))):.3g})")
    c.ok(ga.bit_generator.state == gb.bit_generator.state, "eval:state", what)
    c.seen("eval", "sed")
    c.seen("eval", "band")
    c.seen("eval", "sampled_inside")
    # Own seeds: parameters and (for models with their own generator) fluxes.
    m1, m2 = (build_model(k, what, S, True, filters) for _ in range(2))
    if what in ("agn", "plain", "white_noise"):
        perturb(c)
        s1 = m1.sample_parameters(num_samples=S)
        perturb(c)
        s2 = m2.sample_parameters(num_samples=S)
        if "icrolens" not in str([str(e) for e in m1.list_effects()]) and not isinstance(m1, AdditiveMultiObjectModel) and "StaticSED" not in type(m1).__name__ and "Random" not in type(m1).__name__:
            compare(c, s1, s2, "own_seed", what)
            if what == "agn" and not m1.list_effects():
                c.ok(same(m1.evaluate_sed(t, w, s1), m2.evaluate_sed(t, w, s2)), "own_seed:agn", "the same seed gave another random walk")
    # Random fluxes follow the generator.
    if what in ("white_noise", "agn", "agn_member"):
        m = build_model(k, what, S, True, filters)
        st1 = m.sample_parameters(num_samples=1, rng_info=np.random.default_rng(1))
        if not (what == "white_noise" and np.all(m.evaluate_sed(t, w, st1, rng_info=np.random.default_rng(1)) == 0)):
            x, y, z = (m.evaluate_sed(t, w, st1, rng_info=np.random.default_rng(s)) for s in (7, 8, 7))
            c.ok(same(x, z), "eval:repeat", f"{what}: repeated evaluation with an equal generator")
            c.ok(not same(x, y), "differs:flux", f"{what}: another generator gave the same flux")
    c.fact(what=what, S=S, times=len(t))
    c.nontrivial(what, S, k)


# ---- simulations ------------------------------------------------------------------------------------
def table_of(res):
    out = []
    for i in range(len(res)):
        for col in res.columns:
            if col == "lightcurve":
                for k, v in sims.light_curve(res, i).items():
                    out.append((f"{i}.{k}", v))
            elif col == "params":
                for k, v in res[col].iloc[i].items():
                    out.append((f"{i}.params", v))
            else:
                out.append((f"{i}.{col}", res[col].iloc[i]))
    return out


def simulations(c):
    rng = c.rng
    what = [*WHAT[:5], "plain"][c.index % 6]
    S = int(rng.choice([1, 3, 8]))
    su = sims.Setup(rng, S, rows=int(rng.choice([5, 30])), n_surveys=int(rng.choice([1, 2, 3])))
    c.seen("sim", str(min(2, len(su.surveys))))
    # The objects sit at (10, 10): place the surveys there.
    for sv in su.surveys:
        assert len(sv.table)
    k = int(rng.integers(2**31))
    ra, dec = float(su.ra[0]), float(su.dec[0])
    own = rng.uniform() < 0.3

    def run(g, seeded=False, **kw):
        m = build_model(k, what, S, seeded, su.all_filters)
        m.set_parameter("ra", ra)
        m.set_parameter("dec", dec)
        setup_rng = su.rng
        su.rng = np.random.default_rng(3)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return su.run(m, rng=g, obstable_save_cols=["tag"], **kw)
        finally:
            su.rng = setup_rng

    st = start(rng)
    ga, gb = clones(st)
    with Globals(c):
        a = run(ga)
    perturb(c)
    if rng.uniform() < 0.5:
        run(np.random.default_rng(99))
    cite = bool(rng.uniform() < 0.3)
    b = run(gb, **({"generate_citations": True} if cite else {}))
    if cite:
        c.seen("sim", "citations")
    ta, tb = table_of(a), table_of(b)
    c.equal([x for x, _ in ta], [x for x, _ in tb], "sim:columns")
    for (n, x), (_, y) in zip(ta, tb, strict=True):
        c.ok(same(x, y) if not sims.null(x) else sims.null(y), "sim", f"{what}: {n}: {str(x)[:80]} != {str(y)[:80]}")
    c.ok(ga.bit_generator.state == gb.bit_generator.state, "sim:state", what)
    # The noise goes on along the generator's stream.
    n_obs = sum(int(x) for x in a["nobs"])
    r1, r2 = run(ga), run(np.random.default_rng(12345))
    c.seen("sim", "reused")

    def noise(r):
        out = []
        for i in range(len(r)):
            lc = sims.light_curve(r, i)
            out += [(x - y) / e for x, y, e in zip(lc["flux"], lc["flux_perfect"], lc["fluxerr"], strict=True) if e and e > 1e-6 * abs(y)]
        return out

    za, z1, z2 = noise(a), noise(r1), noise(r2)
    if len(za) > 2:
        c.ok(za != z1 and not np.array_equal(za[:3], z1[:3]), "differs:reused", "the same noise in two runs of one generator")
        c.ok(not np.array_equal(za[:3], z2[:3]), "differs:noise", "the same noise from another generator")
    if own and what == "agn":
        p1, p2 = run(None, True), run(None, True)
        for i in range(S):
            c.ok(same(p1["params"].iloc[i][next(x for x in p1["params"].iloc[i] if x.endswith("blackhole_mass"))], p2["params"].iloc[i][next(x for x in p2["params"].iloc[i] if x.endswith("blackhole_mass"))]), "sim:own_seed")
        c.seen("sim", "own_seed")
    c.fact(what=what, S=S, surveys=len(su.surveys), observations=n_obs)
    c.nontrivial(what, S, k, n_obs)


# ---- other processes --------------------------------------------------------------------------------
def report(k):
    """Everything drawn from one seed, as text."""
    rng = np.random.default_rng(k)
    filters = [str(f) for f in rng.permutation(list("ugrizy"))[:5]]
    lines = []

    def put(name, value):
        a = np.asarray(value)
        lines.append(f"{name} {[float(x).hex() for x in a.ravel()] if a.dtype.kind == 'f' else a.tolist()}")

    for i, what in enumerate([*WHAT[:5], "plain"]):
        m = build_model(k + i, what, 3, True, filters)
        st = m.sample_parameters(num_samples=3, rng_info=np.random.default_rng(k))
        for name, v in flat(st):
            put(f"{what} {name}", v)
        put(f"{what} all", sorted(st.get_all_params_names()))
    table = Table({"time": np.arange(6.0), **{f: rng.uniform(15, 25, 6) for f in filters}}, meta={"RECUR_CLASS": "NON-RECUR"})
    data = LightcurveData.from_lclib_table(table, filters=filters[1:])
    put("lclib", data.filters)
    m = MultiLightcurveTemplateModel([data, data], disjoint_group(rng, filters), t0=sources.vary(rng, 60000, 60010), ra=10.0, dec=10.0)
    su = sims.Setup(np.random.default_rng(k), 2, rows=20, n_surveys=2)
    for name, v in flat(m.sample_parameters(num_samples=4, rng_info=np.random.default_rng(k))):
        put(f"lclib {name}", v)
    m = build_model(k, "plain", 2, True, su.all_filters)
    m.set_parameter("ra", float(su.ra[0]))
    m.set_parameter("dec", float(su.dec[0]))
    for name, v in table_of(su.run(m, rng=np.random.default_rng(k))):
        lines.append(f"run {name} {v!r}")
    print("\n".join(lines))


def processes(c):
    """A program run again gives the same again, whatever Python's string hashing does that day."""
    k = int(c.rng.integers(2**30))
    out = []
    for h in c.rng.choice(10**6, 2, replace=False):
        env = {**os.environ, "PYTHONHASHSEED": str(int(h) + 1)}
        r = subprocess.run([sys.executable, "-c", f"from checks import p02; p02.report({k})"], env=env, cwd=Path(__file__).parents[1], capture_output=True, text=True, timeout=300)
        c.ok(r.returncode == 0, "process:failed", r.stderr[-500:])
        out.append(r.stdout.splitlines())
    c.ok(len(out[0]) > 60, "process:short", f"{len(out[0])} lines")
    for a, b in zip(*out, strict=False):
        c.ok(a == b, "process", f"another run of the same program gave {b[:150]} instead of {a[:150]}")
    c.equal(len(out[0]), len(out[1]), "process:lines")
    c.seen("process", n=len(out[0]))
    c.fact(lines=len(out[0]))
    c.nontrivial("process", k)


def helpers(c):
    rng = c.rng
    s, n = int(rng.integers(2**31)), int(rng.integers(1, 40))
    for name, fn in (("opsim", create_random_opsim), ("ztf", create_random_ztf_obs_data)):
        with Globals(c):
            a = fn(n, seed=s)
        perturb(c)
        b, o = fn(n, seed=s), fn(n, seed=s + 1)
        for col in a._table.columns if hasattr(a, "_table") else ["ra", "dec"]:
            c.ok(same(np.asarray(a[col]), np.asarray(b[col])), "helper:" + name, f"{name}: column {col}")
        c.ok(not same(np.asarray(a["ra"]), np.asarray(o["ra"])), "differs:helper", name)
        c.seen("helper", name)
    st = start(rng)
    r = 10 ** rng.uniform(-4, 0)
    typ = str(rng.choice(["Blue", "Red", "blue"]))
    tau, sf = rng.uniform(1, 50, 3), rng.uniform(0.01, 1, 3)
    times = np.sort(rng.uniform(1, 50, 9))
    fl, er = rng.normal(size=9), rng.uniform(0.1, 2, 9)
    for name, fn in (
        ("edd", lambda g: eddington_ratio_dist_fun(r, galaxy_type=typ, rng=g, num_samples=n)),
        ("walk", lambda g: sample_damped_random_walk(times, tau, sf, 0.0, rng=g)),
        ("noise", lambda g: apply_noise(fl, er, rng=g)),
    ):
        g, h = clones(st)
        with Globals(c):
            a = fn(g)
        perturb(c)
        c.ok(same(a, fn(h)), "helper:" + name, name)
        c.ok(not same(a, fn(np.random.default_rng(s))), "differs:helper", name)
        with Globals(c):
            x, y = fn(None), fn(None)
        c.ok(not same(x, y), "differs:default", f"{name}: unseeded draws repeat")
        c.seen("helper", name)
    c.fact(n=n, seed=s)
    c.nontrivial(s, n)


warnings.filterwarnings("ignore", category=RuntimeWarning)
SCENARIOS = [
    Scenario(nodes, quick=114, thorough=1900),
    Scenario(flows, quick=6, thorough=40),
    Scenario(graphs, quick=40, thorough=600),
    Scenario(evaluations, quick=90, thorough=1500),
    Scenario(simulations, quick=60, thorough=1000),
    Scenario(helpers, quick=15, thorough=200),
    Scenario(processes, quick=8, thorough=80),
]
