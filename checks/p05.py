"""P05 - the dependency report against the declared relations and against intervention experiments."""

import numpy as np

from lclmon import graphs
from lclmon.core import Scenario

RULE = (
    "Random parameter graphs (as in P01); the reported parameters are compared with the parameters a draw stores, the "
    "reported reachability with the transitive closure of the declared relations, and forced values are propagated "
    "through repeated draws from one generator state to see which parameters really change; the differentiable tree is "
    "compared with the declared differentiable parameters under random switches. Non-trivial: at least 4 nodes and 6 "
    "relations; distinct by edge set."
)
REQUIRED = [
    "node:plain", "node:model", "node:func", "node:rand", "node:list", "node:selector", "node:table", "node:math",
    "node:single", "node:selfref", "node:additive_multi", "node:random_multi", "node:nested_multi", "intervention",
    "changed", "unchanged", "gradient_off", "gradient_on", "pytree_multi", "constants", "report_before_draw", "link:own_parameter",
]


def closure(outgoing, names):
    memo = {}
    for start in names:
        seen, todo = set(), list(outgoing.get(start, ()))
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(outgoing.get(x, ()))
        memo[start] = seen
    return memo


def report(c):
    rng = c.rng
    multi = [None, None, "additive", "random", "nested"][int(rng.integers(0, 5))]
    g = graphs.Graph(c, int(rng.integers(2, 12)), multi=multi)
    S = int(rng.choice([1, 4]))
    root = g.root.obj
    first = rng.uniform() < 0.5
    if first:
        dep = root.build_dependency_graph()
        c.seen("report_before_draw")
    else:
        root.sample_parameters(num_samples=1)
        dep = root.build_dependency_graph()

    counted = [n for n in g.nodes if n.kind in ("list", "table")]
    seed = int(rng.integers(0, 2**31))

    def draw(given=None):
        for m in counted:
            m.obj.reset()
        return root.sample_parameters(given_args=given, num_samples=S, rng_info=np.random.default_rng(seed))

    st = draw()
    names = st.get_all_params_names()
    listed = [x for x in dep.all_params]
    consts = {x for x in listed if x not in names and not dep.incoming[x]}
    c.seen("constants", n=len(consts))
    c.equal(sorted(x for x in listed if x not in consts), sorted(names), "parameters_listed")
    n_const = sum(r[0] == "const" for n in g.reachable() for r in n.rel.values())
    c.ok(all(str(x).startswith("const") for x in consts), "only_constants_extra", f"{sorted(consts)[:4]}")
    c.ok(len(consts) >= 0 and n_const >= 0, "constants")
    # The two directions of the report agree and there is no cycle.
    for a in listed:
        for b in dep.outgoing[a]:
            c.ok(a in dep.incoming[b], "directions_agree", f"{a} -> {b}")
        for b in dep.incoming[a]:
            c.ok(a in dep.outgoing[b], "directions_agree", f"{b} -> {a}")
    reach = closure(dep.outgoing, listed)
    for a in listed:
        c.ok(a not in reach[a], "no_cycle", a)
    # Exactly the declared relations.
    want = g.descendants()
    full = {(n, p): f"{n.name()}.{p}" for n, p in want}
    known = set(full.values())
    for key, desc in want.items():
        a = full[key]
        if a in reach:
            c.equal(sorted(reach[a] & known), sorted(full[d] for d in desc), "dependencies", f"of {a}")
    # Interventions.
    reach_nodes = g.reachable()
    cands = []
    for n in reach_nodes:
        for p, r in n.rel.items():
            if p in n.extra.get("nonnumeric", ()) or r[0] == "hidden" or n.kind == "selector" and p == "index":
                continue
            if n.kind in ("sampler",) and any(m.kind == "selector" and x[0] == "link" and x[1] is n for m in reach_nodes for x in m.rel.values()):
                continue
            if n.kind == "rand" and p == "scale":
                continue
            cands.append((n, p))
    for i in rng.choice(len(cands), min(len(cands), 6), replace=False) if cands else []:
        n, p = cands[int(i)]
        old = st[n.name()][p]
        shift = float(rng.uniform(0.5, 2.0)) * (-1 if n.kind == "rand" and p == "low" else 1)
        new = np.asarray(old, float) + shift
        new = float(new) if S == 1 else new
        st2 = draw({n.name(): {p: new}})
        a = full[(n, p)]
        changed = set()
        for x in names:
            va, vb = st[x], st2[x]
            same = va is vb or (np.shape(va) == np.shape(vb) and bool(np.all(np.asarray(va) == np.asarray(vb))))
            if not same:
                changed.add(x)
        c.ok(changed <= reach.get(a, set()) | {a}, "only_dependents_change", f"forcing {a}", extra=sorted(changed - reach.get(a, set()) - {a}))
        c.ok(a in changed, "forced_value_used", a)
        c.seen("intervention")
        c.seen("changed", n=len(changed))
        c.seen("unchanged", n=len(names) - len(changed))
        # The declared relations used here are strictly monotonic, so every declared dependent moves
        # (up to cancellation between two paths, which random coefficients exclude).
        moved = {full[d] for d in want[(n, p)]}
        moved = {m for m in moved if not m.endswith(".selected_object")}
        c.ok(moved <= changed, "every_dependent_changes", f"forcing {a}", missing=sorted(moved - changed))
    c.fact(root=g.root.kind, kinds=[n.kind for n in reach_nodes][:14], S=S, relations=len(g.edges()))
    if len(reach_nodes) >= 4 and len(g.edges()) >= 6:
        c.nontrivial(tuple(sorted((a[0].kind, a[1], b[0].kind, b[1]) for a, b in g.edges())))

    # ---- the differentiable tree ----------------------------------------------------------
    grads = {}
    for n in reach_nodes:
        for p, r in n.rel.items():
            off = n.kind in ("model", "additive_multi", "random_multi", "nested_multi") and p in ("ra", "dec", "redshift", "distance", "selected_object")
            grads[(n, p)] = r[0] == "const" and not off
            if rng.uniform() < 0.15 and r[0] in ("const", "link"):
                grads[(n, p)] = bool(rng.integers(0, 2))
                n.obj.set_allow_gradient(p, grads[(n, p)])
                c.seen("gradient_on" if grads[(n, p)] else "gradient_off")
    tree = root.build_pytree(st)
    got = {(a, p) for a, ps in tree.items() for p in ps}
    seen_nodes, todo, expect = set(), [g.root], {}
    while todo:
        n = todo.pop()
        if n in seen_nodes:
            continue
        seen_nodes.add(n)
        for p, r in n.rel.items():
            if grads[(n, p)]:
                expect[(n.name(), p)] = st[n.name()][p]
            elif r[0] == "link":
                todo.append(r[1])
        todo.extend(n.objects)
    if multi:
        c.seen("pytree_multi")
    c.equal(sorted(got), sorted(expect), "differentiable_parameters")
    for (a, p), v in expect.items():
        if (a, p) in got:
            w = tree[a][p]
            c.ok(w is v or bool(np.all(np.asarray(w) == np.asarray(v))), "differentiable_values", f"{a}.{p}")


QUICK_SCALE = 8
SCENARIOS = [Scenario(report, quick=700, thorough=12000)]
