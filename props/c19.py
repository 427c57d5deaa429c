from __future__ import annotations

import random
from fractions import Fraction

from props import _trans as T

RULE = "random collections of qrules and converted transitions (missing couplings, repeated, any order, generator or list) x node ID sets; malformed collections"


def prove(ctx):
    from contracts import qrules as C

    C.prove_min_ls(ctx)


def cases(ctx):
    for n in range(20000 if ctx.thorough else 2000):
        yield {"seed": ctx.seed * 256203221 + n}


def run_case(c):
    from ampform_dpd.adapter.qrules import convert_transitions, filter_min_ls
    from qrules.topology import FrozenTransition

    rng = random.Random(c["seed"])
    spec = T.random_transitions(rng, n=rng.randint(1, 9), canonical=True)
    if len(spec["resonances"]) > 1 and rng.random() < 0.3:  # other resonances of the same name
        keep = rng.choice([("name",), ("name", "pid"), ("name", "pid", "latex", "parity", "mass", "width")])
        for r in spec["resonances"][1:]:
            r.update({k: spec["resonances"][0][k] for k in keep})
    for t in spec["transitions"]:
        for n in (0, 1):
            t["interactions"][n] = rng.choice([[0, "1"], [1, "0"], [1, "1/2"], [2, "1/2"], [2, "3/2"]])
    tr = [T.make_transition(spec, t) for t in spec["transitions"]]
    inter = [[tuple((x[0], Fraction(x[1])) for x in t["interactions"])] for t in spec["transitions"]]
    if c["seed"] % 3:  # converted: LSCoupling or None
        one = [next(iter(convert_transitions([t]))) for t in tr]
        tr = []
        for t in one:
            d = dict(t.interactions)
            if c["seed"] % 3 == 2:
                for n in (0, 1):
                    if rng.random() < 0.25:
                        d[n] = None
            if rng.random() < 0.3:
                d = {1: d[1], 0: d[0]}
            tr.append(FrozenTransition(t.topology, t.states, d))
    order = list(tr)
    rng.shuffle(order)
    for ids in (None, set(), {0}, {1}, {0, 1}):
        sel = {0, 1} if ids is None else ids
        groups = {}
        for t in order:
            (rid, res), = t.intermediate_states.items()
            node = t.topology.edges[rid].ending_node_id
            prods = tuple(sorted(i for i, e in t.topology.edges.items() if e.originating_node_id == node))
            key = (res, prods, tuple((n, t.interactions[n]) for n in (0, 1) if n not in sel))
            for k2, g in groups:
                if k2 == key:
                    g.append(t)
                    break
            else:
                groups = [*groups, (key, [t])] if groups else [(key, [t])]
        want = []
        for _, g in groups:
            i2 = {}
            for n in (0, 1):
                vals = [t.interactions[n] for t in g]
                if n not in sel:
                    i2[n] = vals[0]
                elif any(v is None for v in vals):
                    i2[n] = None
                else:
                    best = vals[0]
                    for v in vals[1:]:
                        if v < best:
                            best = v
                    i2[n] = best
            want.append((g[0].topology, dict(g[0].states), i2))
        arg = {0: order, 1: tuple(order), 2: iter(order)}[rng.randrange(3)]
        before = None if ids is None else set(ids)
        got = filter_min_ls(arg) if ids is None and rng.random() < 0.5 else filter_min_ls(arg, ids)
        if ids is not None and ids != before:
            return "the set of node IDs is altered"
        g2 = [(t.topology, dict(t.states), dict(t.interactions)) for t in got]
        if g2 != want:
            return f"filter on {ids}: {len(g2)} transitions {[x[2] for x in g2]}, expected {len(want)}: {[x[2] for x in want]}"
        if not isinstance(got, tuple):
            return f"result is a {type(got)}"
    # malformed
    top = T.make_topology({0: (None, 5), 4: (5, 6), 1: (5, None), 2: (6, None), 3: (6, None)})
    bad1 = FrozenTransition(top, {i: "s" for i in range(5)}, {5: None, 6: None})
    top2 = T.make_topology({0: (None, 0), 1: (0, None), 2: (0, None), 3: (0, None)})
    bad2 = FrozenTransition(top2, {i: "s" for i in range(4)}, {0: None})
    top3 = T.make_topology({0: (None, 0), 4: (0, 1), 5: (0, 1), 1: (1, None), 2: (1, None)})
    bad3 = FrozenTransition(top3, {i: "s" for i in (0, 1, 2, 4, 5)}, {0: None, 1: None})
    for bad in ([bad1], [bad2], [bad3], [tr[0], bad3], [bad1, tr[0]]):
        try:
            filter_min_ls(bad)
        except ValueError:
            continue
        return "a malformed collection is filtered"
    return None
