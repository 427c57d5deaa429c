from __future__ import annotations

import itertools
import random
from fractions import Fraction

from props import _trans as T

RULE = "random transitions with 0, 2 or 3 equal final-state particles, qrules and converted; lists, tuples, iterators and reactions"


def prove(ctx):
    from contracts import qrules as C

    C.prove_permute(ctx)


def cases(ctx):
    for n in range(15000 if ctx.thorough else 1500):
        yield {"seed": ctx.seed * 295075153 + n}


def swapped(t, i, j):
    from qrules.topology import FrozenTransition, Topology

    sw = {i: j, j: i}
    edges = {sw.get(e, e): x for e, x in t.topology.edges.items()}
    return FrozenTransition(Topology(nodes=t.topology.nodes, edges=edges), t.states, t.interactions)


def want_for(t, ids):
    out = [t]
    for i, j in itertools.combinations(ids, 2):
        s = swapped(t, i, j)
        if s not in out:
            out.append(s)
    return sorted(out)


def run_case(c):
    from ampform_dpd.adapter.qrules import convert_transitions, permute_equal_final_states
    from qrules.transition import ReactionInfo

    rng = random.Random(c["seed"])
    spec = T.random_transitions(rng)
    if rng.random() < 0.3:  # other particles with the same properties
        keep = rng.choice([("latex",), ("latex", "pid"), ("latex", "pid", "spin", "parity", "mass", "width")])
        for i in (1, 2, 3):
            if i not in spec["equal"]:
                spec["parts"][i].update({k: spec["parts"][spec["equal"][0] if spec["equal"] else 1][k] for k in keep})
                spec["parts"][i]["latex"] = spec["parts"][i]["latex"] or "P^x"
        if "latex" in keep:
            for i in (1, 2, 3):
                spec["parts"][i]["latex"] = "P^x"
        for t in spec["transitions"]:
            t["projections"][1:4] = [str(Fraction(spec["parts"][i]["spin"]) - rng.randint(0, int(2 * Fraction(spec["parts"][i]["spin"])))) for i in (1, 2, 3)]
    ids = [spec["ids"][i] for i in spec["equal"]]
    raw = [T.make_transition(spec, t) for t in spec["transitions"]]
    normal = spec["ids"] == [0, 1, 2, 3, 4]
    for tr in [raw, *([[next(iter(convert_transitions([t]))) for t in raw]] if normal or True else [])]:
        tot = []
        if tr is not raw:  # converted outer states carry their index and are compared by name
            pass
        for t in tr:
            got = permute_equal_final_states(t)
            want = want_for(t, ids)
            if got != want or not isinstance(got, list):
                return f"permutations of equal states {ids}: {[dict(x.topology.edges) for x in got]}, expected {[dict(x.topology.edges) for x in want]}"
            tot.extend(want)
        for arg in (list(tr), tuple(tr), iter(tr)):
            if permute_equal_final_states(arg) != tot:
                return "permutations of a collection are not those of its items in order"
    reaction = ReactionInfo(transitions=raw, formalism="helicity")
    r = permute_equal_final_states(reaction)
    if r.formalism != "helicity" or list(r.transitions) != sorted(x for t in raw for x in want_for(t, ids)):
        return "permutations of a reaction are not those of its transitions"
    return None
