from __future__ import annotations

import random

import sympy as sp
from props import _gen as G

RULE = "random decays and all pairs of Mandelstam variables; sum rule as polynomial identity"


def prove(ctx):
    from contracts import lineshapes as C

    C.prove_invariants(ctx)


def cases(ctx):
    for n in range(1500 if ctx.thorough else 200):
        yield {"seed": ctx.seed * 179424673 + n}


def run_case(c):
    from ampform_dpd import DalitzPlotDecompositionBuilder, formulate_invariants, formulate_third_mandelstam
    from ampform_dpd.decay import ThreeBodyDecay

    rng = random.Random(c["seed"])
    spec = G.random_decay(rng)
    states = G.make_states(spec)
    order = list(states)
    rng.shuffle(order)
    decay = ThreeBodyDecay({i: states[i] for i in order}, [G.make_chain(x, states) for x in spec["chains"]])
    m = sp.symbols("m:4", nonnegative=True)
    s = [None, *sp.symbols("sigma1:4", nonnegative=True)]
    tot = sum(x**2 for x in m)
    inv = formulate_invariants(decay)
    if set(inv) != set(s[1:]):
        return f"invariants {list(inv)}"
    for k in (1, 2, 3):
        i, j = G.PAIR[k]
        if sp.expand(inv[s[k]] - (tot - s[i] - s[j])) != 0:
            return f"sigma{k} = {inv[s[k]]}"
        for x, y in ((i, j), (j, i)):
            e = formulate_third_mandelstam(decay, x, y)
            if sp.expand(e - (tot - s[x] - s[y])) != 0:
                return f"third Mandelstam variable of {x}, {y} is {e}"
    if sp.expand(formulate_third_mandelstam(decay) - (tot - s[1] - s[2])) != 0:
        return f"third Mandelstam variable is {formulate_third_mandelstam(decay)}"
    if c["seed"] % 10 == 0:
        model = G.quiet(DalitzPlotDecompositionBuilder(G.make_decay(spec)).formulate) if spec["states"][0]["spin"] in "01" else None
        if model is not None and dict(model.invariants) != dict(inv):
            return f"invariants of the model: {model.invariants}"
    return None
