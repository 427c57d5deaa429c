from __future__ import annotations

import random

from props import _amp as A
from props import _gen as G

RULE = "random decays x basis combinations x coefficient mode x helicities; defaults compared with the couplings that occur"


def prove(ctx):
    from contracts import amplitude as C

    C.prove_defaults(ctx)


def cases(ctx):
    for n in range(800 if ctx.thorough else 60):
        yield {"seed": ctx.seed * 49979687 + n}


def run_case(c):
    from ampform_dpd import DalitzPlotDecompositionBuilder

    rng = random.Random(c["seed"])
    spec = G.random_decay(rng, max_two_j=2, max_two_jr=4, max_combos=9, ls=True)
    decay = G.make_decay(spec)
    sets = G.helicity_sets(spec)
    for prod_hel in (True, False):
        for dec_hel in (True, False):
            builder = DalitzPlotDecompositionBuilder(decay, min_ls=(prod_hel, dec_hel))
            A.register_tags(builder, decay)
            for k in [rng.choice(sorted({x["k"] for x in spec["chains"]}))]:
                for lam in rng.sample(sets, min(len(sets), 2)):
                    for coeff in (False, True):
                        msg = A.check_subsystem(spec, decay, builder, k, lam, prod_hel, dec_hel, coeff)
                        if msg:
                            return msg
    # the whole model has these defaults, too
    prod_hel, dec_hel, coeff = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5
    builder = DalitzPlotDecompositionBuilder(decay, min_ls=(prod_hel, dec_hel))
    A.register_tags(builder, decay)
    model = G.quiet(builder.formulate, use_coefficients=coeff)
    from oracle import ref
    import sympy as sp

    ev = ref.Evaluator()
    used = set()
    for lam in sets:
        for n in range(len(spec["chains"])):
            used |= A.chain_value(ev, spec, n, lam, prod_hel, dec_hel, coeff)[1]
    have = {A.indexed_key(s): v for s, v in model.parameter_defaults.items() if isinstance(s, sp.Indexed)}
    if set(have) != used or any(v != 1 for v in have.values()):
        return f"defaults of the model {have}, couplings that occur {sorted(used)}"
    return None
