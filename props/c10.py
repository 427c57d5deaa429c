from __future__ import annotations

import random
import warnings

import sympy as sp
from props import _amp as A
from props import _gen as G

RULE = "random decays with LS couplings x basis combinations x helicities; Racah's formula as reference; decays without LS couplings"


def prove(ctx):
    from contracts import amplitude as C

    C.prove_subsystem(ctx, helicity=False)
    C.prove_cg(ctx)


def cases(ctx):
    for n in range(1200 if ctx.thorough else 120):
        yield {"seed": ctx.seed * 32452843 + n}


def run_case(c):
    from ampform_dpd import DalitzPlotDecompositionBuilder

    rng = random.Random(c["seed"])
    missing = c["seed"] % 4 == 0
    spec = G.random_decay(rng, max_two_j=3, max_two_jr=5, max_combos=24, ls=None if missing else True)
    decay = G.make_decay(spec)
    sets = G.helicity_sets(spec)
    for prod_hel, dec_hel in ((False, False), (True, False), (False, True)):
        builder = DalitzPlotDecompositionBuilder(decay, min_ls=(prod_hel, dec_hel) if prod_hel or dec_hel or rng.random() < 0.5 else False)
        tags = A.random_tags(rng, spec)
        A.register_tags(builder, decay, tags)
        for k in (1, 2, 3):
            in_k = [x for x in spec["chains"] if x["k"] == k]
            absent = any((not prod_hel and x["prod_ls"] is None) or (not dec_hel and x["dec_ls"] is None) for x in in_k)
            for lam in rng.sample(sets, min(len(sets), 3)):
                for coeff in (False, True):
                    if absent:
                        try:
                            G.quiet(builder.formulate_subsystem_amplitude, *map(A.rat, lam), k, use_coefficients=coeff)
                        except ValueError:
                            continue
                        return f"subsystem {k} is formulated in LS basis {prod_hel, dec_hel} although LS couplings are missing"
                    msg = A.check_subsystem(spec, decay, builder, k, lam, prod_hel, dec_hel, coeff, defaults=False, tags=tags)
                    if msg:
                        return msg
    return None
