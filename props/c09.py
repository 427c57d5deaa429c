from __future__ import annotations

import random

from props import _amp as A
from props import _gen as G

RULE = "random decays x subsystems x all helicities; unique, shared or no dynamics per chain; independent Wigner functions; numerical comparison at random values of all couplings and angles"


def prove(ctx):
    from contracts import amplitude as C

    C.prove_subsystem(ctx, helicity=True)


def cases(ctx):
    for n in range(2400 if ctx.thorough else 250):
        yield {"seed": ctx.seed * 15485863 + n}


def run_case(c):
    from ampform_dpd import DalitzPlotDecompositionBuilder

    rng = random.Random(c["seed"])
    spec = G.random_decay(rng, max_two_j=3, max_two_jr=5, max_combos=24)
    decay = G.make_decay(spec)
    builder = DalitzPlotDecompositionBuilder(decay, min_ls=True)
    tags = A.random_tags(rng, spec)  # chains of one resonance may give equal terms
    A.register_tags(builder, decay, tags)
    sets = G.helicity_sets(spec)
    for k in (1, 2, 3):
        for lam in rng.sample(sets, min(len(sets), 5)):
            msg = A.check_subsystem(spec, decay, builder, k, lam, True, True, defaults=False, tags=tags)
            if msg:
                return msg
    return None
