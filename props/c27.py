from __future__ import annotations

import random

import sympy as sp
from ampform.sympy import PoolSum
from oracle import ref
from props import _amp as A
from props import _gen as G

RULE = "random decays with spinless and spinning states; models with and without clean-up compared field by field and as evaluated intensity"


def prove(ctx):
    from contracts import amplitude as C

    C.prove_cleanup(ctx)


def cases(ctx):
    for n in range(400 if ctx.thorough else 50):
        yield {"seed": ctx.seed * 141650939 + n}


def run_case(c):
    from ampform_dpd import DalitzPlotDecompositionBuilder

    rng = random.Random(c["seed"])
    spec = G.random_decay(rng, max_two_j=2, max_two_jr=3, max_combos=6, n_chains=rng.randint(1, 3), ls=True)
    if c["seed"] % 5 == 0:  # all spinless
        for s in spec["states"]:
            s["spin"] = "0"
        spec["chains"] = [dict(x, res=dict(x["res"], spin="1"), prod_ls=[1, "1"], dec_ls=[1, "0"]) for x in spec["chains"]]
    decay = G.make_decay(spec)
    builder = DalitzPlotDecompositionBuilder(decay, min_ls=rng.random() < 0.5, all_subsystems=rng.random() < 0.3)
    A.register_tags(builder, decay)
    ks = sorted({x["k"] for x in spec["chains"]})
    kw = {"reference_subsystem": rng.choice([None, *ks]), "use_coefficients": rng.random() < 0.5}
    a = G.quiet(builder.formulate, **kw)
    b = G.quiet(builder.formulate, cleanup_summations=True, **kw)
    for f in ("decay", "amplitudes", "variables", "parameter_defaults", "masses", "invariants"):
        if getattr(a, f) != getattr(b, f):
            return f"{f} differs with clean-up ({kw})"
    spinless = {i for i, s in enumerate(spec["states"]) if s["spin"] == "0"}
    for p in b.intensity.atoms(PoolSum):
        for sym, vals in p.indices:
            for i in spinless:
                if sym.name in {f"lambda{i}", rf"\lambda_{i}^{{\prime}}", Rf"\lambda_{i}^{{\prime}}"}:
                    return f"summation over {sym} is left after clean-up"
            if len(tuple(vals)) == 1:
                return f"trivial summation over {sym} in {tuple(vals)} is left after clean-up"
    ev = ref.Evaluator()
    if not ref.close(ev(a.intensity), ev(b.intensity)):
        return f"intensity changes with clean-up: {ev(a.intensity)} and {ev(b.intensity)}"
    x, y = a.intensity.doit(), b.intensity.doit()
    if x != y and not ref.close(ev(x), ev(y)):
        return "evaluated intensity changes with clean-up"
    if c["seed"] % 4 == 0 and not ref.close(ev(a.full_expression), ev(b.full_expression), 1e-7):
        return "full expression changes with clean-up"
    return None
