from __future__ import annotations

import copy
import random

import sympy as sp
from oracle import ref
from props import _amp as A
from props import _gen as G

RULE = "random decays and builder configurations; completeness, closedness, repeatability; full expression evaluated numerically against the formulas of C09-C12"


def prove(ctx):
    from contracts import amplitude as C

    C.prove_model(ctx)


def cases(ctx):
    for n in range(300 if ctx.thorough else 40):
        yield {"seed": ctx.seed * 86028121 + n}


def run_case(c):
    from ampform_dpd import DalitzPlotDecompositionBuilder

    rng = random.Random(c["seed"])
    spec = G.random_decay(rng, max_two_j=1 if c["seed"] % 3 else 2, max_two_jr=3, max_combos=6, n_chains=rng.randint(1, 3), ls=True)
    decay = G.make_decay(spec)
    before = repr(decay)
    prod_hel, dec_hel, coeff, all_sub, cleanup = (rng.random() < 0.5 for _ in range(5))
    ks = sorted({x["k"] for x in spec["chains"]})
    builder = DalitzPlotDecompositionBuilder(decay, min_ls=(prod_hel, dec_hel), all_subsystems=all_sub)
    A.register_tags(builder, decay)
    r = rng.choice([None, *ks, 1, 2, 3])
    kw = {"reference_subsystem": r, "cleanup_summations": cleanup, "use_coefficients": coeff}
    models = [G.quiet(builder.formulate, **kw) for _ in range(2)]
    if models[0] != models[1]:
        return f"formulating twice gives different models ({kw})"
    other = DalitzPlotDecompositionBuilder(G.make_decay(spec), min_ls=(prod_hel, dec_hel), all_subsystems=all_sub)
    A.register_tags(other, other.decay)
    G.quiet(other.formulate, use_coefficients=not coeff)
    m3 = G.quiet(other.formulate, **kw)
    for f in ("intensity", "amplitudes", "variables", "parameter_defaults", "masses", "invariants"):
        if getattr(m3, f) != getattr(models[0], f):
            return f"{f} depends on what was formulated before ({kw})"
    if repr(decay) != before or builder.decay is not decay:
        return "formulating alters the decay"
    m = models[0]
    sets = G.helicity_sets(spec)
    want = {f"A^{k}[{', '.join(map(str, lam))}]" for k in ([1, 2, 3] if all_sub else ks) for lam in sets}
    have = {A.indexed_key(s): e for s, e in m.amplitudes.items()}
    if set(have) != want:
        return f"amplitudes: missing {sorted(want - set(have))[:4]}, superfluous {sorted(set(have) - want)[:4]}"
    masses = {f"m{i}": d["mass"] for i, d in enumerate(spec["states"])}
    if {s.name: v for s, v in m.masses.items()} != masses or [s.name for s in m.masses] != list(masses):
        return f"masses are {m.masses}"
    if any(m.parameter_defaults.get(s) != v for s, v in m.masses.items()):
        return "masses are missing in the parameter defaults"
    if m.decay != decay:
        return "decay of the model is not that of the builder"
    full = m.full_expression
    s_ok = set(m.invariants) | set(m.variables) | set(m.parameter_defaults)
    if {s.name for s in m.invariants} != {"sigma1", "sigma2", "sigma3"}:
        return f"invariants are {list(m.invariants)}"
    loose = set()
    for a in full.atoms(sp.Indexed):
        if a not in s_ok:
            loose.add(a)
    labels = {x for a in full.atoms(sp.Indexed) for x in a.free_symbols}
    loose |= {s for s in full.free_symbols if isinstance(s, sp.Symbol) and s not in s_ok and s not in labels}
    for v in m.variables.values():
        loose |= {s for s in v.free_symbols if s not in set(m.invariants) | set(m.parameter_defaults)}
    if loose:
        return f"symbols of the full expression without definition: {sorted(map(str, loose))[:5]} ({kw})"
    # value of the full expression
    ev = ref.Evaluator()
    for lam in sets:
        for k in (1, 2, 3):
            ev.env[f"A^{k}[{', '.join(map(str, lam))}]"] = sum(
                A.chain_value(ev, spec, n, lam, prod_hel, dec_hel, coeff)[0]
                for n, x in enumerate(spec["chains"]) if x["k"] == k)
    got = ref.Evaluator()(full)
    for rr in [r] if r else sorted(A.best_references(spec)):
        w = sum(abs(A.aligned_value(ev, spec, lam, rr)) ** 2 for lam in sets)
        if ref.close(got, w, 1e-7):
            return None
    return f"full expression evaluates to {got}, the formulas give {w} ({kw}, basis {prod_hel, dec_hel})"
