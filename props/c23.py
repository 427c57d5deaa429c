from __future__ import annotations

import random
from fractions import Fraction as F
from itertools import product

import sympy as sp
from oracle import ref
from props import _amp as A
from props import _gen as G
from props import _ser as S

RULE = "random model definitions without parameter-name collisions (all vertex types, both node and vertex orders, repeated resonances) x all outer helicities"


def prove(ctx):
    from contracts import serialization as C

    C.prove_chain(ctx)
    if hasattr(C, "prove_model"):
        C.prove_model(ctx)


def cases(ctx):
    for n in range(1000 if ctx.thorough else 100):
        yield {"seed": ctx.seed * 373587883 + n}


def run_case(c):
    from ampform_dpd.angles import formulate_scattering_angle
    from ampform_dpd.io.serialization import amplitude as SA

    rng = random.Random(c["seed"])
    model, info = S.random_model(rng, max_two_j=2 if c["seed"] % 3 == 0 else 1, max_combos=8)
    tl = rng.choice([lambda n: n, lambda n: f"t({n})"])
    m = G.quiet(SA.formulate, model, to_latex=tl, additional_builders={"MyShape": S.custom_builder})
    chains = model["distributions"][0]["decay_description"]["chains"]
    spins = [F(s) for s in info["spins"]]
    masses = info["masses"]
    sigma = {k: rng.uniform(2.0, 6.0) for k in (1, 2, 3)}
    env = {f"sigma{k}": v for k, v in sigma.items()}
    for q in range(4):
        if m.parameter_defaults.get(sp.Symbol(f"m{q}", nonnegative=True)) != masses[q]:
            return f"mass m{q} of the model is not {masses[q]}"
    env.update({s.name: complex(v) for s, v in m.parameter_defaults.items()})
    ev = ref.Evaluator(env)
    want = {}
    dyn = []
    for x, mt in zip(chains, info["meta"]):
        d = S.propagator_value(model, x, sigma[mt["k"]])
        for v in x["vertices"]:
            d *= S.vertex_form_factor(model, x, v, sigma, masses)
        dyn.append(d)
    for lam in product(*(ref.spin_range(s) for s in spins)):
        for x, mt, d in zip(chains, info["meta"], dyn):
            i, j = mt["pair"]
            th = ev(sp.Symbol(f"theta_{i}{j}", real=True))
            key = f"A^{mt['k']}[{', '.join(map(str, lam))}]"
            want[key] = want.get(key, 0) + mt["weight"] * d * S.recoupling_sum(x, mt, spins, lam, th)
    got = {A.indexed_key(s): e for s, e in m.amplitudes.items()}
    if set(got) != set(want):
        return f"amplitudes {sorted(set(got) ^ set(want))[:4]} are missing or extra"
    for key, e in got.items():
        v = ev(e)
        if not ref.close(v, want[key], 1e-7):
            return f"{key} evaluates to {v}, expected {want[key]}"
    # variables
    ks = sorted({mt["k"] for mt in info["meta"]})
    spec = {"states": [{"spin": s} for s in info["spins"]], "chains": [{"k": k} for k in ks]}
    angles = A.want_angles(spec, info["reference"], ks)
    for mt in info["meta"]:
        th, e = formulate_scattering_angle(*mt["pair"])
        angles[th] = e
    if dict(m.variables) != angles:
        return f"variables {sorted(map(str, m.variables))}, expected {sorted(map(str, angles))}"
    # alignment
    lams = list(product(*(ref.spin_range(s) for s in spins)))
    for lam in rng.sample(lams, min(4, len(lams))):
        e, _ = SA.formulate_aligned_amplitude(model, *map(A.rat, lam))
        ev2 = ref.Evaluator()
        g, w = ev2(e), A.aligned_value(ev2, spec, lam, info["reference"], ks)
        if not ref.close(g, w, 1e-7):
            return f"aligned amplitude at {lam}: {g}, expected {w}"
    ev3 = ref.Evaluator()
    tot = sum(abs(A.aligned_value(ev3, spec, lam, info["reference"], ks)) ** 2 for lam in lams)
    if len(lams) <= 4:
        g = ev3(m.intensity)
        if not ref.close(g, tot, 1e-7):
            return f"intensity evaluates to {g}, expected {tot}"
        m2 = G.quiet(SA.formulate, model, True, tl, {"MyShape": S.custom_builder})
        g = ev3(m2.intensity)
        if not ref.close(g, tot, 1e-7):
            return f"cleaned intensity evaluates to {g}, expected {tot}"
    # recoupling functions on their own
    for idx, x in enumerate(chains):
        for q in (2, -1):
            try:
                SA.formulate_recoupling(model, idx, q)
            except ValueError:
                continue
            return f"vertex index {q} accepted"
    return None
