from __future__ import annotations

from props import _angles as A
from pyvc.result import PROVED, REFUTED

RULE = "physical events, also close to the boundary and with extreme mass ratios, x all angles: real and finite"
ASSUMPTIONS = ["interior of the Dalitz region: box constraints and Gram determinant > 0; exact real arithmetic (rounding at the boundary is not covered)",
               "zeta^i: particle i massive"]
TRUSTED = ["z3", "SymPy together/fraction/cancel (results re-checked as polynomial identities by z3)", "CPython executing the functions on all concrete IDs"]


def angles():
    from ampform_dpd import angles as a

    for i in (1, 2, 3):
        for j in (1, 2, 3):
            if i != j:
                yield f"angles.formulate_scattering_angle({i},{j})", "angles.formulate_scattering_angle", (), (lambda i=i, j=j: a.formulate_scattering_angle(i, j))
            yield f"angles.formulate_theta_hat_angle({i},{j})", "angles.formulate_theta_hat_angle", (), (lambda i=i, j=j: a.formulate_theta_hat_angle(i, j))
            for k in (0, 1, 2, 3):
                yield f"angles.formulate_zeta_angle({i},{j},{k})", "angles.formulate_zeta_angle", (i,), (lambda i=i, j=j, k=k: a.formulate_zeta_angle(i, j, k))


def prove(ctx):
    A.vacuity(ctx)
    A.prove_kallen_lemmas(ctx)
    for name, fn, massive, f in angles():

        def go(name=name, fn=fn, massive=massive, f=f):
            sign, arg = A.split_angle(f()[1])
            if sign == 0:
                ctx.add(f"{name}:zero", fn, PROVED, "normal form")
                return
            bad = A.symbols_of(arg)
            if bad:
                ctx.add(f"{name}:only masses and invariants", fn, REFUTED, "normal form", 0, bad)
                return
            A.ensure_domain(ctx, name, fn, arg, massive)

        ctx.guarded(name, fn, go)


def cases(ctx):
    for n in range(3000 if ctx.thorough else 150):
        yield {"seed": ctx.seed * 7919 + n, "kind": ["plain", "flat", "heavy", "light"][n % 4]}


def run_case(c):
    import random

    import numpy as np

    from oracle import ref

    rng = random.Random(c["seed"])
    masses, p = ref.random_event(rng)
    scale = {"heavy": 30.0, "light": 0.01}.get(c["kind"])
    if scale:
        i = rng.randrange(1, 4)
        masses[i] *= scale
    if c["kind"] == "flat":
        for q in p[1:]:
            q[3] *= 0.02
            q[2] *= 0.02
    for i in (1, 2, 3):
        p[i][0] = np.sqrt(masses[i] ** 2 + p[i][1:] @ p[i][1:])
    p[0] = p[1] + p[2] + p[3]
    masses[0] = float(p[0][0])
    inv = {k: float(v) for k, v in ref.invariants(p).items()}
    for name, _, _, f in angles():
        v = A.numeric(f()[1], masses, inv)
        if not (abs(v.imag) < 1e-6 and abs(v.real) <= 3.2):
            return f"{name} = {v} at masses {masses}, invariants {inv}"
    return None
