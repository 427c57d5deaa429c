from __future__ import annotations

import random

from props import _angles as A
import sympy as sp
from pyvc.result import PROVED, REFUTED

FN = "angles.formulate_scattering_angle"
RULE = "random physical events (masses, momenta) x ordered pairs of IDs; explicit Lorentz boosts as oracle; invalid IDs"
ASSUMPTIONS = ["ampform Kallen is the Kallen function (executed, not assumed, via doit)",
               "interior of the Dalitz region: box constraints and Gram determinant > 0; exact real arithmetic"]
TRUSTED = ["z3", "SymPy together/fraction/cancel (results re-checked as polynomial identities by z3)", "CPython executing formulate_scattering_angle on the 6 concrete ID pairs"]


def prove(ctx):
    from ampform_dpd.angles import formulate_scattering_angle

    A.vacuity(ctx)
    A.prove_kallen_lemmas(ctx)
    for i in (1, 2, 3):
        for j in (1, 2, 3):
            if i == j:
                continue
            k = A.third(i, j)

            def go(i=i, j=j, k=k):
                sym, expr = formulate_scattering_angle(i, j)
                ok = sym == sp.Symbol(f"theta_{i}{j}", real=True)
                ctx.add(f"{FN}({i},{j}):symbol", FN, PROVED if ok else REFUTED, "normal form", 0, repr(sym))
                sign, arg = A.split_angle(expr)
                ctx.add(f"{FN}({i},{j}):principal value", FN, PROVED if sign == 1 else REFUTED, "normal form")
                A.ensure_cos(ctx, f"{FN}({i},{j})", FN, arg, {i: 1}, {k: -1}, {i: 1, j: 1})

            ctx.guarded(f"{FN}({i},{j})", FN, go)
    prove_ids(ctx)


def prove_ids(ctx):
    try:
        from contracts.angles import prove_scattering_ids
    except ImportError:
        return
    ctx.guarded(f"{FN}:requires IDs", FN, lambda: prove_scattering_ids(ctx))


def cases(ctx):
    for i in (-1, 0, 1, 2, 3, 4, 12, 23):
        for j in (-1, 0, 1, 2, 3, 4, 12, 31):
            if i == j or not {i, j} <= {1, 2, 3}:
                yield {"ids": [i, j]}
    for n in range(6000 if ctx.thorough else 400):
        yield {"seed": ctx.seed * 100003 + n, "massless": n % 4 == 3}


def run_case(c):
    from ampform_dpd.angles import formulate_scattering_angle

    if "ids" in c:
        try:
            r = formulate_scattering_angle(*c["ids"])
        except ValueError:
            return None
        return f"IDs {c['ids']} are accepted: {r}"
    from oracle import ref

    masses, p, inv = A.event(c["seed"], c["massless"])
    for i in (1, 2, 3):
        for j in (1, 2, 3):
            if i == j:
                continue
            k = A.third(i, j)
            sym, expr = formulate_scattering_angle(i, j)
            if sym != sp.Symbol(f"theta_{i}{j}", real=True):
                return f"symbol of ({i},{j}) is {sym!r}"
            P = p[i] + p[j]
            want = ref.cos_between(ref.boost_to_rest(P, p[i]), -ref.boost_to_rest(P, p[k]))
            import math

            got = A.numeric(expr, masses, inv)
            if abs(got - math.acos(want)) > 1e-6:
                return f"theta_{i}{j} = {got}, but the angle is {math.acos(want)} at masses {masses}, invariants {inv}"
    return None
