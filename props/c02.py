from __future__ import annotations

import math

from props import _angles as A
import sympy as sp
from pyvc.result import PROVED, REFUTED

FN = "angles.formulate_theta_hat_angle"
RULE = "random physical events x all pairs of IDs; angle between momenta in the rest frame as oracle; invalid IDs"
ASSUMPTIONS = ["interior of the Dalitz region: box constraints and Gram determinant > 0; exact real arithmetic"]
TRUSTED = ["z3", "SymPy together/fraction/cancel (results re-checked as polynomial identities by z3)", "CPython executing the function on the 9 concrete ID pairs"]
POSITIVE = {(3, 1), (1, 2), (2, 3)}


def prove(ctx):
    from ampform_dpd.angles import formulate_theta_hat_angle

    A.vacuity(ctx)
    A.prove_kallen_lemmas(ctx)
    for i in (1, 2, 3):
        for j in (1, 2, 3):

            def go(i=i, j=j):
                sym, expr = formulate_theta_hat_angle(i, j)
                ok = sym == sp.Symbol(Rf"\hat\theta_{i}({j})", real=True)
                ctx.add(f"{FN}({i},{j}):symbol", FN, PROVED if ok else REFUTED, "normal form", 0, repr(sym))
                if i == j:
                    ctx.add(f"{FN}({i},{j}):zero", FN, PROVED if expr == 0 else REFUTED, "normal form", 0, expr)
                    return
                sign, arg = A.split_angle(expr)
                want = 1 if (i, j) in POSITIVE else -1
                ctx.add(f"{FN}({i},{j}):sign", FN, PROVED if sign == want else REFUTED, "normal form", 0, sign)
                _, opposite = formulate_theta_hat_angle(j, i)
                ok = sp.expand(opposite + expr) == 0
                ctx.add(f"{FN}({i},{j}):antisymmetric", FN, PROVED if ok else "undecided", "normal form", 0, opposite)
                A.ensure_cos(ctx, f"{FN}({i},{j})", FN, arg, {i: 1}, {j: 1}, {0: 1})

            ctx.guarded(f"{FN}({i},{j})", FN, go)
    try:
        from contracts.angles import prove_theta_hat_ids
    except ImportError:
        return
    ctx.guarded(f"{FN}:requires IDs", FN, lambda: prove_theta_hat_ids(ctx))


def cases(ctx):
    for i in (-1, 0, 1, 2, 3, 4, 12):
        for j in (-1, 0, 1, 2, 3, 4, 12):
            if not {i, j} <= {1, 2, 3}:
                yield {"ids": [i, j]}
    for n in range(6000 if ctx.thorough else 400):
        yield {"seed": ctx.seed * 100003 + n, "massless": n % 4 == 3}


def run_case(c):
    from ampform_dpd.angles import formulate_theta_hat_angle

    if "ids" in c:
        try:
            r = formulate_theta_hat_angle(*c["ids"])
        except ValueError:
            return None
        return f"IDs {c['ids']} are accepted: {r}"
    from oracle import ref

    masses, p, inv = A.event(c["seed"], c["massless"])
    for i in (1, 2, 3):
        for j in (1, 2, 3):
            sym, expr = formulate_theta_hat_angle(i, j)
            if sym != sp.Symbol(Rf"\hat\theta_{i}({j})", real=True):
                return f"symbol of ({i},{j}) is {sym!r}"
            if i == j:
                if expr != 0:
                    return f"theta-hat_{i}({i}) = {expr}"
                continue
            want = math.acos(ref.cos_between(p[i], p[j])) * (1 if (i, j) in POSITIVE else -1)
            got = A.numeric(expr, masses, inv)
            if abs(got - want) > 1e-6:
                return f"theta-hat_{i}({j}) = {got}, but the angle is {want} at masses {masses}, invariants {inv}"
    return None
