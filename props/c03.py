from __future__ import annotations

import math

from props import _angles as A
import sympy as sp
import z3
from pyvc import smt
from pyvc.result import PROVED, REFUTED, UNDECIDED

FN = "angles.formulate_zeta_angle"
RULE = "random physical events x all 48 index combinations; axes from explicit Lorentz boosts as oracle; additivity"
ASSUMPTIONS = ["particle i is massive (its rest frame exists)", "interior of the Dalitz region; exact real arithmetic"]
TRUSTED = ["z3", "SymPy together/fraction/cancel (results re-checked as polynomial identities by z3)", "CPython executing the function on the 48 concrete index combinations"]


def rank(i, j):
    """Position of chain j with respect to particle i in the cyclic order."""
    return {0: 0, 1: 1, 2: -1}[(j - i) % 3]


def axis(i, j):
    """Momentum along which chain j defines the helicity of particle i (in the rest frame of i)."""
    return 0 if i == j else A.third(i, j)


def expected_sign(i, j, k):
    r = rank(i, j) - rank(i, k)
    return (r > 0) - (r < 0)


def prove(ctx):
    from ampform_dpd.angles import formulate_theta_hat_angle, formulate_zeta_angle

    A.vacuity(ctx)
    A.prove_kallen_lemmas(ctx)
    for i in (0, 1, 2, 3):
        for j in (1, 2, 3):
            for k in (0, 1, 2, 3):

                def go(i=i, j=j, k=k):
                    if i == 0 and k == 0:
                        return
                    sym, expr = formulate_zeta_angle(i, j, k)
                    n = f"{FN}({i},{j},{k})"
                    ok = sym == sp.Symbol(Rf"\zeta^{i}_{{{j}({k})}}", real=True)
                    ctx.add(f"{n}:symbol", FN, PROVED if ok else REFUTED, "normal form", 0, repr(sym))
                    if i == 0:
                        want = formulate_theta_hat_angle(j, k)[1]
                        ctx.add(f"{n}:equals theta-hat", FN, PROVED if expr == want else UNDECIDED, "normal form", 0, expr)
                        return
                    kk = k or i
                    if j == kk:
                        ctx.add(f"{n}:zero", FN, PROVED if expr == 0 else REFUTED, "normal form", 0, expr)
                        return
                    sign, arg = A.split_angle(expr)
                    ctx.add(f"{n}:sign", FN, PROVED if sign == expected_sign(i, j, kk) else REFUTED, "normal form", 0, sign)
                    A.ensure_cos(ctx, n, FN, arg, {axis(i, j): 1}, {axis(i, kk): 1}, {i: 1}, massive=(i,))
                    if k:
                        opposite = formulate_zeta_angle(i, k, j)[1]
                        ok = sp.expand(opposite + expr) == 0
                        ctx.add(f"{n}:antisymmetric", FN, PROVED if ok else UNDECIDED, "normal form", 0, opposite)

                ctx.guarded(f"{FN}({i},{j},{k})", FN, go)
    # additivity: with magnitudes and signs as above, in the rest frame of i, p0 = p_j + p_k lies
    # between p_j and p_k: all three signed areas coincide, so oriented angles in (0, pi) add up.
    a, x, y = z3.Reals("a x y")
    u, w = (a, z3.RealVal(0)), (x, y)
    v = (a + x, y)
    cross = lambda p, q: p[0] * q[1] - p[1] * q[0]  # noqa: E731
    st, _, dt = smt.check([a > 0, y > 0, z3.Not(z3.And(cross(u, v) == a * y, cross(v, w) == a * y, cross(u, w) == a * y, cross(u, v) > 0))])
    ctx.add("lemma:additivity of zeta^i", "lemma", PROVED if st == "unsat" else UNDECIDED, "z3", dt)
    for i in (1, 2, 3):
        ok = all(
            expected_sign(i, *c) == 1 for c in (((i % 3) + 1, i), (i, ((i + 1) % 3) + 1), ((i % 3) + 1, ((i + 1) % 3) + 1))
        )
        ctx.add(f"lemma:orientation of zeta^{i}", "lemma", PROVED if ok else REFUTED, "normal form")


def cases(ctx):
    for n in range(2000 if ctx.thorough else 120):
        yield {"seed": ctx.seed * 100003 + n}


def run_case(c):
    from ampform_dpd.angles import formulate_theta_hat_angle, formulate_zeta_angle
    from oracle import ref

    masses, p, inv = A.event(c["seed"])
    vals = {}
    for i in (0, 1, 2, 3):
        for j in (1, 2, 3):
            for k in (0, 1, 2, 3):
                if i == 0 and k == 0:
                    continue
                sym, expr = formulate_zeta_angle(i, j, k)
                if sym != sp.Symbol(Rf"\zeta^{i}_{{{j}({k})}}", real=True):
                    return f"symbol of {i, j, k} is {sym!r}"
                got = A.numeric(expr, masses, inv)
                vals[i, j, k] = got
                if i == 0:
                    want = A.numeric(formulate_theta_hat_angle(j, k)[1], masses, inv)
                else:
                    kk = k or i
                    b = [ref.boost_to_rest(p[i], q) for q in p]
                    u, w = b[axis(i, j)], b[axis(i, kk)]
                    want = 0.0 if j == kk else expected_sign(i, j, kk) * math.acos(max(-1, min(1, ref.cos_between(u, w))))
                if abs(got - want) > 1e-6:
                    return f"zeta^{i}_{j}({k}) = {got}, but should be {want} at masses {masses}, invariants {inv}"
    for i in (0, 1, 2, 3):
        for j in (1, 2, 3):
            for k in (1, 2, 3):
                for l in (1, 2, 3):  # noqa: E741
                    d = (vals[i, j, l] + vals[i, l, k] - vals[i, j, k]).real / (2 * math.pi)
                    if abs(d - round(d)) > 1e-6:
                        return f"zeta^{i}: {j}({l}) + {l}({k}) != {j}({k}) at masses {masses}, invariants {inv}"
    return None
