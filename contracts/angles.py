"""C01 and C02: the preconditions on the particle IDs of the angles, for all integers."""
from __future__ import annotations

import z3
from pyvc import compare as K
from pyvc.compare import Differ, verify
from pyvc.engine import num_term
from pyvc.values import number

ALLOWED = (1, 2, 3)


def ids(m, names, bad):
    xs = [number(n, "int", int) for n in names]
    m.assume(bad(*(num_term(x) for x in xs)))
    return xs, {}


def rejected(m, kind, val, args, kwargs):
    if kind != "raise" or not isinstance(val, ValueError):
        raise Differ(f"{K.describe(kind, val)} although the IDs are not those of an angle", m.model())


def among(t):
    return z3.Or(*[t == k for k in ALLOWED])


def prove_scattering_ids(ctx):
    from ampform_dpd.angles import formulate_scattering_angle

    verify(ctx, "raises ValueError: for any integer outside 1, 2, 3", formulate_scattering_angle,
           lambda m: ids(m, ["i", "j"], lambda i, j: z3.Not(z3.And(among(i), among(j)))), post=rejected)
    verify(ctx, "raises ValueError: for equal IDs", formulate_scattering_angle,
           lambda m: ids(m, ["i", "j"], lambda i, j: i == j), post=rejected)


def prove_theta_hat_ids(ctx):
    from ampform_dpd.angles import formulate_theta_hat_angle

    verify(ctx, "raises ValueError: for any integer outside 1, 2, 3", formulate_theta_hat_angle,
           lambda m: ids(m, ["i", "j"], lambda i, j: z3.Not(z3.And(among(i), among(j)))), post=rejected)
