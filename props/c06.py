from __future__ import annotations

from fractions import Fraction
from itertools import product

import sympy as sp

RULE = "parent and child spins up to 7/2, maximum L 0..6, parities +-1; reference enumeration with exact fractions"


def prove(ctx):
    from contracts import spin as C

    C.prove_ls(ctx)


def cases(ctx):
    top = 8 if ctx.thorough else 6
    for J, s1, s2 in product(range(top), repeat=3):
        for L in ((0, 1, 2, 3, 4, 6) if ctx.thorough else (0, 3, 5)):
            yield {"J": J, "s1": s1, "s2": s2, "max_L": L, "type": "sympy" if (J + s1) % 2 else "float"}
        yield {"J": J, "s1": s1, "s2": s2, "max_L": None, "type": "float"}


def want_ls(J, s1, s2, max_L):
    out = []
    for L in range(max_L + 1):
        S = abs(s1 - s2)
        while S <= s1 + s2:
            if abs(L - S) <= J <= L + S and (L + S - J).denominator == 1:
                out.append((L, S))
            S += 1
    return sorted(out)


def run_case(c):
    from ampform_dpd.spin import filter_parity_violating_ls, generate_ls_couplings

    J, s1, s2 = (Fraction(c[k], 2) for k in ("J", "s1", "s2"))
    cv = (lambda x: sp.Rational(x.numerator, x.denominator)) if c["type"] == "sympy" else float
    kw = {} if c["max_L"] is None else {"max_L": c["max_L"]}
    got = generate_ls_couplings(cv(J), cv(s1), cv(s2), **kw)
    want = want_ls(J, s1, s2, 3 if c["max_L"] is None else c["max_L"])
    as_f = [(int(L), Fraction(int(S.p), int(S.q))) for L, S in got]
    if as_f != want or any(not isinstance(L, int) for L, _ in got):
        return f"LS couplings for {c}: {got}, expected {[(L, str(S)) for L, S in want]}"
    full = [(L, sp.Rational(n, 2)) for n in range(5) for L in range(5)][:: 1 if c["J"] % 2 else -1]
    for lst in (got, full):
        for p in product((-1, 1), repeat=3):
            f = filter_parity_violating_ls(lst, *p)
            w = [x for x in lst if p[0] == p[1] * p[2] * (-1) ** (x[0] % 2)]
            if list(f) != w:
                return f"parity filter {p} of {lst}: {f}, expected {w}"
    return None
