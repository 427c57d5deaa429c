from __future__ import annotations

from decimal import Decimal
from fractions import Fraction

import sympy as sp
from oracle import ref

RULE = "spins 0, 1/2, ..., in int, float, Fraction, Decimal, SymPy and string-like numeric types; rational ranges between (half-)integers"
TYPES = ("sympy", "float", "fraction", "decimal", "int", "sympyfloat")


def conv(x: Fraction, typ: str):
    if typ == "sympy":
        return sp.Rational(x.numerator, x.denominator)
    if typ == "float":
        return float(x)
    if typ == "fraction":
        return x
    if typ == "decimal":
        return Decimal(float(x))
    if typ == "sympyfloat":
        return sp.Float(float(x))
    return int(x) if x.denominator == 1 else None


def prove(ctx):
    from contracts import spin as C

    C.prove_ranges(ctx)


def cases(ctx):
    top = 200 if ctx.thorough else 41
    for n in range(top):
        for t in TYPES:
            if conv(Fraction(n, 2), t) is not None:
                yield {"spin": str(Fraction(n, 2)), "type": t}
    for a in range(-7, 8):
        for d in range(0, 9):
            for t in ("sympy", "float", "int"):
                if conv(Fraction(a, 2), t) is not None:
                    yield {"a": str(Fraction(a, 2)), "b": str(Fraction(a, 2) + d), "type": t}


def _same(got, want, what):
    if not isinstance(got, list):
        return f"{what}: not a list: {got!r}"
    if len(got) != len(want):
        return f"{what} = {got}, expected {list(map(str, want))}"
    for g, w in zip(got, want):
        if not isinstance(g, sp.Rational) or Fraction(int(g.p), int(g.q)) != w:
            return f"{what} = {got}, expected {list(map(str, want))}"
    return None


def run_case(c):
    from ampform_dpd.spin import create_rational_range, create_spin_range

    if "spin" in c:
        j = Fraction(c["spin"])
        return _same(create_spin_range(conv(j, c["type"])), ref.spin_range(j), f"spin range of {c}")
    a, b = Fraction(c["a"]), Fraction(c["b"])
    return _same(create_rational_range(conv(a, c["type"]), conv(b, c["type"])), [a + n for n in range(int(b - a) + 1)],
                 f"range {c}")
