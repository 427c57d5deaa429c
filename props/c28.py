from __future__ import annotations

import random

import sympy as sp

RULE = "random expressions, parameter mappings (overlapping keys) and factor types: DefinedExpression, (expression, parameters) as tuple or list, expressions and numbers"


def prove(ctx):
    from contracts import lineshapes as C

    C.prove_products(ctx)


def cases(ctx):
    for n in range(20000 if ctx.thorough else 1500):
        yield {"seed": ctx.seed * 198491317 + n}


def run_case(c):
    from ampform_dpd import DefinedExpression

    rng = random.Random(c["seed"])
    syms = sp.symbols("a:6")

    def expr():
        e = sp.Integer(rng.randint(-3, 3))
        for _ in range(rng.randint(0, 3)):
            e = rng.choice([e + rng.choice(syms), e * rng.choice(syms), e ** 2, sp.sin(e)])
        return e

    def params():
        return {rng.choice(syms): rng.randint(0, 99) for _ in range(rng.randint(0, 4))}

    def same(d, e, p):
        return isinstance(d, DefinedExpression) and d.expression == e and dict(d.parameters) == p

    a = DefinedExpression(expr(), params())
    ea, pa = a.expression, dict(a.parameters)
    e, p = expr(), params()
    kind = rng.choice(["def", "tuple", "list", "expr", "int", "complex", "chain", "imul", "default"])
    p0 = dict(p)
    if kind in {"def", "imul"}:
        b = DefinedExpression(e, p)
        r = a
        if kind == "imul":
            r *= b
        else:
            r = a * b
        want = (ea * e, {**pa, **p0})
        if not same(b, e, p0):
            return f"right operand changes: {b}"
    elif kind in {"tuple", "list"}:
        o = (e, p) if kind == "tuple" else [e, p]
        r = a * o
        want = (ea * e, {**pa, **p0})
        if o[0] != e or o[1] != p0:
            return f"right operand changes: {o}"
    elif kind == "chain":
        b, d = DefinedExpression(e, p), DefinedExpression(expr(), params())
        r = a * b * d
        want = (ea * e * d.expression, {**pa, **p0, **d.parameters})
        if not same(b, e, p0):
            return f"operand changes: {b}"
    elif kind == "default":
        r = DefinedExpression() * a
        want = (ea, pa)
        if DefinedExpression().parameters or DefinedExpression().expression != 1:
            return f"default is {DefinedExpression()}"
        r.parameters[sp.Symbol("zzz")] = 1
        if sp.Symbol("zzz") in DefinedExpression().parameters:
            return "defaults share their parameters"
        del r.parameters[sp.Symbol("zzz")]
    else:
        x = {"expr": e, "int": rng.randint(-3, 3), "complex": complex(1, 2)}[kind]
        r = a * x
        want = (ea * x, pa)
    if not same(r, *want):
        return f"product ({kind}) is {r}, expected {want}"
    if not same(a, ea, pa):
        return f"left operand changes: {a}"
    if kind in {"def", "tuple", "list", "imul", "chain"}:
        r.parameters[sp.Symbol("zzz")] = 1
        if not same(a, ea, pa):
            return "product shares its parameters with an operand"
    return None
