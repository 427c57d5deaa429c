"""Shared by C01-C04: geometry of the three-body angles as contracts over the reals.

Specification side (written from the property text, not from the code): with
four-vector products p_a.p_b expressed through masses and invariants, the cosine of
the angle between a and b in the rest frame of P is
    (a.P b.P / P^2 - a.b) / sqrt((a.P)^2/P^2 - a^2) / sqrt((b.P)^2/P^2 - b^2).
"""
from __future__ import annotations

import time

import pyvc.env  # noqa: F401
import sympy as sp
import z3

from pyvc import smt
from pyvc.result import PROVED, REFUTED, UNDECIDED

m = sp.symbols("m:4", nonnegative=True)
s = (None, *sp.symbols("sigma1:4", nonnegative=True))
SIGMA3 = {s[3]: sum(x**2 for x in m) - s[1] - s[2]}


def third(i, j):
    return ({1, 2, 3} - {i, j}).pop()


def pp(a, b):
    """p_a . p_b"""
    if a == b:
        return m[a] ** 2
    if 0 in {a, b}:
        i = a + b
        return (m[0] ** 2 + m[i] ** 2 - s[i]) / 2
    return (s[third(a, b)] - m[a] ** 2 - m[b] ** 2) / 2


def vdot(x, y):
    """Product of linear combinations {index: coefficient} of p_0..p_3."""
    return sum(ca * cb * pp(a, b) for a, ca in x.items() for b, cb in y.items())


def spec_cos(a, b, P):
    """(numerator, |a|^2, |b|^2) of the cosine of the angle of a, b in the rest frame of P."""
    PP, aP, bP = vdot(P, P), vdot(a, P), vdot(b, P)
    return aP * bP / PP - vdot(a, b), aP**2 / PP - vdot(a, a), bP**2 / PP - vdot(b, b)


def gram():
    """Gram determinant of p1, p2, p3: positive exactly inside the Dalitz region."""
    return sp.Matrix(3, 3, lambda i, j: pp(i + 1, j + 1)).det()


def kallen(a, b, c):
    return a**2 + b**2 + c**2 - 2 * a * b - 2 * b * c - 2 * c * a


def kallens():
    for k, i, j in ((1, 2, 3), (2, 3, 1), (3, 1, 2)):
        yield kallen(m[0] ** 2, m[k] ** 2, s[k])
        yield kallen(s[k], m[i] ** 2, m[j] ** 2)


def region(massive=()):
    """z3 assumptions: interior of the Dalitz region (box; Gram > 0 is used as a factor)."""
    z = [smt.to_z3(x) for x in m]
    sg = [None] + [smt.to_z3(s[k].subs(SIGMA3)) for k in (1, 2, 3)]
    out = [z[0] > z[1] + z[2] + z[3]] + [z[i] >= 0 for i in (1, 2, 3)] + [z[i] > 0 for i in massive]
    for k, i, j in ((1, 2, 3), (2, 3, 1), (3, 1, 2)):
        out += [sg[k] > (z[i] + z[j]) * (z[i] + z[j]), sg[k] < (z[0] - z[k]) * (z[0] - z[k]), sg[k] > 0]
    return out


def prove_pos(expr, extra=()):
    """Region => expr > 0, factor by factor. Returns (status, backend, seconds, detail)."""
    expr = sp.factor(sp.sympify(expr).subs(SIGMA3))
    t_all = 0.0
    neg = 0
    for f in sp.Mul.make_args(expr):
        base, e = f.as_base_exp()
        if e.is_Integer and int(e) % 2 == 0 and not base.is_number:
            target = smt.to_z3(base) != 0
        else:
            target = smt.to_z3(base) > 0
        st, model, dt = smt.check([*region(extra), z3.Not(target)], 8000)
        t_all += dt
        if st == "unsat":
            continue
        st2, _, dt = smt.check([*region(extra), z3.Not(smt.to_z3(base) < 0)], 8000)
        t_all += dt
        if st2 == "unsat":
            neg += 1
            continue
        return UNDECIDED, t_all, f"sign of {base}: {st}"
    return (PROVED if neg % 2 == 0 else REFUTED), t_all, ("" if neg % 2 == 0 else f"{expr} is negative")


def prove_kallen_lemmas(ctx):
    """Every Kallen function that can occur is positive inside the region."""
    fn = "lemma"
    for idx, (k, i, j) in enumerate(((1, 2, 3), (2, 3, 1), (3, 1, 2))):
        for name, K, f1, f2 in (
            (f"Kallen(m0^2,m{k}^2,sigma{k})>0", kallen(m[0] ** 2, m[k] ** 2, s[k]),
             (m[0] - m[k]) ** 2 - s[k], (m[0] + m[k]) ** 2 - s[k]),
            (f"Kallen(sigma{k},m{i}^2,m{j}^2)>0", kallen(s[k], m[i] ** 2, m[j] ** 2),
             s[k] - (m[i] + m[j]) ** 2, s[k] - (m[i] - m[j]) ** 2),
        ):
            t = time.monotonic()
            ok, model, _, why = smt.poly_identity(K, f1 * f2)
            st = PROVED if ok else UNDECIDED
            for f in (f1, f2):
                r, _, _ = smt.check([*region(), z3.Not(smt.to_z3(f.subs(SIGMA3)) > 0)], 20000)
                if r != "unsat":
                    st = UNDECIDED
                    why = f"{f} > 0: {r}"
            ctx.add(f"lemma:{name}", fn, st, "z3", time.monotonic() - t, "" if st == PROVED else why)


_POS_CACHE = {}


def positive_under_root(X, massive=()):
    """X > 0 because it is a positive multiple of a Kallen function (or of two)."""
    X = sp.expand(sp.sympify(X).subs(SIGMA3))
    key = (X, tuple(massive))
    if key in _POS_CACHE:
        return _POS_CACHE[key]
    t = 0.0
    res = (UNDECIDED, 0.0)
    Ks = [sp.expand(k.subs(SIGMA3)) for k in kallens()]
    for K in Ks:
        q = sp.cancel(X / K)
        if sp.denom(q).is_number or len(sp.Add.make_args(sp.expand(sp.denom(q)))) <= 8:
            if sp.total_degree(sp.numer(q), *m, s[1], s[2]) < sp.total_degree(X, *m, s[1], s[2]):
                st, dt, _ = prove_pos(q, massive)
                t += dt
                if st == PROVED:
                    res = (PROVED, t)
                    break
    else:
        st, dt, _ = prove_pos(X, massive)
        res = (st, t + dt)
    _POS_CACHE[key] = res
    return res


def split_angle(expr):
    """+-acos(arg) -> (sign, arg); 0 -> (0, None)."""
    expr = sp.sympify(expr)
    if expr == 0:
        return 0, None
    sign = 1
    if expr.is_Mul and expr.args[0] == -1 and len(expr.args) == 2:
        sign, expr = -1, expr.args[1]
    if isinstance(expr, sp.acos):
        return sign, expr.doit().args[0] if isinstance(expr.doit(), sp.acos) else expr.args[0].doit()
    raise ValueError(f"not of the form +-acos(...): {expr}")


def num_den(arg):
    """arg = n/d with n free of roots; d as list of (radicand or factor, is_root)."""
    n, d = sp.fraction(sp.together(arg))
    roots, rest = [], sp.Integer(1)
    for f in sp.Mul.make_args(d):
        b, e = f.as_base_exp()
        if e.is_Rational and e.q == 2 and e.p > 0:
            roots.append(b)
            if e.p > 1:
                rest *= b ** ((e.p - 1) // 2)
        else:
            rest *= f
    if n.has(sp.Pow) and any(p.exp.is_Rational and p.exp.q != 1 for p in n.atoms(sp.Pow)):
        # move roots of the numerator: sqrt(X) = X/sqrt(X)
        new = sp.Integer(1)
        for f in sp.Mul.make_args(n):
            b, e = f.as_base_exp()
            if e.is_Rational and e.q == 2:
                new *= b ** ((e.p + 1) // 2)
                roots.append(b)
            else:
                new *= f
        n = new
        if any(p.exp.is_Rational and p.exp.q != 1 for p in n.atoms(sp.Pow)):
            raise ValueError(f"roots in numerator: {n}")
    if any(p.exp.is_Rational and p.exp.q != 1 for p in rest.atoms(sp.Pow)):
        raise ValueError(f"roots in denominator: {rest}")
    return n, roots, rest


def symbols_of(arg):
    allowed = {*m, *s[1:]}
    return {x for x in arg.free_symbols if x not in allowed}


def ensure_cos(ctx, name, function, arg, a, b, P, massive=()):
    """Postcondition: arg == cos of the angle between a and b in the rest frame of P."""
    Ns, A, B = spec_cos(a, b, P)
    foreign = symbols_of(arg)
    ctx.add(f"{name}:only masses and invariants", function, REFUTED if foreign else PROVED, "normal form", 0.0, foreign or "")
    if foreign:
        return
    t = time.monotonic()
    n, roots, rest = num_den(arg)
    d2 = rest**2
    for x in roots:
        d2 *= x
    diff, _ = sp.fraction(sp.together((n**2 * A * B - Ns**2 * d2).subs(SIGMA3)))
    ok, model, dt, why = smt.poly_identity(diff, 0)
    ctx.add(f"{name}:ensures cos^2", function, PROVED if ok else (REFUTED if model is not None else UNDECIDED), "z3",
            time.monotonic() - t, "" if ok else f"polynomial identity fails: {why} {model}", str(model) if model else None)
    if not ok:
        return
    # sign: roots are positive, so sign(arg) = sign(n * rest)
    t = time.monotonic()
    ratio = sp.cancel((n * rest / Ns).subs(SIGMA3))
    st, _, detail = prove_pos(ratio, massive)
    ctx.add(f"{name}:ensures sign of cos", function, st, "z3", time.monotonic() - t, detail)
    t = time.monotonic()
    ok = all(positive_under_root(x, massive)[0] == PROVED for x in roots)
    ctx.add(f"{name}:radicands positive", function, PROVED if ok else UNDECIDED, "z3", time.monotonic() - t)


def ensure_domain(ctx, name, function, arg, massive=()):
    """Postcondition: denominator non-zero and |arg| < 1 inside the region, |arg| = 1 iff Gram = 0."""
    t = time.monotonic()
    n, roots, rest = num_den(arg)
    d2 = rest**2
    for x in roots:
        d2 *= x
    ok = all(positive_under_root(x, massive)[0] == PROVED for x in roots)
    st = PROVED if ok else UNDECIDED
    if st == PROVED and not rest.is_number:
        st, _, det = prove_pos(rest, massive)
        st = PROVED if st in {PROVED, REFUTED} else st  # sign does not matter, non-zero
    ctx.add(f"{name}:denominator real and non-zero", function, st, "z3", time.monotonic() - t)
    t = time.monotonic()
    G = sp.expand(gram().subs(SIGMA3))
    q = sp.cancel(((d2 - n**2).subs(SIGMA3)) / G)
    ok, model, dt, why = smt.poly_identity(*(sp.fraction(sp.together(q))[k] * x for k, x in ((0, G), (1, sp.expand((d2 - n**2).subs(SIGMA3))))))
    st, _, det = prove_pos(q, massive)
    if not ok:
        st = REFUTED if model is not None else UNDECIDED
    ctx.add(f"{name}:1-cos^2 = positive * Gram", function, st, "z3", time.monotonic() - t, det)


def vacuity(ctx):
    st, model, dt = smt.check([*region((1, 2, 3)), smt.to_z3(gram().subs(SIGMA3)) > 0], 20000)
    if st != "sat":  # give a witness
        env = {m[0]: 2, m[1]: sp.Rational(1, 2), m[2]: sp.Rational(1, 3), m[3]: sp.Rational(1, 4), s[1]: sp.Rational(9, 8), s[2]: sp.Rational(5, 4)}
        st = "sat" if all(z3.is_true(z3.simplify(z3.substitute(c, *[(smt.to_z3(k), smt.to_z3(v)) for k, v in env.items()])))
                          for c in [*region((1, 2, 3)), smt.to_z3(gram().subs(SIGMA3)) > 0]) else st
    ctx.vacuity.append({"what": "physical region is non-empty", "reachable": st == "sat"})


# ---------------------------------------------------------------- concrete oracle
def numeric(expr, masses, inv):
    from oracle.ref import Evaluator

    env = {f"m{i}": v for i, v in enumerate(masses)} | {f"sigma{k}": v for k, v in inv.items()}
    ev = Evaluator(env, random_unknown=False)
    return complex(ev(sp.sympify(expr).doit()))


def event(seed, massless=False):
    import random

    from oracle.ref import invariants, random_event

    rng = random.Random(seed)
    masses, p = random_event(rng, massless)
    return [float(x) for x in masses], p, {k: float(v) for k, v in invariants(p).items()}
