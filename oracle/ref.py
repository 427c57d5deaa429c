"""Independent numerical reference: Wigner functions, Clebsch-Gordan coefficients,
three-body kinematics, and an evaluator for SymPy expressions."""
from __future__ import annotations

import cmath
import math
import random
from fractions import Fraction
from functools import lru_cache

import numpy as np

half = Fraction(1, 2)


def F(x) -> Fraction:
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, float)):
        return Fraction(x)
    if hasattr(x, "p") and hasattr(x, "q"):
        return Fraction(int(x.p), int(x.q))
    return Fraction(str(x))


def spin_range(j) -> list[Fraction]:
    j = F(j)
    return [-j + k for k in range(int(2 * j) + 1)]


def fact(x: Fraction) -> int:
    assert x.denominator == 1 and x >= 0, x
    return math.factorial(int(x))


@lru_cache(maxsize=None)
def cg(j1, m1, j2, m2, j, m) -> float:
    """<j1 m1; j2 m2 | j m> by Racah's formula."""
    j1, m1, j2, m2, j, m = map(F, (j1, m1, j2, m2, j, m))
    if m1 + m2 != m or j < abs(j1 - j2) or j > j1 + j2 or (j1 + j2 + j).denominator != 1:
        return 0.0
    for a, b in ((j1, m1), (j2, m2), (j, m)):
        if abs(b) > a or (a - b).denominator != 1:
            return 0.0
    pre = Fraction(
        int(2 * j + 1) * fact(j + j1 - j2) * fact(j - j1 + j2) * fact(j1 + j2 - j), fact(j1 + j2 + j + 1)
    ) * fact(j + m) * fact(j - m) * fact(j1 - m1) * fact(j1 + m1) * fact(j2 - m2) * fact(j2 + m2)
    s = Fraction(0)
    for k in range(0, 200):
        ts = [F(k), j1 + j2 - j - k, j1 - m1 - k, j2 + m2 - k, j - j2 + m1 + k, j - j1 - m2 + k]
        if any(t < 0 for t in ts):
            if k > j1 + j2 - j and k > j1 - m1:
                break
            continue
        d = 1
        for t in ts:
            d *= fact(t)
        s += Fraction((-1) ** k, d)
    return math.sqrt(pre) * float(s)


def wigner_d(j, m1, m2, beta) -> complex:
    """Small-d d^j_{m1 m2}(beta) = <j m1| exp(-i beta J_y) |j m2> (convention of SymPy)."""
    j, m1, m2 = F(j), F(m1), F(m2)
    if abs(m1) > j or abs(m2) > j or (j - m1).denominator != 1 or (j - m2).denominator != 1:
        return 0.0
    pre = math.sqrt(fact(j + m1) * fact(j - m1) * fact(j + m2) * fact(j - m2))
    c, s = cmath.cos(beta / 2), cmath.sin(beta / 2)
    tot = 0
    for k in range(int(2 * j) + 1):
        a, b, d = j + m2 - k, m1 - m2 + k, j - m1 - k
        if a < 0 or b < 0 or d < 0:
            continue
        den = fact(a) * math.factorial(k) * fact(b) * fact(d)
        tot += (-1) ** int(m1 - m2 + k) / den * c ** int(2 * j + m2 - m1 - 2 * k) * s ** int(m1 - m2 + 2 * k)
    return pre * tot


def kallen(a, b, c):
    return a * a + b * b + c * c - 2 * a * b - 2 * b * c - 2 * c * a


# ------------------------------------------------------------------ kinematics
def random_event(rng: random.Random, massless=False):
    """Masses and four-momenta of a three-body decay at rest."""
    while True:
        m = [rng.uniform(0.05, 1.5) for _ in range(3)]
        if massless and rng.random() < 0.5:
            m[rng.randrange(3)] = 0.0
        p1 = np.array([rng.gauss(0, 1) for _ in range(3)]) * rng.uniform(0.1, 2)
        p2 = np.array([rng.gauss(0, 1) for _ in range(3)]) * rng.uniform(0.1, 2)
        p3 = -p1 - p2
        if np.linalg.norm(np.cross(p1, p2)) < 1e-3:
            continue
        ps = [np.array([math.sqrt(mm**2 + p @ p), *p]) for mm, p in zip(m, (p1, p2, p3))]
        P = sum(ps)
        return [P[0], *m], [P, *ps]


def dot(a, b):
    return a[0] * b[0] - a[1:] @ b[1:]


def invariants(p):
    return {k: dot(p[i] + p[j], p[i] + p[j]) for k, i, j in ((1, 2, 3), (2, 3, 1), (3, 1, 2))}


def boost_to_rest(P, q):
    """Four-vector q in the rest frame of P."""
    M = math.sqrt(max(dot(P, P), 0))
    b = P[1:] / P[0]
    g = P[0] / M
    bq = b @ q[1:]
    b2 = b @ b
    e = g * (q[0] - bq)
    if b2 < 1e-30:
        return q
    vec = q[1:] + ((g - 1) * bq / b2 - g * q[0]) * b
    return np.array([e, *vec])


def cos_between(a, b):
    return float(a[1:] @ b[1:] / (np.linalg.norm(a[1:]) * np.linalg.norm(b[1:])))


# ------------------------------------------------------------------ expression evaluation
class CannotEvaluate(Exception):
    pass


class Evaluator:
    """Numerical evaluation of SymPy expressions without ``doit``.

    ``env`` maps symbols, indexed symbols or their (canonical) names to numbers. Unknown
    atoms are given pseudo-random values that depend on their name only, if
    ``random_unknown`` is set.
    """

    def __init__(self, env=None, random_unknown=True, atoms=None):
        self.env = dict(env or {})
        self.random_unknown = random_unknown
        self.atoms = atoms or {}
        self.used = set()

    def unknown(self, key: str) -> complex:
        r = random.Random("pyvc:" + key)
        return complex(r.uniform(-1, 1), r.uniform(-1, 1)) + 0.3

    def __call__(self, e):
        import sympy as sp
        from ampform.sympy import PoolSum
        from sympy.physics.quantum.cg import CG
        from sympy.physics.quantum.spin import WignerD

        if isinstance(e, (int, float, complex, Fraction)):
            return complex(e)
        if e in self.env:
            return self.env[e]
        if isinstance(e, sp.Symbol):
            if e.name in self.env:
                return self.env[e.name]
            if self.random_unknown:
                self.used.add(e)
                r = random.Random("pyvc:" + e.name)
                return r.uniform(0.2, 2.0)
            raise CannotEvaluate(f"no value for {e}")
        if isinstance(e, sp.Indexed):
            idx = tuple(self.index(i) for i in e.indices)
            key = f"{e.base.label}[{', '.join(map(str, idx))}]"
            if key in self.env:
                return self.env[key]
            if self.random_unknown:
                self.used.add(key)
                return self.unknown(key)
            raise CannotEvaluate(f"no value for {key}")
        if isinstance(e, PoolSum):
            return self._poolsum(e)
        if isinstance(e, WignerD):
            j, m, mp, a, b, g = e.args
            a, g = self(a), self(g)
            return (
                cmath.exp(-1j * self.num(m) * a)
                * wigner_d(self.frac(j), self.frac(m), self.frac(mp), self(b))
                * cmath.exp(-1j * self.num(mp) * g)
            )
        if isinstance(e, CG):
            return cg(*(self.frac(a) for a in e.args))
        if isinstance(e, sp.KroneckerDelta):
            return 1.0 if self.frac(e.args[0]) == self.frac(e.args[1]) else 0.0
        if e.is_Number or e.is_NumberSymbol:
            return complex(e)
        if e is sp.I:
            return 1j
        if e.is_Add:
            return sum((self(a) for a in e.args), 0j)
        if e.is_Mul:
            r = 1 + 0j
            for a in e.args:
                r *= self(a)
                if r == 0:
                    return 0j
            return r
        if e.is_Pow:
            b, x = self(e.base), self(e.exp)
            if b == -1:
                f = complex(x)
                if f.imag == 0 and abs(f.real - round(f.real)) < 1e-12:
                    return complex((-1) ** round(f.real))
            if x.imag == 0 and x.real == round(x.real):
                return b ** int(round(x.real))
            return b**x
        fn = {
            sp.acos: cmath.acos, sp.cos: cmath.cos, sp.sin: cmath.sin, sp.exp: cmath.exp,
            sp.Abs: abs, sp.log: cmath.log, sp.tan: cmath.tan, sp.asin: cmath.asin,
            sp.conjugate: lambda z: complex(z).conjugate(), sp.sqrt: cmath.sqrt,
            sp.re: lambda z: complex(z).real, sp.im: lambda z: complex(z).imag,
            sp.atan: cmath.atan, sp.sign: lambda z: z / abs(z) if z else 0j,
        }.get(e.func)
        if fn is not None:
            return complex(fn(self(e.args[0])))
        for typ, f in self.atoms.items():
            if isinstance(e, typ):
                return f(self, e)
        if isinstance(e, sp.Piecewise):
            for val, cond in e.args:
                if cond == True or self.cond(cond):  # noqa: E712
                    return self(val)
            raise CannotEvaluate(str(e))
        if hasattr(e, "evaluate"):
            return self(e.evaluate())
        d = e.doit()
        if d != e:
            return self(d)
        raise CannotEvaluate(f"{type(e)}: {e}")

    def cond(self, c):
        import sympy as sp

        if isinstance(c, sp.Rel):
            a, b = complex(self(c.lhs)).real, complex(self(c.rhs)).real
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[c.rel_op]
        raise CannotEvaluate(str(c))

    def _poolsum(self, e):
        from itertools import product

        idx = e.indices
        tot = 0j
        for vals in product(*(v for _, v in idx)):
            saved = {}
            for (s, _), v in zip(idx, vals):
                saved[s] = self.env.get(s)
                self.env[s] = F(v)
            try:
                tot += self(e.expression)
            finally:
                for s, v in saved.items():
                    if v is None:
                        del self.env[s]
                    else:
                        self.env[s] = v
        return tot

    def num(self, e) -> float:
        v = self.frac(e)
        return float(v)

    def frac(self, e) -> Fraction:
        """Exact value of a helicity/spin expression."""
        import sympy as sp

        if isinstance(e, (int, float, Fraction)):
            return F(e)
        if e in self.env:
            return F(self.env[e])
        if e.is_Rational:
            return Fraction(int(e.p), int(e.q))
        if e.is_Float:
            return F(float(e))
        if e.is_Add:
            return sum((self.frac(a) for a in e.args), Fraction(0))
        if e.is_Mul:
            r = Fraction(1)
            for a in e.args:
                r *= self.frac(a)
            return r
        if isinstance(e, sp.Symbol) and e.name in self.env:
            return F(self.env[e.name])
        raise CannotEvaluate(f"no exact value for {e}")

    def index(self, i):
        try:
            return self.frac(i)
        except (CannotEvaluate, AttributeError):
            return str(i)


def close(a, b, tol=1e-8) -> bool:
    a, b = complex(a), complex(b)
    if cmath.isnan(a) or cmath.isnan(b):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
