"""SMT back ends: translation of SymPy arithmetic to z3, timed checks, cvc5 cross-check."""
from __future__ import annotations

import time

import pyvc.env  # noqa: F401
import sympy as sp
import z3

_VARS: dict = {}
_get_id = z3.ExprRef.get_id


def _cached_id(self):
    """Ids never change while the term is alive: ask z3 once per Python object."""
    try:
        return self._vid
    except AttributeError:
        i = self._vid = _get_id(self)
        return i


z3.ExprRef.get_id = _cached_id


def var(name: str, sort: str = "real"):
    key = (name, sort)
    v = _VARS.get(key)
    if v is None:
        v = {"real": z3.Real, "int": z3.Int, "bool": z3.Bool, "str": z3.String}[sort](name)
        _VARS[key] = v
    return v


class NotArithmetic(Exception):
    pass


def to_z3(e, leaf=None):
    """SymPy rational function / polynomial to a z3 real term."""
    e = sp.sympify(e)
    if leaf is not None:
        r = leaf(e)
        if r is not None:
            return r
    if e.is_Rational:
        return z3.RealVal(f"{e.p}/{e.q}") if e.q != 1 else z3.RealVal(int(e.p))
    if e.is_Float:
        r = sp.Rational(float(e))
        return z3.RealVal(f"{r.p}/{r.q}")
    if e.is_Symbol:
        return var(e.name)
    if e.is_Add:
        args = [to_z3(a, leaf) for a in e.args]
        return z3.Sum(args)
    if e.is_Mul:
        r = None
        for a in e.args:
            t = to_z3(a, leaf)
            r = t if r is None else r * t
        return r
    if e.is_Pow and e.exp.is_Integer:
        b = to_z3(e.base, leaf)
        n = int(e.exp)
        r = b
        for _ in range(abs(n) - 1):
            r = r * b
        if n == 0:
            return z3.RealVal(1)
        return r if n > 0 else 1 / r
    if isinstance(e, sp.Abs):
        b = to_z3(e.args[0], leaf)
        return z3.If(b >= 0, b, -b)
    if isinstance(e, (sp.Max, sp.Min)):
        args = [to_z3(a, leaf) for a in e.args]
        r = args[0]
        for a in args[1:]:
            r = z3.If(a >= r, a, r) if isinstance(e, sp.Max) else z3.If(a <= r, a, r)
        return r
    raise NotArithmetic(str(e))


def check(assertions, timeout_ms=10000):
    """Return ('sat'|'unsat'|'unknown', model, seconds)."""
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for a in assertions:
        s.add(a)
    t = time.monotonic()
    r = s.check()
    dt = time.monotonic() - t
    if r == z3.sat:
        return "sat", s.model(), dt
    return str(r), None, dt


class Stack:
    """One incremental solver; consecutive queries share the assertions they have in common.

    An "unknown" of the incremental solver is retried with a fresh one.
    """

    def __init__(self):
        self.solver = None
        self.ids: list = []
        self.terms: list = []

    def check(self, terms, timeout_ms):
        t = time.monotonic()
        if self.solver is None:
            self.solver = z3.Solver()
        *prefix, last = terms if terms else [z3.BoolVal(True)]
        ids = [x.get_id() for x in prefix]
        n = 0
        for a, b in zip(ids, self.ids):
            if a != b:
                break
            n += 1
        if len(self.ids) > n:
            self.solver.pop(len(self.ids) - n)
            del self.ids[n:], self.terms[n:]
        for x, i in zip(prefix[n:], ids[n:]):
            self.solver.push()
            self.solver.add(x)
            self.ids.append(i)
            self.terms.append(x)
        self.solver.set("timeout", timeout_ms)
        self.solver.push()
        self.solver.add(last)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unknown:
            r, m, _ = check(terms, timeout_ms)
        return str(r), m, time.monotonic() - t


def check_nl(assertions, timeout_ms=10000):
    """Nonlinear real arithmetic: qfnra first."""
    s = z3.Tactic("qfnra-nlsat").solver()
    s.set("timeout", timeout_ms)
    for a in assertions:
        s.add(a)
    t = time.monotonic()
    try:
        r = s.check()
    except z3.Z3Exception:
        return "unknown", None, time.monotonic() - t
    dt = time.monotonic() - t
    if r == z3.sat:
        return "sat", s.model(), dt
    return str(r), None, dt


def poly_identity(lhs, rhs):
    """Decide lhs == rhs as polynomials: z3's sum-of-monomials normal form of the
    difference must be the literal zero (a complete decision for polynomials)."""
    t = time.monotonic()
    d = z3.simplify(to_z3(lhs) - to_z3(rhs), som=True, blast_distinct=True, som_blowup=10_000_000)
    d = z3.simplify(d, som=True, som_blowup=10_000_000)
    ok = z3.is_rational_value(d) and d.numerator_as_long() == 0
    if not ok:
        r, m, _ = check([d != 0], 10000)
        ok = r == "unsat"
        return ok, (m if r == "sat" else None), time.monotonic() - t, r
    return True, None, time.monotonic() - t, "unsat"


def cvc5_check(assertions, timeout_ms=10000):
    """Cross-check with cvc5 on the SMT-LIB text of the query."""
    import cvc5

    s = z3.Solver()
    for a in assertions:
        s.add(a)
    text = s.to_smt2()
    tm = cvc5.TermManager()
    slv = cvc5.Solver(tm)
    slv.setOption("tlimit-per", str(timeout_ms))
    parser = cvc5.InputParser(slv)
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + text, "q")
    sm = parser.getSymbolManager()
    t = time.monotonic()
    res = "unknown"
    while True:
        cmd = parser.nextCommand()
        if cmd.isNull():
            break
        out = cmd.invoke(slv, sm).strip()
        if out in {"sat", "unsat", "unknown"}:
            res = out
    return res, time.monotonic() - t
