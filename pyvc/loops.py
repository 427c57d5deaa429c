"""While loops: variables that advance by a fixed step."""
from __future__ import annotations

import ast

import pyvc.env  # noqa: F401
import sympy as sp
import z3
from pyvc import values as V
from pyvc.engine import Infeasible, Poison, _Break, _Continue, num_term, retag_value
from pyvc.values import Unsupported, number


class StepBase(V.Base):
    """The iterations 0, 1, ..., N-1 of a loop whose condition first fails at N."""

    def __init__(self, name, cond, count):
        super().__init__(name, None, distinct=True)
        self.cond, self.count = cond, count
        self._length = count

    def make(self, m, tag):
        n = number(tag + "n", "int")
        m.assume(num_term(n) >= 0)
        m.assume(num_term(n) < num_term(self.count))
        m.assume(self.cond(n))
        if not m.feasible():
            raise Infeasible
        return n


def while_loop(m, s, e):
    from pyvc import models
    from pyvc.interp import local_names

    if s.orelse:
        raise Unsupported("while ... else")
    for _ in range(2000):  # concrete iterations
        c = m.eval(s.test, e)
        if isinstance(c, (V.VSet, V.VList, V.VSeq)) and not any(isinstance(i, V.Seg) for i in c.items):
            c = m.truth(c)
        if isinstance(c, V.GBool) or m.symbolic(c):
            break
        if not m.truth(c):
            return
        try:
            m.exec_block(s.body, e)
        except _Continue:
            continue
        except _Break:
            return
    else:
        raise Unsupported("long while loop")
    assigned = local_names(s.body)
    carried = sorted(n for n in assigned if n in e.vars)
    probes = {}
    steps = {}

    def probe(_fn, _n):
        for n in carried:
            v = e.vars0[n]
            if not (isinstance(v, (sp.Expr, int, float)) or hasattr(v, "as_tuple")):
                raise Unsupported("while loop with a variable that is not a number")
        for n in carried:
            p = number(m.fresh(f"loop:{n}"), "real", m.type_of(e.vars0[n]))
            probes[n] = p
            e.vars[n] = p
        m.depth += 1
        m.frames.append({"effects": {}, "reads": {}, "carried": {}})
        try:
            m.exec_block(s.body, e)
        except (_Continue, _Break):
            raise Unsupported("break or continue in a while loop") from None
        finally:
            m.frames.pop()
            m.depth -= 1
        for n in carried:
            d = models.exact(sp.expand(sp.sympify(_exact(e.vars[n])) - probes[n]))
            if any(p in d.free_symbols for p in probes.values()):
                raise Unsupported("while loop with a variable that does not advance by a fixed step")
            if steps.setdefault(n, d) != d:
                raise Unsupported("while loop whose step depends on a condition")

    e.vars0 = {n: e.vars[n] for n in carried}
    saved = dict(e.vars)
    m.sub_explore(None, probe)
    e.vars.clear()
    e.vars.update(saved)
    init = {n: sp.sympify(_exact(e.vars0[n])) for n in carried}
    types_ = {n: m.type_of(e.vars0[n]) for n in carried}

    def at(n_iter):
        return {n: init[n] + n_iter * steps[n] for n in carried}

    def cond(n_iter):
        keep = {k: e.vars.get(k) for k in carried}
        e.vars.update(at(n_iter))
        try:
            c = m.eval(s.test, e)
        finally:
            e.vars.update(keep)
        if isinstance(c, V.GBool):
            return c.term
        if isinstance(c, bool):
            return z3.BoolVal(c)
        raise Unsupported("condition of a while loop")

    count = number(m.fresh("iterations"), "int", nonnegative=True)
    m.assume(num_term(count) >= 0)
    m.assume(z3.Not(cond(count)))
    last = count - 1
    m.assume(z3.Or(num_term(count) == 0, cond(last)))
    # termination: the condition fails from some iteration on
    k = number(m.fresh("k"), "int")
    p0 = cond(sp.Integer(0))
    if not m.feasible():
        raise Unsupported("a while loop that may not end")
    _ = p0, k
    m.terminates = _terminates(m, cond)
    if not m.terminates:
        raise Unsupported("termination of a while loop")
    base = StepBase(m.fresh("while"), cond, count)

    def body(n):
        e.vars.update(at(n))
        m.exec_block(s.body, e)

    for n in carried:
        e.vars.pop(n)
    if m.generic(base, body, [], None) == "break":
        raise Unsupported("break in a while loop")
    for n, v in at(count).items():
        e.vars[n] = v
    for n in assigned - set(carried):
        e.vars[n] = Poison(f"{n} after a while loop")
    _ = types_


def _terminates(m, cond):
    """The condition is a linear inequality that gets strictly tighter with every iteration."""
    n = z3.Int("n!term")
    a = number("n!term", "int")
    # if it fails at n it fails at n+1, and it fails at some n: least slope via two points
    t = cond(a)
    nxt = cond(a + 1)
    if not m.entails(z3.Implies(z3.Not(t), z3.Not(nxt))):
        return False
    # existence: it fails at an iteration beyond the size of every number involved
    from pyvc.engine import consts

    nums = [c for c in consts(t) if not c.eq(V.NUMBERS[V.GHOST + "n!term"][0])]
    size = z3.RealVal(100)
    for c in nums:
        r = z3.ToReal(c) if c.sort() == z3.IntSort() else c
        size = size + 100 * z3.If(r >= 0, r, -r)
    big = z3.ToInt(size) + 1
    _ = n
    return m.entails(z3.Not(z3.substitute(t, (V.NUMBERS[V.GHOST + "n!term"][0], big))))


def _exact(v):
    from decimal import Decimal

    if isinstance(v, float):
        return sp.Rational(v)
    if isinstance(v, Decimal):
        a, b = v.as_integer_ratio()
        return sp.Rational(a, b)
    return v
