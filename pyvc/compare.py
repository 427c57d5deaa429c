"""Postconditions: the value of the code against the value of its specification.

A specification is a Python function over the same symbolic inputs; it runs in the same
engine after the code, on every path of the code. Two results are the same when z3 shows it
under the path condition; they differ when z3 gives an input on which they differ (or when
an expression has another value at such an input). Everything else is undecided.
"""
from __future__ import annotations

import itertools
import random
import time
from fractions import Fraction

import pyvc.env  # noqa: F401
import attr
import sympy as sp
import z3
from oracle import ref
from pyvc import models, smt
from pyvc import values as V
from pyvc.engine import Case, Closure, Folded, Infeasible, Poison, PyRaise, num_term, retag, retag_value, z_is_int
from pyvc.groups import Extreme
from pyvc.interp import Interp
from pyvc.result import PROVED, REFUTED, UNDECIDED
from pyvc.values import (
    GBool, GFold, GPool, Obj, Seg, Sym, Unsupported, VDict, VList, VRange, VSeq, VSet, VStr, ghost_number, has_ghost,
    number, plain_number,
)


class Differ(Exception):
    """The values differ: on the inputs of ``model`` (refuted) or perhaps (model None)."""

    def __init__(self, detail, model=None):
        super().__init__(detail)
        self.detail, self.model = detail, model


def require(m, cond, detail):
    """``cond`` must follow from the path condition."""
    if cond is True:
        return
    if cond is False:
        mod = m.model()
        raise Differ(detail, mod if mod is not None else None)
    if m.entails(cond):
        return
    mod = m.model(z3.Not(cond))
    if mod is not None and "str<" in str(cond):
        mod = None
    raise Differ(f"{detail}: not valid: {z3.simplify(cond)}", mod)


def show(x, n=300):
    s = V.show(repr(x) if not isinstance(x, sp.Basic) else x)
    return s if len(s) <= n else s[:n] + "..."


def same(m, a, b, what="value"):
    if a is b and isinstance(a, Poison):
        return
    m.usable(a), m.usable(b)
    if a is b:
        return
    if isinstance(a, GBool) or isinstance(b, GBool):
        return require(m, m.eq(a, b), f"{what}: {show(a)} is not {show(b)}")
    seqs = (VList, VSeq, VRange)
    if isinstance(a, VRange) and isinstance(b, VRange):
        same(m, a.lo, b.lo, what + " (first)")
        return same(m, a.hi, b.hi, what + " (last)")
    if isinstance(a, VSet) or isinstance(b, VSet) or isinstance(a, (set, frozenset)) or isinstance(b, (set, frozenset)):
        return same_set(m, a, b, what)
    if isinstance(a, VDict) or isinstance(b, VDict) or isinstance(a, dict) or isinstance(b, dict):
        return same_dict(m, a, b, what)
    if isinstance(a, (*seqs, tuple, list)) and isinstance(b, (*seqs, tuple, list)):
        if (m.type_of(a) is tuple) != (m.type_of(b) is tuple):
            raise Differ(f"{what}: {m.type_of(a).__name__} is not {m.type_of(b).__name__}", m.model())
        return same_items(m, items(m, a), items(m, b), what)
    if isinstance(a, (VStr, str)) and isinstance(b, (VStr, str)):
        if isinstance(a, str) and isinstance(b, str):
            if any(c in V.DERIVED for c in a + b):
                return same_derived(m, a, b, what)
            return require(m, m.eq_str(a, b), f"{what}: {show(a)} is not {show(b)}")
        return same_items(m, VStr([a]).parts, VStr([b]).parts, what)
    if isinstance(a, Extreme) and isinstance(b, Extreme):
        if a.kind != b.kind:
            raise Differ(f"{what}: {a.kind} instead of {b.kind}")
        return same_items(m, a.items, b.items, what)
    if isinstance(a, Extreme) or isinstance(b, Extreme):
        raise Differ(f"{what}: {show(a)} against {show(b)}")
    if isinstance(a, Folded) and isinstance(b, Folded):
        if a.op != b.op:
            raise Differ(f"{what}: {a.op} instead of {b.op}")
        same(m, a.init, b.init, what)
        return same_items(m, [a.seg], [b.seg], what)
    if isinstance(a, V.Struct) and isinstance(b, V.Struct):
        if a.cls is not b.cls or set(a.attrs) != set(b.attrs):
            raise Differ(f"{what}: {a} is not {b}", m.model())
        for f in a.attrs:
            same(m, a.attrs[f], b.attrs[f], f"{what}.{f}")
        return
    if isinstance(a, Obj) and isinstance(b, Obj) and not isinstance(a, V.Struct) and not isinstance(b, V.Struct):
        return require(m, m.eq(a, b), f"{what}: {a} is not {b}")
    if attr.has(type(a)) and type(a) is type(b):
        for f in attr.fields(type(a)):
            same(m, getattr(a, f.name), getattr(b, f.name), f"{what}.{f.name}")
        return
    na, nb = ghost_number(a), ghost_number(b)
    if (na or plain_number(a)) and (nb or plain_number(b)) and (na or nb):
        return require(m, num_term(a) == num_term(b), f"{what}: {show(a)} is not {show(b)}")
    if isinstance(a, sp.Basic) or isinstance(b, sp.Basic):
        if isinstance(a, (sp.Basic, int, float, complex)) and isinstance(b, (sp.Basic, int, float, complex)) and not (
                isinstance(a, bool) or isinstance(b, bool)):
            return same_expr(m, sp.sympify(a), sp.sympify(b), what)
    if isinstance(a, Sym) or isinstance(b, Sym) or has_ghost(a) or has_ghost(b):
        try:
            return require(m, m.eq(a, b), f"{what}: {show(a)} is not {show(b)}")
        except Unsupported as e:
            raise Differ(f"{what}: {show(a)} against {show(b)}: {e}") from None
    if type(a) is type(b) or isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        if a == b:
            return
    raise Differ(f"{what}: {show(a)} is not {show(b)}", m.model())


INJECTIVE = ("str[]", "repr", "latex")


def same_derived(m, a, b, what):
    """Texts that contain texts of unknown values: never refuted by an arbitrary choice of those texts."""
    x, y = a, b
    while x and y and x[0] == y[0]:
        x, y = x[1:], y[1:]
    while x and y and x[-1] == y[-1]:
        x, y = x[:-1], y[:-1]
    if not x and not y:
        return
    detail = f"{what}: {show(a)} is not {show(b)}"
    if len(x) == len(y) == 1 and x in V.DERIVED and y in V.DERIVED and V.DERIVED[x][0] == V.DERIVED[y][0]:
        (func, u), (_, v) = V.DERIVED[x], V.DERIVED[y]
        if ghost_number(u) and ghost_number(v):
            try:
                return require(m, num_term(u) == num_term(v), detail)
            except Differ as d:
                raise d if func in INJECTIVE else Differ(d.detail) from None
    if not any(c in V.DERIVED for c in x + y):
        return require(m, m.eq_str(x, y), detail)
    raise Differ(detail)


def items(m, v):
    if isinstance(v, VRange):
        return [Seg(m.range_base(v))]
    if isinstance(v, (tuple, list)):
        return list(v)
    for i in v.items:
        m.usable(i)
    return list(v.items)


def same_items(m, xs, ys, what):
    if len(xs) != len(ys) or any(isinstance(x, Seg) != isinstance(y, Seg) for x, y in zip(xs, ys)):
        if not any(isinstance(i, Seg) for i in (*xs, *ys)):
            raise Differ(f"{what}: {len(xs)} items instead of {len(ys)}: {show(xs)} against {show(ys)}", m.model())
        # segments that contribute nothing
        xs2, ys2 = [x for x in xs if not empty_seg(m, x)], [y for y in ys if not empty_seg(m, y)]
        if (len(xs2), len(ys2)) == (len(xs), len(ys)):
            raise Differ(f"{what}: {show(xs)} against {show(ys)}")
        return same_items(m, xs2, ys2, what)
    for n, (x, y) in enumerate(zip(xs, ys)):
        if isinstance(x, Seg):
            same_seg(m, x, y, f"{what}[…]")
        elif isinstance(x, tuple) and x and x[0] == "set" and isinstance(y, tuple) and y and y[0] == "set":
            same(m, x[1], y[1], f"{what} key")
            same(m, x[2], y[2], f"{what} value")
        else:
            same(m, x, y, f"{what}[{n}]")


def empty_seg(m, x):
    """No element contributes an item (under the path condition)."""
    return isinstance(x, Seg) and x.cases is not None and all(not c.items or not case_feasible(m, x, c) for c in x.cases)


def case_feasible(m, seg, case):
    n = len(m.facts)
    m.facts.extend(case.all)
    m.facts.extend(retag(term, t, case.tag) for base, t, term in m.universals if base is seg.base)
    try:
        return m.feasible()
    finally:
        del m.facts[n:]


def same_base(m, a, b, what):
    if a is b:
        return
    if type(a) is not type(b):
        raise Differ(f"{what}: iteration over {a.name} instead of {b.name}")
    if hasattr(a, "lo") and hasattr(a, "hi"):
        same(m, a.lo, b.lo, what + " (first)")
        return same(m, a.hi, b.hi, what + " (last)")
    if hasattr(a, "bases"):
        if len(a.bases) != len(b.bases):
            raise Differ(f"{what}: product of {len(a.bases)} instead of {len(b.bases)}", m.model())
        for x, y in zip(a.bases, b.bases):
            same_base(m, x, y, what)
        return
    if hasattr(a, "list"):
        return same_items(m, a.list, b.list, what)
    if hasattr(a, "same_as"):
        return a.same_as(m, b, what)
    raise Differ(f"{what}: iteration over {a.name} instead of {b.name}")


def cases_of(m, seg):
    """Cases of a segment, with the elements themselves as one case."""
    if seg.cases is not None:
        return seg.cases
    out = []

    def on_path(_fn, n):
        elem, tag = m.element(seg.base)
        m.tags.pop()
        facts, inv = m.split_facts(n)
        out.append(Case(facts, [elem], elem, [], tag, inv))

    m.sub_explore(None, on_path)
    return out


def same_seg(m, a, b, what, same_items=None):
    same_items = same_items or globals()["same_items"]
    from pyvc.models import Joined

    if isinstance(a, Joined) or isinstance(b, Joined):
        if not (isinstance(a, Joined) and isinstance(b, Joined)):
            raise Differ(f"{what}: joined text")
        same(m, a.sep, b.sep, what + " separator")
        return globals()["same_items"](m, a.parts_, b.parts_, what)
    same_base(m, a.base, b.base, what)
    if a.cases is None and b.cases is None:
        return
    n = len(m.facts)
    for ca in cases_of(m, a):
        for cb in cases_of(m, b):
            cb, equal, unknown = match_exits(m, ca, cb)
            aligned(m, ca, cb, equal, what)
            facts = [*ca.all, *cb.all, *equal]
            for base, t, term in m.universals:
                if base is a.base or base is b.base:
                    facts.append(retag(term, t, ca.tag))
            m.facts.extend(facts)
            n_univ = len(m.universals)
            m.universals.extend([*ca.univ, *cb.univ])  # (what is known of loops inside)
            try:
                if not m.feasible():
                    continue
                same_items(m, ca.items, cb.items, what)
            except Differ as d:
                if unknown:
                    raise Differ(d.detail) from None
                raise
            finally:
                del m.facts[n:]
                del m.universals[n_univ:]


def match_exits(m, ca, cb):
    """The second case for the element of the first one, where loops inside that are left under equivalent
    conditions are left at the same element; facts about these; are there loops without a counterpart?"""
    cb = retag_value(cb, cb.tag, ca.tag)
    equal, used = [], set()
    n = len(m.facts)
    for k in range(len(cb.exits)):
        m.facts.extend([*ca.all, *cb.all, *equal])
        try:
            for xa in ca.exits:
                xb = cb.exits[k]
                if xa.label in used or xa.conds is None or xb.conds is None:
                    continue
                try:
                    same_base(m, xa.base, xb.base, "loop inside")
                except (Differ, Unsupported):
                    continue
                t = m.fresh("any")
                A, B = [retag(c, xa.tag, t) for c in xa.conds], [retag(c, xb.tag, t) for c in xb.conds]
                known = [retag(f, u, t) for base, u, f in (*m.universals, *ca.univ) if base.name == xa.base.name]
                known += [retag(f, u, t) for base, u, f in cb.univ if base.name == xb.base.name]
                inv = z3.And(*[retag(f, xa.tag, t) for f in xa.inv], *[retag(f, xb.tag, t) for f in xb.inv], *known)
                if not m.entails(z3.Implies(inv, z3.Or(*A) == z3.Or(*B))):
                    continue
                used.add(xa.label)
                la, lb = xa.chosen(), xb.chosen()
                equal.append((la == len(A)) == (lb == len(B)))
                if len(A) == len(B) and all(m.entails(z3.Implies(inv, x == y)) for x, y in zip(A, B)):
                    equal.append(la == lb)
                cb = retag_value(cb, xb.tag, xa.tag)
                break
        finally:
            del m.facts[n:]
    return cb, equal, len(used) != len(ca.exits) or len(used) != len(cb.exits)


def aligned(m, ca, cb, equal, what):
    """The generic elements of both cases are the same element (else the cases are not comparable)."""
    n = len(m.facts)
    m.facts.extend([*ca.all, *cb.all, *equal])
    try:
        same(m, ca.elem, cb.elem, what)
    except (Differ, Unsupported) as d:
        if m.feasible():
            raise Differ(f"{what}: elements are not aligned ({d})") from None
    finally:
        del m.facts[n:]


def same_set(m, a, b, what):
    if not isinstance(a, (VSet, set, frozenset)) or not isinstance(b, (VSet, set, frozenset)):
        raise Differ(f"{what}: {show(a)} is not {show(b)}", m.model())
    fa, fb = m.flat(a), m.flat(b)
    if fa is not None and fb is not None:
        for xs, ys, w in ((fa, fb, "surplus"), (fb, fa, "missing")):
            for x in xs:
                c = m.z_or([m.eq(x, y) for y in ys])
                require(m, c, f"{what}: {w} element {show(x)}")
        return
    same_log(m, a.items, b.items, what)


def same_log(m, xs, ys, what):
    """Contents of sets or mappings that were built by loops: the order within one element is irrelevant.

    A difference is never a refutation here: other insertions can give the same contents.
    """
    try:
        if len(xs) != len(ys) or any(kind_of(x) is not kind_of(y) and kind_of(x) != kind_of(y) for x, y in zip(xs, ys)):
            return same_items(m, *[[i for i in s if not empty_seg(m, i)] for s in (xs, ys)], what)
        for x, y in zip(xs, ys):
            if isinstance(x, Seg):
                same_seg(m, x, y, what, permuted)
            else:
                same_items(m, [x], [y], what)
    except Differ as d:
        raise Differ(d.detail) from None


def permuted(m, xs, ys, what):
    """The same insertions, in any order that does not matter."""
    try:
        return same_items(m, xs, ys, what)
    except Differ as d:
        if len(xs) != len(ys) or any(isinstance(i, Seg) for i in (*xs, *ys)):
            raise
        first = d
    left, moved = list(enumerate(ys)), []
    for n, x in enumerate(xs):
        for k, (pos, y) in enumerate(left):
            try:
                same_items(m, [x], [y], what)
            except Differ:
                continue
            del left[k]
            moved.append(pos)
            break
        else:
            raise first
    pairs = [x for x in xs if isinstance(x, tuple) and x and x[0] == "set"]
    if pairs and len(pairs) != len(xs):
        raise first
    for a in range(len(pairs)):
        for b in range(a + 1, len(pairs)):
            if moved[a] > moved[b] and not m.entails(m.z_not(m.eq(pairs[a][1], pairs[b][1]))):
                same(m, pairs[a][2], pairs[b][2], what)


def same_dict(m, a, b, what, order=True):
    if not isinstance(a, (VDict, dict)) or not isinstance(b, (VDict, dict)):
        raise Differ(f"{what}: {show(a)} is not {show(b)}", m.model())
    da, db = dict_pairs(m, a), dict_pairs(m, b)
    if da is not None and db is not None:
        if len(da) != len(db):
            raise Differ(f"{what}: keys {show([k for k, _ in da])} instead of {show([k for k, _ in db])}", m.model())
        for n, (kb, vb) in enumerate(db):
            hit = None
            for ka, va in da:
                if m.decide_eq(ka, kb):
                    hit = va
                    break
            else:
                raise Differ(f"{what}: no key {show(kb)} in {show([k for k, _ in da])}", m.model())
            same(m, hit, vb, f"{what}[{show(kb, 60)}]")
        return
    ia = a.items if isinstance(a, VDict) else [("set", k, v) for k, v in a.items()]
    ib = b.items if isinstance(b, VDict) else [("set", k, v) for k, v in b.items()]
    ia, ib = last_updates(ia), last_updates(ib)
    if len(ia) != len(ib) or any(kind_of(x) != kind_of(y) for x, y in zip(ia, ib)):
        raise Differ(f"{what}: updates {show(ia)} against {show(ib)}")
    same_log(m, ia, ib, what)


def kind_of(it):
    return Seg if isinstance(it, Seg) else it[0] if isinstance(it, tuple) and it else None


def last_updates(its):
    """Only the last update with the same unknown mapping counts."""
    out = []
    for n, it in enumerate(its):
        if kind_of(it) == "update" and any(kind_of(o) == "update" and o[1].name == it[1].name for o in its[n + 1:]):
            continue
        out.append(it)
    return out


def dict_pairs(m, d):
    if isinstance(d, dict):
        return list(d.items())
    return m.dict_items(d)


# --------------------------------------------------------------------------- expressions
def same_expr(m, a, b, what):
    a, b = models.untwin(a), models.untwin(b)
    if a == b:
        return
    why = match(m, a, b)
    if why is None:
        return
    detail = f"{what}: {show(a)} is not {show(b)} ({why})"
    mod = numeric_difference(m, a, b)
    raise Differ(detail, mod)


def entailed(m, cond):
    return cond if isinstance(cond, bool) else m.entails(cond)


def arith(x):
    return isinstance(x, sp.Expr) and (ghost_number(x) or plain_number(x))


def match(m, a, b):
    """None if the expressions are equal under the path condition, else a reason."""
    if a == b:
        return None
    if arith(a) and arith(b):
        try:
            return None if m.entails(num_term(a) == num_term(b)) else f"{show(a)} ≠ {show(b)}"
        except Unsupported:
            pass
    if isinstance(a, sp.Symbol) or isinstance(b, sp.Symbol):
        try:
            ok = entailed(m, m.eq_expr(a, b)) if isinstance(a, sp.Symbol) and isinstance(b, sp.Symbol) else False
        except Unsupported:
            ok = False
        return None if ok else f"{show(a)} ≠ {show(b)}"
    if isinstance(a, GPool) and isinstance(b, GPool):
        return match_pool(m, a, b)
    if isinstance(a, GFold) and isinstance(b, GFold):
        if a.kind != b.kind:
            return "sum against product"
        try:
            same_seg(m, a.seg, b.seg, a.kind)
        except Differ as d:
            return d.detail
        return None
    fa, fb = factors(a), factors(b)
    if isinstance(a, (sp.Mul, sp.Pow)) or isinstance(b, (sp.Mul, sp.Pow)):
        (ca, sa, xa), (cb, sb, xb) = fa, fb
        if len(xa) == len(xb) and not (len(xa) == 1 and xa[0][0] == a and xb[0][0] == b):
            return match_product(m, fa, fb)
    if isinstance(a, sp.Indexed) and isinstance(b, sp.Indexed):
        if len(a.indices) != len(b.indices):
            return "number of indices"
        why = match(m, a.base.label if isinstance(a.base, sp.IndexedBase) else a.base, b.base.label)
        if why:
            return why
        for x, y in zip(a.indices, b.indices):
            why = match(m, x, y)
            if why:
                return why
        return None
    if isinstance(a, sp.core.symbol.Str) and isinstance(b, sp.core.symbol.Str):
        try:
            return None if entailed(m, m.eq_str(a.name, b.name)) else f"{show(a)} ≠ {show(b)}"
        except Unsupported:
            return f"{show(a)} ? {show(b)}"
    if isinstance(a, sp.KroneckerDelta) and isinstance(b, sp.KroneckerDelta):
        d1, d2 = a.args[0] - a.args[1], b.args[0] - b.args[1]
        if match(m, d1, d2) is None or match(m, d1, -d2) is None:
            return None
        return f"{show(a)} ≠ {show(b)}"
    if type(a) is type(b) and len(a.args) == len(b.args) and a.args:
        if isinstance(a, (sp.Add, sp.Mul)):
            left = list(b.args)
            for x in a.args:
                for y in left:
                    if match(m, x, y) is None:
                        left.remove(y)
                        break
                else:
                    return f"no counterpart of {show(x, 120)}"
            return None
        for n in other_fields(a):
            try:
                ok = entailed(m, m.eq(getattr(a, n), getattr(b, n)))
            except Unsupported as e:
                return str(e)
            if not ok:
                return f"{n}: {show(getattr(a, n))} ≠ {show(getattr(b, n))}"
        for x, y in zip(a.args, b.args):
            why = match(m, x, y)
            if why:
                return why
        return None
    return f"{show(a, 120)} ≠ {show(b, 120)}"


def other_fields(e):
    """Fields of a class of AmpForm that are not expressions (callables, names)."""
    slots = getattr(type(e), "__slots__", ())
    return [n for n in ((slots,) if isinstance(slots, str) else slots) if n in getattr(type(e), "__dataclass_fields__", ())]


def factors(e):
    """(coefficient, exponent of -1, [(base, exponent), ...])"""
    coeff, sign, rest = sp.Integer(1), sp.Integer(0), []
    for f in sp.Mul.make_args(e):
        if f.is_Number:
            coeff *= f
            continue
        base, exp = f.as_base_exp()
        if base == -1:
            sign += exp
        else:
            rest.append((base, exp))
    return coeff, sign, rest


def match_product(m, fa, fb):
    (ca, sa, xa), (cb, sb, xb) = fa, fb
    left = list(xb)
    for x in xa:
        for y in left:
            if (x[1] == y[1] or match(m, x[1], y[1]) is None) and match(m, x[0], y[0]) is None:
                left.remove(y)
                break
        else:
            return f"no counterpart of the factor {show(x[0], 120)}**{show(x[1])}"
    if left:
        return f"surplus factor {show(left[0][0], 120)}"
    # (-1)**sa * ca == (-1)**sb * cb
    for c in (ca, cb):
        if not c.is_Rational:
            return None if (ca, sa) == (cb, sb) else "coefficients"
    if abs(ca) != abs(cb):
        return f"coefficients {ca} and {cb}"
    d = sa - sb + (0 if ca == cb else 1)
    try:
        ok = m.entails(z_is_int(sp.expand(d) / 2))
    except Unsupported as e:
        return str(e)
    return None if ok else f"(-1)**({show(sa)}) against (-1)**({show(sb)})"


def bind(m, sym, lo, hi):
    """A ghost for a summation index, with the facts of its range."""
    x = number(m.fresh("bound"), "real")
    n = z3.ToReal(z3.Int(f"steps:{x.name}"))
    facts = [num_term(x) == num_term(lo) + n, n >= 0, num_term(x) <= num_term(hi)]
    return x, facts


def match_pool(m, a, b):
    if len(a.indices) != len(b.indices):
        return "number of summation indices"
    n = len(m.facts)
    try:
        sub_a, sub_b = {}, {}
        left = list(b.indices)
        for i in a.indices:
            cand = [j for j in left if j[0] == i[0]] or left[:1]
            j = cand[0]
            left.remove(j)
            for k in (1, 2):
                why = match(m, i[k], j[k])
                if why:
                    return f"range of {i[0]}: {why}"
            x, facts = bind(m, i[0], i[1], i[2])
            m.facts.extend(facts)
            sub_a[i[0]] = sub_b[j[0]] = x
        if not m.feasible():
            return None
        return match(m, a.expression.xreplace(sub_a), b.expression.xreplace(sub_b))
    finally:
        del m.facts[n:]


# --------------------------------------------------------------------------- values at inputs
def samples(m, ghosts, count=6, seed=7):
    """Diverse z3 models of the path condition (small half-integers)."""
    rng = random.Random(seed)
    out = []
    for n in range(count):
        extra = []
        for g in ghosts:
            t = num_term(g)
            extra.append(z3.And(t <= 4, t >= -4))
            c = z3.And(t == Fraction(rng.randint(-4, 4), 2).numerator / z3.RealVal(1)) if False else t == z3.RealVal(str(Fraction(rng.randint(-4, 5), 2)))
            trial = [*extra, c]
            if m.feasible(*trial):
                extra = trial
        mod = m.model(*extra)
        if mod is not None:
            out.append(mod)
    return out


def value_of(mod, g):
    v = mod.eval(num_term(g), model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return Fraction(str(v.approx(12).as_fraction()))


def ghosts_of(e):
    out = set()
    for s in e.atoms(sp.Symbol):
        if V.is_ghost_symbol(s):
            out.add(s)
    for f in e.atoms(GFold):
        raise ref.CannotEvaluate("sum over an unknown sequence")
    return sorted(out, key=lambda s: s.name)


def concretize(e, vals):
    from ampform.sympy import PoolSum

    e = e.xreplace(vals)

    def pool(x):
        if isinstance(x, GPool):
            idx = []
            for s, lo, hi in x.indices:
                lo, hi = lo.xreplace(vals), hi.xreplace(vals)
                idx.append((s, [lo + n for n in range(int(hi - lo) + 1)]))
            return PoolSum(pool(x.expression), *idx)
        if isinstance(x, sp.Basic) and x.has(GPool):
            return x.func(*[pool(a) for a in x.args])
        return x

    return pool(e)


def numeric_difference(m, a, b):
    """A model of the path condition at which the values differ, or None."""
    try:
        gs = sorted(set(ghosts_of(a)) | set(ghosts_of(b)), key=lambda s: s.name)
    except ref.CannotEvaluate:
        return None
    for mod in samples(m, gs):
        vals = {g: sp.Rational(f.numerator, f.denominator) for g in gs for f in [value_of(mod, g)]}
        try:
            ev = ref.Evaluator()
            x, y = ev(concretize(a, vals)), ev(concretize(b, vals))
        except Exception:  # noqa: BLE001
            continue
        if not ref.close(x, y, 1e-7):
            m.witness_values = {str(k): str(v) for k, v in vals.items()}
            return mod
    return None


# --------------------------------------------------------------------------- driver
class Spec(Exception):
    """Raised by a specification: the code must raise one of these."""

    def __init__(self, *types):
        super().__init__(types)
        self.types = types


def outcome(m, f, args, kwargs):
    try:
        return "return", m.call(f, args, kwargs)
    except PyRaise as e:
        return "raise", e.exc


def verify(ctx, clause, fn, inputs, spec=None, post=None, contracts=None, name=None, compare=same, limit=4000,
           invoke=None, quiet=False):
    """Discharge ``spec(inputs) == fn(inputs)`` and ``post`` on every path.

    ``inputs(m)`` returns (args, kwargs) for symbolic inputs and assumes the precondition.
    ``post(m, kind, value, args, kwargs)`` raises Differ (or calls require) on a violation.
    """
    qual = name or f"{fn.__module__.removeprefix('ampform_dpd.')}.{fn.__qualname__}"
    label = f"{qual}/{clause}"

    def script():
        m = Interp(contracts)
        m.max_paths = limit
        results = []
        t0 = time.monotonic()

        def run():
            args, kwargs = inputs(m)
            if not m.feasible():
                raise Infeasible
            if invoke is not None:
                try:
                    kind, val = "return", invoke(m, args, kwargs)
                except PyRaise as e:
                    kind, val = "raise", e.exc
            else:
                kind, val = outcome(m, fn, args, kwargs)
            n = len(results)
            try:
                if spec is not None:
                    k2, v2 = outcome(m, spec, args, kwargs)
                    if not m.feasible():
                        raise Infeasible
                    if kind != k2:
                        raise Differ(f"the code {describe(kind, val)}, expected: {describe(k2, v2)}", m.model())
                    if kind == "raise":
                        if not isinstance(val, type(v2)):
                            raise Differ(f"the code {describe(kind, val)}, expected: {describe(k2, v2)}", m.model())
                    else:
                        compare(m, val, v2)
                if post is not None:
                    post(m, kind, val, args, kwargs)
                results.append((PROVED, "", None))
            except Differ as d:
                if m.feasible():
                    # numbers of filtered items are known only up to emptiness: a model that needs more is not trusted
                    decided = d.model is not None and not m.counts
                    results.append((REFUTED if decided else UNDECIDED, d.detail, dump(m, d.model)))
            _ = n

        m.explore(run)
        dt = time.monotonic() - t0
        n = len(results)
        for k, (status, detail, mod) in enumerate(results):
            path = f"[path {k + 1}/{n}]" if n > 1 else ""
            ctx.add(f"{label}{path}", qual, status, "z3", dt / n, detail, mod)
        ctx.vacuity.append({"what": f"{label}: paths whose condition is satisfiable", "reachable": n > 0})
        if n == 0:
            ctx.add(label, qual, UNDECIDED, "z3", dt, "no feasible path")
        for f in m.used:
            if f.startswith("ampform_dpd"):
                ctx.functions.add(f.removeprefix("ampform_dpd."))
        for a in m.assumed:
            ctx.trust(a)
        if m.contract_uses:
            ctx.note(f"{qual}: callees by contract: {', '.join(sorted(m.contract_uses))}")
        if getattr(ctx, "thorough", False):
            cross_check(ctx, m, qual)
        return m

    return ctx.guarded(label, qual, script)


def describe(kind, v):
    return f"raises {type(v).__name__}: {V.show(v)}" if kind == "raise" else f"returns {show(v)}"


def dump(m, mod):
    if mod is None:
        return None
    out = {V.show(d.name()): str(mod[d]) for d in mod.decls() if d.arity() == 0}
    out.update(getattr(m, "witness_values", {}))
    return out


def cross_check(ctx, m, qual, limit=12):
    """The same queries with cvc5."""
    agree = total = 0
    t = 0.0
    for s, _mod, terms in list(m._cache.values())[:: max(1, len(m._cache) // limit)][:limit]:
        try:
            r, dt = smt.cvc5_check(terms, 5000)
        except Exception:  # noqa: BLE001
            continue
        t += dt
        if r in ("sat", "unsat") and s in ("sat", "unsat"):
            total += 1
            agree += r == s
    ctx.solver_time["cvc5 (cross-check)"] = ctx.solver_time.get("cvc5 (cross-check)", 0.0) + t
    if agree != total:
        ctx.note(f"{qual}: cvc5 disagrees with z3 on {total - agree} of {total} sampled queries")
        ctx.add(f"{qual}/cvc5-agreement", qual, UNDECIDED, "cvc5", t, "the solvers disagree")
