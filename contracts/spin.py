"""C05 and C06: spin ranges and LS couplings (module ``spin``)."""
from __future__ import annotations

import sympy as sp
import z3
from pyvc import compare as K
from pyvc.compare import require, same, verify
from pyvc import values as V
from pyvc.engine import num_term, z_is_int
from pyvc.interp import Interp
from pyvc.values import Seg, Unsupported, VList, VRange, VSeq, VSet, ghost_number, number


# ------------------------------------------------------------------ contracts used by callers
def range_contract(m, lo, hi):
    """requires: hi - lo is an integer >= -1; ensures: the list lo, lo+1, ..., hi."""
    if not m.entails(z3.And(z_is_int(hi - lo), num_term(hi - lo) >= -1)):
        raise Unsupported("precondition of create_rational_range: the bounds differ by an integer")
    from pyvc.models import twin

    return VRange(twin(lo, sp.Rational), twin(hi, sp.Rational))


def spin_range_contract(m, spin):
    """requires: 2*spin is an integer >= 0; ensures: the list -spin, ..., spin."""
    if not m.entails(z3.And(z_is_int(2 * spin), num_term(spin) >= 0)):
        raise Unsupported("precondition of create_spin_range: spin is a non-negative (half-)integer")
    from pyvc.models import twin

    return VRange(twin(-spin, sp.Rational), twin(spin, sp.Rational))


def create_range(lo, hi):
    """The list lo, lo+1, ..., hi (used by specifications)."""
    raise NotImplementedError


def table():
    from ampform_dpd import spin as S

    return {S.create_rational_range: range_contract, S.create_spin_range: spin_range_contract}


# ------------------------------------------------------------------ C05
def is_range(m, kind, val, lo, hi):
    """val is the list lo, lo+1, ..., hi of Rationals, in this order."""
    if kind != "return":
        raise K.Differ(f"raises {val!r}", m.model())
    if isinstance(val, VRange):
        same(m, val, VRange(lo, hi))
        return
    if not isinstance(val, VList):
        raise K.Differ(f"returns {val!r}", m.model())
    if m.flat(val) is not None:
        got = m.flat(val)
        require(m, num_term(hi) - num_term(lo) == len(got) - 1, f"{len(got)} values")
        for n, x in enumerate(got):
            same(m, x, lo + n)
        return
    if len(val.items) != 1:
        raise K.Differ("several sequences")
    seg = val.items[0]
    base = seg.base
    if not hasattr(base, "count"):
        raise K.Differ(f"a range over {base.name}")
    require(m, num_term(base.count) == num_term(hi) - num_term(lo) + 1, "number of values")
    n0 = len(m.facts)
    for c in K.cases_of(m, seg):
        m.facts.extend(c.all)
        try:
            if not m.feasible():
                continue
            if len(c.items) != 1:
                raise K.Differ("an iteration that does not give one value", m.model())
            from pyvc.values import NUMBERS, GHOST

            n = NUMBERS[GHOST + c.tag + "n"][0]
            require(m, num_term(c.items[0]) == num_term(lo) + z3.ToReal(n), "value of an iteration")
            if not m.isinstance(c.items[0], sp.Rational):
                raise K.Differ(f"{c.items[0]} is not a Rational but {m.type_of(c.items[0])}", m.model())
        finally:
            del m.facts[n0:]


def prove_ranges(ctx):
    from decimal import Decimal
    from fractions import Fraction

    from ampform_dpd import spin as S

    for typ in (sp.Rational, float, int, Fraction, Decimal, sp.Float):
        kind = "int" if typ is int else "half"

        def inputs(m, typ=typ, kind=kind):
            a, d = number(f"from:{typ.__name__}", kind, typ), number(f"steps:{typ.__name__}", "int", typ)
            m.assume(num_term(d) >= -1)
            return [a, a + d], {}

        verify(ctx, f"ensures: from, from+1, ..., to as Rationals [arguments {typ.__name__}]", S.create_rational_range, inputs,
               post=lambda m, k, v, a, kw: is_range(m, k, v, a[0], a[1]))

        def spin_inputs(m, typ=typ, kind=kind):
            j = number(f"spin:{typ.__name__}", kind, typ)
            m.assume(num_term(j) >= 0)
            return [j], {}

        # the callee by its contract
        verify(ctx, f"ensures: -spin, ..., +spin as Rationals [argument {typ.__name__}]", S.create_spin_range, spin_inputs,
               post=lambda m, k, v, a, kw: is_range(m, k, v, -a[0], a[0]),
               contracts={S.create_rational_range: range_contract})


# ------------------------------------------------------------------ C06
def ls_spec(J, s1, s2, max_L):
    """All (L, S): L = 0..max_L, S = |s1-s2|..s1+s2, J = |L-S|..L+S in integer steps."""
    smin = s1 - s2 if s1 >= s2 else s2 - s1
    pairs = set()
    for L in spec_range(0, max_L):
        for S in spec_range(smin, s1 + s2):
            low = L - S if L >= S else S - L
            if J >= low and J <= L + S and (J - low) % 1 == 0:
                pairs.add((L, S))
    return sorted(pairs)


def spec_range(lo, hi):
    raise NotImplementedError


def parity_spec(couplings, parent, child1, child2):
    """Parity is conserved: parent = child1 * child2 * (-1)^L."""
    return [(L, S) for L, S in couplings if (parent * child1 * child2 == 1) == (L % 2 == 0)]


class LSBase(V.Base):
    """An arbitrary list of LS couplings."""

    def __init__(self):
        super().__init__("couplings", None)

    def make(self, m, tag):
        L, S = number(tag + "L", "int", int), number(tag + "S", "half", sp.Rational)
        m.assume(num_term(L) >= 0)
        m.assume(num_term(S) >= 0)
        return (L, S)


def prove_ls(ctx):
    from ampform_dpd import spin as S

    contracts = {S.create_rational_range: range_contract, spec_range: lambda m, lo, hi: VRange(lo, hi)}
    for typ in (sp.Rational, float):

        def inputs(m, typ=typ):
            js = [number(f"{n}:{typ.__name__}", "half", typ) for n in ("J", "s1", "s2")]
            for j in js:
                m.assume(num_term(j) >= 0)
            max_L = number("max_L", "int", int)
            m.assume(num_term(max_L) >= 0)
            return [*js, max_L], {}

        verify(ctx, f"ensures: exactly the couplings allowed by the triangle rules, once, sorted [spins {typ.__name__}]",
               S.generate_ls_couplings, inputs, spec=ls_spec, contracts=contracts)

    verify(ctx, "ensures: L up to 3 by default", S.generate_ls_couplings,
           lambda m: ([sp.Rational(3, 2), sp.Rational(1, 2), 1], {}),
           spec=lambda J, s1, s2: [(0, sp.Rational(3, 2)), (1, sp.Rational(1, 2)), (1, sp.Rational(3, 2)), (2, sp.Rational(1, 2)),
                                   (2, sp.Rational(3, 2)), (3, sp.Rational(3, 2))])

    def inputs(m):
        ps = [number(n, "int", int) for n in ("parity0", "parity1", "parity2")]
        for p in ps:
            m.assume(z3.Or(num_term(p) == 1, num_term(p) == -1))
        return [VSeq([Seg(LSBase())], pytype=list), *ps], {}

    verify(ctx, "ensures: exactly the parity-conserving couplings, in order", S.filter_parity_violating_ls, inputs, spec=parity_spec)
