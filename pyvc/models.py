"""Semantics of builtins and library functions on symbolic values.

Each handler is part of the trusted base (Python's and the libraries' own semantics).
"""
from __future__ import annotations

import builtins
import collections
import collections.abc
import copy
import decimal
import fractions
import functools
import inspect
import itertools
import operator
import textwrap
import types
import typing
import warnings

import pyvc.env  # noqa: F401
import attr
import frozendict as frozendict_mod
import sympy as sp
import z3
from pyvc import groups
from pyvc import values as V
from pyvc.engine import BoundClosure, Case, Closure, Denom, Poison, PyRaise, VMethod, _Return, in_package, num_term, z_is_int
from pyvc.interp import MISSING, RANGES, Interp, _is_integer
from pyvc.values import (
    GBool, GFold, GPool, Obj, Seg, Sym, Unsupported, VDict, VList, VRange, VSeq, VSet, VStr, ghost_number, has_ghost,
    number, tokens,
)

NO = object()
M = Interp.models
SAFE = Interp.safe


def model(*fs):
    def deco(h):
        for f in fs:
            M[f] = h
        return h

    return deco


# ------------------------------------------------------------------ numbers
def twin(x, pytype):
    """The same number as a value of another numeric Python type."""
    if not isinstance(x, sp.Basic):
        return x
    subs = {}
    for s in x.free_symbols:
        if not V.is_ghost_symbol(s):
            raise Unsupported(f"number with the symbol {s}")
        t = V.typed(s, pytype)
        if t != s:
            subs[s] = t
    return exact(x.xreplace(subs))


def untwin(x):
    """Exact number without types."""
    if isinstance(x, sp.Basic):
        subs = {s: V.root_of(s) for s in x.free_symbols if V.is_ghost_symbol(s) and V.root_of(s) != s}
        x = exact(x.xreplace(subs) if subs else x)
    return x


def exact(x):
    fl = x.atoms(sp.Float) if isinstance(x, sp.Basic) else ()
    return x.xreplace({f: sp.Rational(float(f)) for f in fl}) if fl else x


@model(float)
def m_float(m, x=0.0):
    if isinstance(x, (VStr, Sym)) or (isinstance(x, str) and tokens(x)):
        raise Unsupported("float of a symbolic text")
    if ghost_number(x):
        m.assumed.add("float(x) is exact (integers and half-integers are binary fractions)")
        return twin(x, float)
    return m.native(float, [x], {})


@model(int)
def m_int(m, x=0, *a):
    if ghost_number(x):
        if m.entails(z_is_int(x)):
            return twin(x, int)
        g = number(f"int({V.show(x)})", "int", int)
        t, n = num_term(x), num_term(g)
        m.assumed.add("int() truncates towards zero")
        m.assume(z3.If(t >= 0, z3.And(n <= t, t < n + 1), z3.And(n >= t, t > n - 1)))
        return g
    if isinstance(x, GBool):
        return 1 if m.truth(x) else 0
    if isinstance(x, str) and V.tokens(x):
        v = V.numeral_value(x)
        if v is None or not m.entails(z_is_int(v)):
            raise Unsupported("int() of an unknown text")
        m.assumed.add("int() reads the text of an integer as that integer")
        return twin(v, int)
    if attr.has(type(x)) and isinstance(inspect.getattr_static(type(x), "__int__", None), types.FunctionType):
        return m.run_function(type(x).__int__, [x], {})
    if isinstance(x, Sym) or has_ghost(x):
        raise Unsupported("int() of a symbolic value")
    return m.native(int, [x, *a], {})


@model(sp.Rational)
def m_rational(m, p, q=None):
    if ghost_number(p) and q is None:
        m.assumed.add("sympy.Rational(x) is exactly x")
        return twin(p, sp.Rational)
    if isinstance(p, str) and V.tokens(p):
        if q is None and V.numeral_value(p) is not None:
            m.assumed.add("sympy.Rational reads the text of a number as that number")
            return twin(V.numeral_value(p), sp.Rational)
        raise Unsupported("Rational of an unknown text")
    if ghost_number(p) or ghost_number(q):
        return twin(p / q, sp.Rational)
    return m.native(sp.Rational, [p] if q is None else [p, q], {})


@model(decimal.Decimal)
def m_decimal(m, x=0):
    if ghost_number(x):
        m.assumed.add("Decimal arithmetic is exact (half-integers below 10^28)")
        return twin(x, decimal.Decimal)
    return m.native(decimal.Decimal, [x], {})


@model(fractions.Fraction)
def m_fraction(m, *a):
    if len(a) == 1 and ghost_number(a[0]):
        return twin(a[0], fractions.Fraction)
    return m.native(fractions.Fraction, a, {})


@model(sp.Integer)
def m_integer(m, x):
    if ghost_number(x):
        return twin(m_int(m, x), sp.Integer)
    return m.native(sp.Integer, [x], {})


@model(sp.sympify, sp.S)
def m_sympify(m, x, *a, **k):
    if ghost_number(x) or isinstance(x, sp.Basic):
        return x
    return m.native(sp.sympify, [x, *a], k)


@model(abs)
def m_abs(m, x):
    if ghost_number(x):
        return x if m.decide(num_term(x) >= 0) else -x
    return m.native(abs, [x], {})


@model(bool)
def m_bool(m, x=False):
    return m.truth(x)


@model(pow)
def m_pow(m, a, b):
    return m.binop(__import__("ast").Pow, a, b)


@model(round)
def m_round(m, x, *a):
    if ghost_number(x):
        if m.entails(z_is_int(x)):
            return twin(x, int)
        raise Unsupported("round of a number that may have a fraction")
    return m.native(round, [x, *a], {})


def complex_text(m, s):
    """complex() of the texts a, bj, a+bj and a-bj, where a is the text of a number and b that of one without sign."""
    import re

    n = "".join(c for c in set(s) if V.numeral_value(c) is not None)
    hit = n and re.fullmatch(f"(?P<a>[{n}])?(?:(?P<sign>[+-]?)(?P<b>[{n}])[jJ])?", s.strip())
    if not hit:
        raise Unsupported("complex() of an unknown text")
    if hit["b"] and hit["a"] and not hit["sign"]:
        raise PyRaise(ValueError("complex() arg is a malformed string"))
    real = V.numeral_value(hit["a"]) if hit["a"] else 0.0
    imag = V.numeral_value(hit["b"]) if hit["b"] else 0.0
    if hit["sign"] and not m.entails(num_term(imag) >= 0):
        raise Unsupported("sign before a text with a sign")
    m.assumed.add("complex() reads the texts of a real and an imaginary part as these numbers")
    return complex_number(-imag if hit["sign"] == "-" else imag, real)


def complex_number(imag, real=0.0):
    """An unknown complex number."""
    real, imag = [twin(x, float) if ghost_number(x) else x for x in (real, imag)]
    return V.Struct(complex, {"real": real, "imag": imag})


@model(complex)
def m_complex(m, *a):
    if len(a) == 1 and isinstance(a[0], str) and tokens(a[0]):
        return complex_text(m, a[0])
    if any(ghost_number(x) for x in a):
        raise Unsupported("complex of a symbolic number")
    return m.native(complex, a, {})


# ------------------------------------------------------------------ text
@model(str)
def m_str(m, x="", *a):
    if m.symbolic(x):
        return m.format(x)
    return m.native(str, [x, *a], {})


@model(repr)
def m_repr(m, x):
    if m.symbolic(x):
        m.assumed.add("repr() of a value is a function of the value")
        return V.derived("repr", x, m.describe(x))
    return m.native(repr, [x], {})


@model(format)
def m_format(m, x, spec=""):
    return m.format(x, spec)


@model(textwrap.dedent)
def m_dedent(m, x):
    if m.symbolic(x):
        if isinstance(x, str):
            m.assumed.add("textwrap.dedent of a text with unknown parts does not look into them")
            return textwrap.dedent(x)
        return V.string(m.fresh("text"))
    return textwrap.dedent(x)


@model(print)
def m_print(m, *a, **k):
    return None


@model(warnings.warn)
def m_warn(m, message="", category=UserWarning, *a, **k):
    m.mutate(m.events, [("warn", category, message)])


# ------------------------------------------------------------------ containers
@model(list)
def m_list(m, x=()):
    if isinstance(x, VRange):
        return x
    return VList(m.parts(x), depth=m.depth)


@model(tuple)
def m_tuple(m, x=()):
    items = m.parts(x)
    return VSeq(items) if any(isinstance(i, Seg) for i in items) else tuple(items)


@model(set)
def m_set(m, x=()):
    if isinstance(x, VSet):
        m.read(x)
        return VSet(x.items, depth=m.depth)
    return VSet(m.parts(x), depth=m.depth)


@model(frozenset)
def m_frozenset(m, x=()):
    return VSet(m.parts(x) if not isinstance(x, VSet) else x.items, depth=m.depth, pytype=frozenset)


@model(dict)
def m_dict(m, x=MISSING, **k):
    d = VDict(depth=m.depth)
    if x is not MISSING:
        m.dict_update(d, x)
    for n, v in k.items():
        d.items.append(("set", n, v))
    return d


@model(frozendict_mod.frozendict)
def m_frozendict(m, x=MISSING, **k):
    d = m_dict(m, x, **k)
    d.pytype = frozendict_mod.frozendict
    return d


def _frozen_mapping():
    """qrules' FrozenDict: with known keys it is the native class."""
    try:
        from qrules.topology import FrozenDict
    except ImportError:
        return

    @model(FrozenDict)
    def m_qrules_dict(m, x=MISSING, **k):
        d = m_dict(m, x, **k)
        items = m.dict_items(d)
        if items is not None and not any(has_ghost(k) or isinstance(k, Sym) for k, _ in items):
            return FrozenDict(dict(items))
        d.pytype = FrozenDict
        return d


_frozen_mapping()


@model(collections.defaultdict)
def m_defaultdict(m, factory=None, *a):
    d = VDict(depth=m.depth, factory=factory)
    d.pytype = collections.defaultdict
    for x in a:
        m.dict_update(d, x)
    return d


@model(len)
def m_len(m, x):
    m.usable(x)
    if isinstance(x, VDict):
        d = m.dict_items(x)
        if d is not None:
            return len(d)
        raise Unsupported("len of a dict of unknown size")
    if isinstance(x, VRange):
        return x.hi - x.lo + 1
    if isinstance(x, (VList, VSeq)):
        m.read(x)
        return length(m, x.items)
    if isinstance(x, VSet):
        f = m.flat(x)
        if f is None:
            raise Unsupported("len of a set of unknown size")
        return len(f)
    if isinstance(x, VStr) or isinstance(x, str) and tokens(x):
        raise Unsupported("len of a symbolic text")
    if isinstance(x, VDict):
        items = m.dict_items(x)
        if items is None:
            raise Unsupported("len of a mapping of unknown size")
        return len(items)
    if isinstance(x, Sym):
        raise Unsupported(f"len of {type(x).__name__}")
    if isinstance(x, (tuple, list, frozenset)) or isinstance(x, dict) and not any(has_ghost(k) for k in x):
        return len(x)
    return m.native(len, [x], {})


def length(m, items):
    n = 0
    for it in items:
        m.usable(it)
        if not isinstance(it, Seg):
            n += 1
            continue
        m.assume(num_term(it.base.length) >= 0)
        if counted(m, it) is None:
            if m.first_of_seg(it) is None:
                continue  # no element
            m.assume(num_term(it.base.length) >= 1)
        if it.cases is None or all(len(c.items) == 1 and not isinstance(c.items[0], Seg) for c in it.cases):
            n += it.base.length
        else:
            g = counted(m, it)
            if g is not None:
                n += g
                continue
            g = number(m.fresh("count"), "int", nonnegative=True)
            m.assume(num_term(g) >= 1)
            if all(len(c.items) <= 1 and not any(isinstance(i, Seg) for i in c.items) for c in it.cases):
                m.assume(num_term(g) <= num_term(it.base.length))
            m.counts.append((it, g))
            n += g
    return n


def counted(m, seg):
    """The number of items of an equal segment that was counted before."""
    from pyvc.compare import Differ, same_seg

    for old, g in m.counts:
        try:
            same_seg(m, old, seg, "count")
            return g
        except (Differ, Unsupported):
            continue
    return None


@model(sorted)
def m_sorted(m, x, *, key=None, reverse=False):
    f = m.flat(x) if not isinstance(x, (VList, VSeq)) or not any(isinstance(i, Seg) for i in x.items) else None
    if isinstance(x, VSeq) and f is not None:
        m.parts(x)
    if f is None:
        if isinstance(x, VRange) and key is None and not reverse:
            return x
        s = VSeq([Seg(SortedBase(x, key, reverse))], pytype=list, sorted_from=(x, key, reverse))
        return s
    out = []  # stable insertion sort
    keys = []
    for v in f:
        k = v if key is None else m.call(key, [v])
        pos = len(out)
        while pos > 0:
            lt = m.less(keys[pos - 1], k) if reverse else m.less(k, keys[pos - 1])
            if lt if isinstance(lt, bool) else m.decide(lt):
                pos -= 1
            else:
                break
        out.insert(pos, v)
        keys.insert(pos, k)
    return VList(out, depth=m.depth)


class SortedBase(V.Base):
    """The elements of another sequence (or set), each as often, in sorted order."""

    def __init__(self, src, key, reverse):
        items = src.items
        if len(items) != 1 or not isinstance(items[0], Seg):
            raise Unsupported("sorted() of a mixed sequence")
        self.src, self.key, self.reverse_ = src, key, reverse
        super().__init__(f"sorted[{items[0].base.name}]", None, distinct=isinstance(src, VSet))

    def same_as(self, m, other, what):
        from pyvc.compare import Differ, same

        if self.reverse_ != other.reverse_:
            raise Differ(f"{what}: direction of sorting", m.model())
        if self.key is not other.key:
            raise Differ(f"{what}: sort keys")
        same(m, self.src, other.src, what)

    def make(self, m, tag):
        seg = self.src.items[0]
        elem = m.element_as(seg.base, f"{seg.base.name}@of({tag});")
        items = m.items_of(seg, elem)
        m.last_tag = tag
        if len(items) != 1:
            from pyvc.engine import Infeasible

            if not items:
                raise Infeasible
            raise Unsupported("sorted() of a flattened sequence")
        return items[0]


@model(reversed)
def m_reversed(m, x):
    items = m.parts(x)
    if any(isinstance(i, Seg) for i in items):
        out = []
        for i in reversed(items):
            if isinstance(i, Seg):
                if i.cases is not None and any(len(c.items) > 1 for c in i.cases):
                    raise Unsupported("reversed() of a flattened sequence")
                out.append(Seg(i.base.reversed(), i.cases))
            else:
                out.append(i)
        return VSeq(out, pytype=list)
    return VSeq(list(reversed(items)), pytype=list)


@model(any)
def m_any(m, x):
    for it in m.parts(x):
        if isinstance(it, Seg):
            if m.first_of_seg(it, m.truth) is not None:
                return True
        elif m.truth(it):
            return True
    return False


@model(all)
def m_all(m, x):
    for it in m.parts(x):
        if isinstance(it, Seg):
            if m.first_of_seg(it, lambda v: not m.truth(v)) is not None:
                return False
        elif not m.truth(it):
            return False
    return True


@model(sum)
def m_sum(m, x, start=0):
    import ast

    acc = start
    for it in m.parts(x):
        if isinstance(it, Seg):
            acc = m.fold("+", acc, it)
        else:
            acc = m.binop(ast.Add, acc, it)
    return acc


def _extreme(m, args, key, default, pick_less):
    items = m.parts(args[0]) if len(args) == 1 else list(args)
    if any(isinstance(i, Seg) for i in items):
        if key is None and not isinstance(items[0], Seg):
            return groups.Extreme("min" if pick_less else "max", items)
        raise Unsupported("max/min of a sequence of unknown length")
    if not items:
        if default is not MISSING:
            return default
        raise PyRaise(ValueError("max()/min() of an empty sequence"))
    best, bk = items[0], items[0] if key is None else m.call(key, [items[0]])
    for v in items[1:]:
        k = v if key is None else m.call(key, [v])
        r = m.less(k, bk) if pick_less else m.less(bk, k)
        if r if isinstance(r, bool) else m.decide(r):
            best, bk = v, k
    return best


@model(max)
def m_max(m, *a, key=None, default=MISSING):
    return _extreme(m, a, key, default, False)


@model(min)
def m_min(m, *a, key=None, default=MISSING):
    return _extreme(m, a, key, default, True)


@model(object.__setattr__)
def m_setattr(m, obj, name, value):
    if not attr.has(type(obj)) or isinstance(obj, Sym) or m.frames:
        raise Unsupported("object.__setattr__")
    if isinstance(value, VSet):
        f = m.flat(value)
        if f is None or any(has_ghost(x) for x in f):
            raise Unsupported("object.__setattr__ with unknown values")
        value = value.pytype(f)
    object.__setattr__(obj, name, value)


@model(enumerate)
def m_enumerate(m, x, start=0):
    items = m.parts(x)
    if not any(isinstance(i, Seg) for i in items):
        return VSeq([(start + n, v) for n, v in enumerate(items)], pytype=list)
    out = VList(depth=m.depth)
    whole = len(items) == 1 and (items[0].cases is None or all(len(c.items) == 1 and not isinstance(c.items[0], Seg) for c in items[0].cases)
                                 and complete(m, items[0]))

    def body(it):
        if whole:
            n = number(m.last_tag + "index", "int", int)
            m.assume(z3.And(num_term(n) >= 0, num_term(n) < num_term(items[0].base.length)))
            n = start + n
        else:
            n = Poison("position in a sequence with parts of unknown length")
        m.mutate(out, [(n, it)])

    m.for_each(VSeq(items), body)
    return VSeq(out.items, pytype=list)


def complete(m, seg):
    """Does every element of the base contribute to the segment?"""
    done = []

    def on(elem):
        if not m.items_of(seg, elem):
            done.append(False)

    try:
        m.generic(seg.base, on)
    except Unsupported:
        return False
    return not done


@model(zip)
def m_zip(m, *xs, strict=False):
    seqs = [m.parts(x) for x in xs]
    if any(isinstance(i, Seg) for s in seqs for i in s):
        raise Unsupported("zip of sequences of unknown length")
    if strict and len({len(s) for s in seqs}) > 1:
        raise PyRaise(ValueError("zip() argument lengths differ"))
    return VSeq(list(zip(*seqs)), pytype=list)


@model(map)
def m_map(m, f, *xs):
    if len(xs) == 1:
        out = VList(depth=m.depth)
        m.for_each(xs[0], lambda it: m.mutate(out, [m.call(f, [it])]))
        g = VSeq(out.items, pytype=types.GeneratorType)
        g.depth = g.made = m.depth
        return g
    return VSeq([m.call(f, list(t)) for t in m_zip(m, *xs).items], pytype=list)


@model(filter)
def m_filter(m, f, x):
    out = VList(depth=m.depth)

    def body(it):
        if m.truth(it if f is None else m.call(f, [it])):
            m.mutate(out, [it])

    m.for_each(x, body)
    g = VSeq(out.items, pytype=types.GeneratorType)
    g.depth = g.made = m.depth
    return g


@model(iter)
def m_iter(m, x):
    if isinstance(x, VSeq) and x.pytype in (types.GeneratorType, iter):
        return x
    g = VSeq(m.parts(x), pytype=iter)
    g.depth = g.made = m.depth
    return g


@model(next)
def m_next(m, it, default=MISSING):
    if not isinstance(it, VSeq):
        raise Unsupported("next()")
    if it.items and not isinstance(it.items[0], Seg):
        if it.depth < m.depth:
            raise Unsupported("an iterator from outside is consumed in a loop")
        return it.items.pop(0)
    hit = m.first_of(it.items)
    if hit is None:
        if default is not MISSING:
            return default
        raise PyRaise(StopIteration())
    from pyvc.engine import Poison

    it.items[:] = [Poison("rest of a partly consumed iterator")]
    return hit[0]


@model(range)
def m_range(m, *a):
    if any(ghost_number(x) for x in a):
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) == 3 and a[2] != 1:
            raise Unsupported("range with a step")
        return VRange(lo, sp.sympify(hi) - 1)
    return range(*a)


@model(isinstance)
def m_isinstance(m, x, typ):
    return m.isinstance(x, typ)


@model(issubclass)
def m_issubclass(m, x, typ):
    return issubclass(x, typ)


@model(type)
def m_type(m, x):
    if isinstance(x, V.UnknownExpr):
        raise Unsupported("type of an unknown expression")
    return m.type_of(x)


@model(callable)
def m_callable(m, x):
    if isinstance(x, (Closure, BoundClosure, VMethod)):
        return True
    if isinstance(x, Obj):
        return x.call is not None
    if isinstance(x, Sym):
        return False
    return callable(x)


@model(getattr)
def m_getattr(m, x, name, default=MISSING):
    try:
        return m.getattr(x, name)
    except PyRaise as e:
        if default is not MISSING and isinstance(e.exc, AttributeError):
            return default
        raise


@model(hasattr)
def m_hasattr(m, x, name):
    try:
        m.getattr(x, name)
    except PyRaise as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise
    return True


@model(hash)
def m_hash(m, x):
    raise Unsupported("hash()")


@model(id)
def m_id(m, x):
    raise Unsupported("id()")


@model(typing.cast)
def m_cast(m, typ, x):
    return x


@model(itertools.product)
def m_product(m, *xs, repeat=1):
    seqs = [m.parts(x) for x in xs] * repeat
    if not any(isinstance(i, Seg) for s in seqs for i in s):
        return VSeq(list(itertools.product(*seqs)), pytype=list)
    bases = []
    for s in seqs:
        if len(s) == 1 and isinstance(s[0], Seg) and s[0].cases is None:
            bases.append(s[0].base)
        elif not any(isinstance(i, Seg) for i in s):
            bases.append(ListBase(s))
        else:
            raise Unsupported("product of filtered sequences")
    return VSeq([Seg(ProductBase(bases))], pytype=list)


class ListBase(V.Base):
    def __init__(self, items):
        self.list = list(items)
        super().__init__("{" + ",".join(V.show(i) for i in items) + "}", None)

    def make(self, m, tag):
        if not self.list:
            from pyvc.engine import Infeasible

            raise Infeasible
        return m.choose(self.list, tag)


class ProductBase(V.Base):
    """Cartesian product: a generic element is the tuple of generic elements."""

    def __init__(self, bases):
        self.bases = list(bases)
        super().__init__("product(" + ",".join(b.name for b in bases) + ")", None, distinct=all(b.distinct for b in bases))

    def make(self, m, tag):
        out = []
        for n, b in enumerate(self.bases):
            out.append(b.make(m, f"{tag}[{n}]"))
        return tuple(out)


@model(itertools.combinations)
def m_combinations(m, x, r):
    return VSeq(list(itertools.combinations(m.flat(x) or _unknown("combinations"), r)), pytype=list)


@model(itertools.permutations)
def m_permutations(m, x, r=None):
    return VSeq(list(itertools.permutations(m.flat(x) or _unknown("permutations"), r)), pytype=list)


@model(itertools.chain)
def m_chain(m, *xs):
    return VSeq([i for x in xs for i in m.parts(x)], pytype=list)


@model(itertools.chain.from_iterable)
def m_chain_from(m, xs):
    out = VList(depth=m.depth)
    m.for_each(xs, lambda it: m.mutate(out, m.parts(it)))
    return VSeq(out.items, pytype=list)


def _unknown(what):
    raise Unsupported(f"{what} of a sequence of unknown length")


@model(functools.reduce)
def m_reduce(m, f, x, init=MISSING):
    items = m.parts(x)
    if any(isinstance(i, Seg) for i in items):
        if f in (operator.mul, operator.add) and init is not MISSING and len(items) == 1:
            return m.fold("*" if f is operator.mul else "+", init, items[0])
        raise Unsupported("reduce over a sequence of unknown length")
    if init is MISSING:
        if not items:
            raise PyRaise(TypeError("reduce() of empty iterable"))
        acc, items = items[0], items[1:]
    else:
        acc = init
    for i in items:
        acc = m.call(f, [acc, i])
    return acc


def _op(opname):
    import ast

    node = getattr(ast, opname)
    return lambda m, a, b: m.binop(node, a, b)


for _f, _n in ((operator.mul, "Mult"), (operator.add, "Add"), (operator.sub, "Sub"), (operator.truediv, "Div"), (operator.pow, "Pow"),
               (operator.or_, "BitOr"), (operator.and_, "BitAnd")):
    M[_f] = _op(_n)
for _f, _n in ((operator.eq, "Eq"), (operator.ne, "NotEq"), (operator.lt, "Lt"), (operator.le, "LtE"), (operator.gt, "Gt"),
               (operator.ge, "GtE"), (operator.is_, "Is"), (operator.is_not, "IsNot")):
    def _cmp(m, a, b, _n=_n):
        import ast

        return m.compare(getattr(ast, _n), a, b)

    M[_f] = _cmp


@model(operator.contains)
def m_contains(m, a, b):
    return m.as_bool(m.contains(a, b))


@model(operator.not_)
def m_not(m, a):
    return not m.truth(a)


@model(attr.evolve)
def m_evolve(m, obj, **changes):
    cls = type(obj)
    kw = {}
    for a in attr.fields(cls):
        if not a.init:
            continue
        key = a.alias or a.name
        kw[key] = changes.pop(key) if key in changes else m.getattr(obj, a.name)
    if changes:
        raise PyRaise(TypeError("evolve: unexpected argument"))
    return m.construct_attrs(cls, [], kw)


if hasattr(attr, "evolve"):
    import attrs as _attrs

    M[_attrs.evolve] = m_evolve


@model(copy.deepcopy, copy.copy)
def m_copy(m, x, *a):
    if isinstance(x, VList):
        return VList([_copy_item(m, i) for i in x.items], depth=m.depth)
    if isinstance(x, VSet):
        return VSet(x.items, depth=m.depth)
    if isinstance(x, VDict):
        d = VDict([_copy_item(m, i) for i in x.items], depth=m.depth, factory=x.factory, base=x.base)
        return d
    if isinstance(x, Obj) and "__copy__" in x.attrs:
        return x.attrs["__copy__"](m)
    if isinstance(x, Obj):
        m.assumed.add("deepcopy of an opaque library object equals the object")
        return x
    if isinstance(x, Sym):
        return x
    if has_ghost(x):
        return x
    return m.native(copy.deepcopy, [x], {})


def _copy_item(m, it):
    if isinstance(it, tuple):
        return tuple(_copy_item(m, i) for i in it)
    if isinstance(it, (VList, VSet, VDict)):
        return m_copy(m, it)
    return it


# ------------------------------------------------------------------ SymPy
@model(sp.Symbol)
def m_symbol(m, name, **k):
    if isinstance(name, VStr):
        raise Unsupported("symbol with a text of unknown length")
    return m.native(sp.Symbol, [name], k)


@model(sp.symbols)
def m_symbols(m, names, **k):
    if tokens(names):
        raise Unsupported("symbols() of a symbolic text")
    return m.native(sp.symbols, [names], k)


@model(sp.latex)
def m_latex(m, x, **k):
    if m.symbolic(x) and not k:
        m.assumed.add("latex() of a value is a function of the value")
        if isinstance(x, Denom):
            return m.format(x)
        if ghost_number(x):
            text = m.digits(x)
            if text is not None:
                return text
        return V.derived("latex", x, m.describe(x))
    return m.native(sp.latex, [x], k)


SAFE |= {
    sp.sqrt, sp.Abs, sp.sin, sp.cos, sp.acos, sp.exp, sp.core.symbol.Str, operator.neg, operator.pos,
    sp.re, sp.im, sp.Add, sp.Mul, sp.Pow, sp.Tuple,
}


def _install_physics():
    from sympy.physics.quantum.cg import CG
    from sympy.physics.quantum.spin import Rotation, WignerD

    SAFE.update({CG, WignerD})
    SAFE.add(Rotation.d)

    @model(Rotation.d)
    def m_wigner(m, j, mm, mp, beta):
        m.assumed.add("sympy Rotation.d(j, m, m', beta) is WignerD(j, m, m', 0, beta, 0)")
        return WignerD(j, mm, mp, 0, beta, 0)

    from ampform.sympy import PoolSum

    @model(PoolSum)
    def m_pool(m, expression, *indices, **k):
        idx = []
        ghost = False
        for ind in indices:
            if isinstance(ind, Seg):
                raise Unsupported("PoolSum over an unknown number of indices")
            s, rng = m.parts(ind)
            if isinstance(rng, VRange):
                f = m.flat(rng)
                if f is None:
                    ghost = True
                    idx.append((s, rng.lo, rng.hi))
                    continue
                rng = f
            idx.append((s, tuple(m.flat(rng) if m.flat(rng) is not None else _unknown("PoolSum"))))
        expression = m.usable(expression)
        if isinstance(expression, Sym):
            raise Unsupported("PoolSum of a symbolic container")
        if not ghost and not any(has_ghost(v) for i in idx for v in i[1]):
            return m.native(PoolSum, [expression, *idx], k)
        out = []
        for i in idx:
            if len(i) == 3:
                out.append(i)
            else:
                vals = i[1]
                if any(sp.simplify(b - a - 1) != 0 for a, b in zip(vals, vals[1:])) or not vals:
                    raise Unsupported("PoolSum over an irregular range")
                out.append((i[0], vals[0], vals[-1]))
        return GPool(expression, *out)

    @model(PoolSum.cleanup, GPool.cleanup)
    def m_cleanup(m, pool):
        """As ampform does it: drop unused indices, insert the value of an index with one value."""
        m.assumed.add("ampform.sympy.PoolSum.cleanup drops unused indices and inserts the value of indices with one value")
        if isinstance(pool, PoolSum):
            return m.native_method(pool.cleanup, [], {})
        subs, keep = {}, []
        for s, lo, hi in pool.indices:
            if s not in pool.expression.free_symbols:
                continue
            if m.decide(num_term(lo) == num_term(hi)):
                subs[s] = lo
            else:
                keep.append((s, lo, hi))
        e = pool.expression.xreplace(subs)
        return GPool(e, *keep) if keep else e


_install_physics()


# ------------------------------------------------------------------ f(*Seg)
def variadic(m, f, args, kwargs):
    if f in (sp.Add, sp.Mul) and not kwargs:
        acc = sp.Integer(0) if f is sp.Add else sp.Integer(1)
        for a in args:
            if isinstance(a, Seg):
                acc = m.fold("+" if f is sp.Add else "*", acc, a)
            else:
                acc = acc + a if f is sp.Add else acc * a
        return acc
    if f in (set, frozenset, list, tuple):
        raise Unsupported("constructor with an unknown number of arguments")
    if f in (max, min):
        raise Unsupported("max/min of a sequence of unknown length")
    if f is itertools.chain:
        raise Unsupported("chain of an unknown number of sequences")
    if isinstance(f, VMethod) and f.name in ("union", "update") and len(args) == 1:
        out = VList(depth=m.depth)
        m.for_each(VSeq(args), lambda it: m.mutate(out, m.parts(it)))
        return method(m, f.obj, f.name, [VSeq(out.items)], kwargs)
    if f in (set.union,) and len(args) == 1:
        out = VSet(depth=m.depth)
        m.for_each(VSeq(args), lambda it: m.mutate(out, m.parts(it)))
        return out
    raise Unsupported(f"call of {getattr(f, '__name__', f)} with an unknown number of arguments")


# ------------------------------------------------------------------ methods
def method(m, obj, name, args, kwargs):
    if not isinstance(obj, Sym):
        return string_method(m, obj, name, args, kwargs)
    if isinstance(obj, VStr):
        return string_method(m, obj, name, args, kwargs)
    t = type(obj)
    h = globals().get(f"_{t.__name__}_{name}")
    if h is None:
        if isinstance(obj, (VList, VSeq, VRange)) and name in ("count", "index"):
            items = m.flat(obj)
            if items is not None:
                hits = [n for n, x in enumerate(items) if m.decide_eq(x, args[0])]
                if name == "count":
                    return len(hits)
                if not hits:
                    raise PyRaise(ValueError("not in list"))
                return hits[0]
        if name in ("__contains__",):
            return m.as_bool(m.contains(obj, args[0]))
        if name == "__getitem__":
            return m.getitem(obj, args[0])
        if name == "__iter__":
            return m_iter(m, obj)
        if name == "__len__":
            return m_len(m, obj)
        if not hasattr(obj.pytype, name):
            raise PyRaise(AttributeError(f"{obj.pytype.__name__} has no attribute {name}"))
        raise Unsupported(f"method {name} of {t.__name__}")
    return h(m, obj, *args, **kwargs)


def _VList_append(m, obj, x):
    m.mutate(obj, [x])


def _VList_extend(m, obj, xs):
    m.mutate(obj, m.parts(xs))


def _VList_copy(m, obj):
    m.read(obj)
    return VList(obj.items, depth=m.depth)


def _own(m, obj, what):
    if obj.depth < m.depth or any(isinstance(i, Seg) for i in obj.items):
        raise Unsupported(what)
    m.read(obj)


def _VList_insert(m, obj, pos, x):
    if not (pos == 0 and obj.depth == m.depth):
        _own(m, obj, "insert into a list of unknown length")
    obj.items.insert(pos, x)


def _VList_pop(m, obj, pos=-1):
    _own(m, obj, "pop from a list of unknown length")
    try:
        return obj.items.pop(pos)
    except IndexError as exc:
        raise PyRaise(exc) from None


def _VList_remove(m, obj, x):
    _own(m, obj, "remove from a list of unknown length")
    for n, y in enumerate(obj.items):
        if m.decide_eq(x, y):
            del obj.items[n]
            return
    raise PyRaise(ValueError("not in list"))


def _VList_clear(m, obj):
    if obj.depth < m.depth:
        raise Unsupported("clear in a loop")
    obj.items.clear()


_VSet_clear = _VDict_clear = _VList_clear


def _VList_sort(m, obj, *, key=None, reverse=False):
    _own(m, obj, "sort of a list of unknown length")
    obj.items[:] = m_sorted(m, VSeq(obj.items), key=key, reverse=reverse).items


def _VList_reverse(m, obj):
    _own(m, obj, "reverse of a list of unknown length")
    obj.items.reverse()


def _VSet_add(m, obj, x):
    m.mutate(obj, [x])


def _VSet_update(m, obj, *xs):
    for x in xs:
        m.mutate(obj, x.items if isinstance(x, VSet) else m.parts(x))


def _VSet_union(m, obj, *xs):
    m.read(obj)
    out = VSet(obj.items, depth=m.depth)
    _VSet_update(m, out, *xs)
    return out


def _VSet_copy(m, obj):
    return VSet(m.read(obj).items, depth=m.depth)


def _VSet_difference(m, obj, *xs):
    import ast

    for x in xs:
        obj = m.binop(ast.Sub, obj, x if isinstance(x, (VSet, set, frozenset)) else m_set(m, x))
    return obj


def _VSet_intersection(m, obj, *xs):
    import ast

    for x in xs:
        obj = m.binop(ast.BitAnd, obj, x if isinstance(x, (VSet, set, frozenset)) else m_set(m, x))
    return obj


def _VSet_issubset(m, obj, x):
    import ast

    return m.compare(ast.LtE, obj, x if isinstance(x, (VSet, set, frozenset)) else m_set(m, x))


def _VSet_issuperset(m, obj, x):
    import ast

    return m.compare(ast.GtE, obj, x if isinstance(x, (VSet, set, frozenset)) else m_set(m, x))


def _VSet_discard(m, obj, x):
    if obj.depth < m.depth:
        raise Unsupported("discard in a loop")
    f = m.flat(obj)
    if f is None:
        raise Unsupported("discard from a set of unknown size")
    obj.items[:] = [y for y in f if not m.decide_eq(x, y)]


def _VSet_pop(m, obj):
    f = m.flat(obj)
    if f is None or len(f) > 1 or obj.depth < m.depth:
        raise Unsupported("pop from a set")
    if not f:
        raise PyRaise(KeyError("pop from an empty set"))
    obj.items.clear()
    return f[0]


def _VDict_get(m, obj, key, default=None):
    if isinstance(default, (int, sp.Integer)) and not isinstance(default, bool) and default == 0 and groups.starts(m, obj):
        return groups.total(m, obj, key)
    v = m.lookup(obj, key)
    return default if v is MISSING else v


def _VDict_items(m, obj):
    return m.dict_view(obj, "items")


def _VDict_keys(m, obj):
    v = m.dict_view(obj, "keys")
    if not any(isinstance(i, Seg) for i in v.items):
        return VSet(v.items, depth=m.depth, pytype=set)
    return v


def _VDict_values(m, obj):
    return m.dict_view(obj, "values")


def _VDict_update(m, obj, other=MISSING, **k):
    if other is not MISSING:
        m.dict_update(obj, other)
    if k:
        m.mutate(obj, [("set", n, v) for n, v in k.items()])


def _VDict_copy(m, obj):
    m.read(obj)
    d = VDict(obj.items, depth=m.depth, factory=obj.factory, base=obj.base)
    if getattr(obj, "distinct", False):
        d.distinct = True
    return d


def _GroupRef_append(m, ref, x):
    groups.append(m, ref, x)


def _VDict_setdefault(m, obj, key, default=None):
    if isinstance(default, VList) and not default.items and default.depth == m.depth and groups.starts(m, obj):
        return groups.reference(m, obj, key)
    v = m.lookup(obj, key)
    if v is MISSING:
        m.mutate(obj, [("set", key, default)])
        return default
    return v


def _VDict_pop(m, obj, key, default=MISSING):
    if obj.depth < m.depth:
        raise Unsupported("pop in a loop")
    d = m.dict_items(obj)
    if d is None:
        raise Unsupported("pop from a dict of unknown size")
    for n, (k, v) in enumerate(d):
        if m.decide_eq(key, k):
            obj.items[:] = [("set", a, b) for j, (a, b) in enumerate(d) if j != n]
            return v
    if default is MISSING:
        raise PyRaise(KeyError(m.message(key)))
    return default


def string_method(m, s, name, args, kwargs):
    plain = lambda t: isinstance(t, str) and not tokens(t)  # noqa: E731
    if name == "join":
        return join(m, s, args[0])
    if isinstance(s, str):
        first_known = s[:1] and not tokens(s[:1])
        if name == "startswith" and plain(args[0]):
            k = len(args[0])
            if not tokens(s[:k]) and len(s) >= k:
                return s.startswith(args[0])
            head = s[: min(k, next(n for n, c in enumerate(s) if tokens(c)))] if tokens(s) else s
            if not args[0].startswith(head):
                return False
            return GBool(z3.Bool(f"startswith({V.show(s)},{args[0]})"))
        if name == "endswith" and plain(args[0]):
            k = len(args[0])
            if len(s) >= k and not tokens(s[-k:]):
                return s.endswith(args[0])
            return GBool(z3.Bool(f"endswith({V.show(s)},{args[0]})"))
        if name in ("strip", "lstrip", "rstrip"):
            ok_l = name == "rstrip" or (first_known and not s[:1].isspace())
            ok_r = name == "lstrip" or (s[-1:] and not tokens(s[-1:]) and not s[-1:].isspace())
            if not args and ok_l and ok_r:
                return s
            if not args:
                t = s.strip() if name == "strip" else getattr(s, name)()
                lead = t[:1]
                trail = t[-1:]
                m.assumed.add("strip() of a message does not look into its unknown parts")
                return t if not (tokens(lead) and name != "rstrip" or tokens(trail) and name != "lstrip") else V.string(f"{name}({V.show(s)})")
        if name == "replace" and not kwargs and not any(map(tokens, args)) and no_part_of_numerals(s, args[0]):
            return s.replace(*args)
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "casefold", "replace", "format", "ljust",
                    "rjust", "center", "zfill", "removeprefix", "removesuffix"):
            m.assumed.add("text methods are functions of their arguments")
            return V.string(f"{name}({V.show(s)},{','.join(V.show(a) for a in args)})")
        if name in ("isdigit", "isidentifier", "isspace", "isalpha", "isnumeric", "islower", "isupper"):
            return GBool(z3.Bool(f"{name}({V.show(s)})"))
        if name == "encode":
            raise Unsupported("encode")
    raise Unsupported(f"method {name} of a symbolic text")


def no_part_of_numerals(s, x):
    """All unknown parts of ``s`` are texts of numbers, and ``x`` has nothing in common with such texts."""
    return x and not set(x) & set("0123456789+-./eE_") and all(V.numeral_value(c) is not None for c in tokens(s))


def join(m, sep, xs):
    items = m.parts(xs)
    for it in items:
        if not isinstance(it, (Seg, str, VStr)):
            raise PyRaise(TypeError(f"sequence item: expected str instance, {type(it).__name__} found"))
    if any(isinstance(i, Seg) for i in items):
        return VStr([Joined(sep, items)])
    out = []
    for n, i in enumerate(items):
        if n:
            out.append(sep)
        out.append(i)
    return m.text(out) if out else ""


class Joined(Seg):
    """sep.join over items and segments."""

    def __init__(self, sep, parts):
        self.sep, self.parts_ = sep, parts
        self.base, self.cases, self.elem = parts[0].base if isinstance(parts[0], Seg) else None, [], None

    def __repr__(self):
        return f"Joined({self.sep!r}, {self.parts_})"


def native_method(m, f, args, kwargs):
    """Bound methods of native objects and library callables."""
    if isinstance(f, operator.itemgetter):
        idx = f.__reduce__()[1]
        r = [m.getitem(args[0], i) for i in idx]
        return r[0] if len(r) == 1 else tuple(r)
    if isinstance(f, operator.attrgetter):
        out = []
        for path in f.__reduce__()[1]:
            v = args[0]
            for n in path.split("."):
                v = m.getattr(v, n)
            out.append(v)
        return out[0] if len(out) == 1 else tuple(out)
    if isinstance(f, (types.BuiltinFunctionType, types.MethodWrapperType)) and not isinstance(f.__self__, (types.ModuleType, type)):
        obj, name = f.__self__, f.__name__
        if isinstance(obj, str):
            if name == "join":
                return join(m, obj, args[0])
            if tokens(obj) or any(m.symbolic(a) for a in args):
                if name == "format":
                    raise Unsupported("str.format")
                return string_method(m, obj, name, args, kwargs)
        if isinstance(obj, dict):
            sym = any(m.symbolic(a) for a in args) or has_ghost(obj)
            if name == "get" and sym:
                for k, v in obj.items():
                    if m.decide_eq(args[0], k):
                        return v
                return args[1] if len(args) > 1 else kwargs.get("default")
            if name in ("keys", "values", "items"):
                return list(f())
            if name == "copy":
                return m_dict(m, obj)
            if name in ("update", "setdefault", "pop", "clear", "popitem", "__setitem__"):
                raise Unsupported("update of a native dict")
        if isinstance(obj, (list, set)) and name in ("append", "extend", "add", "update", "insert", "remove", "pop", "sort", "clear", "discard"):
            raise Unsupported("update of a native container")
        if isinstance(obj, (list, tuple)) and name in ("index", "count") and (m.symbolic(args[0]) or has_ghost(obj)):
            return method(m, VSeq(list(obj)), name, args, kwargs)
    if isinstance(f, type) and issubclass(f, dict):
        return m_dict(m, *args, **kwargs)
    return NO
