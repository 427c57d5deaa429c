"""Symbolic values of the engine: ghost numbers and strings, unbounded sequences, logs."""
from __future__ import annotations

import re
from fractions import Fraction

import pyvc.env  # noqa: F401
import sympy as sp
import z3

StrSort = z3.DeclareSort("Str")
ObjSort = z3.DeclareSort("Obj")

GHOST = "ξ"  # prefix of the names of ghost numbers
TOKEN0, TOKEN1 = 0xE000, 0xF8FF  # private-use characters: ghost strings

# name -> (z3 term, kind, pytype)
NUMBERS: dict[str, tuple] = {}
# token character -> (name, z3 constant)
STRINGS: dict[str, tuple] = {}
_STRING_BY_NAME: dict[str, str] = {}


class Unsupported(Exception):
    """The code (or a value) is outside the subset of the engine: undecided, never a verdict."""


def number(name: str, kind: str = "real", pytype=None, **assumptions):
    """Ghost number. Kinds: real, rat, int, half (integer or half-integer)."""
    key = GHOST + name
    default = {"int": {"integer": True}, "half": {"rational": True}, "rat": {"rational": True}, "real": {"real": True}}[kind]
    sym = sp.Symbol(key, **{**default, **assumptions})
    if key not in NUMBERS:
        if kind == "int":
            term = z3.Int(key)
        elif kind == "half":
            term = z3.ToReal(z3.Int("2" + key)) / 2
        else:
            term = z3.Real(key)
        NUMBERS[key] = (term, kind, pytype or {"int": int, "half": sp.Rational, "rat": sp.Rational, "real": float}[kind])
    return sym


def root_of(s):
    """The ghost of which ``s`` is the same number in another Python type."""
    m = _TYPED.match(s.name)
    return ROOTS[m.group(1)] if m else s


def typed(s, pytype):
    """The ghost number ``s`` as a value of Python type ``pytype``."""
    root = root_of(s)
    term, kind, pyt = NUMBERS[root.name]
    if pyt is pytype:
        return root
    t = sp.Symbol(f"{root.name}†{pytype.__name__}", **root._assumptions_orig)
    NUMBERS.setdefault(t.name, (term, kind, pytype))
    ROOTS[root.name] = root
    return t


ROOTS: dict = {}
_TYPED = re.compile(r"^(.*)†(\w+)$")


def string(name: str) -> str:
    """Ghost string: one private-use character that stands for any text."""
    tok = _STRING_BY_NAME.get(name)
    if tok is None:
        tok = chr(TOKEN0 + len(STRINGS))
        assert ord(tok) <= TOKEN1
        _STRING_BY_NAME[name] = tok
        STRINGS[tok] = (name, z3.Const("str:" + name, StrSort))
    return tok


def derived(func: str, value, text: str) -> str:
    """Ghost string that is a function of a value."""
    tok = string(f"{func}({text})")
    DERIVED.setdefault(tok, (func, value))
    return tok


DERIVED: dict = {}


def numeral(value, text: str) -> str:
    """The text of a number: digits, signs, points, slashes and exponents."""
    return derived("numeral", value, text)


def numeral_value(s: str):
    func, value = DERIVED.get(s, (None, None))
    return value if func == "numeral" else None


def tokens(s: str) -> list[str]:
    return [c for c in s if TOKEN0 <= ord(c) <= TOKEN1]


def show(x) -> str:
    """Text with ghost strings rendered by name."""
    return "".join(f"‹{STRINGS[c][0]}›" if c in STRINGS else c for c in str(x))


class UnknownExpr(sp.Symbol):
    """An expression that is not known (not just a symbol): only its identity may be used."""


def unknown_expr(label) -> UnknownExpr:
    return UnknownExpr(string(label))


def has_unknown(x) -> bool:
    return isinstance(x, sp.Basic) and (isinstance(x, UnknownExpr) or bool(x.atoms(UnknownExpr)))


def is_ghost_symbol(s) -> bool:
    return isinstance(s, sp.Symbol) and s.name.startswith(GHOST)


def ghost_number(x) -> bool:
    """A number whose value is not known: arithmetic in which all symbols are ghosts (and there are some)."""
    if isinstance(x, sp.Symbol):
        return x.name.startswith(GHOST)
    if not isinstance(x, sp.Expr) or x.is_Number:
        return False
    r = _ARITHMETIC.get(x)
    if r is None:
        if len(_ARITHMETIC) > 200_000:
            _ARITHMETIC.clear()
        r = _ARITHMETIC[x] = (
            isinstance(x, (sp.Add, sp.Mul, sp.Pow, sp.Mod, sp.Abs, sp.floor, sp.Max, sp.Min))
            and all(a.is_Number or ghost_number(a) or isinstance(a, sp.Expr) and a.is_number and not a.atoms(sp.Indexed, GPool, GFold)
                    for a in x.args)
            and any(ghost_number(a) for a in x.args)
        )
    return r


_ARITHMETIC: dict = {}


def plain_number(x) -> bool:
    return isinstance(x, (int, float, Fraction, complex)) and not isinstance(x, bool) or isinstance(x, sp.Number)


def has_ghost(x, _depth=0) -> bool:
    """Does a (nested) native value contain anything symbolic?"""
    if isinstance(x, str):
        return any(TOKEN0 <= ord(c) <= TOKEN1 for c in x)
    if isinstance(x, sp.Basic):
        if any(is_ghost_symbol(s) for s in x.free_symbols):
            return True
        return any(has_ghost(str(a)) for a in x.atoms(sp.Symbol, sp.core.symbol.Str)) if x.atoms(sp.Symbol, sp.core.symbol.Str) else False
    if isinstance(x, (Sym, GBool, Obj, z3.ExprRef)):
        return True
    if _depth > 6:
        return True
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_ghost(i, _depth + 1) for i in x)
    if isinstance(x, dict):
        return any(has_ghost(k, _depth + 1) or has_ghost(v, _depth + 1) for k, v in x.items())
    if hasattr(type(x), "__attrs_attrs__"):
        return any(has_ghost(getattr(x, a.name, None), _depth + 1) for a in type(x).__attrs_attrs__)
    return False


def _fail(msg):
    raise Unsupported(msg)


class GBool:
    """Python bool of unknown value."""

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return f"GBool({self.term})"


class Sym:
    """Base class of symbolic containers."""

    depth = 0


class Obj(Sym):
    """Opaque object: identity constant, class, known attributes, behaviour when called."""

    def __init__(self, name, cls=object, attrs=None, call=None):
        self.name, self.cls, self.attrs, self.call = name, cls, dict(attrs or {}), call
        self.term = z3.Const("obj:" + name, ObjSort)

    def __repr__(self):
        return f"<{self.name}>"


class Struct(Obj):
    """A new object of which only the fields count."""

    COUNT = iter(range(1, 10**9))

    def __init__(self, cls, fields):
        super().__init__(f"{cls.__name__}#{next(self.COUNT)}", cls, fields)


class Base:
    """An unbounded finite sequence: ``make(tag)`` gives a generic element and its facts."""

    def __init__(self, name, make, distinct=False, ordered=True, length=None):
        self.name, self.distinct, self.ordered = name, distinct, ordered
        if make is not None:
            self.make = make
        self._length = length

    def retagged(self, old, new):
        return self.remake(new) if getattr(self, "remake", None) else _fail(f"retag of {self.name}")

    @property
    def length(self):
        return self._length if self._length is not None else number(f"|{self.name}|", "int", nonnegative=True)

    def __repr__(self):
        return f"Base({self.name})"


class Seg:
    """For each element of ``base`` in order: the items of the case that applies.

    ``cases``: list of (facts, items); items may contain further segments.
    """

    def __init__(self, base, cases=None, elem=None):
        """``cases`` None: the elements themselves."""
        self.base, self.cases, self.elem = base, None if cases is None else list(cases), elem

    def __repr__(self):
        return f"Seg({self.base.name}: {'elements' if self.cases is None else self.cases})"


class RangeBase(Base):
    """lo, lo+1, ..., hi as generic element lo + n (n a fresh integer ghost)."""

    def __init__(self, name, lo, hi):
        super().__init__(name, None, distinct=True)
        self.lo, self.hi = lo, hi


class VList(Sym):
    pytype = list

    def __init__(self, items=(), depth=0):
        self.items, self.depth = list(items), depth

    def __repr__(self):
        return f"VList({self.items})"


class VSet(Sym):
    pytype = set

    def __init__(self, items=(), depth=0, pytype=set):
        self.items, self.depth, self.pytype = list(items), depth, pytype

    def __repr__(self):
        return f"VSet({self.items})"


class VDict(Sym):
    """Ordered log of updates: ('set', k, v), ('update', mapping), or Seg of those."""

    pytype = dict

    def __init__(self, items=(), depth=0, factory=None, base=None):
        self.items, self.depth, self.factory, self.base = list(items), depth, factory, base

    def __repr__(self):
        return f"VDict({self.items})"


class VSeq(Sym):
    """Immutable sequence with segments (tuple, list, iterator, view)."""

    def __init__(self, items=(), pytype=tuple, sorted_from=None):
        self.items, self.pytype, self.sorted_from = list(items), pytype, sorted_from

    def __repr__(self):
        return f"VSeq({self.items})"


class VRange(Sym):
    """The list lo, lo+1, ..., hi of exact rationals (hi - lo a non-negative integer)."""

    pytype = list

    def __init__(self, lo, hi):
        self.lo, self.hi = sp.sympify(lo), sp.sympify(hi)

    def __repr__(self):
        return f"VRange({self.lo}, {self.hi})"


class VStr(Sym):
    """Text with segments: list of str and Seg (whose items are text again)."""

    pytype = str

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, VStr):
                for q in p.parts:
                    self._add(q)
            else:
                self._add(p)

    def _add(self, p):
        if isinstance(p, str) and self.parts and isinstance(self.parts[-1], str):
            self.parts[-1] += p
        elif p != "":
            self.parts.append(p)

    def __repr__(self):
        return f"VStr({self.parts})"


class GPool(sp.Expr):
    """PoolSum over ranges of unknown length: args (expression, (symbol, lo, hi), ...)."""

    def __new__(cls, expression, *indices):
        return sp.Expr.__new__(cls, sp.sympify(expression), *(sp.Tuple(*i) for i in indices))

    @property
    def expression(self):
        return self.args[0]

    @property
    def indices(self):
        return self.args[1:]

    @property
    def free_symbols(self):
        fs = self.args[0].free_symbols - {i[0] for i in self.args[1:]}
        for i in self.args[1:]:
            fs |= i[1].free_symbols | i[2].free_symbols
        return fs


    def cleanup(self):
        raise Unsupported("cleanup of a sum outside the engine")


class GFold(sp.Expr):
    """Sum or product over a segment: args (kind, number); segment in FOLDS."""

    def __new__(cls, kind, ref):
        return sp.Expr.__new__(cls, sp.Symbol(kind), sp.Integer(ref))

    @property
    def kind(self):
        return self.args[0].name

    @property
    def seg(self):
        return FOLDS[int(self.args[1])]


FOLDS: list = []


def fold(kind, seg):
    FOLDS.append(seg)
    return GFold(kind, len(FOLDS) - 1)
