"""Interpreter of the Python subset used in /repo, over native and symbolic values."""
from __future__ import annotations

import ast
import builtins
import fractions
import functools
import inspect
import operator
import sys
import types

import pyvc.env as env  # noqa: F401
import attr
import sympy as sp
import z3
from pyvc import groups
from pyvc import values as V
from pyvc.engine import (
    BoundClosure, Carried, Case, Closure, Denom, Folded, Infeasible, Machine, Poison, PyRaise, VMethod, _Break,
    _Continue, _Return, function_node, in_package, mangle, num_term, retag, retag_value, same_plain, str_term, z_is_int,
)
from pyvc.values import (
    GBool, GFold, GPool, Obj, Seg, Sym, Unsupported, VDict, VList, VRange, VSeq, VSet, VStr, ghost_number, has_ghost,
    number, plain_number, tokens,
)

MISSING = object()
BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
    ast.Pow: operator.pow, ast.Mod: operator.mod, ast.FloorDiv: operator.floordiv, ast.BitOr: operator.or_,
    ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
    ast.MatMult: operator.matmul,
}
OPSYM = {ast.Add: "+", ast.Mult: "*", ast.Sub: "-", ast.BitOr: "|"}


class Env:
    def __init__(self, vars_, parent, globals_, cls_name):
        self.vars, self.parent, self.globals, self.cls_name = vars_, parent, globals_, cls_name


class Frame:
    def __init__(self, e, node, is_generator):
        self.env, self.node, self.generator = e, node, is_generator
        self.yields = None


def local_names(stmts) -> set[str]:
    """Names assigned by statements (not in nested functions)."""
    out = set()

    class Vis(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            # comprehension variables live in their own scope; named expressions leak
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    v = Vis()
    for s in stmts:
        v.visit(s)
    return out


def has_yield(node) -> bool:
    hit = getattr(node, "_has_yield", None)
    if hit is None:
        hit = node._has_yield = _has_yield(node)
    return hit


def _has_yield(node) -> bool:
    todo = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Interp(Machine):
    models: dict = {}
    safe: set = set()

    def __init__(self, contracts=None, **kw):
        self.frame_stack: list = []
        self._eqs: dict = {}
        super().__init__(contracts, **kw)

    def reset(self):
        super().reset()
        self.frame_stack = []

    # ================================================================ functions
    def call(self, f, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        args = list(args)
        if isinstance(f, (Poison, Carried)):
            self.usable(f)
        if isinstance(f, Closure):
            return self.run_closure(f, args, kwargs)
        if isinstance(f, BoundClosure):
            return self.call(f.fn, [f.obj, *args], kwargs)
        if isinstance(f, VMethod):
            from pyvc import models

            return models.method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, Obj):
            if f.call is None:
                raise Unsupported(f"call of {f}")
            return f.call(self, args, kwargs)
        if isinstance(f, Sym):
            raise Unsupported(f"call of {type(f).__name__}")
        h = self.handler(f)
        if h is not None:
            return h(self, *args, **kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, [*f.args, *args], {**f.keywords, **kwargs})
        if isinstance(f, types.MethodType):
            if in_package(f.__func__):
                return self.call(f.__func__, [f.__self__, *args], kwargs)
            return self.native_method(f, args, kwargs)
        if hasattr(f, "dispatch") and hasattr(f, "registry"):  # singledispatch
            impl = f.dispatch(self.type_of(args[0]))
            return self.call(impl, args, kwargs)
        if isinstance(f, types.FunctionType) and in_package(f):
            return self.run_function(f, args, kwargs)
        if hasattr(f, "__wrapped__") and in_package(f) and not isinstance(f, type):
            self.assumed.add("functools.cache is transparent (the cached function is pure)")
            return self.call(f.__wrapped__, args, kwargs)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        if not isinstance(f, (types.BuiltinFunctionType, types.FunctionType)) and in_package(type(f)):
            c = inspect.getattr_static(type(f), "__call__", None)
            if isinstance(c, types.FunctionType):
                return self.call(c, [f, *args], kwargs)
        return self.native_method(f, args, kwargs)

    def handler(self, f):
        try:
            h = self.contracts.get(f)
            if h is not None:
                self.contract_uses.add(getattr(f, "__qualname__", repr(f)))
                return h
            h = self.models.get(f)
        except TypeError:
            return None
        return h

    def native_method(self, f, args, kwargs):
        from pyvc import models

        h = models.native_method(self, f, args, kwargs)
        if h is not models.NO:
            return h
        return self.native(f, args, kwargs)

    def is_safe(self, f):
        try:
            if f in self.safe:
                return True
        except TypeError:
            return False
        if isinstance(f, type) and issubclass(f, (sp.Basic, BaseException)):
            return True
        m = getattr(f, "__self__", None)
        return isinstance(m, sp.Basic) and not isinstance(m, Sym)

    def native(self, f, args, kwargs):
        """Call of a library function with concrete (or safe symbolic) arguments."""
        try:
            a = [self.to_native(x) for x in args]
            k = {n: self.to_native(x) for n, x in kwargs.items()}
        except Unsupported as e:
            raise Unsupported(f"call of {getattr(f, '__qualname__', f)}: {e}") from None
        if any(has_ghost(x) for x in a) or any(has_ghost(x) for x in k.values()) or (
            isinstance(f, types.MethodType) and has_ghost(f.__self__)
        ):
            if not self.is_safe(f):
                raise Unsupported(f"library function {getattr(f, '__qualname__', f)} on symbolic arguments")
        try:
            r = f(*a, **k)
        except Unsupported:
            raise
        except Exception as exc:  # noqa: BLE001
            raise self.raised(exc, *a, *k.values()) from None
        return r

    @staticmethod
    def raised(exc, *operands):
        """The exception of a library operation (never one caused by a stand-in of the verifier)."""
        if any(type(x).__module__.startswith("pyvc.") for x in operands):
            return Unsupported(f"library operation on {operands}: {exc}")
        return PyRaise(exc)

    def run_function(self, f, args, kwargs):
        node = function_node(f)
        self.used.add(f"{f.__module__}.{f.__qualname__}")
        parts = f.__qualname__.split(".")
        cls_name = None
        if len(parts) > 1 and parts[-2] != "<locals>":
            cls_name = parts[-2]
        else:  # nested function in a method
            for p, q in zip(parts, parts[1:]):
                if q == "<locals>" or p[:1].isupper() or p[:2] == "_A":
                    pass
        free = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                free[n] = c.cell_contents
        parent = Env(free, None, f.__globals__, cls_name) if free else None
        pos_def = f.__defaults__ or ()
        kw_def = f.__kwdefaults__ or {}
        return self.run_body(node, args, kwargs, pos_def, kw_def, parent, f.__globals__, cls_name, f.__qualname__)

    def run_closure(self, c, args, kwargs):
        return self.run_body(c.node, args, kwargs, c.defaults, c.kwdefaults, c.env, c.globals, c.cls_name, c.qualname)

    def bind(self, node, args, kwargs, pos_def, kw_def, qualname):
        a = node.args
        names = [x.arg for x in (*a.posonlyargs, *a.args)]
        vars_ = {}
        kwargs = dict(kwargs)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(TypeError(f"{qualname}() takes {len(names)} positional arguments"))
            vars_[a.vararg.arg] = tuple(args[len(names):])
            args = args[: len(names)]
        elif a.vararg is not None:
            vars_[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vars_[n] = v
        pos_only = {x.arg for x in a.posonlyargs}
        for n in (*names, *(x.arg for x in a.kwonlyargs)):
            if n in kwargs and n not in pos_only:
                if n in vars_:
                    raise PyRaise(TypeError(f"{qualname}() got multiple values for argument {n}"))
                vars_[n] = kwargs.pop(n)
        for n, d in zip(names[len(names) - len(pos_def):], pos_def):
            vars_.setdefault(n, d)
        for n, d in kw_def.items():
            vars_.setdefault(n, d)
        for n in (*names, *(x.arg for x in a.kwonlyargs)):
            if n not in vars_:
                raise PyRaise(TypeError(f"{qualname}() missing argument {n}"))
        if kwargs:
            if a.kwarg is None:
                raise PyRaise(TypeError(f"{qualname}() got an unexpected keyword argument {next(iter(kwargs))}"))
            vars_[a.kwarg.arg] = VDict([("set", k, v) for k, v in kwargs.items()], depth=self.depth)
        elif a.kwarg is not None:
            vars_[a.kwarg.arg] = VDict(depth=self.depth)
        return vars_

    def run_body(self, node, args, kwargs, pos_def, kw_def, parent, globals_, cls_name, qualname):
        if len(self.frame_stack) > 60:
            raise Unsupported("recursion")
        e = Env(self.bind(node, args, kwargs, pos_def, kw_def, qualname), parent, globals_, cls_name)
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, e)
        frame = Frame(e, node, has_yield(node))
        if frame.generator:
            frame.yields = VList(depth=self.depth)
        e.vars["__frame__"] = frame
        self.frame_stack.append(frame)
        try:
            self.exec_block(node.body, e)
            value = None
        except _Return as r:
            value = r.value
        finally:
            self.frame_stack.pop()
        if frame.generator:
            return VSeq(frame.yields.items, pytype=types.GeneratorType)
        return value

    # ---- classes
    def construct(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            try:
                return cls(*[self.message(x) for x in args])
            except Exception as exc:  # noqa: BLE001
                raise PyRaise(exc) from None
        if in_package(cls) and not issubclass(cls, sp.Basic):
            if attr.has(cls):
                return self.construct_attrs(cls, args, kwargs)
            obj = object.__new__(cls)
            obj.__dict__["__pyvc_depth__"] = self.depth
            init = inspect.getattr_static(cls, "__init__", None)
            if isinstance(init, types.FunctionType):
                self.call(init, [obj, *args], kwargs)
            return obj
        if in_package(cls) and issubclass(cls, sp.Basic):
            self.assumed.add("ampform.sympy.unevaluated: construction stores the arguments")
        return self.native(cls, args, kwargs)

    def message(self, x):
        try:
            return V.show(self.to_native(x)) if isinstance(x, (str, Sym)) else x
        except Unsupported:
            return "<message>"

    def construct_attrs(self, cls, args, kwargs):
        fields = [a for a in attr.fields(cls) if a.init]
        obj = object.__new__(cls)
        pos = list(args)
        kw = dict(kwargs)
        if any(not a.init and a.default is not attr.NOTHING for a in attr.fields(cls)):
            raise Unsupported("attrs field without init")
        names = [a for a in fields if not a.kw_only]
        vals = {}
        if len(pos) > len(names):
            raise PyRaise(TypeError(f"{cls.__name__}: too many positional arguments"))
        for a, v in zip(names, pos):
            vals[a.name] = v
        for a in fields:
            key = a.alias or a.name
            if key in kw:
                if a.name in vals:
                    raise PyRaise(TypeError(f"{cls.__name__}: multiple values for {key}"))
                vals[a.name] = kw.pop(key)
            if a.name not in vals:
                if a.default is attr.NOTHING:
                    raise PyRaise(TypeError(f"{cls.__name__}: missing argument {key}"))
                if isinstance(a.default, attr.Factory):
                    if a.default.takes_self:
                        raise Unsupported("attrs factory with self")
                    vals[a.name] = self.call(a.default.factory)
                else:
                    vals[a.name] = a.default
        if kw:
            raise PyRaise(TypeError(f"{cls.__name__}: unexpected argument {next(iter(kw))}"))
        for a in fields:
            v = vals[a.name]
            if a.converter is not None:
                v = self.call(a.converter, [v])
            object.__setattr__(obj, a.name, v)
        for a in fields:
            if a.validator is not None:
                self.validate(a.validator, obj, a)
        post = inspect.getattr_static(cls, "__attrs_post_init__", None)
        if post is not None:
            self.call(post, [obj])
        return obj

    def validate(self, validator, obj, a):
        self.validate_value(validator, obj, a, getattr(obj, a.name))

    def validate_value(self, validator, obj, a, v):
        name = type(validator).__name__
        if name == "_InstanceOfValidator":
            if not self.isinstance(v, validator.type):
                raise PyRaise(TypeError(f"'{a.name}' must be {validator.type}"))
        elif name == "_AndValidator":
            for w in validator._validators:
                self.validate_value(w, obj, a, v)
        elif name == "_DeepIterable":
            for x in self.parts(v):
                self.validate_value(validator.member_validator, obj, a, x)
        elif name == "_DeepMapping":
            if not isinstance(v, dict):
                raise Unsupported("validation of a mapping of unknown size")
            for k, x in v.items():
                self.validate_value(validator.key_validator, obj, a, k)
                self.validate_value(validator.value_validator, obj, a, x)
        elif isinstance(validator, types.FunctionType) and in_package(validator):
            self.call(validator, [obj, a, v])
        else:
            raise Unsupported(f"validator {validator}")

    # ================================================================ types
    def type_of(self, v):
        if isinstance(v, GBool):
            return bool
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Sym):
            if not hasattr(v, "pytype"):
                raise Unsupported(f"type of {type(v).__name__}")
            return v.pytype
        if isinstance(v, Closure):
            return types.FunctionType
        if isinstance(v, sp.Symbol) and v.name in V.NUMBERS:
            return V.NUMBERS[v.name][2]
        return type(v)

    def isinstance(self, v, typ):
        self.usable(v)
        if isinstance(typ, tuple):
            return any(self.isinstance(v, t) for t in typ)
        if isinstance(typ, types.UnionType):
            return any(self.isinstance(v, t) for t in typ.__args__)
        if isinstance(v, V.UnknownExpr):
            if issubclass(sp.Expr, typ):
                return True
            if issubclass(typ, sp.Basic) or not isinstance(typ, type):
                raise Unsupported("isinstance of an unknown expression")
            return False
        if isinstance(v, GFold) or isinstance(v, GPool):
            return issubclass(sp.Expr, typ)
        if ghost_number(v) and not isinstance(v, sp.Symbol):
            kinds = {V.NUMBERS[s.name][2] for s in v.free_symbols if s.name in V.NUMBERS}
            if len(kinds) == 1:
                return issubclass(next(iter(kinds)), typ)
            raise Unsupported("isinstance of a symbolic number")
        try:
            return issubclass(self.type_of(v), typ)
        except TypeError as e:
            raise Unsupported(str(e)) from None

    @staticmethod
    def usable(v):
        if isinstance(v, Poison):
            raise Unsupported(f"read of {v.why}")
        if isinstance(v, Carried):
            raise Unsupported(f"loop-carried dependence through {v.name}")
        return v

    # ================================================================ truth and equality
    def truth(self, v) -> bool:
        self.usable(v)
        if isinstance(v, GBool):
            return self.decide(v.term)
        if isinstance(v, (z3.BoolRef,)):
            return self.decide(v)
        if isinstance(v, (VList, VSet, VSeq, VDict)):
            self.read(v)
            return self.nonempty(v)
        if isinstance(v, VRange):
            return self.decide(num_term(v.hi - v.lo) >= 0)
        if isinstance(v, str) and tokens(v):
            if any(not (V.TOKEN0 <= ord(c) <= V.TOKEN1) for c in v):
                return True
            return not self.decide(self.eq_bool(v, ""))
        if isinstance(v, VStr):
            if any(isinstance(p, str) and p and not tokens(p) for p in v.parts):
                return True
            raise Unsupported("truth of a symbolic text")
        if ghost_number(v):
            return not self.decide(num_term(v) == 0)
        if V.has_unknown(v):
            raise Unsupported("truth of an unknown expression")
        if isinstance(v, Obj):
            if "__truth__" in v.attrs:
                return self.truth(v.attrs["__truth__"])
            return True
        if isinstance(v, (Closure, BoundClosure, VMethod)):
            return True
        if isinstance(v, Sym):
            raise Unsupported(f"truth of {type(v).__name__}")
        if isinstance(v, sp.Basic) and not isinstance(v, (sp.logic.boolalg.Boolean,)) and not v.is_number:
            if isinstance(v, sp.Rel):
                raise Unsupported(f"truth of {v}")
            return True
        try:
            return bool(v)
        except Exception as exc:  # noqa: BLE001
            raise PyRaise(exc) from None

    def nonempty(self, v) -> bool:
        """Fork: has the container an element?"""
        items = v.items
        for it in items:
            if isinstance(it, Poison):
                self.usable(it)
            if not isinstance(it, Seg):
                return True
        for seg in items:
            if self.first_of_seg(seg) is not None:
                return True
        return False

    # -- existential fork over a segment
    def exists(self, base, test, label=None):
        """Fork on "some element of base satisfies test": the first such element or None.

        ``test(elem)`` runs in generic mode and returns a native bool or raises.
        """
        hit = []

        def body(elem):
            if test(elem):
                raise _Return(elem)

        try:
            self.generic(base, body)
        except _Return as r:
            return r.value
        return None

    def first_of_seg(self, seg, pred=None):
        """First item (satisfying pred) that a segment contributes, as (item,), or None. Forks."""

        def body(elem):
            for it in self.items_of(seg, elem):
                if pred is None or pred(it):
                    raise _Return((it,))

        try:
            self.generic(seg.base, body)
        except _Return as r:
            return r.value
        return None

    def items_of(self, seg, elem):
        """Items of a segment for the generic element ``elem`` made just now (forks over its cases)."""
        tag_new = self.last_tag
        if seg.cases is None:
            return [elem]
        n = len(seg.cases)
        for idx, c in enumerate(seg.cases):
            facts = [retag(f, c.tag, tag_new) for f in c.facts]
            cond = z3.And(*facts) if facts else z3.BoolVal(True)
            if idx == n - 1 or self.decide(cond):
                for f in c.inv:
                    self.assume(retag(f, c.tag, tag_new))
                if idx == n - 1:
                    for f in facts:
                        self.take(f)
                    if not self.feasible():
                        raise Infeasible
                for b, t, f in c.univ:
                    self.universals.append((retag_value(b, c.tag, tag_new), t.replace(c.tag, tag_new), retag(f, c.tag, tag_new)))
                self.exits.extend(e.retagged(c.tag, tag_new) for e in c.exits)
                return [retag_value(i, c.tag, tag_new) for i in c.items]
        return []

    # ================================================================ equality
    def eq(self, a, b):
        """Python == as True, False or a z3 Bool."""
        self.usable(a), self.usable(b)
        if a is b:
            return True
        if isinstance(a, Denom) or isinstance(b, Denom):
            if not isinstance(a, Denom):
                a, b = b, a
            if b == 1:  # (an integer is a half-integer: a lemma that z3 does not find)
                return z3.And(z_is_int(a.q), z_is_int(2 * a.q))
            if b == 2:
                return z3.And(z_is_int(2 * a.q), z3.Not(z_is_int(a.q)))
            raise Unsupported("comparison of a denominator")
        if isinstance(a, GBool) or isinstance(b, GBool):
            ta = a.term if isinstance(a, GBool) else a
            tb = b.term if isinstance(b, GBool) else b
            if isinstance(ta, bool) or isinstance(tb, bool) or (z3.is_bool(ta) and z3.is_bool(tb)):
                return (ta if z3.is_expr(ta) else z3.BoolVal(ta)) == (tb if z3.is_expr(tb) else z3.BoolVal(tb))
            raise Unsupported("comparison of a symbolic bool")
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj) and isinstance(b, Obj):
                if not (issubclass(a.cls, b.cls) or issubclass(b.cls, a.cls)):
                    return False
                if isinstance(a, V.Struct) or isinstance(b, V.Struct):
                    raise Unsupported(f"equality of {a} and {b}")
                return a.term == b.term
            o, x = (a, b) if isinstance(a, Obj) else (b, a)
            if isinstance(x, (Sym, Closure)) or not isinstance(x, o.cls):
                return False
            raise Unsupported(f"equality of {o} and {type(x).__name__}")
        if isinstance(a, (Closure, BoundClosure, VMethod)) or isinstance(b, (Closure, BoundClosure, VMethod)):
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.eq_containers(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, sp.Basic) and isinstance(y, (int, float, complex, fractions.Fraction)) and V.has_unknown(x):
                raise Unsupported("equality of an unknown expression and a number")
        na, nb = ghost_number(a), ghost_number(b)
        if na or nb:
            if (na or plain_number(a)) and (nb or plain_number(b)):
                return num_term(a) == num_term(b)
            if isinstance(a, bool) or isinstance(b, bool):
                return num_term(int(a) if isinstance(a, bool) else a) == num_term(int(b) if isinstance(b, bool) else b)
            if isinstance(a, sp.Expr) and isinstance(b, sp.Expr):
                return self.eq_expr(a, b)
            return False
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                return self.eq_str(a, b)
            if isinstance(a, sp.core.symbol.Str) or isinstance(b, sp.core.symbol.Str):
                return False
            return False
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            return self.z_and([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            if not any(has_ghost(k) for k in (*a, *b)):
                if set(a) != set(b):
                    return False
                return self.z_and([self.eq(a[k], b[k]) for k in a])
            raise Unsupported("equality of mappings with unknown keys")
        if attr.has(type(a)) or attr.has(type(b)):
            if type(a) is not type(b):
                return False
            if inspect.getattr_static(type(a), "__eq__") is object.__eq__:
                return a is b
            key = (id(a), id(b))
            hit = self._eqs.get(key)
            if hit is not None:
                return hit[2]
            parts = []
            r = True
            for f in attr.fields(type(a)):
                if f.eq:
                    r = self.eq(getattr(a, f.name), getattr(b, f.name))
                    if r is False:
                        break
                    parts.append(r)
            if r is not False:
                r = self.z_and(parts)
            if attr.fields(type(a)) and type(a).__setattr__ is not object.__setattr__:  # immutable
                self._eqs[key] = (a, b, r)
            return r
        if isinstance(a, sp.Basic) and isinstance(b, sp.Basic):
            return self.eq_expr(a, b)
        if not has_ghost(a) and not has_ghost(b):
            try:
                return bool(a == b)
            except Exception as exc:  # noqa: BLE001
                raise PyRaise(exc) from None
        if isinstance(a, sp.Basic) != isinstance(b, sp.Basic):
            return False
        raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")

    def eq_bool(self, a, b):
        r = self.eq(a, b)
        return r

    @staticmethod
    def z_and(parts):
        if any(p is False for p in parts):
            return False
        parts = [p for p in parts if p is not True]
        if not parts:
            return True
        return z3.And(*parts) if len(parts) > 1 else parts[0]

    @staticmethod
    def z_or(parts):
        if any(p is True for p in parts):
            return True
        parts = [p for p in parts if p is not False]
        if not parts:
            return False
        return z3.Or(*parts) if len(parts) > 1 else parts[0]

    @staticmethod
    def z_not(p):
        return (not p) if isinstance(p, bool) else z3.Not(p)

    def eq_str(self, a, b):
        if a == b:
            return True
        ta, tb = tokens(a), tokens(b)
        if not ta and not tb:
            return False
        sa, sb = str_term(a), str_term(b)
        if sa is not None and sb is not None:
            return sa == sb
        # common literal prefix and suffix
        while a and b and a[0] == b[0]:
            a, b = a[1:], b[1:]
        while a and b and a[-1] == b[-1]:
            a, b = a[:-1], b[:-1]
        if not a or not b:
            rest = a or b
            if any(not (V.TOKEN0 <= ord(c) <= V.TOKEN1) for c in rest):
                return False
            return self.z_and([str_term(c) == str_term("") for c in rest])
        is_tok = lambda c: V.TOKEN0 <= ord(c) <= V.TOKEN1  # noqa: E731
        if not is_tok(a[0]) and not is_tok(b[0]):
            return False
        if not is_tok(a[-1]) and not is_tok(b[-1]):
            return False
        sa, sb = str_term(a), str_term(b)
        if sa is not None and sb is not None:
            return sa == sb
        raise Unsupported(f"equality of the texts {V.show(a)!r} and {V.show(b)!r}")

    def eq_expr(self, a, b):
        if a == b:
            return True
        if V.has_unknown(a) or V.has_unknown(b):
            raise Unsupported("equality of unknown expressions")
        if not has_ghost(a) and not has_ghost(b):
            return False
        if isinstance(a, sp.Symbol) and isinstance(b, sp.Symbol):
            if V.is_ghost_symbol(a) or V.is_ghost_symbol(b):
                if V.is_ghost_symbol(a) and V.is_ghost_symbol(b):
                    return num_term(a) == num_term(b)
                return False
            if a.assumptions0 != b.assumptions0:
                return False
            return self.eq_str(a.name, b.name)
        atom = (sp.Symbol, sp.core.symbol.Str, sp.IndexedBase, sp.Number)
        if isinstance(a, atom) and isinstance(b, atom):
            if isinstance(a, sp.core.symbol.Str) and isinstance(b, sp.core.symbol.Str):
                return self.eq_str(a.name, b.name)
            if isinstance(a, sp.IndexedBase) and isinstance(b, sp.IndexedBase):
                return self.eq_expr(a.label, b.label)
            if type(a) is not type(b) and not (ghost_number(a) or ghost_number(b)):
                return False
        if isinstance(a, sp.Indexed) and isinstance(b, sp.Indexed):
            if len(a.indices) != len(b.indices):
                return False
            return self.z_and([self.eq_expr(a.base, b.base), *(self.eq(x, y) for x, y in zip(a.indices, b.indices))])
        if isinstance(a, sp.Indexed) != isinstance(b, sp.Indexed) and (isinstance(a, atom) or isinstance(b, atom)):
            return False
        raise Unsupported(f"equality of the expressions {V.show(a)} and {V.show(b)}")

    def eq_containers(self, a, b):
        ta, tb = self.type_of(a), self.type_of(b)
        if isinstance(a, VStr) or isinstance(b, VStr):
            raise Unsupported("equality of symbolic texts")
        fam = {list: "list", tuple: "tuple", set: "set", frozenset: "set", dict: "dict"}
        if fam.get(ta, ta) != fam.get(tb, tb):
            return False
        if isinstance(a, (VList, VSeq, tuple, list)) and isinstance(b, (VList, VSeq, tuple, list)):
            xa, xb = self.flat(a), self.flat(b)
            if xa is None or xb is None:
                raise Unsupported("equality of sequences of unknown length")
            if len(xa) != len(xb):
                return False
            return self.z_and([self.eq(x, y) for x, y in zip(xa, xb)])
        if fam.get(ta) == "set":
            xa, xb = self.flat(a), self.flat(b)
            if xa is None or xb is None:
                raise Unsupported("equality of sets of unknown size")
            return self.z_and([*(self.z_or([self.eq(x, y) for y in xb]) for x in xa),
                               *(self.z_or([self.eq(x, y) for y in xa]) for x in xb)])
        raise Unsupported(f"equality of {ta.__name__}")

    def flat(self, v):
        """Concrete list of the elements, or None if there are segments."""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (VList, VSet, VSeq)):
            self.read(v)
            if any(isinstance(i, Poison) for i in v.items):
                raise Unsupported("read of a container after a loop that was left early")
            if any(isinstance(i, Seg) for i in v.items):
                if isinstance(v, VSet):
                    fin = self.finite(v)
                    if fin is not None:
                        return fin
                return None
            if isinstance(v, VSet):
                return self.distinct(v.items)
            return list(v.items)
        if isinstance(v, VDict):
            d = self.dict_items(v)
            return None if d is None else [k for k, _ in d]
        if isinstance(v, VRange):
            d = sp.simplify(v.hi - v.lo)
            if not has_ghost(d) and not has_ghost(v.lo):
                return [v.lo + n for n in range(int(d) + 1)]
            return None
        if isinstance(v, str):
            if tokens(v):
                raise Unsupported("characters of a symbolic text")
            return list(v)
        raise Unsupported(f"elements of {type(v).__name__}")

    def distinct(self, items):
        out = []
        for x in items:
            if not any(self.decide_eq(x, y) for y in out):
                out.append(x)
        return out

    def decide_eq(self, a, b) -> bool:
        r = self.eq(a, b)
        return r if isinstance(r, bool) else self.decide(r)

    def finite(self, v: VSet):
        """Set over a sequence whose possible members are finitely many concrete values: forks."""
        vals = []
        for it in v.items:
            if isinstance(it, Seg):
                for c in it.cases:
                    for x in c.items:
                        if isinstance(x, Seg) or has_ghost(x) or isinstance(x, Sym):
                            return None
                        if not any(x == y for y in vals):
                            vals.append(x)
        key = ("finite", id(v), len(v.items))
        if key in self.statics:
            return list(self.statics[key][1])
        out = []
        for it in v.items:
            if not isinstance(it, Seg) and not any(self.decide_eq(it, y) for y in out):
                out.append(it)
        for x in sorted(vals, key=repr):
            if any(x == y for y in out):
                continue
            for it in v.items:
                if isinstance(it, Seg) and self.first_of_seg(it, lambda i, x=x: i == x) is not None:
                    out.append(x)
                    break
        self.statics[key] = (v, out)
        return list(out)

    def contains(self, container, x):
        """x in container: True, False or z3 Bool (forks for unbounded containers)."""
        if isinstance(container, (str, VStr)):
            if isinstance(container, str) and isinstance(x, str) and not tokens(container) and not tokens(x):
                return x in container
            raise Unsupported("substring test of a symbolic text")
        if isinstance(container, (set, frozenset, dict, range, tuple, list)) or (
            isinstance(container, (types.MappingProxyType,))
        ):
            if not has_ghost(x) and not isinstance(x, (Sym, Denom)) and not any(has_ghost(i) for i in container):
                try:
                    return x in container
                except TypeError as exc:
                    raise PyRaise(exc) from None
            return self.z_or([self.eq(x, y) for y in container])
        if isinstance(container, VRange):
            d = num_term(sp.sympify(x) - container.lo)
            return z3.And(z_is_int(sp.sympify(x) - container.lo), d >= 0, num_term(container.hi - sp.sympify(x)) >= 0)
        if isinstance(container, VDict):
            return self.lookup(container, x) is not MISSING
        if isinstance(container, (VList, VSet, VSeq)):
            self.read(container)
            parts = []
            for it in container.items:
                self.usable(it)
                if not isinstance(it, Seg):
                    r = self.eq(x, it)
                    if r is True:
                        return True
                    parts.append(r)
            r = self.z_or(parts)
            segs = [it for it in container.items if isinstance(it, Seg)]
            if not segs:
                return r
            if (r if isinstance(r, bool) else self.decide(r)):
                return True
            return any(self.first_of_seg(s, lambda i: self.decide_eq(x, i)) is not None for s in segs)
        raise Unsupported(f"membership in {type(container).__name__}")

    # ================================================================ dicts
    def dict_items(self, d: VDict):
        """Items of a dict without segments, in order, after merging equal keys (forks)."""
        self.read(d)
        out = []
        if d.base is not None:
            return None
        for it in d.items:
            self.usable(it)
            if isinstance(it, Seg) or it[0] != "set":
                return None
            _, k, v = it
            for n, (k2, _v) in enumerate(out):
                if self.decide_eq(k, k2):
                    out[n] = (k2, v)
                    break
            else:
                out.append((k, v))
        return out

    def lookup(self, d: VDict, key):
        self.read(d)
        if groups.segment(d) is not None:
            raise Unsupported("lookup in a mapping of groups")
        for it in reversed(d.items):
            self.usable(it)
            if isinstance(it, Seg):
                hit = self.first_of_seg(Seg(it.base.reversed() if hasattr(it.base, "reversed") else it.base, it.cases),
                                        lambda kv: self.decide_eq(key, kv[1]))
                if hit is not None:
                    if not getattr(it.base, "distinct", False) and not one_value(it):
                        raise Unsupported("lookup in a dict built by a loop with repeated elements")
                    return hit[0][2]
                continue
            if it[0] == "update":
                raise Unsupported("lookup in an unknown map")
            if it[0] == "del":
                if self.decide_eq(key, it[1]):
                    return MISSING
                continue
            _, k, v = it
            if self.decide_eq(key, k):
                return v
        if d.base is not None:
            return d.base(self, key)
        return MISSING

    # ================================================================ native conversion
    def to_native(self, v):
        """Concrete Python value of a V-object (deep)."""
        self.usable(v)
        if isinstance(v, VList):
            f = self.flat(v)
            if f is None:
                raise Unsupported("list of unknown length")
            return [self.to_native(i) for i in f]
        if isinstance(v, VSet):
            f = self.flat(v)
            if f is None:
                raise Unsupported("set of unknown size")
            return v.pytype(self.to_native(i) for i in f)
        if isinstance(v, VDict):
            d = self.dict_items(v)
            if d is None:
                raise Unsupported("dict of unknown size")
            return {self.to_native(k): self.to_native(x) for k, x in d}
        if isinstance(v, VSeq):
            f = self.flat(v)
            if f is None:
                raise Unsupported("sequence of unknown length")
            out = [self.to_native(i) for i in f]
            return out if v.pytype is list else tuple(out)
        if isinstance(v, VRange):
            f = self.flat(v)
            if f is None:
                raise Unsupported("range of unknown length")
            return f
        if isinstance(v, tuple):
            if any(isinstance(i, (Sym, tuple, list)) for i in v):
                return tuple(self.to_native(i) for i in v)
            return v
        if isinstance(v, (Closure, BoundClosure)):
            return self.to_callable(v)
        if isinstance(v, (VStr, Folded, GBool, VMethod)):
            raise Unsupported(f"{type(v).__name__} as native value")
        return v

    def to_callable(self, c):
        def fn(*a, **k):
            return self.call(c, list(a), k)

        return fn

    # ================================================================ iteration
    def parts(self, v):
        """Items and segments of an iterable, in iteration order."""
        self.usable(v)
        if isinstance(v, VRange):
            f = self.flat(v)
            return f if f is not None else [Seg(self.range_base(v))]
        if isinstance(v, VDict):
            self.read(v)
            d = self.dict_items(v)
            if d is not None:
                return [k for k, _ in d]
            return self.dict_view(v, "keys").items
        if isinstance(v, (VList, VSeq)):
            self.read(v)
            if isinstance(v, VSeq) and v.pytype in (types.GeneratorType, iter):
                if getattr(v, "consumed", None) is not None:
                    return []
                if v.depth < self.depth and getattr(v, "made", 0) < self.depth:
                    raise Unsupported("an iterator from outside is consumed in a loop")
                v.consumed = True
            for i in v.items:
                self.usable(i)
            return list(v.items)
        if isinstance(v, VSet):
            f = self.flat(v)
            if f is not None:
                if len(f) > 1 and not all(isinstance(i, (int, str)) and not has_ghost(i) for i in f):
                    f = list(f)
                return f
            return [SetSeg(v)]
        if isinstance(v, Obj) and "__iter__" in v.attrs:
            return self.parts(v.attrs["__iter__"])
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, str):
            return self.flat(v)
        if isinstance(v, Sym):
            raise Unsupported(f"iteration over {type(v).__name__}")
        if isinstance(v, sp.Basic) and has_ghost(v) and not isinstance(v, (sp.Tuple,)):
            raise Unsupported(f"iteration over {type(v).__name__}")
        try:
            return list(v)
        except TypeError as exc:
            raise self.raised(exc, v) from None

    def range_base(self, r):
        key = f"range[{r.lo}..{r.hi}]"
        base = RANGES.get(key)
        if base is None:
            base = RANGES[key] = SpinRange(r.lo, r.hi)
        return base

    def dict_view(self, d, what):
        """keys, values or items of a dict with segments (keys distinct within each segment)."""
        self.read(d)
        seg = groups.segment(d)
        if seg is not None:
            return VSeq([Seg(groups.GroupBase(seg, what))], pytype=list)
        if d.base is not None:
            raise Unsupported("iteration over an unknown map")
        idx = {"keys": lambda it: it[1], "values": lambda it: it[2], "items": lambda it: (it[1], it[2])}[what]
        dd = self.dict_items(d)
        if dd is not None:
            if what == "items":
                return VSeq([(k, v) for k, v in dd], pytype=list)
            return VSeq([kv[what == "values"] for kv in dd], pytype=list)
        distinct = getattr(d, "distinct", False)
        if distinct and all(isinstance(i, Seg) and i.cases is not None or isinstance(i, tuple) and i[0] == "set" for i in d.items):
            out = []
            for i in d.items:
                if isinstance(i, Seg):
                    i = Seg(i.base, [Case(c.facts, [idx(x) for x in c.items], c.elem, c.univ, c.tag, c.inv, c.exits) for c in i.cases])
                out.append(i if isinstance(i, Seg) else idx(i))
            return VSeq(out, pytype=list)
        if len(d.items) != 1 or not isinstance(d.items[0], Seg):
            raise Unsupported("iteration over a dict that was built from several sources")
        seg = d.items[0]
        if not distinct:
            raise Unsupported("iteration over a dict whose keys may repeat")
        if seg.cases is None:
            raise Unsupported("dict segment")
        return VSeq([Seg(seg.base, [Case(c.facts, [idx(i) for i in c.items], c.elem, c.univ, c.tag, c.inv, c.exits) for c in seg.cases])], pytype=list)

    def for_each(self, v, body, assigned=(), env_vars=None):
        """Run body(item) for the items of v; returns "break" if the loop was left by break."""
        for part in self.parts(v):
            if isinstance(part, Seg):
                def seg_body(elem, part=part):
                    for it in self.items_of(part, elem):
                        if isinstance(it, Seg):
                            r = self.for_each(VSeq([it]), body, assigned, env_vars)
                            if r == "break":
                                raise _Break
                        else:
                            body(it)

                if self.generic(part.base, seg_body, assigned, env_vars) == "break":
                    return "break"
            else:
                try:
                    body(part)
                except _Continue:
                    continue
                except _Break:
                    return "break"
        return "next"

    # ================================================================ statements
    def exec_block(self, stmts, e):
        for s in stmts:
            self.exec(s, e)

    def exec(self, s, e):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {getattr(s, 'lineno', '?')}")
        m(s, e)

    def x_Pass(self, s, e):
        pass

    def x_Expr(self, s, e):
        self.eval(s.value, e)

    def x_Return(self, s, e):
        raise _Return(None if s.value is None else self.eval(s.value, e))

    def x_Break(self, s, e):
        raise _Break

    def x_Continue(self, s, e):
        raise _Continue

    def x_Assign(self, s, e):
        v = self.eval(s.value, e)
        for t in s.targets:
            self.assign(t, v, e)

    def x_AnnAssign(self, s, e):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, e), e)

    def x_AugAssign(self, s, e):
        op = type(s.op)
        if isinstance(s.target, ast.Name):
            cur = e.vars.get(s.target.id, MISSING)
            if isinstance(cur, Carried):
                rhs = self.usable(self.eval(s.value, e))
                sym = OPSYM.get(op)
                if sym is None:
                    raise Unsupported(f"accumulation with {op.__name__}")
                if isinstance(cur.init, (VList, VSet, VDict)):
                    raise Unsupported("in-place accumulation of a container")
                frame = self.frames[cur.depth - 1]
                prev = frame["carried"].get(cur.name)
                if prev is not None and prev[0] != sym:
                    raise Unsupported("mixed accumulation")
                frame["carried"][cur.name] = (sym, [*(prev[1] if prev else []), rhs])
                return
            cur = self.lookup_name(s.target.id, e)
            rhs = self.eval(s.value, e)
            e.vars[s.target.id] = self.iop(op, cur, rhs)
            return
        if isinstance(s.target, ast.Subscript):
            obj = self.eval(s.target.value, e)
            key = self.eval(s.target.slice, e)
            cur = self.getitem(obj, key)
            self.setitem(obj, key, self.iop(op, cur, self.eval(s.value, e)))
            return
        if isinstance(s.target, ast.Attribute):
            obj = self.eval(s.target.value, e)
            name = mangle(s.target.attr, e.cls_name)
            cur = self.getattr(obj, name)
            self.setattr(obj, name, self.iop(op, cur, self.eval(s.value, e)))
            return
        raise Unsupported("augmented assignment")

    def iop(self, op, cur, rhs):
        if isinstance(cur, VList) and op is ast.Add:
            self.mutate(cur, self.parts(rhs))
            return cur
        if isinstance(cur, VSet) and op is ast.BitOr:
            self.mutate(cur, self.parts(rhs))
            return cur
        if isinstance(cur, VDict) and op is ast.BitOr:
            self.dict_update(cur, rhs)
            return cur
        return self.binop(op, cur, rhs)

    def x_If(self, s, e):
        if self.truth(self.eval(s.test, e)):
            self.exec_block(s.body, e)
        else:
            self.exec_block(s.orelse, e)

    def x_For(self, s, e):
        it = self.eval(s.iter, e)
        assigned = local_names([s.target and ast.Assign(targets=[s.target], value=ast.Constant(0)), *s.body]) & (
            local_names([s]) | set())

        def body(item):
            self.assign(s.target, item, e)
            self.exec_block(s.body, e)

        if self.for_each(it, body, assigned, e.vars) != "break":
            self.exec_block(s.orelse, e)

    def x_While(self, s, e):
        from pyvc import loops

        loops.while_loop(self, s, e)

    def x_FunctionDef(self, s, e):
        f = self.closure(s, e)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, e), [f])
        e.vars[s.name] = f

    def closure(self, node, e):
        a = node.args
        defaults = tuple(self.eval(d, e) for d in a.defaults)
        kw = {x.arg: self.eval(d, e) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Closure(node, e, e.globals, getattr(node, "name", "<lambda>"), defaults, kw, e.cls_name)

    def x_Raise(self, s, e):
        if s.exc is None:
            raise Unsupported("re-raise")
        exc = self.eval(s.exc, e)
        if isinstance(exc, type):
            exc = self.construct(exc, [], {})
        raise PyRaise(exc)

    def x_Assert(self, s, e):
        if not self.truth(self.eval(s.test, e)):
            raise PyRaise(AssertionError())

    def x_Import(self, s, e):
        import importlib

        for a in s.names:
            mod = importlib.import_module(a.name)
            e.vars[a.asname or a.name.split(".")[0]] = mod if a.asname else sys.modules[a.name.split(".")[0]]

    def x_ImportFrom(self, s, e):
        import importlib

        mod = importlib.import_module("." * s.level + (s.module or ""), e.globals.get("__package__"))
        for a in s.names:
            e.vars[a.asname or a.name] = getattr(mod, a.name)

    def x_Delete(self, s, e):
        for t in s.targets:
            if isinstance(t, ast.Name):
                e.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj, key = self.eval(t.value, e), self.eval(t.slice, e)
                from pyvc import models

                models.method(self, obj, "pop", [key], {})
            else:
                raise Unsupported("del")

    def x_Try(self, s, e):
        try:
            self.exec_block(s.body, e)
        except PyRaise as r:
            for h in s.handlers:
                typ = Exception if h.type is None else self.eval(h.type, e)
                if isinstance(r.exc, typ):
                    if h.name:
                        e.vars[h.name] = r.exc
                    self.exec_block(h.body, e)
                    break
            else:
                self.exec_block(s.finalbody, e)
                raise
        except (_Return, _Break, _Continue):
            self.exec_block(s.finalbody, e)
            raise
        else:
            self.exec_block(s.orelse, e)
        self.exec_block(s.finalbody, e)

    def x_Match(self, s, e):
        subj = self.eval(s.subject, e)
        for c in s.cases:
            p = c.pattern
            ok = None
            if isinstance(p, ast.MatchValue):
                ok = self.truth(self.as_bool(self.eq(subj, self.eval(p.value, e))))
            elif isinstance(p, ast.MatchSingleton):
                ok = subj is p.value
            elif isinstance(p, ast.MatchAs) and p.pattern is None:
                ok = True
                if p.name:
                    e.vars[p.name] = subj
            elif isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                ok = self.isinstance(subj, self.eval(p.cls, e))
            else:
                raise Unsupported("match pattern")
            if ok and (c.guard is None or self.truth(self.eval(c.guard, e))):
                self.exec_block(c.body, e)
                return

    # ---- assignment
    def assign(self, t, v, e):
        if isinstance(t, ast.Name):
            e.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, e)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, e), self.eval(t.slice, e), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, e), mangle(t.attr, e.cls_name), v)
        elif isinstance(t, ast.Starred):
            raise Unsupported("starred target")
        else:
            raise Unsupported("assignment target")

    def unpack(self, targets, v, e):
        star = [n for n, t in enumerate(targets) if isinstance(t, ast.Starred)]
        items = self.parts(v)
        if any(isinstance(i, Seg) for i in items):
            if len(star) == 1 and isinstance(targets[star[0]].value, ast.Name):
                # leading (and trailing) concrete items around segments
                n0, n1 = star[0], len(targets) - star[0] - 1
                head, tail = items[:n0], items[len(items) - n1:] if n1 else []
                if len(items) >= n0 + n1 and not any(isinstance(i, Seg) for i in (*head, *tail)):
                    for t, x in zip(targets[:n0], head):
                        self.assign(t, x, e)
                    e.vars[targets[n0].value.id] = VList(items[n0: len(items) - n1], depth=self.depth)
                    for t, x in zip(targets[n0 + 1:], tail):
                        self.assign(t, x, e)
                    return
                if n0 == 1 and n1 == 0:
                    hit = self.first_of(items)
                    if hit is None:
                        raise PyRaise(ValueError("not enough values to unpack"))
                    self.assign(targets[0], hit[0], e)
                    e.vars[targets[1].value.id] = Poison("rest of an unpacked sequence")
                    return
            raise Unsupported("unpacking of a sequence of unknown length")
        if star:
            n0 = star[0]
            n1 = len(targets) - n0 - 1
            if len(items) < n0 + n1:
                raise PyRaise(ValueError("not enough values to unpack"))
            for t, x in zip(targets[:n0], items):
                self.assign(t, x, e)
            self.assign(targets[n0].value, VList(items[n0: len(items) - n1], depth=self.depth), e)
            for t, x in zip(targets[n0 + 1:], items[len(items) - n1:] if n1 else []):
                self.assign(t, x, e)
            return
        if len(items) != len(targets):
            raise PyRaise(ValueError(f"expected {len(targets)} values to unpack, got {len(items)}"))
        for t, x in zip(targets, items):
            self.assign(t, x, e)

    def first_of(self, items):
        for it in items:
            if isinstance(it, Seg):
                hit = self.first_of_seg(it)
                if hit is not None:
                    return hit
            else:
                return (it,)
        return None

    # ================================================================ expressions
    def eval(self, n, e):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__} at line {getattr(n, 'lineno', '?')}")
        return m(n, e)

    def e_Constant(self, n, e):
        return n.value

    def lookup_name(self, name, e):
        env_ = e
        while env_ is not None:
            if name in env_.vars:
                v = env_.vars[name]
                return self.usable(v)
            env_ = env_.parent
        g = mangle(name, e.cls_name)
        if name in e.globals:
            return e.globals[name]
        if g in e.globals:
            return e.globals[g]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(name))

    def e_Name(self, n, e):
        return self.lookup_name(n.id, e)

    def e_Attribute(self, n, e):
        return self.getattr(self.eval(n.value, e), mangle(n.attr, e.cls_name))

    def e_Tuple(self, n, e):
        items = self.elts(n.elts, e)
        if any(isinstance(i, Seg) for i in items):
            return VSeq(items, pytype=tuple)
        return tuple(items)

    def e_List(self, n, e):
        return VList(self.elts(n.elts, e), depth=self.depth)

    def e_Set(self, n, e):
        return VSet(self.elts(n.elts, e), depth=self.depth)

    def elts(self, nodes, e):
        out = []
        for x in nodes:
            if isinstance(x, ast.Starred):
                out.extend(self.parts(self.eval(x.value, e)))
            else:
                out.append(self.usable(self.eval(x, e)))
        return out

    def e_Dict(self, n, e):
        d = VDict(depth=self.depth)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.eval(v, e))
            else:
                d.items.append(("set", self.eval(k, e), self.usable(self.eval(v, e))))
        return d

    def dict_update(self, d, other):
        self.usable(other)
        if isinstance(other, VDict):
            self.read(other)
            if other.base is not None:
                raise Unsupported("update with an unknown map")
            if groups.has_sums(other.items) and (d.items or d.depth < self.depth):
                raise Unsupported("update with sums")
            self.mutate(d, list(other.items))
        elif isinstance(other, Obj) and "__items__" in other.attrs:
            self.mutate(d, [("update", other)])
        elif hasattr(other, "items") and not isinstance(other, Sym):
            self.mutate(d, [("set", k, v) for k, v in other.items()])
        else:
            def pair(it):
                k, v = self.parts(it)
                self.mutate(d, [("set", k, v)])

            self.for_each(other, pair)

    def e_Lambda(self, n, e):
        return self.closure(n, e)

    def e_IfExp(self, n, e):
        return self.eval(n.body if self.truth(self.eval(n.test, e)) else n.orelse, e)

    def e_BoolOp(self, n, e):
        is_and = isinstance(n.op, ast.And)
        v = None
        for k, x in enumerate(n.values):
            v = self.eval(x, e)
            if k == len(n.values) - 1:
                return v
            t = self.truth(v)
            if t != is_and:
                return t if isinstance(v, GBool) else v
        return v

    def e_UnaryOp(self, n, e):
        v = self.usable(self.eval(n.operand, e))
        if isinstance(n.op, ast.Not):
            if isinstance(v, GBool):
                return GBool(z3.Not(v.term))
            return not self.truth(v)
        if isinstance(v, Sym) or isinstance(v, GBool):
            raise Unsupported("unary operator on a symbolic container")
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        return ~v

    def e_BinOp(self, n, e):
        return self.binop(type(n.op), self.eval(n.left, e), self.eval(n.right, e))

    def denominator(self, d):
        """The denominator of a (half-)integer as a number."""
        if not isinstance(d, Denom):
            return d
        if not self.entails(z_is_int(2 * d.q)):
            raise Unsupported("denominator of a number that is not a half-integer")
        g = number(f"den({d.q})", "int", int)
        self.assume(num_term(g) == z3.If(z_is_int(d.q), z3.IntVal(1), z3.IntVal(2)))
        return g

    def binop(self, op, a, b):
        self.usable(a), self.usable(b)
        if isinstance(a, groups.SumRef) and not isinstance(b, groups.SumRef) and op is ast.Add:
            return a.plus(self, b)
        if isinstance(b, groups.SumRef) and not isinstance(a, groups.SumRef) and op is ast.Add:
            return b.plus(self, a)
        a, b = self.denominator(a), self.denominator(b)
        dunder = {ast.Mult: "mul", ast.Add: "add", ast.Sub: "sub", ast.Pow: "pow", ast.Div: "truediv"}.get(op)
        if in_package(type(a)) and not isinstance(a, sp.Basic) and dunder:
            f = inspect.getattr_static(type(a), f"__{dunder}__", None)
            if f is not None:
                return self.call(f, [a, b])
        if isinstance(a, Folded):
            raise Unsupported("operation on a fold")
        if isinstance(a, (str, VStr)) and isinstance(b, (str, VStr)) and op is ast.Add:
            return self.text([a, b])
        if isinstance(a, str) and op is ast.Mod:
            raise Unsupported("% formatting")
        if isinstance(a, str) and op is ast.Mult and not isinstance(b, Sym):
            return a * b
        seqs = (VList, VSeq, tuple, list)
        if isinstance(a, seqs) and isinstance(b, seqs) and op is ast.Add:
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            items = [*self.parts(a), *self.parts(b)]
            return VList(items, depth=self.depth) if self.type_of(a) is list else VSeq(items, pytype=tuple)
        if isinstance(a, seqs) and op is ast.Mult and isinstance(b, int):
            items = self.parts(a) * b
            return tuple(items) if isinstance(a, tuple) else VList(items, depth=self.depth)
        setlike = (VSet, set, frozenset)
        if isinstance(a, setlike) and isinstance(b, setlike):
            xa, xb = self.parts(a), self.parts(b)
            if op is ast.BitOr:
                return VSet([*xa, *xb], depth=self.depth)
            if any(isinstance(i, Seg) for i in (*xa, *xb)):
                raise Unsupported("operation on sets of unknown size")
            inb = lambda x: any(self.decide_eq(x, y) for y in xb)  # noqa: E731
            if op is ast.Sub:
                return VSet([x for x in xa if not inb(x)], depth=self.depth)
            if op is ast.BitAnd:
                return VSet([x for x in xa if inb(x)], depth=self.depth)
            if op is ast.BitXor:
                return VSet([*(x for x in xa if not inb(x)), *(y for y in xb if not any(self.decide_eq(x, y) for x in xa))], depth=self.depth)
        if isinstance(a, (VDict, dict)) and isinstance(b, (VDict, dict)) and op is ast.BitOr:
            d = VDict(depth=self.depth)
            self.dict_update(d, a)
            self.dict_update(d, b)
            return d
        if isinstance(a, (Sym, GBool, Closure)) or isinstance(b, (Sym, GBool, Closure)):
            raise Unsupported(f"{op.__name__} on {type(a).__name__} and {type(b).__name__}")
        try:
            return BINOPS[op](a, b)
        except Exception as exc:  # noqa: BLE001
            raise self.raised(exc, a, b) from None

    def as_bool(self, r):
        return r if isinstance(r, bool) else GBool(r)

    def e_Compare(self, n, e):
        left = self.eval(n.left, e)
        res = None
        for k, (op, x) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(x, e)
            res = self.compare(type(op), left, right)
            if k == len(n.ops) - 1:
                return res
            if not self.truth(res):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        self.usable(a), self.usable(b)
        if op is ast.Is or op is ast.IsNot:
            if a is None or b is None or isinstance(a, (bool, type)) or isinstance(b, (bool, type)):
                r = a is b
            elif a is b:
                r = True
            elif isinstance(a, Sym) or isinstance(b, Sym) or has_ghost(a) or has_ghost(b):
                raise Unsupported("identity of symbolic values")
            else:
                r = a is b
            return r if op is ast.Is else not r
        if op is ast.Eq:
            return self.as_bool(self.eq(a, b))
        if op is ast.NotEq:
            return self.as_bool(self.z_not(self.eq(a, b)))
        if op is ast.In:
            return self.as_bool(self.contains(b, a))
        if op is ast.NotIn:
            return self.as_bool(self.z_not(self.contains(b, a)))
        sets = (VSet, set, frozenset)
        if isinstance(a, sets) or isinstance(b, sets):
            if not (isinstance(a, sets) and isinstance(b, sets)):
                raise PyRaise(TypeError("unorderable"))
            if op in (ast.Gt, ast.GtE):
                a, b, op = b, a, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
            xa, xb = self.flat(a), self.flat(b)
            if xa is None or xb is None:
                raise Unsupported("subset test of sets of unknown size")
            sub = self.z_and([self.z_or([self.eq(x, y) for y in xb]) for x in xa])
            if op is ast.LtE:
                return self.as_bool(sub)
            sup = self.z_and([self.z_or([self.eq(x, y) for y in xa]) for x in xb])
            return self.as_bool(self.z_and([sub, self.z_not(sup)]))
        strict = op in (ast.Lt, ast.Gt)
        if op in (ast.Gt, ast.GtE):
            a, b = b, a
        return self.as_bool(self.less(a, b, strict))

    def less(self, a, b, strict=True):
        """a < b (or a <= b)."""
        a, b = self.denominator(a), self.denominator(b)
        na, nb = ghost_number(a), ghost_number(b)
        if (na or plain_number(a)) and (nb or plain_number(b)) and (na or nb):
            return (num_term(a) < num_term(b)) if strict else (num_term(a) <= num_term(b))
        if not has_ghost(a) and not has_ghost(b) and not isinstance(a, Sym) and not isinstance(b, Sym):
            try:
                r = (a < b) if strict else (a <= b)
            except Exception as exc:  # noqa: BLE001
                raise self.raised(exc, a, b) from None
            if isinstance(r, sp.Basic):
                if r in (sp.true, sp.false):
                    return r is sp.true or r == True  # noqa: E712
                raise Unsupported(f"truth of {r}")
            return bool(r)
        if isinstance(a, str) and isinstance(b, str):
            if strict is False:
                e = self.eq_str(a, b)
                return self.z_or([e, self.less(a, b, True)])
            sa, sb = str_term(a), str_term(b)
            if sa is None or sb is None:
                raise Unsupported("order of symbolic texts")
            return str_less(sa, sb)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.lex(list(a), list(b), strict)
        if attr.has(type(a)) and type(a) is type(b):
            fa = [getattr(a, f.name) for f in attr.fields(type(a)) if f.order]
            fb = [getattr(b, f.name) for f in attr.fields(type(b)) if f.order]
            return self.lex(fa, fb, strict)
        if a is None or b is None:
            raise PyRaise(TypeError("'<' not supported with NoneType"))
        raise Unsupported(f"order of {type(a).__name__} and {type(b).__name__}")

    def lex(self, xs, ys, strict):
        for x, y in zip(xs, ys):
            if self.decide_eq(x, y):
                continue
            r = self.less(x, y, True)
            return r
        if len(xs) == len(ys):
            return not strict
        return len(xs) < len(ys)

    # ---- comprehensions
    def e_ListComp(self, n, e):
        out = VList(depth=self.depth)
        self.comp(n.generators, e, lambda e2: self.mutate(out, [self.usable(self.eval(n.elt, e2))]))
        return out

    def e_SetComp(self, n, e):
        out = VSet(depth=self.depth)
        self.comp(n.generators, e, lambda e2: self.mutate(out, [self.usable(self.eval(n.elt, e2))]))
        return out

    def e_GeneratorExp(self, n, e):
        out = VList(depth=self.depth)
        self.comp(n.generators, e, lambda e2: self.mutate(out, [self.usable(self.eval(n.elt, e2))]))
        g = VSeq(out.items, pytype=types.GeneratorType)
        g.depth = g.made = self.depth
        return g

    def e_DictComp(self, n, e):
        out = VDict(depth=self.depth)

        def add(e2):
            k = self.eval(n.key, e2)
            self.mutate(out, [("set", k, self.usable(self.eval(n.value, e2)))])

        self.comp(n.generators, e, add)
        return out

    def comp(self, gens, e, emit):
        e2 = Env({}, e, e.globals, e.cls_name)

        def level(k):
            if k == len(gens):
                emit(e2)
                return
            g = gens[k]
            it = self.eval(g.iter, e2 if k else e)
            names = local_names([ast.Assign(targets=[g.target], value=ast.Constant(0))])

            def body(item):
                self.assign(g.target, item, e2)
                for cond in g.ifs:
                    if not self.truth(self.eval(cond, e2)):
                        return
                level(k + 1)

            self.for_each(it, body, names, e2.vars)

        level(0)

    # ---- generators
    def e_Yield(self, n, e):
        v = None if n.value is None else self.eval(n.value, e)
        frame = self.frame_stack[-1]
        self.mutate(frame.yields, [self.usable(v)])
        return None

    def e_YieldFrom(self, n, e):
        frame = self.frame_stack[-1]
        self.mutate(frame.yields, self.parts(self.eval(n.value, e)))
        return None

    def e_NamedExpr(self, n, e):
        v = self.eval(n.value, e)
        t = e
        while "__frame__" not in t.vars and t.parent is not None:
            t = t.parent
        t.vars[n.target.id] = v
        return v

    # ---- text
    def e_JoinedStr(self, n, e):
        return self.text([self.eval(v, e) for v in n.values])

    def e_FormattedValue(self, n, e):
        v = self.usable(self.eval(n.value, e))
        spec = "" if n.format_spec is None else self.eval(n.format_spec, e)
        if n.conversion not in (-1, ord("s")):
            return V.derived("repr", v, self.describe(v)) if self.symbolic(v) else format(repr(v), spec)
        return self.format(v, spec)

    def symbolic(self, v):
        return isinstance(v, (Sym, GBool, Closure, Denom)) or has_ghost(v)

    def digits(self, v):
        """The text of an integer."""
        from pyvc import models

        kinds = {V.NUMBERS[s.name][2] for s in v.free_symbols if s.name in V.NUMBERS}
        if kinds <= {int, sp.Rational, sp.Integer, fractions.Fraction} and self.entails(z_is_int(v)):
            x = models.untwin(v)
            return V.derived("str[]", x, self.describe(x))
        return None

    def describe(self, v):
        return V.show(v)

    def format(self, v, spec=""):
        if isinstance(v, (str, VStr)) and not spec:
            return v
        if isinstance(v, (sp.core.symbol.Str, sp.Symbol)) and not spec and V.tokens(v.name):
            return v.name
        if self.symbolic(v):
            if isinstance(v, Closure):
                return V.string(self.fresh("text"))
            if isinstance(v, Denom):
                for d in (1, 2):
                    if self.entails(self.eq(v, d)):
                        return format(d, spec)
                return V.derived(f"denominator[{spec}]", v.q, self.describe(v.q))
            if ghost_number(v) and not spec:
                text = self.digits(v)
                if text is not None:
                    return text
            if isinstance(v, (VList, VSet, VDict, VSeq)):
                try:
                    v = self.to_native(v)
                except Unsupported:
                    return V.string(self.fresh("text"))
                if not has_ghost(v):
                    return format(v, spec)
            self.assumed.add("str()/format() of a value is a function of the value")
            return V.derived(f"str[{spec}]", v, self.describe(v))
        try:
            return format(v, spec)
        except Exception as exc:  # noqa: BLE001
            raise PyRaise(exc) from None

    def text(self, parts):
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        t = VStr(parts)
        return t.parts[0] if len(t.parts) == 1 and isinstance(t.parts[0], str) else t

    # ---- calls
    def e_Call(self, n, e):
        f = self.eval(n.func, e)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                items = self.parts(self.eval(a.value, e))
                args.extend(items)
            else:
                args.append(self.usable(self.eval(a, e)))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, e)
                if isinstance(d, VDict):
                    items = self.dict_items(d)
                    if items is None:
                        raise Unsupported("** of unknown size")
                else:
                    items = list(d.items())
                for kk, vv in items:
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.usable(self.eval(k.value, e))
        if f is builtins.super:
            raise Unsupported("super()")
        if any(isinstance(a, Seg) for a in args):
            return self.call_variadic(f, args, kwargs)
        return self.call(f, args, kwargs)

    def call_variadic(self, f, args, kwargs):
        """f(*args) with an unknown number of arguments."""
        from pyvc import models

        return models.variadic(self, f, args, kwargs)

    def e_Subscript(self, n, e):
        obj = self.eval(n.value, e)
        if isinstance(n.slice, ast.Slice):
            sl = slice(*(None if x is None else self.eval(x, e) for x in (n.slice.lower, n.slice.upper, n.slice.step)))
            return self.getslice(obj, sl)
        return self.getitem(obj, self.eval(n.slice, e))

    def e_Slice(self, n, e):
        return slice(*(None if x is None else self.eval(x, e) for x in (n.lower, n.upper, n.step)))

    def getslice(self, obj, sl):
        self.usable(obj)
        if isinstance(obj, str) and tokens(obj):
            raise Unsupported("slice of a symbolic text")
        if isinstance(obj, (VList, VSeq)):
            items = self.parts(obj)
            if any(isinstance(i, Seg) for i in items):
                n = sl.start or 0
                if sl.stop is None and sl.step is None and n >= 0 and not any(isinstance(i, Seg) for i in items[:n]):
                    rest = items[n:]
                else:
                    raise Unsupported("slice of a sequence of unknown length")
            else:
                rest = items[sl]
            return VList(rest, depth=self.depth) if isinstance(obj, VList) or obj.pytype is list else (
                tuple(rest) if not any(isinstance(i, Seg) for i in rest) else VSeq(rest))
        if isinstance(obj, VRange):
            f = self.flat(obj)
            if f is None:
                raise Unsupported("slice of a range of unknown length")
            return VList(f[sl], depth=self.depth)
        if isinstance(obj, Sym):
            raise Unsupported("slice")
        return obj[sl]

    def getitem(self, obj, key):
        self.usable(obj), self.usable(key)
        if isinstance(obj, VDict):
            if obj.factory is list and groups.starts(self, obj):
                return groups.reference(self, obj, key)
            if obj.factory is int and groups.starts(self, obj):
                return groups.total(self, obj, key)
            v = self.lookup(obj, key)
            if v is MISSING:
                if obj.factory is not None:
                    v = self.call(obj.factory)
                    self.mutate(obj, [("set", key, v)])
                    return v
                raise PyRaise(KeyError(self.message(key)))
            return v
        if isinstance(obj, dict):
            if self.symbolic(key) or any(has_ghost(k) for k in obj):
                for k, v in obj.items():
                    if self.decide_eq(key, k):
                        return v
                raise PyRaise(KeyError(self.message(key)))
            try:
                return obj[key]
            except KeyError as exc:
                raise PyRaise(exc) from None
        if isinstance(obj, (VList, VSeq)) or (isinstance(obj, (tuple, list)) and self.symbolic(obj)):
            if ghost_number(key):
                raise Unsupported("index of unknown value")
            items = self.parts(obj)
            if isinstance(key, slice):
                return self.getslice(obj, key)
            if any(isinstance(i, Seg) for i in items):
                if key == 0:
                    hit = self.first_of(items)
                    if hit is None:
                        raise PyRaise(IndexError("index out of range"))
                    return hit[0]
                if key >= 0 and not any(isinstance(i, Seg) for i in items[: key + 1]):
                    return items[key]
                raise Unsupported("index into a sequence of unknown length")
            try:
                return items[key]
            except IndexError as exc:
                raise PyRaise(exc) from None
        if isinstance(obj, VRange):
            if key == 0:
                return obj.lo
            if key == -1:
                return obj.hi
            raise Unsupported("index into a range")
        if isinstance(obj, Obj) and "__getitem__" in obj.attrs:
            return obj.attrs["__getitem__"](self, key)
        if isinstance(obj, Obj) and hasattr(getattr(obj, "lazy", None), "item"):
            return obj.lazy.item(self, obj, key)
        if isinstance(obj, (Sym, GBool)):
            raise Unsupported(f"subscript of {type(obj).__name__}")
        if in_package(type(obj)) and not isinstance(obj, (sp.Basic, dict)):
            f = inspect.getattr_static(type(obj), "__getitem__", None)
            if f is not None:
                return self.call(f, [obj, key])
        if isinstance(obj, (tuple, list, str)) and ghost_number(key):
            raise Unsupported("index of unknown value")
        try:
            if isinstance(key, Sym):
                key = self.to_native(key)
            return obj[key]
        except Unsupported:
            raise
        except Exception as exc:  # noqa: BLE001
            raise self.raised(exc, obj, key) from None

    def setitem(self, obj, key, v):
        self.usable(obj), self.usable(v)
        if isinstance(v, groups.SumRef):
            return groups.store(self, obj, key, v)
        if isinstance(obj, VDict):
            self.mutate(obj, [("set", key, v)])
        elif isinstance(obj, VList):
            if self.depth > obj.depth or any(isinstance(i, Seg) for i in obj.items):
                raise Unsupported("list element assignment")
            try:
                obj.items[key] = v
            except IndexError as exc:
                raise PyRaise(exc) from None
        elif isinstance(obj, tuple):
            raise PyRaise(TypeError("tuple does not support item assignment"))
        else:
            raise Unsupported(f"item assignment to {type(obj).__name__}")

    # ---- attributes
    def getattr(self, obj, name):
        self.usable(obj)
        if isinstance(obj, Obj):
            if name in obj.attrs:
                return obj.attrs[name]
            lazy = getattr(obj, "lazy", None)
            if lazy is not None:
                key = ("attr", obj.name, name)
                if key in self.statics:
                    return self.statics[key]
                v = lazy(self, obj, name)
                if v is not MISSING:
                    self.statics[key] = v
                    return v
            st = inspect.getattr_static(obj.cls, name, MISSING)
            return self.class_attr(obj, obj.cls, name, st)
        if isinstance(obj, Denom):
            raise Unsupported("attribute of a denominator")
        if V.has_unknown(obj):
            raise Unsupported(f"attribute {name} of an unknown expression")
        if isinstance(obj, (VStr,)) or (isinstance(obj, str) and tokens(obj)):
            return VMethod(obj, name)
        if isinstance(obj, Sym):
            return VMethod(obj, name)
        if isinstance(obj, GPool) and name == "cleanup":
            return BoundClosure(GPool.cleanup, obj)
        if isinstance(obj, Closure):
            if name in ("__name__", "__qualname__"):
                return obj.__name__
            raise Unsupported(f"attribute {name} of a function")
        if ghost_number(obj):
            if name == "is_integer":
                if isinstance(obj, sp.Symbol) and V.NUMBERS[obj.name][2] is float:
                    return BoundClosure(_is_integer, obj)
                return GBool(z_is_int(obj))
            if name == "denominator":
                return Denom(obj)
            if name == "numerator":
                from pyvc import models

                for d in (1, 2):
                    if self.entails(self.eq(Denom(obj), d)):
                        return models.twin(d * obj, int)
                return obj * number(f"den({obj})", "int")
            if name in ("real", "imag"):
                return obj if name == "real" else 0
            if name in ("is_zero",):
                return GBool(num_term(obj) == 0)
            if name == "q":
                return Denom(obj)
            if name in ("doit", "subs", "xreplace", "free_symbols", "args", "func", "evalf", "simplify", "as_coefficients_dict"):
                return getattr(obj, name)
            raise Unsupported(f"attribute {name} of a symbolic number")
        if (isinstance(obj, type) is False and in_package(type(obj)) and not isinstance(obj, (sp.Basic, dict))):
            cls = type(obj)
            st = inspect.getattr_static(cls, name, MISSING)
            if isinstance(st, (types.MemberDescriptorType,)):
                try:
                    return self.usable(getattr(obj, name))
                except AttributeError as exc:
                    raise PyRaise(exc) from None
            d = getattr(obj, "__dict__", {})
            if name in d and not isinstance(st, property):
                return self.usable(d[name])
            return self.class_attr(obj, cls, name, st)
        if isinstance(obj, sp.Basic) and in_package(type(obj)):
            cls = type(obj)
            st = inspect.getattr_static(cls, name, MISSING)
            if isinstance(st, types.FunctionType) and in_package(st) and name not in ("__new__",):
                if name in ("evaluate",) or st.__module__.startswith("ampform_dpd"):
                    src = getattr(st, "__wrapped__", st)
                    return types.MethodType(src, obj)
        try:
            return getattr(obj, name)
        except AttributeError as exc:
            raise self.raised(exc, obj) from None

    def class_attr(self, obj, cls, name, st):
        if st is MISSING:
            if name == "__class__":
                return cls
            raise PyRaise(AttributeError(f"{cls.__name__} has no attribute {name}"))
        if isinstance(st, property):
            return self.call(st.fget, [obj])
        if isinstance(st, (staticmethod,)):
            return st.__func__
        if isinstance(st, classmethod):
            return BoundClosure(st.__func__, cls)
        if isinstance(st, types.FunctionType) or hasattr(st, "__wrapped__"):
            return BoundClosure(st, obj)
        if hasattr(st, "__get__") and not isinstance(st, type):
            raise Unsupported(f"descriptor {name}")
        return st

    def setattr(self, obj, name, v):
        self.usable(v)
        if isinstance(obj, Sym) or isinstance(obj, types.ModuleType) or isinstance(obj, type):
            raise Unsupported(f"attribute assignment to {type(obj).__name__}")
        if attr.has(type(obj)) and getattr(type(obj), "__setattr__", None) is not object.__setattr__:
            if type(obj).__setattr__.__name__ in ("_frozen_setattrs", "__setattr__"):
                try:
                    setattr(obj, name, v)
                except attr.exceptions.FrozenInstanceError as exc:
                    raise PyRaise(exc) from None
                raise Unsupported("assignment to an attrs object")
        d = getattr(obj, "__dict__", None)
        if d is None:
            raise Unsupported("assignment to a slotted object")
        if d.get("__pyvc_depth__", 0) < self.depth:
            raise Unsupported("a loop assigns an attribute of an object from outside")
        d[name] = v


def _is_integer(x):
    return float(x).is_integer()


def one_value(seg):
    """All items of a dict segment have the same value, whatever the element."""
    vals = []
    for c in seg.cases:
        for i in c.items:
            if not (isinstance(i, tuple) and i[0] == "set"):
                return False
            try:
                if not same_plain(retag_value(i[2], c.tag, "any;"), i[2]):
                    return False
            except Unsupported:
                return False
            vals.append(i[2])
    return all(same_plain(v, vals[0]) for v in vals)


class SetSeg(Seg):
    """All members of a set of unknown size, in unknown order, each once."""

    def __init__(self, vset):
        self.vset = vset
        if len(vset.items) == 1 and isinstance(vset.items[0], Seg):
            s = vset.items[0]
            super().__init__(s.base, s.cases)
            raise Unsupported("iteration over a set of unknown size")
        raise Unsupported("iteration over a set of unknown size")


class SpinRange(V.Base):
    """lo, lo+1, ..., hi."""

    def __init__(self, lo, hi):
        super().__init__(f"[{lo}..{hi}]", None, distinct=True)
        self.lo, self.hi = lo, hi

    def make(self, m, tag):
        n = number(tag + "n", "int")
        v = self.lo + n
        m.assume(num_term(n) >= 0)
        m.assume(num_term(self.hi - v) >= 0)
        if not m.feasible():
            raise Infeasible
        return v

    def retagged(self, old, new):
        return SpinRange(retag_value(self.lo, old, new), retag_value(self.hi, old, new))


RANGES: dict = {}
_LESS: dict = {}


def str_less(a, b):
    f = z3.Function("str<", V.StrSort, V.StrSort, z3.BoolSort())
    return f(a, b)
