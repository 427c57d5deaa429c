"""C25: cached lambdification (module ``io.cached``).

Caches are memoisation: what they return is what the cached function returned for equal arguments,
so results of an in-memory cache are shared between callers. The invariant that makes them
transparent in every history: no caller ever gets hold of a shared object that can be altered.
"""
from __future__ import annotations

import functools

import sympy as sp
from contracts import symbolic as Y
from pyvc import values as V
from pyvc.compare import Differ, require, same, verify
from pyvc.interp import Interp
from pyvc.values import Obj, VDict, string


class State:
    """What the engine records on one path."""

    def __init__(self):
        self.x64 = False


STATE = State()


def function(m, args, **attrs):
    """A function made by tensorwaves."""
    f = Obj(m.fresh("function"), object, {**attrs, "x64": STATE.x64, "shared": False})
    f.attrs["__copy__"] = lambda mm: function_copy(mm, f)
    return f


def function_copy(m, f):
    g = Obj(m.fresh("function"), object, {**f.attrs, "shared": False})
    g.attrs["__copy__"] = lambda mm: function_copy(mm, g)
    return g


HARMLESS = {"use_cse", "max_complexity"}


def create_function(m, expr, backend, **kw):
    check(kw)
    return function(m, None, expr=expr, parameters=None, backend=backend)


def create_parametrized_function(m, expr, parameters, backend, **kw):
    check(kw)
    return function(m, None, expr=expr, parameters=parameters, backend=backend)


def check(kw):
    if set(kw) - HARMLESS:
        raise V.Unsupported(f"keywords {sorted(kw)} of a function of tensorwaves")


def memo(f):
    """A cached function: its value for these arguments. Out of memory it is an object that others have, too;
    out of a file it is a new one."""
    inner, in_memory = f, False
    while hasattr(inner, "__wrapped__"):
        in_memory |= isinstance(inner, functools._lru_cache_wrapper)
        if not isinstance(inner, functools._lru_cache_wrapper) and not on_disk(inner):
            raise V.Unsupported(f"decorator of {f.__qualname__}")
        inner = inner.__wrapped__

    def handler(m, *args, **kwargs):
        r = m.call(inner, args, kwargs)
        if isinstance(r, Obj) and "shared" in r.attrs:
            r.attrs["shared"] |= in_memory
        return r

    return handler


def on_disk(f):
    from ampform.sympy import _cache

    return getattr(getattr(f, "__code__", None), "co_filename", None) == _cache.__file__


def config_update(m, name, value):
    if name == "jax_enable_x64":
        STATE.x64 = m.truth(value)


def table():
    import jax
    from ampform_dpd.io import cached
    from tensorwaves.function import sympy as tw

    out = {tw.create_function: create_function, tw.create_parametrized_function: create_parametrized_function,
           jax.config.update: config_update}
    for x in vars(cached).values():
        if getattr(x, "__module__", None) == cached.__name__ and (isinstance(x, functools._lru_cache_wrapper) or on_disk(x)):
            out[x] = memo(x)
    return out


def prove_lambdify(ctx):
    import collections

    from ampform_dpd.io import cached

    ctx.assume("functools.cache and ampform's cache_to_disk return what the function returned for equal arguments (hashes without collisions)")
    ctx.assume("tensorwaves: create_function and create_parametrized_function are functions of expression, parameters and backend; "
               "functions without parameters are immutable; a deep copy of a function computes the same")
    ctx.assume("numbers that compare equal (1 and 1.0) are the same parameter value")
    expr = V.unknown_expr("expression")

    def call(how):
        def inputs(m):
            STATE.x64 = False
            backend = m.choose(["jax", "numpy", string("backend")], "backend")
            pars = Y.mapping("parameters")
            if how == "parameters":
                return [expr, pars], {"backend": backend}
            if how == "default backend":
                return [expr, pars], {}
            if how == "keyword":
                return [], {"expr": expr, "parameters": pars, "backend": backend}
            if how == "no parameters":
                return [expr], {"backend": backend}
            if how == "None":
                return [expr, None], {"backend": backend}
            if how == "backend as position":
                return [expr, backend], {}
            if how == "no parameters, default backend":
                return [expr], {}
            raise NotImplementedError(how)

        def post(m, kind, val, args, kwargs):
            if kind != "return":
                raise Differ(f"raises {val!r}", m.model())
            if not isinstance(val, Obj) or "expr" not in val.attrs:
                raise V.Unsupported(f"lambdify() returns {val!r}")
            if "backend" in kwargs:
                backend = kwargs["backend"]
            elif how == "backend as position":
                backend = args[1]
            else:
                backend = "jax"
            a = val.attrs
            same(m, a["expr"], expr, "expression")
            same(m, a["backend"], backend, "backend")
            with_parameters = how in ("parameters", "default backend", "keyword")
            given = kwargs.get("parameters", args[1] if len(args) > 1 else None)
            if with_parameters:
                if a["parameters"] is None:
                    raise Differ("a function without the parameters", m.model())
                same(m, a["parameters"], Y.mapping("parameters"), "parameters of the function")
                same(m, given, Y.mapping("parameters"), "the given mapping")
                if a["shared"]:
                    raise Differ("the caller can alter the function in the cache", m.model())
                if a["parameters"] is given:
                    m.assumed.add("create_parametrized_function copies the parameters")
            elif a["parameters"] is not None:
                raise Differ("a parametrized function", m.model())
            jax = m.eq_str(backend, "jax")
            if (jax if isinstance(jax, bool) else m.entails(jax)) and not a["x64"]:
                raise Differ("JAX without 64-bit precision", m.model())

        verify(ctx, f"ensures: the uncached function, not shared if it can be altered; 64 bits for JAX; parameters unaltered [{how}]",
               cached.lambdify, inputs, post=post, contracts=table())

    for how in ("parameters", "default backend", "keyword", "no parameters", "None", "backend as position", "no parameters, default backend"):
        call(how)
