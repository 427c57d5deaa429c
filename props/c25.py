from __future__ import annotations

import atexit
import os
import random
import shutil
import tempfile

RULE = "random sequences of cached lambdifications (expressions x parameter values x backends jax, numpy; given by keyword or position; mutation of returned functions; in-memory cache dropped in between) in a scratch cache directory"
ASSUMPTIONS = ["tensorwaves create_function/create_parametrized_function and ampform cache_to_disk (hash without collisions) are correct (dependencies)"]

_DIR = None


def scratch():
    """Private cache directory, set before ampform_dpd is imported."""
    global _DIR
    if _DIR is None:
        _DIR = tempfile.mkdtemp(prefix="c25-cache-")
        os.environ["COMPWA_CACHE_DIR"] = _DIR
        os.environ.pop("NO_CACHE", None)
        atexit.register(shutil.rmtree, _DIR, True)
        import logging

        logging.getLogger("ampform.sympy._cache").setLevel(logging.ERROR)


def prove(ctx):
    scratch()
    from contracts import cached as C

    C.prove_lambdify(ctx)


def cases(ctx):
    scratch()
    yield {"processes": True}
    for n in range(120 if ctx.thorough else 16):
        yield {"seed": ctx.seed * 198491317 + n}


BOUNDED_S = {"quick": 120}


def expressions(rng):
    import sympy as sp
    from ampform.dynamics.phasespace import PhaseSpaceFactor, PhaseSpaceFactorAbs, PhaseSpaceFactorComplex
    from ampform_dpd.dynamics import BreitWigner

    x, y, a, b = sp.symbols("x y a b")
    xr, ar = sp.Symbol("x", real=True), sp.Symbol("a", nonnegative=True)
    n = rng.choice([1, 2, 3])
    h = sp.Rational(1, 4)
    bw = [BreitWigner(x, a, b, h, h, 1, 1, phsp_factor=f).doit() for f in (PhaseSpaceFactor, PhaseSpaceFactorAbs, PhaseSpaceFactorComplex)]
    return [
        (a * x + b * y, [a, b], [x, y]), (a * x - b * y, [a, b], [x, y]), (a * x**n + b, [a, b], [x]),
        (sp.sin(a * x) / (b + y**2), [a, b], [x, y]), (sp.exp(-a * x), [a], [x]), (ar * xr**2, [ar], [xr]), (a * x**2, [a], [x]),
        (x + y, [], [x, y]), (x * y, [], [x, y]), (x**2 + 1, [], [x]),
        *((e, [a, b], [x]) for e in bw),
    ]


CALLS = {"default backend": "x / 3", "keyword": "x / 5, backend='jax'", "positional backend": "x / 7, 'jax'",
         "parameters": "x / a, {a: 3.0}", "parameters, keyword": "x / a, {a: 5.0}, backend='jax'"}


def processes():
    """The functions come from the disk cache of another process; nothing else configured JAX."""
    import subprocess
    import sys

    from pyvc import env

    directory = tempfile.mkdtemp(prefix="c25-processes-")
    code = ("import sys, sympy as sp; from ampform_dpd.io.cached import lambdify; x, a = sp.symbols('x a')\n"
            "for call in sys.argv[1:]: print(eval(f'lambdify({call})')({'x': 1.0}).dtype)")
    environment = {**os.environ, "COMPWA_CACHE_DIR": directory, "PYTHONPATH": os.path.join(env.REPO, "src")}

    def start(*calls):
        return subprocess.Popen([sys.executable, "-W", "ignore", "-c", code, *calls], env=environment, cwd=directory, text=True,
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE)

    try:
        out, err = start(*CALLS.values()).communicate(timeout=100)
        if out.split() != ["float64"] * len(CALLS):
            return f"functions of {list(CALLS.values())} return {out.split()} {err[-500:]}"
        runs = {how: start(call) for how, call in CALLS.items()}
        for how, p in runs.items():
            out, err = p.communicate(timeout=100)
            if out.split() != ["float64"]:
                return f"lambdify({CALLS[how]}) with a filled disk cache in a new process: {out.strip() or err[-500:]} instead of float64"
    finally:
        shutil.rmtree(directory, True)
    return None


def run_case(c):
    scratch()
    if "processes" in c:
        return processes()
    import numpy as np
    from tensorwaves.function.sympy import create_function, create_parametrized_function

    from ampform_dpd.io import cached

    rng = random.Random(c["seed"])
    pool = expressions(rng)
    live = []
    for step in range(rng.randint(6, 14)):
        expr, pars, args = rng.choice(pool) if not live or rng.random() < 0.6 else rng.choice(live)
        live.append((expr, pars, args))
        backend = rng.choice(["jax", "numpy"])
        with_p = rng.random() < 0.65
        values = {p: rng.choice([1, 1.0, 2.5, 0.75, 3, -1.5 if p.is_nonnegative is None else 2.25]) for p in pars}
        if with_p and rng.random() < 0.3 and values:
            values.pop(rng.choice(list(values)))
        if rng.random() < 0.3:
            values = dict(reversed(values.items()))
        before = dict(values)
        order = list(values)
        how = rng.randrange(3)
        if with_p:
            fn = cached.lambdify(expr, values, backend=backend) if backend != "jax" or how else cached.lambdify(expr, values)
            plain = create_parametrized_function(expr, dict(before), backend)
        else:
            if how == 0:
                fn = cached.lambdify(expr, backend=backend)
            elif how == 1 or backend != "jax":
                fn = cached.lambdify(expr, backend)
            else:
                fn = cached.lambdify(expr)
            plain = create_function(expr, backend)
        what = f"step {step}: lambdify({expr}, {before if with_p else None}, backend={backend})"
        if values != before or list(values) != order:
            return f"{what}: parameter mapping altered to {values}"
        free = [s for s in pars + args if not (with_p and s in before)]
        data = {s.name: np.array([rng.uniform(0.6, 3) for _ in range(4)]) for s in free}
        got, want = np.asarray(fn(data)), np.asarray(plain(data))
        if got.dtype not in (np.float64, np.complex128, np.int64):
            return f"{what}: result has type {got.dtype}"
        if type(fn(data)) is not type(plain(data)):
            return f"{what}: returns {type(fn(data))}, uncached {type(plain(data))}"
        if type(fn) is not type(plain):
            return f"{what}: function of type {type(fn).__name__}, uncached {type(plain).__name__}"
        if got.dtype != want.dtype or not np.allclose(got, want, rtol=1e-13, atol=0, equal_nan=True):
            return f"{what}: returns {got}, uncached {want}"
        if with_p:
            if dict(fn.parameters) != {p.name: v for p, v in before.items()}:
                return f"{what}: parameters of the function are {fn.parameters}"
            if before and rng.random() < 0.4:
                # what is done to a returned function must not affect later calls
                fn.update_parameters({rng.choice(list(before)).name: 7.5})
        if rng.random() < 0.25:
            clear = getattr(getattr(cached, "_lambdify_impl", None), "cache_clear", None)
            if clear is not None:
                clear()  # as in a new process: the disk cache answers
    return None
