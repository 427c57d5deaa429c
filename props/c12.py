from __future__ import annotations

import random
import warnings

import sympy as sp
from oracle import ref
from props import _amp as A
from props import _gen as G

RULE = "random decays x reference subsystems (given or chosen) x outer helicities; amplitudes A^k[...] and zeta angles as free random values"


def prove(ctx):
    from contracts import amplitude as C

    C.prove_aligned(ctx)


def cases(ctx):
    yield {"empty": True}
    for n in range(1200 if ctx.thorough else 100):
        yield {"seed": ctx.seed * 67867967 + n}


def run_case(c):
    from ampform_dpd import DalitzPlotDecompositionBuilder
    from ampform_dpd.decay import ThreeBodyDecay

    if c.get("empty"):
        spec = G.random_decay(random.Random(1))
        b = DalitzPlotDecompositionBuilder(ThreeBodyDecay(G.make_states(spec), []))
        for f in (lambda: b.formulate(), lambda: b.formulate_aligned_amplitude(*sp.symbols("lambda:4", rational=True))):
            try:
                G.quiet(f)
            except ValueError:
                continue
            return "a decay without chains is formulated without a reference"
        return None
    rng = random.Random(c["seed"])
    spec = G.random_decay(rng, max_two_j=2, max_two_jr=3, max_combos=18, n_chains=rng.randint(1, 5), ls=True)
    states = G.make_states(spec)
    order = list(states)
    rng.shuffle(order)
    decay = ThreeBodyDecay({i: states[i] for i in order}, [G.make_chain(x, states) for x in spec["chains"]])
    builder = DalitzPlotDecompositionBuilder(decay)
    lam_sym = sp.symbols("lambda:4", rational=True)
    ks = sorted({x["k"] for x in spec["chains"]})
    sets = G.helicity_sets(spec)
    for r in (None, 1, 2, 3):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            amp, angles = builder.formulate_aligned_amplitude(*lam_sym, r)
        if r is not None and (bool(w) != (r not in ks)):
            return f"reference {r} with subsystems {ks}: {len(w)} warnings"
        candidates = [r] if r else sorted(A.best_references(spec))
        ok = None
        for rr in candidates:
            want = A.want_angles(spec, rr)
            if dict(angles) == want:
                ok = rr
        if ok is None:
            return f"angles of the aligned amplitude (reference {r}, subsystems {ks}): {sorted(map(str, angles))}"
        # concrete and symbolic outer helicities
        lam = rng.choice(sets)
        ev = ref.Evaluator({s: x for s, x in zip(lam_sym, lam)})
        got, want = ev(amp), A.aligned_value(ev, spec, lam, ok)
        if not ref.close(got, want):
            return f"aligned amplitude at {list(map(str, lam))}, reference {ok}: {got}, formula gives {want}"
        amp2, _ = G.quiet(builder.formulate_aligned_amplitude, *map(A.rat, lam), r)
        if not ref.close(ref.Evaluator()(amp2), want):
            return f"aligned amplitude with numerical helicities {list(map(str, lam))}, reference {ok} differs"
    r = rng.choice([None, 1, 2, 3])
    if r is not None:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            model = builder.formulate(reference_subsystem=r)
        if any("reference" in str(x.message) for x in w) != (r not in ks):
            return f"formulate(reference {r}) with subsystems {ks}: warnings {[str(x.message) for x in w]}"
    else:
        model = G.quiet(builder.formulate)
    used = model.intensity.free_symbols
    ev = ref.Evaluator()
    for rr in [r] if r else sorted(A.best_references(spec)):
        want = sum(abs(A.aligned_value(ev, spec, lam, rr)) ** 2 for lam in sets)
        got = ev(model.intensity)
        missing = set(A.want_angles(spec, rr)) - set(model.variables)
        if ref.close(got, want) and not missing:
            return None
    return f"intensity with reference {r}: {got}, formula gives {want}, undefined angles {missing}"
