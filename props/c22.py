from __future__ import annotations

import random
import warnings
from fractions import Fraction as F

import sympy as sp
from props import _ser as S

RULE = "random model definitions (final states and functions in random order, both child orders, both vertex orders, repeated resonances, weight formats)"


def prove(ctx):
    from contracts import serialization as C

    C.prove_decode(ctx)


def cases(ctx):
    for n in range(15000 if ctx.thorough else 1500):
        yield {"seed": ctx.seed * 179424673 + n}


def raises(exc, fn, *a):
    try:
        fn(*a)
    except exc as e:
        return type(e) is exc or exc is not ValueError
    except Exception:  # noqa: BLE001
        return False
    return False


def run_case(c):
    from ampform_dpd.io.serialization import amplitude as A
    from ampform_dpd.io.serialization import decay as D
    from ampform_dpd.io.serialization import format as M

    rng = random.Random(c["seed"])
    model, info = S.random_model(rng, max_two_j=3, max_two_jr=4, max_combos=200, n_chains=rng.randint(1, 6))
    desc = model["distributions"][0]["decay_description"]
    chains = desc["chains"]
    for to_latex in (None, lambda n: f"tex({n})"):
        tl = to_latex or (lambda n: n)
        states = D.get_states(model, to_latex)
        if sorted(states) != [0, 1, 2, 3]:
            return f"states {sorted(states)}"
        for i, st in states.items():
            want = (i, f"S{i}", tl(f"S{i}"), sp.Rational(info["spins"][i]), info["masses"][i])
            got = (st.index, st.name, st.latex, st.spin, st.mass)
            if got != want:
                return f"state {got}, expected {want}"
        if D.get_initial_state(model, to_latex) != states[0] or D.get_final_state(model, to_latex) != {i: states[i] for i in (1, 2, 3)}:
            return "initial or final state do not agree with the states"
        decay = D.to_decay(model, to_latex)
        if dict(decay.states) != dict(states):
            return "states of the decay differ from those of the model"
        want = sorted({(m["name"], str(F(m["two_jr"], 2)), m["k"], tuple(m["pair"])) for m in info["meta"]})
        got = sorted((x.resonance.name, str(x.resonance.spin), x.spectator.index, tuple(p.index for p in x.decay_products))
                     for x in decay.chains)
        if got != want:
            return f"chains {got}, expected {want}"
        for x in decay.chains:
            if x.resonance.latex != tl(x.resonance.name) or x.parent != states[0] or x.spectator != states[x.spectator.index]:
                return f"chain {x} is inconsistent with the definition"
            if any(p != states[p.index] for p in x.decay_products):
                return f"decay products of {x} are not states of the decay"
    spins = [sp.Rational(q) for q in info["spins"]]
    if M.get_decay_chains(model) != chains:
        return "decay chains of the definition not returned"
    if sorted(A.get_existing_subsystem_ids(model)) != sorted({m["k"] for m in info["meta"]}):
        return f"existing subsystems {A.get_existing_subsystem_ids(model)}"
    if D.get_spectator_id(M.get_reference_topology(model)) != info["reference"]:
        return "reference topology"
    for x, m in zip(chains, info["meta"]):
        if D.get_spectator_id(x["topology"]) != m["k"]:
            return f"spectator of {x['topology']}"
        defs = A.formulate_chain_amplitude(*spins, model, chains.index(x), additional_builders={"MyShape": S.custom_builder})
        if not any(abs(complex(v) - m["weight"]) <= 1e-12 * max(1, abs(m["weight"]))
                   for v in defs.values() if isinstance(v, (int, float, complex))):
            return f"weight {x['weight']!r}, expected value {m['weight']}, is not in {defs}"
        if "0i" not in x["weight"] and not any(isinstance(q, sp.Symbol) and isinstance(v, (int, float, complex)) for q, v in defs.items()):
            return f"no weight symbol in {defs}"
        hel = {}
        res = None
        for v in x["vertices"]:
            for it, h in zip(v["node"], v["helicities"]):
                if isinstance(it, int):
                    hel[it] = sp.Rational(h)
                else:
                    res = (tuple(it), sp.Rational(h))
        # private decoders, if they (still) exist
        fn = getattr(A, "_get_final_state_helicities", None)
        if fn is not None and (fn(x) != hel or list(fn(x)) != sorted(hel)):
            return f"final state helicities {fn(x)}, expected {hel}"
        fn = getattr(A, "_get_resonance_helicity", None)
        if fn is not None and fn(x) != res:
            return f"resonance helicity {fn(x)}, expected {res}"
        i, j = m["pair"]
        fn = getattr(A, "_get_decay_product_helicities", None)
        if fn is not None and fn(x) != ((i, hel[i]), (j, hel[j])):
            return "decay product helicities"
    for f in model["functions"]:
        if M.get_function_definition(f["name"], model) != f:
            return f"definition of {f['name']}"
        for other in (f["name"].swapcase(), f["name"] + " ", f["name"][:-1]):
            decoy = {**f, "name": other, "decoy": True}
            if other != f["name"] and M.get_function_definition(f["name"], {**model, "functions": [decoy, *model["functions"]]}) != f:
                return f"definition of {f['name']} with another function {other!r}"
    for bad in ("nope", model["functions"][0]["name"] + "x" if model["functions"] else "y", ""):
        try:
            M.get_function_definition(bad, model)
        except KeyError:
            pass
        else:
            return f"unknown function {bad!r} is found"
    empty = {**model, "distributions": []}
    for fn in (M.get_distribution_def, M.get_decay_chains, M.get_reference_topology, D.get_states, D.to_decay):
        if not raises(ValueError, fn, empty):
            return f"{fn.__name__} accepts a model without distributions"
    for topo in ([], [1, 2], [1, 2, 3], [[1, 2], [3, 1]], [[1, [2, 3]]], [[[1, 2], 3]], [[1, 2]]):
        if not raises(ValueError, D.get_spectator_id, topo):
            return f"malformed topology {topo} accepted"
    if chains:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            two = {**model, "distributions": [model["distributions"][0], {"name": "other"}]}
            if M.get_distribution_def(two) is not model["distributions"][0] and M.get_distribution_def(two) != model["distributions"][0]:
                return "with several distributions, the first is not used"
        bad = {**chains[0], "vertices": [v for v in chains[0]["vertices"] if S.is_production(v)]}
        st = D.get_states(model)
        fs = {i: st[i] for i in (1, 2, 3)}
        if not raises(ValueError, D.to_decay_chain, bad, st[0], fs):
            return "chain without decay vertex is accepted"
        bad = {**chains[0], "vertices": [v for v in chains[0]["vertices"] if not S.is_production(v)]}
        if not raises(ValueError, D.to_decay_chain, bad, st[0], fs):
            return "chain without production vertex is accepted"
    return None
