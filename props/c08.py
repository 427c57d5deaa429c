from __future__ import annotations

import random
import warnings

from props import _gen as G

RULE = "random decays (0-6 chains, shared resonance names, both child orders, state dictionaries in any order)"


def prove(ctx):
    from contracts import decay as C

    C.prove_accessors(ctx)


def cases(ctx):
    for n in range(8000 if ctx.thorough else 1200):
        yield {"seed": ctx.seed * 104729 + n}


def run_case(c):
    from ampform_dpd.decay import ThreeBodyDecay, get_decay_product_ids

    for k, ij in G.PAIR.items():
        if tuple(get_decay_product_ids(k)) != ij:
            return f"decay products of spectator {k}: {get_decay_product_ids(k)}"
    for k in (0, 4, -1, 12):
        try:
            got = get_decay_product_ids(k)
        except ValueError:
            continue
        return f"decay products of spectator {k}: {got}"
    rng = random.Random(c["seed"])
    spec = G.random_decay(rng, n_chains=rng.randint(0, 6))
    states = G.make_states(spec)
    chains = [G.make_chain(x, states) for x in spec["chains"]]
    order = list(states)
    rng.shuffle(order)
    decay = ThreeBodyDecay({i: states[i] for i in order}, chains)
    if decay.initial_state != states[0] or decay.final_state != {i: states[i] for i in (1, 2, 3)}:
        return "initial or final state of the decay is wrong"
    for x, ch in zip(spec["chains"], chains):
        i, j = G.PAIR[x["k"]]
        if x["swap_dec"]:
            i, j = j, i
        want = {
            "resonance": G.make_particle(x["res"]), "spectator": states[x["k"]], "decay_products": (states[i], states[j]),
            "final_state": (states[1], states[2], states[3]), "parent": states[0], "initial_state": states[0],
        }
        for name, w in want.items():
            if getattr(ch, name) != w:
                return f"{name} is {getattr(ch, name)!r}, expected {w!r}"
        for name, w in (("incoming_ls", x["prod_ls"]), ("outgoing_ls", x["dec_ls"])):
            g = getattr(ch, name)
            if (g is None) != (w is None) or (w and (g.L, g.S) != (w[0], G.R(w[1]))):
                return f"{name} is {g!r}, expected {w!r}"
        if ch.production_node is not ch.decay or ch.decay_node.parent != want["resonance"]:
            return "production or decay node is wrong"
    collected = []
    for k in (1, 2, 3):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            sub = decay.get_subsystem(k)
        want = tuple(ch for x, ch in zip(spec["chains"], chains) if x["k"] == k)
        if sub.chains != want or sub.states != decay.states:
            return f"subsystem {k} has chains {[x.resonance.name for x in sub.chains]}, expected {[x.resonance.name for x in want]}"
        if bool(w) != (not want):
            return f"subsystem {k} with {len(want)} chains: {len(w)} warnings"
        collected.extend(sub.chains)
    if sorted(map(repr, collected)) != sorted(map(repr, chains)):
        return "subsystems do not partition the chains"
    names = [x["res"]["name"] for x in spec["chains"]]
    for n in {*names, "R", "", "P1", *(x + "x" for x in names[:1]), *(x[:-1] for x in names[:1])}:
        try:
            got = decay.find_chain(n)
        except KeyError:
            if n in names:
                return f"chain {n!r} is not found"
            continue
        if n not in names or got is not decay.chains[names.index(n)]:
            return f"find_chain({n!r}) returns {got}"
    return None
