from __future__ import annotations

import random
from fractions import Fraction

from props import _trans as T

RULE = "random collections of isobar transitions (any edge IDs, spin projections, repetitions, orders, with and without LS couplings) x min_ls settings"


def prove(ctx):
    from contracts import qrules as C

    C.prove_conversion(ctx)
    C.prove_many(ctx)
    C.prove_decay(ctx)
    C.prove_injective(ctx)


def cases(ctx):
    yield {"empty": True}
    for n in range(4000 if ctx.thorough else 500):
        yield {"seed": ctx.seed * 275604541 + n}


def frac(x):
    return Fraction(int(x.p), int(x.q))


def run_case(c):
    from ampform_dpd.adapter.qrules import convert_transitions, normalize_state_ids, to_three_body_decay
    from qrules.topology import FrozenTransition

    if c.get("empty"):
        for e in ([], (), iter([])):
            try:
                to_three_body_decay(e)
            except ValueError:
                continue
            return "an empty collection is converted"
        return None
    rng = random.Random(c["seed"])
    spec = T.random_transitions(rng, equal=() if rng.random() < 0.6 else None)
    tr = [T.make_transition(spec, t) for t in spec["transitions"]]
    parts = spec["parts"]
    if c["seed"] % 4 == 3:  # interactions listed in the other order
        tr = [FrozenTransition(t.topology, t.states, {1: t.interactions[1], 0: t.interactions[0]}) for t in tr]

    def same(p, d):
        return (p.name == d["name"] and p.latex == (d["name"] if d["latex"] is None else d["latex"])
                and frac(p.spin) == Fraction(d["spin"]) and p.parity == d["parity"]
                and p.mass == d["mass"] and p.width == d["width"])

    ref_result = {}
    for min_ls in (False, True, (True, False), (False, True), (True, True), (False, False)):
        sel = set()
        if min_ls:
            sel = {0, 1} if min_ls is True else {n for n, x in enumerate(min_ls) if x}
        exp = []
        for t in sorted({T.expected_chain(spec, t) for t in spec["transitions"]}, key=repr):
            exp.append(t)
        if min_ls and sel:
            groups = {}
            for t in exp:
                key = (t[0], t[2], *(t[3 + n] for n in (0, 1) if n not in sel))
                groups.setdefault(key, []).append(t)
            exp = [
                (g[0][0], g[0][1], g[0][2], *((None if any(t[3 + n] is None for t in g) else min(t[3 + n] for t in g))
                                              if n in sel else g[0][3 + n] for n in (0, 1)))
                for g in groups.values()
            ]
        for variant in range(3):
            arg = list(tr)
            if variant:
                arg = arg + [rng.choice(tr) for _ in range(rng.randint(0, 3))]
                rng.shuffle(arg)
            if variant == 2:
                arg = normalize_state_ids(arg)
                if rng.random() < 0.5:
                    arg = convert_transitions(arg)
                arg = iter(arg)
            d = to_three_body_decay(arg, min_ls) if min_ls or rng.random() < 0.5 else to_three_body_decay(arg)
            if set(d.states) != {0, 1, 2, 3}:
                return f"state IDs are {list(d.states)}"
            for i in range(4):
                if not same(d.states[i], parts[i]) or d.states[i].index != i:
                    return f"state {i} is {d.states[i]}, expected {parts[i]}"
            got = []
            for ch in d.chains:
                r = [n for n, x in enumerate(spec["resonances"]) if same(ch.resonance, x)]
                if not r:
                    return f"resonance {ch.resonance} is not one of {spec['resonances']}"
                f = lambda ls: None if ls is None else (int(ls.L), frac(ls.S))  # noqa: E731
                prods = tuple(p.index for p in ch.decay_products)
                if any(d.states[p.index] != p for p in (*ch.decay_products, ch.spectator)) or ch.parent != d.states[0]:
                    return "states of a chain are not those of the decay"
                got.append((r[0], ch.spectator.index, tuple(sorted(prods)), f(ch.incoming_ls), f(ch.outgoing_ls)))
            if sorted(map(repr, got)) != sorted(map(repr, exp)):
                return f"chains with min_ls={min_ls}: {got}, expected {exp}"
            key = repr(min_ls)
            if key in ref_result and ref_result[key] != d:
                return f"decay depends on order or repetition of the transitions (min_ls={min_ls})"
            ref_result[key] = d
    return None
