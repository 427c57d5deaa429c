from __future__ import annotations

import random
from fractions import Fraction
from itertools import permutations, product

import sympy as sp
from props import _gen as G

RULE = "spins k/1..k/6 for particles, states and LS couplings; all node shapes x IDs; decays with foreign chains or states"


def prove(ctx):
    from contracts import decay as C

    C.prove_wellformed(ctx)


def cases(ctx):
    for q in range(1, 9):
        for p in range(-5, 12):
            for cls in ("Particle", "State", "LSCoupling"):
                yield {"cls": cls, "spin": f"{p}/{q}"}
    kinds = ("state", "particle", "isobar", "isobar_particles", "isobar_nested", "isobar_half")
    for c1, c2 in product(kinds, repeat=2):
        for parent in ("state", "particle"):
            yield {"shape": [parent, c1, c2], "ids": [0, 1, 2, 3]}
    for ids in product(range(4), repeat=4):
        for swap in (0, 1):
            yield {"shape": ["state", *(("isobar", "state") if not swap else ("state", "isobar"))], "ids": list(ids)}
    for n in range(4000 if ctx.thorough else 600):
        yield {"seed": ctx.seed * 7919 + n}
    for bad in ("str", "none", "state", "particle"):
        yield {"notnode": bad}


def _p(name="R", spin=1):
    from ampform_dpd.decay import Particle

    return Particle(name, name, spin, 1, 1.5, 0.1)


def _s(i, spin=1):
    from ampform_dpd.decay import State

    return State(f"s{i}", f"s{i}", spin, 1, 0.5, 0.0, index=i)


def run_case(c):
    from ampform_dpd.decay import IsobarNode, LSCoupling, Particle, State, ThreeBodyDecay, ThreeBodyDecayChain

    if "cls" in c:
        x = Fraction(c["spin"])
        S = sp.Rational(x.numerator, x.denominator)
        ok = x.denominator in {1, 2}
        try:
            if c["cls"] == "Particle":
                o = Particle("a", "a", S, 1, 1.0, 0.1)
            elif c["cls"] == "State":
                o = State("a", "a", S, 1, 1.0, 0.1, index=2)
            else:
                o = LSCoupling(1, S)
        except ValueError:
            return None if not ok else f"{c} is rejected"
        got = o.S if c["cls"] == "LSCoupling" else o.spin
        if not ok:
            return f"{c} is accepted"
        return None if got == S and isinstance(got, sp.Rational) else f"{c}: stored spin is {got!r}"
    if "notnode" in c:
        o = {"str": "x", "none": None, "state": _s(1), "particle": _p()}[c["notnode"]]
        try:
            ThreeBodyDecayChain(o)
        except Exception:  # noqa: BLE001
            return None
        return f"chain constructed from {o!r}"
    if "shape" in c:
        par, k1, k2 = c["shape"]
        a, b, d, e = c["ids"]
        n_iso = 0

        def mk(kind, own):
            if kind == "state":
                return _s(own[0])
            if kind == "particle":
                return _p("x")
            if kind == "isobar":
                return IsobarNode(_p(), _s(own[0]), _s(own[1]))
            if kind == "isobar_particles":
                return IsobarNode(_p(), _p("x"), _p("y"))
            if kind == "isobar_half":
                return IsobarNode(_p(), _s(own[0]), _p("y"))
            return IsobarNode(_p(), _s(own[0]), IsobarNode(_p("R2"), _s(own[1]), _s(7)))

        both_iso = k1.startswith("isobar") and k2.startswith("isobar")
        first_iso = k1.startswith("isobar")
        own1, own2 = ((b, d), (e,)) if first_iso else ((b,), (d, e))
        if both_iso:
            own2 = (e, 9)
        node = IsobarNode(_s(a) if par == "state" else _p("M"), mk(k1, own1), mk(k2, own2))
        ok = par == "state" and {k1, k2} == {"isobar", "state"} and len({a, b, d, e}) == 4
        try:
            chain = ThreeBodyDecayChain(node)
        except Exception as exc:  # noqa: BLE001
            return None if not ok else f"well-formed chain {c} is rejected: {exc!r}"
        return None if ok else f"malformed chain {c} is accepted: {chain}"
    rng = random.Random(c["seed"])
    spec = G.random_decay(rng)
    decay = G.make_decay(spec)
    states = dict(decay.states)
    chains = list(decay.chains)
    if states != G.make_states(spec) or chains != [G.make_chain(x, states) for x in spec["chains"]]:
        return f"decay differs from its arguments: {decay}"
    kind = rng.choice(["ok", "initial", "final", "renamed", "extra_state", "missing_state", "permuted"])
    ok = kind == "ok"
    pos = rng.randrange(len(chains))
    k = spec["chains"][pos]
    import attrs

    if kind == "initial":
        other = dict(states)
        other[0] = attrs.evolve(states[0], name="other")
        chains[pos] = G.make_chain(k, other)
    elif kind == "final":
        other = dict(states)
        x = rng.choice([1, 2, 3])
        f = rng.choice(["name", "latex", "mass", "width", "spin", "parity"])
        other[x] = attrs.evolve(states[x], **{f: {"name": "zz", "latex": "zz", "mass": 99.0, "width": 99.0,
                                                  "spin": states[x].spin + 1, "parity": -states[x].parity}[f]})
        chains[pos] = G.make_chain(k, other)
    elif kind == "renamed":
        x = rng.choice([0, 1, 2, 3])
        states[x] = attrs.evolve(states[x], mass=states[x].mass + 1)
    elif kind == "extra_state":
        states[4] = _s(4)
    elif kind == "missing_state":
        del states[rng.choice([1, 2, 3])]
    elif kind == "permuted":
        ok = True
        order = list(states)
        rng.shuffle(order)
        states = {i: states[i] for i in order}
        rng.shuffle(chains)
    try:
        ThreeBodyDecay(states=states, chains=iter(chains) if rng.random() < 0.5 else chains)
    except Exception as exc:  # noqa: BLE001
        return None if not ok else f"consistent decay is rejected ({kind}): {exc!r}"
    return None if ok else f"inconsistent decay is accepted ({kind}, chain {pos})"
