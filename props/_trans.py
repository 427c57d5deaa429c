"""Random qrules topologies and transitions as JSON descriptions (C18-C21)."""
from __future__ import annotations

import itertools
import random
from fractions import Fraction

import pyvc.env  # noqa: F401
from props import _gen as G

BASE_EDGES = {-1: (None, 0), 3: (0, 1), 0: (0, None), 1: (1, None), 2: (1, None)}


def make_topology(edges, nodes=None):
    from qrules.topology import Edge, Topology

    if nodes is None:
        nodes = {n for e in edges.values() for n in e if n is not None}
    return Topology(nodes=nodes, edges={i: Edge(*e) for i, e in edges.items()})


def isobar_edges(spectator, pair, resonance, initial, flip=False):
    """Edge map: node 0 is the production node (or node 1 if ``flip``)."""
    p, d = (1, 0) if flip else (0, 1)
    return {initial: (None, p), resonance: (p, d), spectator: (p, None), pair[0]: (d, None), pair[1]: (d, None)}


def qr_particle(d):
    from qrules.particle import Particle

    kw = {}
    if d.get("latex") is not None:
        kw["latex"] = d["latex"]
    if d.get("parity") is not None:
        kw["parity"] = d["parity"]
    return Particle(name=d["name"], pid=d["pid"], spin=float(Fraction(d["spin"])), mass=d["mass"], width=d["width"], **kw)


def random_particle(rng, name, pid, two_j=None):
    return {"name": name, "pid": pid, "latex": rng.choice([None, name + "^x"]),
            "spin": str(Fraction(rng.randint(0, 4) if two_j is None else two_j, 2)),
            "parity": rng.choice([None, -1, 1]), "mass": round(rng.uniform(0.1, 4), 4), "width": round(rng.uniform(0, 0.4), 4)}


def random_transitions(rng, *, canonical=None, n=None, equal=None, ids=None):
    """A collection of isobar transitions of one decay: JSON description."""
    equal = rng.choice([(), (), (1, 2), (2, 3), (1, 3), (1, 2, 3)]) if equal is None else equal
    parts = {}
    for i in range(4):
        parts[i] = random_particle(rng, f"P{i}", 100 + i)
    for i in equal:
        parts[i] = parts[equal[0]]
    if ids is None:
        ids = rng.choice([[0, 1, 2, 3, 4], [-1, 0, 1, 2, 3], sorted(rng.sample(range(-9, 30), 5))])
    resonances = [random_particle(rng, f"R{n_}", 200 + n_) for n_ in range(rng.randint(1, 3))]
    canonical = rng.random() < 0.6 if canonical is None else canonical
    out = []
    for _ in range(rng.randint(1, 7) if n is None else n):
        spect = rng.choice([1, 2, 3])
        r = rng.randrange(len(resonances))
        if canonical:
            L = [rng.randint(0, 3), rng.randint(0, 3)]
            S = [str(Fraction(rng.randint(0, 4), 2)) for _ in range(2)]
            inter = [[L[0], S[0]], [L[1], S[1]]]
        else:
            inter = [None, None]
        projections = []
        for p in (parts[0], parts[1], parts[2], parts[3], resonances[r]):
            j = Fraction(p["spin"])
            projections.append(str(-j + rng.randint(0, int(2 * j))))
        out.append({"spectator": spect, "resonance": r, "interactions": inter, "projections": projections})
    return {"ids": ids, "parts": [parts[i] for i in range(4)], "resonances": resonances, "transitions": out, "equal": list(equal)}


def make_transition(spec, t):
    from qrules.quantum_numbers import InteractionProperties
    from qrules.topology import FrozenTransition
    from qrules.transition import State

    ids = spec["ids"]
    pair = [x for x in (1, 2, 3) if x != t["spectator"]]
    top = make_topology(isobar_edges(ids[t["spectator"]], [ids[p] for p in pair], ids[4], ids[0]))
    parts = [*spec["parts"], spec["resonances"][t["resonance"]]]
    states = {ids[x]: State(qr_particle(parts[x]), Fraction(t["projections"][x])) for x in range(5)}
    inter = {
        n: InteractionProperties() if ls is None else InteractionProperties(
            l_magnitude=ls[0], l_projection=0, s_magnitude=Fraction(ls[1]), s_projection=0)
        for n, ls in enumerate(t["interactions"])
    }
    return FrozenTransition(top, states, inter)


def expected_chain(spec, t):
    """(resonance name, spectator, decay products, production LS, decay LS) after normalisation."""
    pair = tuple(x for x in (1, 2, 3) if x != t["spectator"])
    f = lambda ls: None if ls is None else (ls[0], Fraction(ls[1]))  # noqa: E731
    return (t["resonance"], t["spectator"], pair, f(t["interactions"][0]), f(t["interactions"][1]))
