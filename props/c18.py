from __future__ import annotations

import random

from props import _trans as T

RULE = "random topologies (1-6 edges beyond the initial one), transitions, mutable transitions with missing states, problem sets, reactions and iterables with arbitrary distinct edge IDs"


def prove(ctx):
    from contracts import qrules as C

    C.prove_normalize(ctx)


def cases(ctx):
    for n in range(10000 if ctx.thorough else 1500):
        yield {"seed": ctx.seed * 236887691 + n}


def random_edges(rng):
    """A random cascade: each node splits one edge in two or three."""
    nxt = [0]

    def new():
        nxt[0] += 1
        return nxt[0]

    edges = {0: [None, 0]}
    open_edges = []
    node = 0
    for _ in range(rng.choice([2, 3])):
        e = new()
        edges[e] = [0, None]
        open_edges.append(e)
    for _ in range(rng.randint(0, 2)):
        node += 1
        e = open_edges.pop(rng.randrange(len(open_edges)))
        edges[e][1] = node
        for _ in range(2):
            f = new()
            edges[f] = [node, None]
            open_edges.append(f)
    ids = rng.sample(range(-20, 60), len(edges))
    return {i: tuple(e) for i, e in zip(ids, edges.values())}


def check_topology(got, old):
    order = sorted(old.edges)
    want = {new: old.edges[o] for new, o in enumerate(order)}
    if dict(got.edges) != want or got.nodes != old.nodes:
        return f"topology with edges {dict(old.edges)} is normalised to {dict(got.edges)}"
    return None


def run_case(c):
    import attrs
    from ampform_dpd.adapter.qrules import normalize_state_ids
    from qrules.topology import FrozenTransition, MutableTransition
    from qrules.transition import ProblemSet, ReactionInfo

    rng = random.Random(c["seed"])
    edges = random_edges(rng)
    top = T.make_topology(edges)
    order = sorted(edges)
    got = normalize_state_ids(top)
    msg = check_topology(got, top)
    if msg:
        return msg
    if normalize_state_ids(got) != got:
        return f"normalisation of {edges} is not idempotent"
    keys = list(edges)
    rng.shuffle(keys)
    states = {i: f"state {i}" for i in keys}
    inter = {n: f"node {n}" for n in top.nodes}
    f = FrozenTransition(top, states, inter)
    part = {i: s for i, s in states.items() if rng.random() < 0.6}
    m = MutableTransition(top, dict(part), dict(inter))
    settings = MutableTransition(top, {i: f"set {i}" for i in keys}, {n: f"setting {n}" for n in top.nodes})
    for t in (f, m, settings):
        before = (dict(t.states), t.topology)
        n = normalize_state_ids(t)
        if type(n) is not type(t):
            return f"type changes to {type(n)}"
        if (dict(t.states), t.topology) != before:
            return "the argument is altered"
        msg = check_topology(n.topology, top)
        if msg:
            return msg
        want = {order.index(i): s for i, s in t.states.items()}
        if dict(n.states) != want:
            return f"states {dict(t.states)} of a {type(t).__name__} with edges {order} become {dict(n.states)}"
        if dict(n.interactions) != dict(t.interactions):
            return f"interactions become {dict(n.interactions)}"
        if normalize_state_ids(n) != n:
            return "normalisation is not idempotent"
    ps = normalize_state_ids(ProblemSet(topology=top, initial_facts=m, solving_settings=settings))
    if ps != ProblemSet(topology=got, initial_facts=normalize_state_ids(m), solving_settings=normalize_state_ids(settings)):
        return "problem set is not that of its parts"
    coll = [top, f, m]
    for x in (coll, tuple(coll), iter(coll)):
        r = normalize_state_ids(x)
        if r != [normalize_state_ids(y) for y in coll] or not isinstance(r, list):
            return f"collection is normalised to {r}"
    nested = normalize_state_ids([[top], [f, m]])
    if nested != [[normalize_state_ids(top)], [normalize_state_ids(f), normalize_state_ids(m)]]:
        return "nested collection is wrong"
    spec = T.random_transitions(rng)
    tr = [T.make_transition(spec, t) for t in spec["transitions"]]
    reaction = ReactionInfo(transitions=tr, formalism=rng.choice(["helicity", "canonical-helicity"]))
    r = normalize_state_ids(reaction)
    if r.formalism != reaction.formalism or sorted(map(repr, r.transitions)) != sorted(repr(normalize_state_ids(t)) for t in tr):
        return "transitions or formalism of the reaction are wrong"
    for o, n in ((reaction.initial_state, r.initial_state), (reaction.final_state, r.final_state)):
        if {spec["ids"].index(i): p for i, p in o.items()} != dict(n):
            return f"states of the reaction become {dict(n)}"
    for bad in (1, None, 2.5, object(), lambda: 0):
        try:
            normalize_state_ids(bad)
        except NotImplementedError:
            continue
        return f"{bad!r} is normalised"
    return None
