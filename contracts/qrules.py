"""C18-C21: the QRules adapter (module ``adapter.qrules``)."""
from __future__ import annotations

import logging

import sympy as sp
import z3
from contracts import symbolic as Y
from pyvc import compare as K
from pyvc import values as V
from pyvc.compare import Differ, require, same, verify
from pyvc.engine import num_term
from pyvc.values import Base, Obj, Seg, VDict, VSeq, VSet, number, string

logging.getLogger("ampform_dpd.adapter.qrules").setLevel(logging.ERROR)
PAIR = {1: (2, 3), 2: (1, 3), 3: (1, 2)}


# ------------------------------------------------------------------ inputs
def optional(m, value, tag):
    return None if m.choose([False, True], f"{tag} undefined") else value


def qr_particle(m, tag, undefined=True):
    """An arbitrary particle of QRules."""
    from fractions import Fraction

    from qrules.particle import Particle
    from qrules.quantum_numbers import Parity

    f = Y.particle_fields(m, tag)
    parity = Y.native(Parity, **{"value": f["parity"]})
    other = {n: number(f"{tag}.{n}", "int", int)
             for n in ("strangeness", "charmness", "bottomness", "topness", "baryon_number", "electron_lepton_number",
                       "muon_lepton_number", "tau_lepton_number")}
    return Y.native(
        Particle, **other, isospin=None, c_parity=None, g_parity=None, name=f["name"], pid=number(f"{tag}.pid", "int", int), latex=optional(m, f["latex"], f"{tag}.latex") if undefined else f["latex"],
        spin=V.typed(f["spin"], Fraction), mass=f["mass"], width=f["width"], charge=number(f"{tag}.charge", "int", int),
        parity=optional(m, parity, f"{tag}.parity") if undefined else parity)


def own_particle(m, tag, undefined=True):
    from ampform_dpd.decay import Particle

    f = Y.particle_fields(m, tag)
    if undefined:
        f["parity"] = optional(m, f["parity"], f"{tag}.parity")
    return Y.native(Particle, **f)


def own_state(m, tag, index, undefined=True):
    from ampform_dpd.decay import State

    f = Y.particle_fields(m, tag)
    if undefined:
        f["parity"] = optional(m, f["parity"], f"{tag}.parity")
    return Y.native(State, **f, index=index)


def qr_state(m, tag, **kw):
    from fractions import Fraction

    from qrules.transition import State

    return Y.native(State, particle=qr_particle(m, tag, **kw), spin_projection=number(f"{tag}.projection", "half", Fraction))


def interaction(m, tag):
    """Interaction properties, with or without LS couplings."""
    from fractions import Fraction

    from qrules.quantum_numbers import InteractionProperties

    ls = Y.coupling(m, tag)
    return Y.native(InteractionProperties, l_magnitude=optional(m, ls.L, f"{tag}.L"), l_projection=0,
                    s_magnitude=optional(m, V.typed(ls.S, Fraction), f"{tag}.S"), s_projection=0, parity_prefactor=None)


def topology(spectator, resonance=4, initial=0, ids=(0, 1, 2, 3)):
    """The isobar topology of a three-body decay."""
    from qrules.topology import Edge, Topology

    i, j = PAIR[spectator]
    return Topology(nodes={0, 1}, edges={ids[0]: Edge(None, 0), resonance: Edge(0, 1), ids[spectator]: Edge(0, None),
                                         ids[i]: Edge(1, None), ids[j]: Edge(1, None)})


def transition(top, states, interactions):
    from qrules.topology import FrozenDict, FrozenTransition

    return Y.native(FrozenTransition, topology=top, states=FrozenDict(states), interactions=FrozenDict(interactions))


# ------------------------------------------------------------------ conversion: specification
def particle_spec(p):
    """The particle with unchanged properties."""
    from ampform_dpd.decay import Particle

    parity = None if p.parity is None else int(p.parity)
    return Particle(name=p.name, latex=p.name if p.latex is None else p.latex, spin=p.spin, parity=parity, mass=p.mass, width=p.width)


def state_spec(p, index):
    from ampform_dpd.decay import State

    parity = None if p.parity is None else int(p.parity)
    return State(name=p.name, latex=p.name if p.latex is None else p.latex, spin=p.spin, parity=parity, mass=p.mass, width=p.width, index=index)


def ls_spec(node):
    from ampform_dpd.decay import LSCoupling

    if node is None or isinstance(node, LSCoupling):
        return node
    if node.l_magnitude is None or node.s_magnitude is None:
        return None
    return LSCoupling(node.l_magnitude, node.s_magnitude)


def bare(s):
    """The particle of a state of QRules."""
    return s.particle if hasattr(s, "particle") else s


def chain_spec(t, spectator):
    from ampform_dpd.decay import IsobarNode, ThreeBodyDecayChain

    i, j = PAIR[spectator]
    return ThreeBodyDecayChain(
        decay=IsobarNode(
            parent=t.states[0],
            child1=IsobarNode(parent=t.states[4], child1=t.states[i], child2=t.states[j], interaction=t.interactions[1]),
            child2=t.states[spectator],
            interaction=t.interactions[0],
        )
    )


# ------------------------------------------------------------------ conversion: obligations
def prove_conversion(ctx):
    import ampform_dpd.adapter.qrules as Q

    def single(spectator, undefined, ids=(0, 1, 2, 3, 4)):
        """One transition of QRules with the given IDs (initial, final, resonance)."""
        def inputs(m):
            states = {ids[i]: qr_state(m, f"s{i}", undefined=i in undefined) for i in (0, 1, 2, 3, 4)}
            inter = {n: interaction(m, f"node{n}") for n in (0, 1)}
            return [[transition(topology(spectator, resonance=ids[4], ids=ids[:4]), states, inter)]], {}

        return inputs

    def convert_spec(ts):
        (t,) = ts
        from qrules.topology import FrozenTransition

        return (FrozenTransition(
            t.topology,
            states={i: particle_spec(bare(s)) if i == max(t.states) else state_spec(bare(s), i) for i, s in t.states.items()},
            interactions={n: ls_spec(x) for n, x in t.interactions.items()}),)

    for k in (1, 2, 3):
        for undefined in ((0, 4), (1, 2), (3,)):
            verify(ctx, f"ensures: states and couplings of the transition without projections [spectator {k}, undefined properties of {undefined}]",
                   Q.convert_transitions, single(k, undefined), spec=convert_spec)
    for ids in ((-1, 0, 1, 2, 3), (-7, -3, 2, 5, 11)):
        verify(ctx, f"ensures: states and couplings under their own IDs [IDs {ids}]", Q.convert_transitions, single(2, (), ids), spec=convert_spec)


class Transitions(Base):
    """Any number of transitions with the same initial and final states."""

    def __init__(self, name, outer, ids=(0, 1, 2, 3, 4)):
        super().__init__(name, None)
        self.outer, self.ids = outer, ids

    def make(self, m, tag):
        k = m.choose([1, 2, 3], f"{tag}.spectator")
        states = {**self.outer, 4: qr_state(m, f"{tag}.R", undefined=False)}
        top = topology(k, resonance=self.ids[4], ids=self.ids[:4])
        return transition(top, {self.ids[i]: s for i, s in states.items()}, {n: interaction(m, f"{tag}.node{n}") for n in (0, 1)})


def outer_states(m):
    return {i: qr_state(m, f"s{i}", undefined=False) for i in (0, 1, 2, 3)}


def many(m):
    outer = outer_states(m)
    typ = m.choose([list, tuple], "container")
    return [VSeq([Seg(Transitions("transitions", outer))], pytype=typ)], {}


def prove_many(ctx):
    import ampform_dpd.adapter.qrules as Q
    from qrules.topology import FrozenTransition

    def one(t):
        return FrozenTransition(
            t.topology,
            states={i: particle_spec(bare(s)) if i == 4 else state_spec(bare(s), i) for i, s in t.states.items()},
            interactions={n: ls_spec(x) for n, x in t.interactions.items()})

    def all_spec(ts):
        return tuple(sorted({one(t) for t in ts}))

    verify(ctx, "ensures: the sorted set of the converted transitions", Q.convert_transitions, many, spec=all_spec)



def hidden(cls, tag):
    def lazy(m, obj, field):
        raise V.Unsupported(f"read of {field} of {obj.name} (the conversion is under contract)")

    x = Obj(tag, cls)
    x.lazy = lazy
    return x


class Hidden(Transitions):
    """Transitions of which only the topology is visible (states and couplings: contract of the conversion)."""

    def make(self, m, tag):
        k = self.outer  # any
        from qrules.quantum_numbers import InteractionProperties
        from qrules.transition import State

        return transition(topology(k, resonance=self.ids[4], ids=self.ids[:4]), {i: hidden(State, f"{tag}.state{i}") for i in self.ids},
                          {n: hidden(InteractionProperties, f"{tag}.node{n}") for n in (0, 1)})


class Converted(Base):
    """Any number of converted transitions with the same initial and final states."""

    def __init__(self, name, outer, ls):
        super().__init__(name, None, distinct=True)
        self.outer, self.ls = outer, ls

    def same_as(self, m, other, what):
        if self.name != other.name:
            raise Differ(f"{what}: {self.name} instead of {other.name}", m.model())

    def make(self, m, tag):
        k = m.choose([1, 2, 3], f"{tag}.spectator")
        inter = {n: m.choose(self.ls, f"{tag}.node{n}") and Y.coupling(m, f"{tag}.node{n}") for n in (0, 1)}
        return transition(topology(k), {**self.outer, 4: Y.particle(m, f"{tag}.R")}, inter)

    def retagged(self, old, new):
        return self


def chain_of(t):
    """The chain of a converted transition."""
    if 1 in t.topology.get_edge_ids_outgoing_from_node(0):
        return chain_spec(t, 1)
    if 2 in t.topology.get_edge_ids_outgoing_from_node(0):
        return chain_spec(t, 2)
    return chain_spec(t, 3)


def is_same(m, a, b):
    """Are the two sequences known to be the same?"""
    try:
        K.same_items(m, K.items(m, a), K.items(m, b), "argument")
    except Differ:
        return False
    return True


def prove_decay(ctx):
    for n, ids in enumerate(((0, 1, 2, 3, 4), (-1, 0, 1, 2, 3), (1, 2, 3, 4, 5), (0, 1, 2, 4, 7))):
        for l, min_ls in enumerate((None, False, True, (False, False), (True, False), (False, True), (True, True))):
            decay_clause(ctx, min_ls, ids, [True, None] if l == n == 0 else [True] if (l + n) % 2 else [None], 1 + (l + n) % 3)


def decay_clause(ctx, min_ls, ids, ls, spectator):
    """One chain per selected transition; the conversion and the filter are under contract."""
    import ampform_dpd.adapter.qrules as Q

    def given(m, ts, cls):
        src = K.items(m, ts)
        if len(src) != 1 or not isinstance(src[0], Seg) or type(src[0].base) is not cls:
            raise V.Unsupported("the transitions are not those expected by the contract")
        return src[0].base

    results = {}

    def as_many(m, base, name):
        """The same sequence for the same arguments."""
        if name not in results:
            results[name] = Converted(name, {i: Y.state(m, i) for i in (0, 1, 2, 3)}, ls)
        out = results[name]
        m.assume((num_term(out.length) > 0) == (num_term(base.length) > 0))
        return VSeq([Seg(out)], pytype=tuple)

    def convert(m, ts):
        """Contract (proved above): the distinct converted transitions, so none iff there are none."""
        base = given(m, ts, Hidden)
        return as_many(m, base, f"converted {base.name}")

    def filtered(m, ts, node_ids=None):
        """Contract (C19): one transition per group, so none iff there are none."""
        base = given(m, ts, Converted)
        selected = None if node_ids is None else m.flat(node_ids)
        if selected is None and node_ids is not None or selected is not None and any(not isinstance(i, int) for i in selected):
            raise V.Unsupported("unknown node IDs")
        return as_many(m, base, f"filtered {[0, 1] if selected is None else sorted(selected)} {base.name}")

    def normalized(m, ts):
        base = given(m, ts, Hidden)
        name = f"normalised {base.name}"
        return V.VList([Seg(results.setdefault(name, Hidden(name, base.outer)))])

    def inputs(m):
        results.clear()
        return [VSeq([Seg(Hidden("transitions", spectator, ids))], pytype=list)], {} if min_ls is None else {"min_ls": min_ls}

    def spec(ts, min_ls=None):
        from ampform_dpd.decay import ThreeBodyDecay

        if not ts:
            raise ValueError
        if ids[:4] != (0, 1, 2, 3):
            ts = Q.normalize_state_ids(ts)
        converted = Q.convert_transitions(ts)
        if min_ls is True:
            converted = Q.filter_min_ls(converted, {0, 1})
        elif min_ls:
            converted = Q.filter_min_ls(converted, {n for n in (0, 1) if min_ls[n]})
        states = converted[0].states
        return ThreeBodyDecay(states={i: states[i] for i in (0, 1, 2, 3)}, chains=tuple(sorted(chain_of(t) for t in converted)))

    verify(ctx, f"ensures: states, and one chain per selected transition, else ValueError [min_ls {min_ls}, IDs {ids}, couplings {ls}]",
           Q.to_three_body_decay, inputs, spec=spec,
           contracts={Q.convert_transitions: convert, Q.filter_min_ls: filtered, Q.normalize_state_ids: normalized})


def same_chain(a, b):
    return chain_of(a) == chain_of(b)


def same_transition(a, b):
    return a == b


def prove_injective(ctx):
    """Lemma: distinct converted transitions (of the same states) have distinct chains, equal ones equal chains."""

    def two(m):
        base = Converted("converted", {i: Y.state(m, i) for i in (0, 1, 2, 3)}, [True, None])
        return [base.make(m, "a"), base.make(m, "b")], {}

    verify(ctx, "lemma: chains are equal iff the converted transitions are", same_chain, two, spec=same_transition, name="adapter.qrules._to_decay_chain")


# ------------------------------------------------------------------ C18: normalisation of state IDs
class Edges(Base):
    """Any number of edges with distinct IDs: the items of the mapping ``topology.edges``."""

    def __init__(self, name):
        super().__init__(name, None, distinct=True)

    def make(self, m, tag):
        return ("set", number(f"{tag}.id", "int", int), Obj(f"{tag}.edge"))

    def retagged(self, old, new):
        return self


def generic_topology(name="topology"):
    from qrules.topology import FrozenDict, Topology

    edges = VDict([Seg(Edges(f"{name}.edges"))])
    edges.pytype = FrozenDict
    return Obj(name, Topology, {"edges": edges, "nodes": Obj(f"{name}.nodes", frozenset)})


def generic_states(name, partial):
    """State of each edge ID; for a mutable transition some are missing."""
    def state(m, key):
        from pyvc.interp import MISSING

        if partial and m.choose([False, True], f"{name} of {key} missing"):
            return MISSING
        return Obj(f"{name} of {key}")

    return VDict(base=state)


class Members(Base):
    """Any number of objects that can be normalised."""

    def __init__(self, name, kinds):
        super().__init__(name, None)
        self.kinds = kinds

    def make(self, m, tag):
        x = Obj(tag, m.choose(self.kinds, f"{tag}.type"))
        x.member = True
        return x

    def retagged(self, old, new):
        return type(self)(self.name.replace(old, new), self.kinds)

    def same_as(self, m, other, what):
        if self.name != other.name:
            raise Differ(f"{what}: {self.name} instead of {other.name}", m.model())


class Record(Obj):
    """What a constructor of qrules was given."""


def record(cls):
    def make(m, **fields):
        return Record("record", cls, fields)

    return make


def same_record(m, a, b):
    if not isinstance(a, Record) or not isinstance(b, Record):
        return same(m, a, b)
    if a.cls is not b.cls:
        raise Differ(f"a {a.cls.__name__} instead of a {b.cls.__name__}", m.model())
    if set(a.attrs) != set(b.attrs):
        raise Differ(f"fields {sorted(a.attrs)} instead of {sorted(b.attrs)}")
    for k in b.attrs:
        if isinstance(b.attrs[k], Record):
            same_record(m, a.attrs[k], b.attrs[k])
        else:
            same(m, a.attrs[k], b.attrs[k], k)


def prove_normalize(ctx):
    import types

    import ampform_dpd.adapter.qrules as Q
    import attrs
    from qrules.topology import FrozenTransition, MutableTransition, Topology
    from qrules.transition import ProblemSet, ReactionInfo

    ctx.assume("qrules: Topology.relabel_edges(mapping) relabels the edges by a mapping that is defined for all of them and keeps edges and nodes")
    ctx.assume("qrules: constructors and attrs.evolve of Topology, FrozenTransition, MutableTransition, ProblemSet and ReactionInfo keep the values"
               " that they are given")

    def relabel(m, top, mapping):
        return Record("record", Topology, {"relabelled": top, "mapping": mapping})

    def evolve(m, obj, **changes):
        return Record("record", obj.cls, {**obj.attrs, **changes})

    def normalize(m, obj):
        if getattr(obj, "member", False):
            return Obj(f"normalised({obj.name})", obj.cls)
        return m.call(Q._impl_normalize_state_ids.dispatch(m.type_of(obj)), [obj])

    contracts = {Topology.relabel_edges: relabel, attrs.evolve: evolve}
    contracts |= {c: record(c) for c in (FrozenTransition, MutableTransition, ProblemSet, ReactionInfo)}
    if hasattr(Q, "_impl_normalize_state_ids"):
        contracts[Q._impl_normalize_state_ids] = normalize

    def rank_of(top):
        return {old: new for new, old in enumerate(sorted(top.edges))}

    def topology_spec(top):
        return top.relabel_edges(rank_of(top))

    verify(ctx, "ensures: edges relabelled by their rank, any number of edges", Q.normalize_state_ids, lambda m: ([generic_topology()], {}),
           spec=topology_spec, contracts=contracts, compare=same_record)

    for cls in (FrozenTransition, MutableTransition):
        def inputs(m, cls=cls):
            return [Obj("transition", cls, {"topology": generic_topology(), "states": generic_states("state", cls is MutableTransition),
                                            "interactions": Obj("interactions", dict)})], {}

        def spec(t, cls=cls):
            return cls(topology=topology_spec(t.topology),
                       states={new: t.states[old] for new, old in enumerate(sorted(t.topology.edges)) if old in t.states},
                       interactions=t.interactions)

        verify(ctx, f"ensures: each state moves along with its ID, interactions kept, any number of edges [{cls.__name__}]", Q.normalize_state_ids,
               inputs, spec=spec, contracts=contracts, compare=same_record)

    def problem(m):
        parts = {n: Obj(n, c) for n, c in (("initial_facts", MutableTransition), ("solving_settings", MutableTransition), ("topology", Topology))}
        for p in parts.values():
            p.member = True
        return [Obj("problem", ProblemSet, parts)], {}

    verify(ctx, "ensures: a problem set of the normalised parts", Q.normalize_state_ids, problem, contracts=contracts, compare=same_record,
           spec=lambda p: ProblemSet(initial_facts=Q.normalize_state_ids(p.initial_facts),
                                     solving_settings=Q.normalize_state_ids(p.solving_settings), topology=Q.normalize_state_ids(p.topology)))

    def reaction(m):
        ts = VSeq([Seg(Members("transitions", [FrozenTransition]))], pytype=tuple)
        return [Obj("reaction", ReactionInfo, {"transitions": ts, "formalism": string("formalism")})], {}

    def reaction_spec(r):
        return ReactionInfo(transitions=[Q.normalize_state_ids(t) for t in r.transitions], formalism=r.formalism)

    verify(ctx, "ensures: a reaction of the normalised transitions, any number of them", Q.normalize_state_ids, reaction, spec=reaction_spec,
           contracts=contracts, compare=same_record)

    def collection(m):
        typ = m.choose([list, tuple, types.GeneratorType], "container")
        m.member_items = [Seg(Members("members", [FrozenTransition, MutableTransition, Topology, ProblemSet, ReactionInfo, list, tuple]))]
        return [VSeq(list(m.member_items), pytype=typ)], {}

    def collection_spec(xs):
        return [Q.normalize_state_ids(x) for x in xs]

    def collection_post(m, kind, val, args, kwargs):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        same(m, val, m.call(collection_spec, [VSeq(m.member_items, pytype=tuple)]), "members")

    verify(ctx, "ensures: the list of the normalised members in order, any number of them", Q.normalize_state_ids, collection,
           post=collection_post, contracts=contracts)

    prove_idempotence(ctx)

    def unsupported(x):
        raise NotImplementedError

    class Other:
        pass

    verify(ctx, "ensures: NotImplementedError for other types", Q.normalize_state_ids, contracts=contracts, spec=unsupported,
           inputs=lambda m: ([m.choose([1, 2.5, None, True, Other(), sp.Integer(3), Obj("other", Other)], "argument")], {}))


def prove_idempotence(ctx):
    """Normalised IDs in ascending order, a(0) < ... < a(N-1) with values in 0..N-1, are their own ranks: the mapping of a second
    normalisation is the identity (induction over the position, upwards and downwards)."""
    import z3
    from pyvc import smt
    from pyvc.result import PROVED, REFUTED, UNDECIDED

    a, i, n = z3.Function("a", z3.IntSort(), z3.IntSort()), z3.Int("i"), z3.Int("n")
    inside = z3.And(0 <= i, i < n, 0 <= a(i), a(i) < n)
    ascending = z3.Implies(i + 1 < n, a(i) < a(i + 1))
    steps = {
        "a(0) is at least 0": [inside, i == 0, a(i) < i],
        "if a(i) is at least i, a(i+1) is at least i + 1": [inside, ascending, i + 1 < n, a(i) >= i, a(i + 1) < i + 1],
        "a(N-1) is at most N-1": [inside, i == n - 1, a(i) > i],
        "if a(i+1) is at most i + 1, a(i) is at most i": [inside, ascending, i + 1 < n, a(i + 1) <= i + 1, a(i) > i],
    }
    for what, negation in steps.items():
        st, _, dt = smt.check(negation)
        ctx.add(f"lemma: a second normalisation maps every ID to itself: {what}", "lemma", {"unsat": PROVED, "sat": REFUTED}.get(st, UNDECIDED), "z3", dt)


# ------------------------------------------------------------------ C21: permutations of equal final states
def final_states(m, kind):
    make = {"state": lambda t: qr_state(m, t, undefined=False), "particle": lambda t: qr_particle(m, t, undefined=False),
            "own": lambda t: own_particle(m, t, undefined=False)}[kind]
    return {i: make(f"s{i}") for i in (0, 1, 2, 3, 4)}


def name_of(s):
    return bare(s).name


def swapped(t, i, j):
    """The transition with the edges i and j of its topology exchanged."""
    from qrules.topology import FrozenTransition, Topology

    edges = {}
    for k, e in t.topology.edges.items():
        if k == i:
            edges[j] = e
        elif k == j:
            edges[i] = e
        else:
            edges[k] = e
    return FrozenTransition(Topology(nodes=t.topology.nodes, edges=edges), t.states, t.interactions)


def permute_spec(t):
    ids = sorted(t.topology.outgoing_edge_ids)
    pairs = [(i, j) for i in ids for j in ids if i < j and name_of(t.states[i]) == name_of(t.states[j])]
    if not pairs:
        return [t]
    return sorted({t} | {swapped(t, i, j) for i, j in pairs})


def prove_permute(ctx):
    import types

    import ampform_dpd.adapter.qrules as Q
    from qrules.topology import Edge, FrozenTransition, Topology
    from qrules.transition import ReactionInfo

    def one_node(ids):
        return Topology(nodes={0}, edges={ids[0]: Edge(None, 0), **{ids[i]: Edge(0, None) for i in (1, 2, 3)}})

    for ids, kind in (((0, 1, 2, 3, 4), "state"), ((-1, 0, 1, 2, 3), "state"), ((7, 3, 9, 5, 1), "particle"), ((0, 1, 2, 3, 4), "own")):
        def inputs(m, ids=ids, kind=kind):
            k = m.choose([1, 2, 3, None], "spectator")
            states = final_states(m, kind)
            top = one_node(ids) if k is None else topology(k, resonance=ids[4], ids=ids[:4])
            nodes = (0,) if k is None else (0, 1)
            return [transition(top, {ids[i]: s for i, s in states.items() if k is not None or i != 4},
                               {n: Y.coupling(m, f"node{n}") for n in nodes})], {}

        verify(ctx, f"ensures: itself and every exchange of a pair of equal particles, sorted, no duplicates [IDs {ids}, states: {kind}]",
               Q.permute_equal_final_states, inputs, spec=permute_spec)

    # ---- collections
    def permute(m, obj):
        if getattr(obj, "member", False):
            return VSeq([Seg(Members(f"permutations of {obj.name}", [FrozenTransition]))], pytype=list)
        return m.call(Q._impl_permute_equal_final_states.dispatch(m.type_of(obj)), [obj])

    contracts = {ReactionInfo: record(ReactionInfo)}
    if hasattr(Q, "_impl_permute_equal_final_states"):
        contracts[Q._impl_permute_equal_final_states] = permute

    def collection(m):
        typ = m.choose([list, tuple, types.GeneratorType], "container")
        m.member_items = [Seg(Members("members", [FrozenTransition]))]
        return [VSeq(list(m.member_items), pytype=typ)], {}

    def collection_spec(ts):
        return [p for t in ts for p in Q.permute_equal_final_states(t)]

    def collection_post(m, kind, val, args, kwargs):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        same(m, val, m.call(collection_spec, [VSeq(m.member_items, pytype=tuple)]), "permutations")

    verify(ctx, "ensures: the permutations of each transition in order, any number of them", Q.permute_equal_final_states, collection,
           post=collection_post, contracts=contracts)

    def reaction(m):
        ts = VSeq([Seg(Members("transitions", [FrozenTransition]))], pytype=tuple)
        return [Obj("reaction", ReactionInfo, {"transitions": ts, "formalism": string("formalism")})], {}

    def reaction_spec(r):
        return ReactionInfo(transitions=[p for t in r.transitions for p in Q.permute_equal_final_states(t)], formalism=r.formalism)

    verify(ctx, "ensures: the reaction of the permuted transitions, any number of them", Q.permute_equal_final_states, reaction,
           spec=reaction_spec, contracts=contracts, compare=same_record)

    def unsupported(x):
        raise NotImplementedError

    verify(ctx, "ensures: NotImplementedError for other types", Q.permute_equal_final_states, contracts=contracts, spec=unsupported,
           inputs=lambda m: ([m.choose([1, 2.5, None, True, sp.Integer(3)], "argument")], {}))


# ------------------------------------------------------------------ C19: minimal LS couplings
def products_spec(t):
    """Sorted IDs of the decay products of the resonance (the isobar topologies of ``topology``)."""
    for k in (1, 2, 3):
        if k in t.topology.get_edge_ids_outgoing_from_node(0):
            return PAIR[k]


def min_ls_spec(ts, node_ids=None):
    from qrules.topology import FrozenTransition

    ts = tuple(ts)
    if not ts:
        raise ValueError
    selected = {0, 1} if node_ids is None else node_ids
    groups = {}
    for t in ts:
        key = (t.states[4], products_spec(t), tuple(t.interactions[n] for n in (0, 1) if n not in selected))
        groups.setdefault(key, []).append(t)
    out = []
    for group in groups.values():
        first = group[0]
        new = {}
        for n in (0, 1):
            if n not in selected:
                new[n] = first.interactions[n]
            elif any(t.interactions[n] is None for t in group):
                new[n] = None
            else:
                new[n] = min(t.interactions[n] for t in group)
        out.append(FrozenTransition(first.topology, first.states, new))
    return tuple(out)


class Lazy(Converted):
    """The same, of which each attribute is determined where it is read."""

    def __init__(self, name, outer, ls):
        super().__init__(name, outer, ls)
        self.distinct = False

    def make(self, m, tag):
        from qrules.topology import FrozenDict, FrozenTransition

        t = Obj(tag, FrozenTransition, {"states": FrozenDict({**self.outer, 4: Y.particle(m, f"{tag}.R")})})
        t.lazy = LazyTransition(tag, self.ls)
        return t


class LazyTransition:
    def __init__(self, tag, ls):
        self.tag, self.ls = tag, ls

    def retagged(self, r):
        return LazyTransition(r(self.tag), self.ls)

    def __call__(self, m, obj, field):
        from qrules.topology import FrozenDict

        tag = obj.name
        if field == "topology":
            return topology(m.choose([1, 2, 3], f"{tag}.spectator"))
        if field == "interactions":
            return FrozenDict({n: m.choose(self.ls[n], f"{tag}.node{n}") and Y.coupling(m, f"{tag}.node{n}") for n in (0, 1)})
        from pyvc.interp import MISSING

        return MISSING  # attributes of the class


def prove_min_ls(ctx):
    import types

    import ampform_dpd.adapter.qrules as Q

    title = "ensures: per resonance, decay products and couplings of the other nodes, the first transition with the smallest coupling of each selected node"
    maybe = [True, None]
    for ids in (None, set(), {0}, {1}, {0, 1}):
        for typ in (list, tuple, types.GeneratorType):
            def inputs(m, typ=typ, ids=ids):
                base = Lazy("transitions", {i: Y.state(m, i) for i in (0, 1, 2, 3)}, (maybe, maybe))
                m.items = [Seg(base)]
                return [VSeq(list(m.items), pytype=typ)] + ([] if ids is None else [V.VSet(list(ids))]), {}

            def post(m, kind, val, args, kwargs):
                want = outcome(m, min_ls_spec, [VSeq(m.items, pytype=tuple), *args[1:]])
                same_outcome(m, (kind, val), want)

            verify(ctx, f"{title} [node IDs {ids}, {typ.__name__}]", Q.filter_min_ls, inputs, post=post)
    prove_malformed(ctx)


def outcome(m, spec, args):
    return K.outcome(m, spec, args, {})


def same_outcome(m, got, want):
    if got[0] != want[0]:
        raise Differ(f"{K.describe(*got)} instead of {K.describe(*want)}", m.model())
    if got[0] == "raise":
        if not isinstance(got[1], type(want[1])):
            raise Differ(f"raises {got[1]!r} instead of {want[1]!r}", m.model())
        return
    same(m, got[1], want[1], "value")


def prove_malformed(ctx):
    """A malformed transition anywhere in a collection of any length."""
    import ampform_dpd.adapter.qrules as Q
    from qrules.topology import Edge, Topology

    cascade = Topology(nodes={0, 1, 2}, edges={0: Edge(None, 0), 1: Edge(0, None), 5: Edge(0, 1), 2: Edge(1, None), 6: Edge(1, 2),
                                               3: Edge(2, None), 4: Edge(2, None)})
    direct = Topology(nodes={0}, edges={0: Edge(None, 0), 1: Edge(0, None), 2: Edge(0, None), 3: Edge(0, None)})

    def inputs(m, bad):
        outer = {i: Y.state(m, i) for i in (0, 1, 2, 3)}
        around = (([True], [True]),) * 2
        top, nodes = m.choose(bad, "malformed")
        x = transition(top, {i: outer[i] if i in outer else Y.particle(m, f"R{i}") for i in top.edges}, {n: Y.coupling(m, f"node{n}") for n in nodes})
        typ = m.choose([list, tuple], "container")
        ids = m.choose([(), (V.VSet([0]),), (V.VSet([0, 1]),)], "selection")
        return [VSeq([Seg(Lazy("earlier", outer, around[0])), x, Seg(Lazy("later", outer, around[1]))], pytype=typ), *ids], {}

    def post(m, kind, val, args, kwargs):
        if kind != "raise" or not isinstance(val, ValueError):
            raise Differ(f"{K.describe(kind, val)} although a transition is malformed", m.model())

    for what, bad in (("other node IDs than 0 and 1", [(topology(k), ns) for k in (1, 2, 3) for ns in ((0, 1, 2), (2,), (0, 2), (-1, 0, 1))]),
                      ("two resonances", [(cascade, (0, 1))]), ("no resonance", [(direct, (0, 1))])):
        verify(ctx, f"raises ValueError: {what}, in collections of any length", Q.filter_min_ls, lambda m, bad=bad: inputs(m, bad), post=post)
