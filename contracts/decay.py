"""C07 and C08: data structures of a three-body decay (modules ``decay`` and ``_attrs``)."""
from __future__ import annotations

import sympy as sp
import z3
from contracts import symbolic as Y
from pyvc import compare as K
from pyvc import values as V
from pyvc.compare import Differ, require, same, verify
from pyvc.engine import num_term, z_is_int
from pyvc.interp import Interp
from pyvc.values import Base, Obj, Seg, VSeq, number, string

ORDERS = [(0, 1, 2, 3), (1, 0, 3, 2), (3, 2, 1, 0)]


def get(m, obj, name):
    return m.getattr(obj, name)


# ------------------------------------------------------------------ C08: chains
def prove_accessors(ctx):
    from ampform_dpd import decay as D

    def one_chain(m):
        states = {i: Y.state(m, i) for i in (0, 1, 2, 3)}
        return [Y.chain(m, "chain;", states)], {}

    def wanted(m, c, name):
        """The accessor ``name`` of the chain, from its nodes."""
        states = c.lazy.states
        prod = m.getattr(c, "decay")
        dec = Obj("chain;.decay", D.IsobarNode)
        dec.lazy = c.lazy
        if name == "decay_products":
            k = m.choose([1, 2, 3], "chain;.k")
            i, j = Y.PAIR[k]
            swap = m.choose([False, True], "chain;.swap-decay")
            return (states[j], states[i]) if swap else (states[i], states[j])
        return {
            "parent": lambda: states[0], "initial_state": lambda: states[0], "production_node": lambda: prod, "decay_node": lambda: dec,
            "resonance": lambda: m.getattr(dec, "parent"), "spectator": lambda: states[m.choose([1, 2, 3], "chain;.k")],
            "final_state": lambda: (states[1], states[2], states[3]),
            "incoming_ls": lambda: m.getattr(prod, "interaction"), "outgoing_ls": lambda: m.getattr(dec, "interaction"),
        }[name]()

    for acc in ("parent", "initial_state", "production_node", "decay_node", "resonance", "spectator", "decay_products", "final_state",
                "incoming_ls", "outgoing_ls"):
        def accessor_post(m, kind, val, args, kwargs, acc=acc):
            if kind != "return":
                raise Differ(f"raises {val!r}", m.model())
            same(m, val, wanted(m, args[0], acc), acc)

        verify(ctx, "ensures: as given by the nodes, in either order of the children", D.ThreeBodyDecayChain, one_chain, post=accessor_post,
               name=f"decay.ThreeBodyDecayChain.{acc}", invoke=lambda m, a, k, acc=acc: get(m, a[0], acc))
    verify(ctx, "ensures: the two children in order", D.IsobarNode, one_chain, name="decay.IsobarNode.children",
           invoke=lambda m, a, k: get(m, get(m, a[0], "decay"), "children"),
           post=lambda m, kind, v, a, k: same(m, v, (get(m, get(m, a[0], "decay"), "child1"), get(m, get(m, a[0], "decay"), "child2"))))

    def product_ids(k):
        if k == 1:
            return (2, 3)
        if k == 2:
            return (3, 1)
        if k == 3:
            return (1, 2)
        raise ValueError

    def any_int(m):
        return [number("k", "int", int)], {}

    verify(ctx, "ensures: (i, j) with (i, j, k) cyclic, else ValueError", D.get_decay_product_ids, any_int, spec=product_ids)

    # ---- decays
    for order in ORDERS:
        def inputs(m, order=order):
            return [Y.decay(m, order)], {}

        def post(m, kind, val, args, kwargs, order=order):
            d = args[0]
            want = {i: d.states[i] for i in order if i != 0}
            same(m, val, want, "final_state")
            keys = m.flat(val)
            if keys is not None and list(keys) != list(want):
                raise Differ(f"order of the final state {keys}", m.model())

        verify(ctx, f"ensures: states 1, 2, 3 by ID in the order of the states [{order}]", D.ThreeBodyDecay, inputs, post=post,
               name="decay.ThreeBodyDecay.final_state", invoke=lambda m, a, k: get(m, a[0], "final_state"))
        verify(ctx, f"ensures: state 0 [{order}]", D.ThreeBodyDecay, inputs, name="decay.ThreeBodyDecay.initial_state",
               invoke=lambda m, a, k: get(m, a[0], "initial_state"),
               post=lambda m, kind, v, a, k: same(m, v, a[0].states[0]))

    def find_spec(decay, name):
        hits = [c for c in decay.chains if c.resonance.name == name]
        for c in hits:
            return c
        raise KeyError

    verify(ctx, "ensures: the first chain with that resonance name, else KeyError", D.ThreeBodyDecay.find_chain,
           lambda m: ([Y.decay(m), string("name")], {}), spec=find_spec)

    def subsystem_spec(decay, k):
        return [c for c in decay.chains if c.spectator.index == k]

    def subsystem_post(m, kind, val, args, kwargs):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        d, k = args
        events = list(m.events.items)
        want = m.call(subsystem_spec, [d, k])
        same(m, m.getattr(val, "states"), d.states, "states")
        chains = m.getattr(val, "chains")
        if m.type_of(chains) is not tuple:
            raise Differ(f"chains is a {m.type_of(chains)}", m.model())
        K.same_items(m, K.items(m, chains), K.items(m, want), "chains")
        empty = not m.nonempty(want)
        warned = any(isinstance(e, tuple) and e[0] == "warn" for e in events)
        if empty != warned:
            raise Differ(f"{'a' if warned else 'no'} warning for {'an empty' if empty else 'a non-empty'} subsystem", m.model())

    def sub_inputs(m):
        return [Y.decay(m), m.choose([1, 2, 3], "k")], {}

    verify(ctx, "ensures: exactly the chains with spectator k in order, same states, warning iff none", D.ThreeBodyDecay.get_subsystem,
           sub_inputs, post=subsystem_post)

    def ids_spec(decay):
        return {k for k in (1, 2, 3) if any(c.spectator.index == k for c in decay.chains)}

    verify(ctx, "ensures: the spectators of the chains", D._get_subsystem_ids, lambda m: ([Y.decay(m)], {}), spec=ids_spec)

    def to_particle_inputs(m):
        states = {i: Y.state(m, i) for i in (0, 1, 2, 3)}
        c = Y.chain(m, "chain;", states)
        kind = m.choose(["production", "decay", "state", "particle"], "argument")
        prod = m.getattr(c, "decay")
        if kind == "production":
            return [prod], {}
        if kind == "decay":
            return [m.getattr(c, "decay_node")], {}
        return [states[1] if kind == "state" else Y.particle(m, "p")], {}

    def to_particle_spec(x):
        return x.parent if isinstance(x, D.IsobarNode) else x

    verify(ctx, "ensures: the parent of a node, else the particle itself", D.to_particle, to_particle_inputs, spec=to_particle_spec)


# ------------------------------------------------------------------ C07
class ForeignBase(Base):
    """Arbitrary well-formed chains, whose states need not be those of any decay."""

    def make(self, m, tag):
        states = {}
        for i in (0, 1, 2, 3):
            states[i] = Y.state(m, i, tag=f"{tag}.s{i}", index=number(f"{tag}.id{i}", "int", int))
        terms = [num_term(states[i].index) for i in states]
        m.assume(z3.Distinct(*terms))
        return Y.chain(m, tag, states, ls=(None,))


def prove_wellformed(ctx):
    from decimal import Decimal

    from ampform_dpd import decay as D

    # ---- spins
    def is_spin(m, x):
        return z_is_int(2 * x)

    for cls in (D.Particle, D.State, D.LSCoupling):
        field = "S" if cls is D.LSCoupling else "spin"
        for typ in (sp.Rational, float):
            def inputs(m, cls=cls, typ=typ):
                q = number(f"q:{typ.__name__}", "rat" if typ is sp.Rational else "real", typ)
                if cls is D.LSCoupling:
                    L = number("L", "int", int)
                    m.assume(num_term(L) >= 0)
                    return [L, q], {}
                kw = dict(name=string("name"), latex=string("latex"), spin=q, parity=number("parity", "int", int),
                          mass=number("mass", "real", float), width=number("width", "real", float))
                if cls is D.State:
                    kw["index"] = number("index", "int", int)
                return [], kw

            def post(m, kind, val, args, kwargs, cls=cls, field=field):
                q = args[1] if cls is D.LSCoupling else kwargs["spin"]
                if kind == "raise":
                    if not isinstance(val, ValueError):
                        raise Differ(f"raises {val!r}", m.model())
                    require(m, z3.Not(is_spin(m, q)), "rejected although the spin is (half-)integer")
                    return
                require(m, is_spin(m, q), "accepted although the spin is neither integer nor half-integer")
                same(m, getattr(val, field), q, field)
                if not m.isinstance(getattr(val, field), sp.Rational):
                    raise Differ(f"{field} is not a Rational", m.model())
                want = dict(L=args[0]) if cls is D.LSCoupling else {k: v for k, v in kwargs.items() if k != "spin"}
                for k, v in want.items():
                    same(m, getattr(val, k), v, k)

            verify(ctx, f"ensures: accepted iff 2*spin is an integer, fields as given [{typ.__name__}]", cls, inputs, post=post,
                   name=f"decay.{cls.__name__}")

    # ---- chains: every shape of the nodes, every combination of IDs
    KINDS = ["state", "particle", "isobar"]

    def any_state(m, tag):
        return Y.state(m, 0, tag=tag, index=number(f"{tag}.index", "int", int))

    def child(m, tag, kinds, deep):
        kind = m.choose(kinds, tag)
        if kind == "state":
            return any_state(m, tag)
        if kind == "particle":
            return Y.particle(m, tag)
        sub = KINDS if deep else ["state"]
        return Y.native(D.IsobarNode, parent=Y.particle(m, f"{tag}.R"), child1=child(m, f"{tag}1", sub, False),
                        child2=child(m, f"{tag}2", sub, False), interaction=None)

    def node_inputs(m):
        parent = any_state(m, "P") if m.choose(["state", "particle"], "P") == "state" else Y.particle(m, "P")
        prod = Y.native(D.IsobarNode, parent=parent, child1=child(m, "A", KINDS, True), child2=child(m, "B", KINDS, True), interaction=None)
        return [prod], {}

    def chain_post(m, kind, val, args, kwargs):
        prod = args[0]
        kids = (prod.child1, prod.child2)
        isobars = [x for x in kids if isinstance(x, D.IsobarNode)]
        finals = [x for x in kids if isinstance(x, D.State)]
        ok = isinstance(prod.parent, D.State) and len(isobars) == 1 and len(finals) == 1
        if ok:
            products = (isobars[0].child1, isobars[0].child2)
            ok = all(isinstance(x, D.State) for x in products)
        if not ok:
            if kind != "raise":
                raise Differ("an ill-formed chain is accepted", m.model())
            return
        ids = [num_term(s.index) for s in (prod.parent, *finals, *products)]
        if kind == "raise":
            if not isinstance(val, ValueError):
                raise Differ(f"raises {val!r}", m.model())
            require(m, z3.Not(z3.Distinct(*ids)), "rejected although the four IDs differ")
        else:
            require(m, z3.Distinct(*ids), "accepted although IDs are repeated")
            if m.getattr(val, "decay") is not prod:
                raise Differ("another production node", m.model())

    verify(ctx, "ensures: accepted iff one isobar and one final state, all outer particles indexed states, four different IDs",
           D.ThreeBodyDecayChain, node_inputs, post=chain_post, name="decay.ThreeBodyDecayChain.__attrs_post_init__")

    def not_node(m):
        return [m.choose([lambda: string("text"), lambda: None, lambda: any_state(m, "s"), lambda: Y.particle(m, "p")], "argument")()], {}

    def must_raise(m, kind, val, args, kwargs):
        if kind != "raise":
            raise Differ("accepted", m.model())

    verify(ctx, "ensures: only nodes are accepted", D.ThreeBodyDecayChain, not_node, post=must_raise, name="decay.ThreeBodyDecayChain")

    # ---- LS couplings of nodes
    def ls_inputs(m):
        L, q = number("L", "int", int), number("q", "half", sp.Rational)
        kind = m.choose(["none", "coupling", "tuple", "list"], "interaction")
        x = {"none": None, "coupling": Y.native(D.LSCoupling, L=L, S=q), "tuple": (L, q), "list": V.VList([L, q])}[kind]
        return [Y.particle(m, "R"), any_state(m, "a"), any_state(m, "b"), x], {}

    def ls_post(m, kind, val, args, kwargs):
        x = args[3]
        if isinstance(x, V.VList):
            if kind != "raise" or not isinstance(val, TypeError):
                raise Differ("accepts an interaction that is no LS coupling", m.model())
            return
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        for n, w in zip(("parent", "child1", "child2"), args):
            same(m, getattr(val, n), w, n)
        if x is None:
            if val.interaction is not None:
                raise Differ("an interaction", m.model())
            return
        L, q = x if isinstance(x, tuple) else (x.L, x.S)
        if not isinstance(val.interaction, D.LSCoupling):
            raise Differ(f"interaction {val.interaction!r}", m.model())
        same(m, val.interaction.L, L, "L")
        same(m, val.interaction.S, q, "S")

    verify(ctx, "ensures: parent, children and LS coupling as given", D.IsobarNode, ls_inputs, post=ls_post, name="decay.IsobarNode")

    # ---- decays
    def decay_inputs(m):
        states = {i: Y.state(m, i) for i in (0, 1, 2, 3)}
        typ = m.choose([tuple, list], "container")
        return [states, VSeq([Seg(ForeignBase("given", None))], pytype=typ)], {}

    def decay_spec(states, chains):
        for c in chains:
            if c.parent != states[0]:
                raise ValueError
            if {c.spectator, *c.decay_products} != {states[1], states[2], states[3]}:
                raise ValueError

    def outcome_only(m, a, b):
        return

    def decay_post(m, kind, val, args, kwargs):
        if kind != "return":
            return
        same(m, m.getattr(val, "states"), args[0], "states")
        chains = m.getattr(val, "chains")
        if m.type_of(chains) is not tuple:
            raise Differ("chains is not a tuple", m.model())
        K.same_items(m, K.items(m, chains), args[1].items, "chains")

    verify(ctx, "ensures: accepted iff every chain has the initial and exactly the final state of the decay", D.ThreeBodyDecay, decay_inputs,
           spec=decay_spec, post=decay_post, compare=outcome_only, name="decay.ThreeBodyDecay.__attrs_post_init__")
