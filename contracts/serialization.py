"""C22 to C24: serialized amplitude models (modules ``io.serialization``)."""
from __future__ import annotations

import sympy as sp
import z3
from contracts import spin as CS
from contracts import symbolic as Y
from contracts.amplitude import OUTER, HiddenChains, clean_intensity, pool, zeta_contract
from pyvc import compare as K
from pyvc import values as V
from pyvc.compare import Differ, require, same, verify
from pyvc.engine import PyRaise, num_term, z_is_int
from pyvc.values import Base, Obj, Seg, VDict, VSeq, VSet, number, string, unknown_expr

PAIR = {1: (2, 3), 2: (3, 1), 3: (1, 2)}


# ------------------------------------------------------------------ definitions
class Entries:
    """The items of a definition (a mapping), each made where it is read."""

    def __init__(self, fields):
        self.fields = fields

    def retagged(self, r):
        return self

    def item(self, m, obj, key):
        if isinstance(key, str) and not V.tokens(key):
            if key in self.fields:
                v = self.fields[key](m, obj.name)
                if v is not ABSENT:
                    return v
            raise PyRaise(KeyError(key))
        raise V.Unsupported("key of a definition")

    def __call__(self, m, obj, field):
        from pyvc.interp import MISSING

        if field == "get":
            def get(m, args, kwargs):
                key, default = (*args, None)[:2]
                try:
                    return self.item(m, obj, key)
                except PyRaise:
                    return default

            return Obj(f"{obj.name}.get", object, {}, get)
        return MISSING


ABSENT = object()


def record(tag, fields):
    o = Obj(tag, dict)
    o.lazy = Entries(fields)
    return o


def constant(x):
    return lambda m, tag: x


def spin_of(m, tag):
    j = number(f"{tag}.spin", "half", sp.Rational)
    m.assume(num_term(j) >= 0)
    return j


def spin_text(m, tag):
    return V.numeral(spin_of(m, tag), f"{tag}.spin")


STATE = {
    "index": None,
    "name": lambda m, tag: string(f"{tag}.name"),
    "spin": spin_text,
    "mass": lambda m, tag: mass_of(m, tag),
}


def mass_of(m, tag):
    x = number(f"{tag}.mass", "real", float)
    m.assume(num_term(x) >= 0)
    return x


def state_def(i):
    return record(f"s{i}", {**STATE, "index": constant(i)})


def k_of(m, tag):
    return m.choose([1, 2, 3], f"{tag}.k")


def pair_of(m, tag):
    i, j = PAIR[k_of(m, tag)]
    return [j, i] if m.choose([False, True], f"{tag}.pair-swapped") else [i, j]


def production_node(m, tag):
    k, pair = k_of(m, tag), pair_of(m, tag)
    return [k, pair] if m.choose([False, True], f"{tag}.spectator-first") else [pair, k]


def topology_of(m, tag):
    k, pair = k_of(m, tag), pair_of(m, tag)
    return [k, pair] if m.choose([False, True], f"{tag}.topology-swapped") else [pair, k]


def of_chain(f):
    """A field of a part of a chain (``<chain>.<part>``) from the chain."""
    return lambda m, tag: f(m, tag.rpartition(".")[0])


def vertices_of(fields):
    def vertices(m, tag):
        prod = record(f"{tag}.production", {**fields, "node": of_chain(production_node)})
        dec = record(f"{tag}.decay", {**fields, "node": of_chain(pair_of)})
        return [dec, prod] if m.choose([False, True], f"{tag}.decay-first") else [prod, dec]

    return vertices


def chain_def(tag, vertex=None, **more):
    return record(tag, {
        "name": lambda m, t: string(f"{t}.name"),
        "propagators": lambda m, t: [record(f"{t}.propagator", {
            "spin": spin_text, "node": of_chain(pair_of), "parametrization": lambda m, u: string(f"{u}.parametrization")})],
        "vertices": vertices_of(vertex or {}),
        "topology": topology_of,
        **more,
    })


class ChainDefs(Base):
    """Any number of chain definitions."""

    def __init__(self, name="chains", vertex=None, **more):
        super().__init__(name, None)
        self.vertex, self.more = vertex, more

    def make(self, m, tag):
        return chain_def(tag, self.vertex, **self.more)

    def retagged(self, old, new):
        return self


ORDERS = [(1, 2, 3), (3, 1, 2), (2, 1, 3)]


REFERENCES = [[k, p] if first else [p, k] for k in (1, 2, 3) for p in ([*PAIR[k]], [*PAIR[k]][::-1]) for first in (0, 1)]
ALL_CHAINS = ChainDefs()


def model_def(m, chains=None, functions=None, orders=ORDERS, reference=None, references=None):
    """A model definition with one distribution."""
    order = m.choose(orders, "order of the final state")
    kinematics = {"initial_state": state_def(0), "final_state": [state_def(i) for i in order]}
    references = references or REFERENCES
    if reference is None:
        reference = m.choose(references, "reference")
    chains = VSeq([Seg(ALL_CHAINS)], pytype=list) if chains is None else chains
    description = {"kinematics": kinematics, "reference_topology": reference, "chains": chains, "appendix": {}}
    dist = {"name": "model", "type": "HadronicUnpolarizedIntensity", "decay_description": description, "variables": []}
    return {"distributions": [dist], "functions": functions if functions is not None else [], "domains": [], "misc": {}, "parameter_points": []}


def to_latex():
    """Any function of names to LaTeX."""
    def call(m, args, kwargs):
        (x,) = args
        return V.derived("to_latex", x, V.show(x))

    return Obj("to_latex", object, {}, call)


# ------------------------------------------------------------------ C22: specification
def tex(to_latex, name):
    return name if to_latex is None else to_latex(name)


def state_spec(d, to_latex):
    from ampform_dpd.decay import State

    return State(name=d["name"], latex=tex(to_latex, d["name"]), spin=sp.Rational(d["spin"]), mass=d["mass"], width=0, parity=None, index=d["index"])


def kinematics(model):
    return model["distributions"][0]["decay_description"]["kinematics"]


def initial_spec(model, to_latex=None):
    return state_spec(kinematics(model)["initial_state"], to_latex)


def final_spec(model, to_latex=None):
    return {d["index"]: state_spec(d, to_latex) for d in kinematics(model)["final_state"]}


def states_spec(model, to_latex=None):
    return {0: initial_spec(model, to_latex), **final_spec(model, to_latex)}


def nodes(c):
    """(spectator, decay products) of a chain."""
    first, second = [v["node"] for v in c["vertices"]]
    if isinstance(first[0], list):
        return first[1], second
    if isinstance(first[1], list):
        return first[0], second
    return (second[1] if isinstance(second[0], list) else second[0]), first


def chain_spec(c, initial, final, to_latex=None):
    from ampform_dpd.decay import IsobarNode, Particle, ThreeBodyDecayChain

    k, (i, j) = nodes(c)
    resonance = Particle(name=c["name"], latex=tex(to_latex, c["name"]), spin=sp.Rational(c["propagators"][0]["spin"]), mass=0, width=0, parity=None)
    return ThreeBodyDecayChain(IsobarNode(initial, IsobarNode(resonance, final[i], final[j]), final[k]))


def decay_spec(model, to_latex=None):
    from ampform_dpd.decay import ThreeBodyDecay

    initial, final = initial_spec(model, to_latex), final_spec(model, to_latex)
    chains = model["distributions"][0]["decay_description"]["chains"]
    return ThreeBodyDecay(states=states_spec(model, to_latex), chains=sorted({chain_spec(c, initial, final, to_latex) for c in chains}))


def rejected(exc, what):
    def post(m, kind, val, args, kwargs):
        if kind != "raise" or not isinstance(val, exc):
            raise Differ(f"{K.describe(kind, val)} {what}", m.model())

    return post


def prove_decode(ctx):
    from ampform_dpd.io.serialization import decay as D
    from ampform_dpd.io.serialization import format as M

    ctx.assume("definitions are mappings that are not altered while they are decoded")

    def model(m, **kw):
        latex = m.choose([(), (None,), (to_latex(),)], "to_latex")
        return [model_def(m, **kw), *latex], {}

    verify(ctx, "ensures: the states of the definition, in any order", D.get_states, model, spec=states_spec)
    verify(ctx, "ensures: the initial state of the definition", D.get_initial_state, model, spec=initial_spec)
    verify(ctx, "ensures: the final states of the definition under their IDs", D.get_final_state, model, spec=final_spec)

    def one_chain(m):
        latex = m.choose([(), (to_latex(),)], "to_latex")
        states = {i: Y.state(m, i) for i in (0, 1, 2, 3)}
        return [chain_def("chain"), states[0], {i: states[i] for i in (3, 1, 2)}, *latex], {}

    verify(ctx, "ensures: resonance, decay products in the order of the definition, spectator", D.to_decay_chain, one_chain, spec=chain_spec)
    verify(ctx, "ensures: the states, and the sorted set of the decoded chains, any number of them", D.to_decay,
           lambda m: model(m, orders=ORDERS[1:2], reference=[[1, 2], 3]), spec=decay_spec)

    prove_functions(ctx)
    prove_topology(ctx)
    prove_helicities(ctx)


class FunctionDefs(Base):
    """Any number of function definitions."""

    def __init__(self, name="functions"):
        super().__init__(name, None)

    def make(self, m, tag):
        return record(tag, {"name": lambda m, t: string(f"{t}.name"), "type": lambda m, t: string(f"{t}.type")})

    def retagged(self, old, new):
        return self


def functions_of(model):
    return model["functions"]


def find_function(name, model):
    for f in model["functions"]:
        if f["name"] == name:
            return f
    raise KeyError


def close_matches(m, word, possibilities, *a, **kw):
    """Some of the names (or none); only part of the message of an error."""
    return V.VList([string(f"match{n}") for n in range(m.choose([0, 1, 2], "close matches"))])


def prove_functions(ctx):
    import difflib

    from ampform_dpd.io.serialization import format as M

    def inputs(m):
        return [string("function name"), model_def(m, functions=VSeq([Seg(FunctionDefs())], pytype=list))], {}

    def post(m, kind, val, args, kwargs):
        expected, want = K.outcome(m, find_function, args, {})
        if not m.feasible():
            return
        if expected == "raise":
            if kind != "raise" or not isinstance(val, KeyError):
                raise Differ(f"{K.describe(kind, val)} although there is no function of that name", m.model())
            return
        if kind != "return":
            raise Differ(f"raises {val!r} although there is a function of that name", m.model())
        same(m, val, want, "function definition")

    verify(ctx, "ensures: the (first) definition with that name, else a KeyError; any number of functions", M.get_function_definition, inputs, post=post,
           contracts={difflib.get_close_matches: close_matches})


class Topologies:
    """Nested lists of state IDs that are no three-body topologies, and those that are."""

    GOOD = [[k, p] if first else [p, k] for k in (1, 2, 3) for p in ([*PAIR[k]], [*PAIR[k]][::-1]) for first in (0, 1)]
    BAD = [[], [1, 2], [1, 2, 3], [[1, 2], [3, 1]], [[1, [2, 3]]], [[1, 2]], [[[1, 2], 3]]]


def subsystem_spec(model):
    out = set()
    for c in model["distributions"][0]["decay_description"]["chains"]:
        a, b = c["topology"]
        out.add(b if isinstance(a, list) else a)
    return out


def has_chain_with(model, k):
    for c in model["distributions"][0]["decay_description"]["chains"]:
        a, b = c["topology"]
        if (b if isinstance(a, list) else a) == k:
            return True
    return False


def prove_topology(ctx):
    from ampform_dpd.io.serialization import amplitude as A
    from ampform_dpd.io.serialization import decay as D
    from ampform_dpd.io.serialization import format as M

    def topology(m):
        ids = {n: number(f"id{n}", "int", int) for n in (1, 2, 3)}

        def named(t):
            return [named(x) for x in t] if isinstance(t, list) else ids[t]

        m.assume(z3.Distinct(*[num_term(x) for x in ids.values()]))
        return [named(m.choose([*Topologies.GOOD, *Topologies.BAD], "topology"))], {}

    def spectator(topology):
        singles = [x for x in topology if not isinstance(x, list)]
        if len(singles) != 1:
            raise ValueError
        return singles[0]

    verify(ctx, "ensures: the one state that is not in a pair; ValueError for other nestings", D.get_spectator_id, topology, spec=spectator)

    def model(m):
        return [model_def(m, orders=ORDERS[:1])], {}

    def empty(m):
        return [{"distributions": [], "functions": [], "domains": [], "misc": {}, "parameter_points": []}], {}

    verify(ctx, "ensures: the chains of the (first) distribution", M.get_decay_chains, model,
           spec=lambda model: model["distributions"][0]["decay_description"]["chains"])
    verify(ctx, "ensures: the reference topology of the (first) distribution", M.get_reference_topology, model,
           spec=lambda model: model["distributions"][0]["decay_description"]["reference_topology"])
    for f in (M.get_distribution_def, M.get_decay_chains, M.get_reference_topology, D.get_states, D.to_decay, A.get_existing_subsystem_ids):
        verify(ctx, "ensures: ValueError without distributions", f, empty, post=rejected(ValueError, "for a model without distributions"))

    def post(m, kind, val, args, kwargs):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        for k in (1, 2, 3):
            want = m.call(has_chain_with, [args[0], k])
            got = m.contains(val, k)
            if want != (got if isinstance(got, bool) else m.decide(got)):
                raise Differ(f"subsystem {k}: {got}", m.model())
        for x in m.flat(val) or ():
            if x not in (1, 2, 3):
                raise Differ(f"subsystem {x!r}", m.model())

    verify(ctx, "ensures: the spectators of all topologies", A.get_existing_subsystem_ids,
           lambda m: ([model_def(m, orders=ORDERS[:1], reference=[[1, 2], 3])], {}), post=post)

    def broken(m):
        states = {i: Y.state(m, i) for i in (0, 1, 2, 3)}
        c = chain_def("chain")
        node = production_node if m.choose(["production", "decay"], "vertices") == "production" else pair_of
        c.lazy.fields["vertices"] = lambda m, t: [record(f"{t}.v{n}", {"node": of_chain(node)}) for n in range(2)]
        return [c, states[0], {i: states[i] for i in (1, 2, 3)}], {}

    verify(ctx, "ensures: ValueError without a production or without a decay vertex", D.to_decay_chain, broken,
           post=rejected(ValueError, "without a production or without a decay vertex"))


# ------------------------------------------------------------------ helicities of vertices
def helicity_of(m, tag):
    return number(tag, "half", sp.Rational)


def texts(m, tag):
    """Two helicities, as texts."""
    vals = [helicity_of(m, f"{tag}.helicity{n}") for n in (0, 1)]
    return [V.numeral(x, x.name) for x in vals]


def vertex_helicities(m, tag):
    if m.choose([True, False], f"{tag}.has-helicities"):
        return texts(m, tag)
    return ABSENT


def resonance_helicity_spec(c):
    for v in c["vertices"]:
        if isinstance(v["node"][0], list) or isinstance(v["node"][1], list):
            if v.get("helicities") is None:
                raise ValueError
            n = 0 if isinstance(v["node"][0], list) else 1
            return tuple(v["node"][n]), sp.Rational(v["helicities"][n])


def product_helicities_spec(c):
    for v in c["vertices"]:
        i, j = v["node"]
        if not isinstance(i, list) and not isinstance(j, list):
            if v.get("helicities") is None:
                raise ValueError
            return (i, sp.Rational(v["helicities"][0])), (j, sp.Rational(v["helicities"][1]))


def final_helicities_spec(c):
    out = {}
    for v in c["vertices"]:
        if v.get("helicities") is None:
            raise ValueError
        for i in (0, 1):
            if not isinstance(v["node"][i], list):
                out[v["node"][i]] = sp.Rational(v["helicities"][i])
    return {i: out[i] for i in (1, 2, 3)}


def prove_helicities(ctx):
    from ampform_dpd.io.serialization import amplitude as A

    def one(m):
        return [chain_def("chain", {"helicities": vertex_helicities})], {}

    for name, title, spec in (
        ("_get_resonance_helicity", "the pair of the production vertex and its helicity", resonance_helicity_spec),
        ("_get_decay_product_helicities", "decay products and helicities in the order of the decay vertex", product_helicities_spec),
        ("_get_final_state_helicities", "the helicities of the final states, by increasing ID", final_helicities_spec),
    ):
        f = getattr(A, name, None)
        if f is not None:
            verify(ctx, f"ensures: {title}; ValueError without helicities", f, one, spec=spec)

    f = getattr(A, "_get_weight", None)
    if f is None:
        return
    ctx.assume("the text of a number consists of digits, signs, points and exponents")

    def weight(m):
        latex = m.choose([(), (to_latex(),)], "to_latex")
        return [chain_def("chain", {"helicities": texts}, weight=weight_text), *latex], {}

    def post(m, kind, val, args, kwargs):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        symbol, value = val
        if not isinstance(symbol, sp.Symbol):
            raise Differ(f"symbol {symbol!r}", m.model())
        same_weight(m, value, args[0])

    verify(ctx, "ensures: any real, imaginary or complex number of the definition", f, weight, post=post)


WEIGHTS = ("{a} + {b}i", "{a} - {b}i", "{a}+{b}i", "{a}", "{b}i", "-{b}i")


def weight_parts(m, tag, forms=WEIGHTS):
    """Real and imaginary part, and the text, of the weight of a chain."""
    a, b = number(f"{tag}.weight.real", "real", float), number(f"{tag}.weight.imag", "real", float)
    m.assume(num_term(b) >= 0)
    form = m.choose(forms, f"{tag}.weight")
    text = form.format(a=V.numeral(a, a.name), b=V.numeral(b, b.name))
    return a if "{a}" in form else 0, (-b if "-" in form else b) if "{b}" in form else 0, text


def weight_text(m, tag):
    return weight_parts(m, tag)[2]


def same_weight(m, value, chain, forms=WEIGHTS):
    real, imag, _ = weight_parts(m, chain.name, forms)
    same(m, m.getattr(value, "real"), real, "real part of the weight")
    same(m, m.getattr(value, "imag"), imag, "imaginary part of the weight")


# ------------------------------------------------------------------ C24: dynamics
NUMBERS = ("mass", "width", "ma", "mb", "d", "radius")


def real_field(name):
    return lambda m, tag: number(f"{tag}.{name}", "real", float)


def momentum_of(m, tag):
    x = number(f"{tag}.l", "int", int)
    m.assume(num_term(x) >= 0)
    return x if m.choose(["number", "text"], f"{tag}.l") == "number" else V.numeral(x, x.name)


CHANNEL = {**{n: real_field(n) for n in ("gsq", "ma", "mb", "d")}, "l": momentum_of}


class ChannelDefs(Base):
    """Any number of channels."""

    def make(self, m, tag):
        return record(tag, CHANNEL)

    def retagged(self, old, new):
        return self


def channels_of(m, tag):
    n = m.choose([0, 1, "any"], f"{tag}.channels")
    if n == "any":
        return VSeq([record(f"{tag}.channel1", CHANNEL), Seg(Y.shared(("channels", tag), lambda: ChannelDefs(f"{tag}.channels", None)))], pytype=list)
    return [record(f"{tag}.channel{k}", CHANNEL) for k in range(n)]


FUNCTION = {
    **{n: real_field(n) for n in NUMBERS}, "l": momentum_of, "channels": channels_of,
    "name": lambda m, t: string(f"{t}.name"), "type": lambda m, t: string(f"{t}.type"),
}


def definition(m, name, model):
    """ensures: the definition with that name (C22)."""
    return record(f"function({V.show(name)})", FUNCTION)


def function_named(name, model):
    from ampform_dpd.io.serialization.format import get_function_definition

    return get_function_definition(name, model)


def sigma(node):
    return sp.Symbol(f"sigma{6 - sum(node)}", nonnegative=True)


def mass_symbol(i):
    return sp.Symbol(f"m{i}", nonnegative=True)


def resonance_symbols(resonance):
    return sp.Symbol(f"m_{{{resonance}}}", nonnegative=True), sp.Symbol(Rf"\Gamma_{{{resonance}}}", nonnegative=True)


def breit_wigner_spec(propagator, resonance, model):
    from ampform_dpd import DefinedExpression
    from ampform_dpd.dynamics import BreitWigner

    f = function_named(propagator["parametrization"], model)
    i, j = propagator["node"]
    mass, width = resonance_symbols(resonance)
    radius = sp.Symbol(R"R_\mathrm{res}", nonnegative=True)
    return DefinedExpression(
        expression=BreitWigner(sigma((i, j)), mass, width, mass_symbol(i), mass_symbol(j), int(f["l"]), radius),
        parameters={mass: f["mass"], width: f["width"], mass_symbol(i): f["ma"], mass_symbol(j): f["mb"], radius: f["d"]},
    )


def multichannel_spec(propagator, resonance, model):
    from ampform_dpd import DefinedExpression
    from ampform_dpd.dynamics import ChannelArguments, MultichannelBreitWigner

    f = function_named(propagator["parametrization"], model)
    if len(f["channels"]) < 2:
        raise NotImplementedError
    i, j = propagator["node"]
    s = sigma((i, j))
    mass, width = resonance_symbols(resonance)
    c = f["channels"][0]
    radius = sp.Symbol(f"R_{{{resonance}}}", nonnegative=True)
    channels = [ChannelArguments(s, mass, width, mass_symbol(i), mass_symbol(j), int(c["l"]), radius)]
    parameters = {mass: f["mass"], width: c["gsq"], mass_symbol(i): c["ma"], mass_symbol(j): c["mb"], radius: c["d"]}
    for n, c in enumerate(f["channels"][1:], 2):
        ch = Rf"^\text{{ch. {n}}}"
        ma, mb = sp.Symbol(f"m_{{a,{n}}}", nonnegative=True), sp.Symbol(f"m_{{b,{n}}}", nonnegative=True)
        width, radius = sp.Symbol(Rf"\Gamma_{{{resonance}}}{ch}", nonnegative=True), sp.Symbol(f"R_{{{resonance}}}{ch}", nonnegative=True)
        channels.append(ChannelArguments(s, mass, width, ma, mb, int(c["l"]), radius))
        parameters.update({ma: c["ma"], mb: c["mb"], width: c["gsq"], radius: c["d"]})
    return DefinedExpression(expression=MultichannelBreitWigner(s, mass, tuple(channels)), parameters=parameters)


def multichannel(m, s, mass, channels):
    """ensures: the fields are those given (C15)."""
    from ampform_dpd.dynamics import MultichannelBreitWigner

    return V.Struct(MultichannelBreitWigner, {"s": s, "mass": mass, "channels": channels})


def prove_dynamics(ctx):
    from ampform_dpd.io.serialization import dynamics as D
    from ampform_dpd.io.serialization import format as M

    from ampform_dpd.dynamics import MultichannelBreitWigner

    ctx.assume("dynamics builders return some expression and some parameters (arbitrary per propagator) and have no side effects")
    contracts = {M.get_function_definition: definition}

    def propagator(m):
        pair = PAIR[m.choose([1, 2, 3], "spectator")]
        node = pair if m.choose([0, 1], "swapped") else pair[::-1]
        node = (list if m.choose(["list", "tuple"], "node") == "list" else tuple)(node)
        p = record("propagator", {"spin": spin_text, "node": constant(node), "parametrization": lambda m, t: string(f"{t}.parametrization")})
        return [p, string("resonance"), Obj("model", dict)], {}

    verify(ctx, "ensures: a Breit-Wigner in the invariant of the node, with the defaults of the definition", D.formulate_breit_wigner, propagator,
           spec=breit_wigner_spec, contracts=contracts)
    verify(ctx, "ensures: all channels with their symbols and defaults, any number of them; NotImplementedError for less than two",
           D.formulate_multichannel_breit_wigner, propagator, spec=multichannel_spec, contracts={**contracts, MultichannelBreitWigner: multichannel})

    def vertex(m):
        node = m.choose([pair_of, production_node], "vertex")(m, "vertex")
        node = (list if m.choose(["list", "tuple"], "node") == "list" else tuple)(node)
        v = record("vertex", {"type": constant("helicity"), "node": constant(node), "formfactor": lambda m, t: {
            "none": ABSENT, "empty": "", "some": string("formfactor")}[m.choose(["none", "empty", "some"], "form factor")]})
        return [v, model_def(m, orders=ORDERS[:1], reference=[[1, 2], 3])], {}

    verify(ctx, "ensures: Blatt-Weisskopf form factor at the masses of the vertex, with radius and angular momentum of the definition; one without form factor; "
           "NotImplementedError for other types", D.formulate_form_factor, vertex, spec=form_factor_spec,
           contracts={**contracts, M.get_function_definition: nonempty_definition})

    def chain(m):
        n = m.choose([1, 2], "propagators")
        c = chain_def("chain", propagators=lambda m, t: [record(f"{t}.propagator{k}", {
            "spin": spin_text, "node": of_chain(pair_of), "parametrization": lambda m, u: string(f"{u}.parametrization")}) for k in range(n)])
        args = [c, Obj("model", dict)]
        latex = m.choose(["default", "given"], "to_latex")
        kind = m.choose([None, 0, 1, 2], "additional builders")
        kwargs = {} if latex == "default" else {"to_latex": to_latex()}
        if kind is not None:
            kwargs["additional_definitions"] = {string(f"type{k}"): dynamics_builder(f"custom{k}") for k in range(kind)}
            if kind == 2:
                m.assume(m.z_not(m.eq(string("type0"), string("type1"))))
        return args, kwargs

    builders = {getattr(D, f"formulate_{n}"): dynamics_builder(n).call for n in ("breit_wigner", "multichannel_breit_wigner")}
    verify(ctx, "ensures: the product of the builders of the function types; additional builders take precedence; NotImplementedError for unknown types",
           D.formulate_dynamics, chain, spec=dynamics_spec, contracts={**contracts, **{f: by_contract(b) for f, b in builders.items()}})


def by_contract(call):
    return lambda m, *args, **kwargs: call(m, args, kwargs)


def nonempty_definition(m, name, model):
    """requires: a name."""
    if not name:
        raise V.Unsupported("definition without a name")
    return definition(m, name, model)


def form_factor_spec(vertex, model):
    from ampform.dynamics.form_factor import FormFactor
    from ampform_dpd import DefinedExpression

    name = vertex.get("formfactor")
    if not name:
        return DefinedExpression()
    f = function_named(name, model)
    if f["type"] != "BlattWeisskopf":
        raise NotImplementedError
    a, b = vertex["node"]
    if isinstance(a, int) and isinstance(b, int):
        s, m1, m2, radius = sigma((a, b)), mass_symbol(a), mass_symbol(b), sp.Symbol(R"R_\mathrm{res}", nonnegative=True)
    else:
        s = mass_symbol(0) ** 2
        m1, m2 = [mass_symbol(x) if isinstance(x, int) else sp.sqrt(sigma(x)) for x in (a, b)]
        parent = model["distributions"][0]["decay_description"]["kinematics"]["initial_state"]["name"]
        radius = sp.Symbol(f"R_{{{parent}}}", nonnegative=True)
    return DefinedExpression(expression=FormFactor(s, m1, m2, int(f["l"]), radius), parameters={radius: f["radius"]})


def dynamics_builder(name):
    """A builder of dynamics: any expression and parameters, from its arguments."""
    def call(m, args, kwargs):
        names = ("propagator", "resonance", "model")
        given = {**dict(zip(names, args)), **kwargs}
        if set(given) != set(names):
            raise PyRaise(TypeError(f"arguments {sorted(given)}"))
        import ampform_dpd as A

        label = f"{name}({given['propagator'].name}, {V.show(given['resonance'])}, {given['model'].name})"
        return Y.native(A.DefinedExpression, expression=unknown_expr(f"{label}.expression"), parameters=Y.mapping(f"{label}.parameters"))

    return Obj(name, object, {}, call)


def dynamics_spec(chain, model, to_latex=None, additional_definitions=None):
    from ampform_dpd import DefinedExpression
    from ampform_dpd.io.serialization import dynamics as D

    expression, parameters = sp.S.One, {}
    for p in chain["propagators"]:
        kind = function_named(p["parametrization"], model)["type"]
        if additional_definitions is not None and kind in additional_definitions:
            build = additional_definitions[kind]
        elif kind == "BreitWigner":
            build = D.formulate_breit_wigner
        elif kind == "MultichannelBreitWigner":
            build = D.formulate_multichannel_breit_wigner
        else:
            raise NotImplementedError
        d = build(p, resonance=tex(to_latex, chain["name"]), model=model)
        expression = expression * d.expression
        parameters.update(d.parameters)
    return DefinedExpression(expression=expression, parameters=parameters)


# ------------------------------------------------------------------ C23: chains
def sign(text):
    return {"-": -1, "": 0, "+": 1}[text.strip()]


def parity_factor_of(m, tag):
    x = m.choose(["+", "-", "", None, " + ", " -"], f"{tag}.parity-factor")
    return ABSENT if x is None else x


def vertex_type_of(types):
    return lambda m, tag: string(f"{tag}.type") if (x := m.choose(types, f"{tag}.type")) == "other" else x


def vertex_fields(types=("helicity", "parity", "ls", "other")):
    return {
        "type": vertex_type_of(types), "helicities": texts, "parity_factor": parity_factor_of, "l": momentum_of,
        "s": lambda m, t: spin_text(m, f"{t}.s"),
        "formfactor": lambda m, t: string(f"{t}.formfactor"),
    }


def indexed_chains(fields, **more):
    """The chains of a model: any number, of which those at given positions are looked at."""
    def item(m, key):
        if not V.ghost_number(key):
            raise V.Unsupported("position of a chain")
        return chain_def(f"chain[{V.show(key)}]", fields, **more)

    return Obj("chains", list, {"__getitem__": item})


def chain_index(m):
    n = number("chain_idx", "int", int)
    m.assume(num_term(n) >= 0)
    return n


def helicity_symbol(x):
    return sp.Symbol(f"lambda{x}", rational=True) if isinstance(x, int) else LAM_R


LAM_R = sp.Symbol(R"\lambda_R", rational=True)


def chain_at(model, n):
    return model["distributions"][0]["decay_description"]["chains"][n]


def state_spins(model):
    kin = kinematics(model)
    return {d["index"]: sp.Rational(d["spin"]) for d in [kin["initial_state"], *kin["final_state"]]}


def recoupling_spec(model, chain_idx, vertex_idx):
    from ampform_dpd.io.serialization import amplitude as A

    if vertex_idx != 0 and vertex_idx != 1:
        raise ValueError
    c = chain_at(model, chain_idx)
    v = c["vertices"][vertex_idx]
    a, b = v["node"]
    la, lb = helicity_symbol(a), helicity_symbol(b)
    kind = v["type"]
    if kind == "helicity" or kind == "parity":
        a0, b0 = sp.Rational(v["helicities"][0]), sp.Rational(v["helicities"][1])
        if kind == "helicity":
            return A.HelicityRecoupling(la, lb, a0, b0)
        return A.ParityRecoupling(la, lb, a0, b0, sign(v.get("parity_factor", "+")))
    if kind == "ls":
        spins, jr = state_spins(model), sp.Rational(c["propagators"][0]["spin"])
        ja, jb = [spins[x] if isinstance(x, int) else jr for x in (a, b)]
        j = jr if isinstance(a, int) and isinstance(b, int) else spins[0]
        return A.LSRecoupling(la, lb, int(v["l"]), sp.Rational(v["s"]), ja, jb, j)
    raise NotImplementedError


def prove_recoupling(ctx):
    from ampform_dpd.io.serialization import amplitude as A
    from contracts.amplitude import node_factor
    from sympy import KroneckerDelta as delta

    class Coupling:
        def __init__(self, l, s):
            self.L, self.S = l, s

    def helicity_value(la, lb, a0, b0):
        return delta(la, a0) * delta(lb, b0)

    def parity_value(la, lb, a0, b0, f):
        return delta(la, a0) * delta(lb, b0) + f * delta(la, -a0) * delta(lb, -b0)

    def ls_value(la, lb, l, s, ja, jb, j):
        return node_factor(j, ja, la, jb, lb, Coupling(l, s))

    def argument(n):
        return number(f"argument-{n}", "int" if n in "fl" else "half", sp.Integer if n in "fl" else sp.Rational)

    for cls, names, value in ((A.HelicityRecoupling, "a0 b0", helicity_value), (A.ParityRecoupling, "a0 b0 f", parity_value),
                              (A.LSRecoupling, "l s ja jb j", ls_value)):
        def made(m, cls=cls, names=names):
            """Helicities are symbols or values, all others are values (any, zero included)."""
            la, lb = m.choose([sp.symbols("la lb", rational=True), (argument("la"), argument("lb"))], "helicities")
            m.values = (la, lb, *map(argument, names.split()))
            return [cls(*m.values)], {}

        def post(m, kind, val, args, kwargs, value=value):
            if kind != "return":
                raise Differ(f"raises {val!r}", m.model())
            same(m, val, value(*m.values), "value")

        verify(ctx, "ensures: the recoupling function of the statement", cls.evaluate, made, post=post,
               name=f"io.serialization.amplitude.{cls.__name__}.evaluate")

    def inputs(m):
        model = model_def(m, chains=indexed_chains(vertex_fields()), orders=ORDERS[1:2], reference=[[1, 2], 3])
        return [model, chain_index(m), m.choose([0, 1, 2, -1], "vertex")], {}

    verify(ctx, "ensures: the recoupling of the vertex type at the helicity symbols of the node, with helicities, parity factor, L, S and spins of the definition",
           A.formulate_recoupling, inputs, spec=recoupling_spec)


def chain_dynamics(m, chain, model, to_latex=None, additional_definitions=None):
    """ensures: the dynamics of the chain (C24)."""
    import ampform_dpd as A

    label = f"dynamics({chain.name}, {'latex' if isinstance(to_latex, Obj) else 'plain'}, {getattr(additional_definitions, 'name', None)})"
    return Y.native(A.DefinedExpression, expression=unknown_expr(f"{label}.expression"), parameters=Y.mapping(f"{label}.parameters"))


def vertex_form_factor(m, vertex, model):
    """ensures: the form factor of the vertex (C24)."""
    import ampform_dpd as A

    label = f"formfactor({vertex.name})"
    return Y.native(A.DefinedExpression, expression=unknown_expr(f"{label}.expression"), parameters=Y.mapping(f"{label}.parameters"))


def recoupling_contract(m, model, chain_idx, vertex_idx):
    """requires: a vertex of the chain; ensures: its recoupling function."""
    if vertex_idx not in (0, 1):
        raise V.Unsupported("precondition of formulate_recoupling")
    return unknown_expr(f"recoupling({V.show(chain_idx)}, {vertex_idx})")


def prove_chain(ctx):
    prove_recoupling(ctx)
    prove_chain_amplitude(ctx)


def chain_amplitude_spec(model, chain_idx, lam, to_latex, builders, weight, value):
    from ampform_dpd.angles import formulate_scattering_angle
    from ampform_dpd.io.serialization import amplitude as A
    from sympy.physics.quantum.spin import Rotation

    c = chain_at(model, chain_idx)
    k, (i, j) = nodes(c)
    jr = sp.Rational(c["propagators"][0]["spin"])
    theta, expr = formulate_scattering_angle(i, j)
    d = A.formulate_dynamics(c, model, to_latex, builders)
    parameters = {weight: value}
    parameters.update(d.parameters)
    amp = weight * d.expression * Rotation.d(jr, LAM_R, helicity_symbol(i) - helicity_symbol(j), theta)
    for n in (0, 1):
        ff = A.formulate_form_factor(c["vertices"][n], model)
        amp *= A.formulate_recoupling(model, chain_idx, n) * ff.expression
        parameters.update(ff.parameters)
    amp = pool(amp, (LAM_R, CS.create_range(-jr, jr)))
    symbol = sp.IndexedBase(sp.Symbol(f"A^{k}"))[tuple(lam)]
    return {symbol: amp, **parameters, theta: expr}


def prove_chain_amplitude(ctx):
    from ampform_dpd.io.serialization import amplitude as A

    def inputs(m):
        fields = {"helicities": texts, "formfactor": lambda m, t: string(f"{t}.formfactor"), "type": constant("helicity")}
        chains = indexed_chains(fields, weight=lambda m, t: weight_parts(m, t, WEIGHTS[:1])[2])
        model = model_def(m, chains=chains, orders=ORDERS[1:2], reference=[[1, 2], 3])
        lam = [number(f"helicity{i}", "half", sp.Rational) for i in range(4)]
        args = [*lam, model, chain_index(m)]
        if m.choose([False, True], "optional arguments"):
            args += [to_latex(), Obj("builders", dict)]
        return args, {}

    def post(m, kind, val, args, kwargs):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        lam, (model, n, *opt) = args[:4], args[4:]
        latex, builders = opt or (A.identity_function, None)
        entries = val.items if isinstance(val, VDict) else [("set", k, v) for k, v in val.items()]
        (_, weight, value) = entries[1]
        if not isinstance(weight, sp.Symbol):
            raise Differ("no symbol for the weight", m.model())
        same_weight(m, value, m.call(chain_at, [model, n]), WEIGHTS[:1])
        want = m.call(chain_amplitude_spec, [model, n, lam, latex, builders, weight, value])
        same(m, val, want, "chain amplitude")

    contracts = {**CS.table(), CS.create_range: CS.range_contract, A.formulate_dynamics: chain_dynamics, A.formulate_form_factor: vertex_form_factor,
                 A.formulate_recoupling: recoupling_contract}
    verify(ctx, "ensures: weight x recouplings x Wigner d x dynamics x form factors, summed over the resonance helicity, with weight, parameters and angle",
           A.formulate_chain_amplitude, inputs, post=post, contracts=contracts)


# ------------------------------------------------------------------ C23: the model
def existing_subsystems(m, model):
    """ensures: the spectators of the chains (C22): any set."""
    from contracts.amplitude import subsystems

    return V.VList(subsystems(m, None), depth=m.depth)


def subsystems_in_model(model):
    """Spectators of the chains of a model (used by specifications)."""
    raise NotImplementedError


def alignment_spec(model, lam):
    """The alignment formula (C12) for the reference topology."""
    from ampform_dpd.angles import formulate_zeta_angle
    from contracts.amplitude import PRIMES
    from sympy.physics.quantum.spin import Rotation

    a, b = model["distributions"][0]["decay_description"]["reference_topology"]
    r = b if isinstance(a, list) else a
    spins = state_spins(model)
    amp, angles = sp.S.Zero, {}
    for k in subsystems_in_model(model):
        term = sp.IndexedBase(sp.Symbol(f"A^{k}"))[PRIMES]
        for i in (0, 1, 2, 3):
            j = spins[i]
            if j != 0:
                zeta, expr = formulate_zeta_angle(i, k, r)
                angles[zeta] = expr
                term *= Rotation.d(j, lam[0], PRIMES[0], zeta) if i == 0 else Rotation.d(j, PRIMES[i], lam[i], zeta)
        amp += term
    ranges = [(PRIMES[i], CS.create_range(-spins[i], spins[i])) for i in (0, 1, 2, 3)]
    return pool(amp, *ranges), angles


def prove_model(ctx):
    prove_alignment(ctx)
    prove_formulate(ctx)


class ParameterBase(Base):
    """Any number of parameters and their values."""

    def make(self, m, tag):
        return sp.Symbol(string(f"{tag}.symbol")), number(f"{tag}.value", "real", float)

    def retagged(self, old, new):
        if old not in self.name:
            return self
        name = self.name.replace(old, new)
        return Y.shared(("parameters", name), lambda: ParameterBase(name, None))

    def same_as(self, m, other, what):
        if self.name != other.name:
            raise Differ(f"{what}: {self.name} instead of {other.name}")


def chain_amplitude_contract(m, l0, l1, l2, l3, model, chain_idx, to_latex=None, additional_builders=None):
    """requires: allowed helicities, a chain of the model; ensures: amplitude, weight, parameters and angle of the chain."""
    from ampform_dpd.angles import formulate_scattering_angle

    lam = (l0, l1, l2, l3)
    spins = m.call(state_spins, [model])
    for i, x in enumerate(lam):
        j = spins[i] if isinstance(spins, dict) else m.getitem(spins, i)
        if not m.entails(z3.And(z_is_int(j - x), num_term(x) <= num_term(j), num_term(x) >= -num_term(j))):
            raise V.Unsupported("precondition of formulate_chain_amplitude: allowed helicities")
    length = kinematics_length(model)
    if not m.entails(z3.And(num_term(chain_idx) >= 0, num_term(chain_idx) < num_term(length))):
        raise V.Unsupported("precondition of formulate_chain_amplitude: a chain of the model")
    options = f"{getattr(to_latex, 'name', None)},{getattr(additional_builders, 'name', None)}"
    label = f"chain[{V.show(chain_idx)}]({options})"
    k = m.choose([1, 2, 3], f"chain[{V.show(chain_idx)}].k")
    i, j = PAIR[k]
    if m.choose([False, True], f"chain[{V.show(chain_idx)}].pair-swapped"):
        i, j = j, i
    theta, expr = formulate_scattering_angle(i, j)
    value = sp.Function("chain amplitude")(*OUTER, sp.Symbol(string(label)))
    out = VDict([("set", sp.IndexedBase(sp.Symbol(f"A^{k}"))[lam], value), ("set", sp.Symbol(string(f"{label}.weight")), number(f"{label}.weight", "real", float))],
                depth=m.depth)
    base = Y.shared(("parameters", label), lambda: ParameterBase(f"parameters of {label}", None))
    m.for_each(VSeq([Seg(base)]), lambda kv: m.mutate(out, [("set", *kv)]))
    m.mutate(out, [("set", theta, expr)])
    out.distinct = True
    return out


def kinematics_length(model):
    (seg,) = model["distributions"][0]["decay_description"]["chains"].items
    return seg.base.length


def sums_spec(model, allowed, one_chain):
    """Amplitudes per subsystem and helicities, angles and parameters, of all chains and helicities."""
    from itertools import product

    amplitudes, angles, parameters = {}, {}, {}
    for lam in product(*allowed):
        for n in range(len(model["distributions"][0]["decay_description"]["chains"])):
            (symbol, expr), *rest, (theta, theta_expr) = one_chain(lam, n).items()
            amplitudes[symbol] = amplitudes.get(symbol, 0) + expr.subs({OUTER[0]: lam[0], OUTER[1]: lam[1], OUTER[2]: lam[2], OUTER[3]: lam[3]})
            angles[theta] = theta_expr
            parameters.update(dict(rest))
    return amplitudes, angles, parameters


def decoded(m, model, to_latex=None):
    """ensures: the decay of the definition (C22)."""
    from ampform_dpd.decay import ThreeBodyDecay

    states = m.call(states_spec, [model])
    return Y.native(ThreeBodyDecay, states=states, chains=VSeq([Seg(Y.shared("decoded chains", lambda: HiddenChains({}, "decoded chains")))], pytype=tuple))


def opaque_alignment(m, model, l0, l1, l2, l3):
    """ensures: some amplitude and some angles, as a function of the arguments."""
    return sp.Function("aligned")(l0, l1, l2, l3), Y.mapping("zeta angles")


def alignment_contract(m, model, l0, l1, l2, l3):
    """ensures: the alignment formula."""
    amp, angles = m.call(alignment_spec, [model, (l0, l1, l2, l3)])
    return amp, angles


def prove_formulate(ctx):
    import ampform_dpd
    from ampform_dpd.io.serialization import amplitude as A
    from ampform_dpd.angles import formulate_zeta_angle

    ctx.assume("amplitude, weight, parameters and angle of a chain have different symbols")

    for cleanup in (False, True):
        def inputs(m, cleanup=cleanup):
            kw = {}
            if cleanup or m.choose([True, False], "clean-up given"):
                kw["cleanup_summations"] = cleanup
            if m.choose([True, False], "optional arguments"):
                kw.update(to_latex=to_latex(), additional_builders=Obj("builders", dict))
            return [model_def(m, orders=ORDERS[1:2], reference=[[1, 2], 3])], kw

        def post(m, kind, val, args, kw, cleanup=cleanup):
            if kind != "return":
                raise Differ(f"raises {val!r}", m.model())
            (model,) = args
            opt = [kw.get("to_latex", A.identity_function), kw.get("additional_builders")]
            one = Obj("one chain", object, {}, lambda m, a, k: chain_amplitude_contract(m, *a[0], model, a[1], *opt))
            spins = m.call(state_spins, [model])
            spins = [m.getitem(spins, i) for i in (0, 1, 2, 3)]
            allowed = [V.VRange(-j, j) for j in spins]
            amplitudes, angles, parameters = m.call(sums_spec, [model, allowed, one])
            if cleanup:
                amp, zetas = alignment_contract(m, model, *OUTER)
                decay = decoded(m, model)
                decay = Y.native(type(decay), states={i: m.getitem(decay.states, i) for i in (0, 1, 2, 3)}, chains=decay.chains)
                intensity = clean_intensity(m, decay, amp)
            else:
                amp, zetas = opaque_alignment(m, model, *OUTER)
                intensity = V.GPool(sp.Abs(amp) ** 2, *[(s, -j, j) for s, j in zip(OUTER, spins)])
            states = m.call(states_spec, [model])
            masses = VDict([("set", sp.Symbol(f"m{i}", nonnegative=True), m.getitem(states, i).mass) for i in (0, 1, 2, 3)])
            m.dict_update(angles, zetas)
            m.dict_update(parameters, masses)
            same(m, val.decay.states, states, "states")
            same(m, val.intensity, intensity, "intensity")
            same(m, val.amplitudes, amplitudes, "amplitudes")
            same(m, val.variables, angles, "variables")
            same(m, val.parameter_defaults, parameters, "parameter defaults")
            same(m, val.masses, masses, "masses")
            same(m, val.invariants, Y.mapping("invariants"), "invariants")

        contracts = {
            **CS.table(), CS.create_range: CS.range_contract, formulate_zeta_angle: zeta_contract,
            A.formulate_chain_amplitude: chain_amplitude_contract,
            A.formulate_aligned_amplitude: alignment_contract if cleanup else opaque_alignment,
            A.to_decay: decoded, subsystems_in_model: existing_subsystems,
            ampform_dpd.formulate_invariants: lambda m, decay: Y.mapping("invariants"),
        }
        title = "the same model, its intensity without indices of spinless states" if cleanup else \
            "per subsystem and helicities the sum over the chains, all angles and parameters, masses, the incoherent sum as intensity"
        verify(ctx, f"ensures: {title}; any number of chains", A.formulate, inputs, post=post, contracts=contracts)


def prove_alignment(ctx):
    from ampform_dpd.angles import formulate_zeta_angle
    from ampform_dpd.io.serialization import amplitude as A
    def inputs(m):
        return [model_def(m, orders=ORDERS[1:2], chains=Obj("chains", list)), *OUTER], {}

    def post(m, kind, val, args, kwargs):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        amp, angles = m.call(alignment_spec, [args[0], OUTER])
        same(m, val[0], amp, "aligned amplitude")
        same(m, val[1], angles, "angles")

    contracts = {**CS.table(), CS.create_range: CS.range_contract, formulate_zeta_angle: zeta_contract, A.get_existing_subsystem_ids: existing_subsystems,
                 subsystems_in_model: existing_subsystems}
    verify(ctx, "ensures: the alignment formula with respect to the reference topology, exactly the angles in it", A.formulate_aligned_amplitude, inputs,
           post=post, contracts=contracts)
