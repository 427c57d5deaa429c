"""C14: the registry of dynamics builders (``DynamicsConfigurator``).

The state of the registry is its one mapping; it is an arbitrary mapping over chains before
each call, so that the clauses hold after every history of registrations.
"""
from __future__ import annotations

import sympy as sp
import z3
from contracts import symbolic as Y
from pyvc import compare as K
from pyvc import values as V
from pyvc.compare import Differ, same, verify
from pyvc.engine import str_term
from pyvc.interp import MISSING
from pyvc.values import Obj, Seg, VDict, VSeq, string, unknown_expr

NAME_OF = z3.Function("resonance name", V.ObjSort, V.StrSort)


def congruent(m, c):
    """Equal chains have equal resonance names."""
    m.assume(str_term(string(f"{c.name}.R.name")) == NAME_OF(c.term))
    return c


class Chains(Y.ChainBase):
    def make(self, m, tag):
        return congruent(m, Y.chain(m, tag, self.states, **self.kw))


def decay_with(m, states, x):
    """An arbitrary decay that contains the chain ``x``."""
    from ampform_dpd.decay import ThreeBodyDecay

    items = [Seg(Chains(states, "earlier")), x, Seg(Chains(states, "later"))]
    return Y.native(ThreeBodyDecay, states=states, chains=VSeq(items, pytype=tuple))


def some_chain(m, tag, states):
    return congruent(m, Y.chain(m, tag, states, ls=("some",)))


def before(m, chain):
    """What an earlier history has registered for a chain: some builder or none."""
    if not isinstance(chain, Obj) or not hasattr(chain, "lazy"):
        raise V.Unsupported("the registry is not a mapping over chains")
    if m.choose([False, True], f"registered({chain.name})"):
        return builder(f"before({chain.name})")
    return MISSING


def builder(name):
    """Some builder: its result is a function of it and of its argument."""
    import ampform_dpd as A

    def call(m, args, kwargs):
        (c,) = args
        return Y.native(A.DefinedExpression, expression=unknown_expr(f"{name}({c.name}).dynamics"),
                        parameters=Y.mapping(f"{name}({c.name}).parameters"))

    return Obj(name, object, {}, call)


def registry(m, decay):
    """A configurator after an arbitrary history, and its mapping."""
    import ampform_dpd as A

    conf = m.call(A.DynamicsConfigurator, [decay])
    maps = [v for v in conf.__dict__.values() if isinstance(v, VDict)]
    if len(maps) != 1 or maps[0].items:
        raise V.Unsupported("the registry is not one mapping that is empty at first")
    maps[0].base = before
    return conf, maps[0]


UNKNOWN = object()


def identifiers(m, states, x):
    kind = m.choose(["chain", "name", "itself", "other"], "identifier")
    if kind == "chain":
        return some_chain(m, "identifier;", states)
    if kind == "name":
        return string("identifier")
    if kind == "itself":
        return x
    return m.choose([None, 1, 1.5, ("a",)], "other identifier")


def known(decay, identifier):
    """Raises as :class:`DynamicsConfigurator` must for identifiers that select no chain."""
    from ampform_dpd.decay import ThreeBodyDecayChain

    if isinstance(identifier, ThreeBodyDecayChain):
        for c in decay.chains:
            if c == identifier:
                return
        raise ValueError
    if isinstance(identifier, str):
        for c in decay.chains:
            if c.resonance.name == identifier:
                return
        raise KeyError
    raise NotImplementedError


def selects(identifier, chain):
    if isinstance(identifier, str):
        return chain.resonance.name == identifier
    return chain == identifier


def dynamics_before(m, chain, probe):
    import ampform_dpd as A

    b = before(m, chain)
    return m.call(A.DefinedExpression, []) if b is MISSING else m.call(b, [probe])


def prove_registry(ctx):
    import ampform_dpd as A

    ctx.assume("equality of decay chains is a congruence (an equivalence under which the attributes agree); chains are hashable")
    ctx.assume("builders are truthy (functions, or objects that define neither __bool__ nor __len__)")
    ctx.assume("induction over the history: the clauses hold for a registry with arbitrary earlier contents")

    def inputs(m):
        states = {i: Y.state(m, i) for i in (0, 1, 2, 3)}
        x = some_chain(m, "chain;", states)
        decay = decay_with(m, states, x)
        conf, log = registry(m, decay)
        return [conf, x, identifiers(m, states, x), log, decay], {}

    # ---- the empty history
    def fresh(m, args, kw):
        _, x, _, _, decay = args
        conf = m.call(A.DynamicsConfigurator, [decay])
        if m.getattr(conf, "decay") is not decay:
            raise Differ("decay of the configurator", m.model())
        return m.call(m.call(m.getattr(conf, "get_builder"), [x]), [x])

    verify(ctx, "ensures: unit dynamics for every chain before any registration", A.DynamicsConfigurator, inputs, invoke=fresh,
           name="DynamicsConfigurator.__init__", post=lambda m, kind, v, a, k: expect(m, kind, v, m.call(A.DefinedExpression, [])))

    # ---- reading
    def read(m, args, kw):
        conf, x, *_ = args
        return m.call(m.call(m.getattr(conf, "get_builder"), [x]), [x])

    verify(ctx, "ensures: what was registered for the chain, unit dynamics if nothing", A.DynamicsConfigurator.get_builder, inputs, invoke=read,
           post=lambda m, kind, v, a, k: expect(m, kind, v, dynamics_before(m, a[1], a[1])))

    def read_any(m, args, kw):
        conf, _x, identifier, log, _ = args
        m.call(m.getattr(conf, "get_builder"), [identifier])

    def read_post(m, kind, val, args, kw):
        failure(m, kind, val, args)
        if args[3].items:
            raise Differ("get_builder changes the registry", m.model())

    verify(ctx, "raises: exactly for foreign chains, unknown names and other identifiers; the registry is not changed",
           A.DynamicsConfigurator.get_builder, inputs, invoke=read_any, post=read_post)

    # ---- writing
    def write(m, args, kw):
        conf, x, identifier, _log, _decay = args
        m.call(m.getattr(conf, "register_builder"), [identifier, builder("new")])
        return m.call(m.call(m.getattr(conf, "get_builder"), [x]), [x])

    def write_post(m, kind, val, args, kw):
        _conf, x, identifier, log, _decay = args
        if failure(m, kind, val, args):
            if log.items:
                raise Differ("a registration that fails changes the registry", m.model())
            return
        hit = m.call(selects, [identifier, x])
        new = hit if isinstance(hit, bool) else m.truth(hit)
        same(m, val, m.call(builder("new"), [x]) if new else dynamics_before(m, x, x), "dynamics after the registration")

    verify(ctx, "ensures: the selected chains have the new builder, all others what they had; raises: exactly for foreign chains, "
           "unknown names and other identifiers, without effect", A.DynamicsConfigurator.register_builder, inputs, invoke=write, post=write_post)

    # ---- the builder of a model is that of its decay
    def owner(m):
        states = {i: Y.state(m, i) for i in (0, 1, 2, 3)}
        return [decay_with(m, states, some_chain(m, "chain;", states))], {}

    def owner_post(m, kind, val, args, kw):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        if m.getattr(m.getattr(val, "dynamics_choices"), "decay") is not args[0]:
            raise Differ("the configurator of a builder is for another decay", m.model())

    verify(ctx, "ensures: a configurator for the decay of the builder", A.DalitzPlotDecompositionBuilder, owner, post=owner_post,
           name="DalitzPlotDecompositionBuilder.__init__")


def expect(m, kind, val, want):
    if kind != "return":
        raise Differ(f"raises {val!r}", m.model())
    same(m, val, want, "dynamics")


def failure(m, kind, val, args):
    """Must the identifier be rejected? (checks that it is, with the right exception)"""
    _conf, _x, identifier, _log, decay = args
    want, exc = K.outcome(m, known, [decay, identifier], {})
    if not m.feasible():
        raise K.Infeasible
    if want != kind:
        raise Differ(f"{K.describe(kind, val)}, expected: {K.describe(want, exc)}", m.model())
    if want == "raise" and not isinstance(val, type(exc)):
        raise Differ(f"raises {val!r} instead of {exc!r}", m.model())
    return want == "raise"
