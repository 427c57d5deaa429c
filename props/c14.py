from __future__ import annotations

import random

import sympy as sp
from oracle import ref
from props import _amp as A
from props import _gen as G

RULE = "random decays (shared resonance names) x random sequences of registrations by chain and by name, with look-ups in between"


def prove(ctx):
    from contracts import registry as C

    C.prove_registry(ctx)


def cases(ctx):
    for n in range(3000 if ctx.thorough else 400):
        yield {"seed": ctx.seed * 122949823 + n}


def run_case(c):
    from ampform_dpd import DalitzPlotDecompositionBuilder, DefinedExpression

    rng = random.Random(c["seed"])
    spec = G.random_decay(rng, max_two_j=2, max_two_jr=3, max_combos=8, n_chains=rng.randint(1, 6), ls=None)
    decay = G.make_decay(spec)
    foreign = G.make_decay(G.random_decay(random.Random(c["seed"] + 1), max_two_j=2))
    builder = DalitzPlotDecompositionBuilder(decay)
    reg = builder.dynamics_choices
    if reg.decay is not decay:
        return "decay of the configurator is not that of the builder"
    from ampform_dpd.decay import IsobarNode, LSCoupling, ThreeBodyDecayChain

    def node(n, **changes):
        return IsobarNode(**{"parent": n.parent, "child1": n.child1, "child2": n.child2, "interaction": n.interaction, **changes})

    strangers = [foreign.chains[0]]  # chains of other decays and with other couplings, same resonance
    for x in decay.chains:
        top = x.decay
        strangers.append(ThreeBodyDecayChain(node(top, interaction=LSCoupling(8, 1))))
        inner = node(x.decay_node, interaction=LSCoupling(9, sp.Rational(1, 2)))
        strangers.append(ThreeBodyDecayChain(node(top, **{"child1" if top.child1 is x.decay_node else "child2": inner})))
        d = x.decay_node
        for a, b in ((x.spectator, d.child2), (d.child1, x.spectator)):  # same resonance in other subsystems
            rest = ({d.child1, d.child2} - {a, b}).pop()
            strangers.append(ThreeBodyDecayChain(IsobarNode(top.parent, IsobarNode(d.parent, a, b, d.interaction), rest, top.interaction)))
    strangers = [x for x in strangers if x not in decay.chains]
    last = {}
    lam = rng.choice(G.helicity_sets(spec))

    def mk(n):
        def build(chain):
            return DefinedExpression(sp.Symbol(f"D_{n}"), {sp.Symbol(f"g_{n}"): n + 0.5})

        return build

    steps = rng.randint(0, 7)
    for n in range(steps + 1):
        # the state after n registrations
        for idx, ch in enumerate(decay.chains):
            d = reg.get_builder(ch)(ch)
            w = (sp.Symbol(f"D_{last[idx]}"), {sp.Symbol(f"g_{last[idx]}"): last[idx] + 0.5}) if idx in last else (sp.S.One, {})
            if (d.expression, dict(d.parameters)) != w:
                return f"chain {idx} ({ch.resonance.name}) has dynamics {d}, expected {w} after {n} registrations"
        if n == steps or rng.random() < 0.3:
            for k in {x["k"] for x in spec["chains"]}:
                m = G.quiet(builder.formulate_subsystem_amplitude, *map(A.rat, lam), k)
                (_, expr), = m.amplitudes.items()
                ev = ref.Evaluator()
                want = sum(A.chain_value(ev, spec, i, lam, True, True,
                                         dyn=ev(sp.Symbol(f"D_{last[i]}")) if i in last else 1)[0]
                           for i, x in enumerate(spec["chains"]) if x["k"] == k)
                if not ref.close(ev(expr), want):
                    return f"amplitude of subsystem {k} does not contain the registered dynamics {last}"
                want_p = {f"g_{last[i]}": last[i] + 0.5 for i, x in enumerate(spec["chains"]) if x["k"] == k and i in last}
                got_p = {s.name: v for s, v in m.parameter_defaults.items() if isinstance(s, sp.Symbol)}
                if got_p != want_p:
                    return f"parameters of subsystem {k}: {got_p}, expected {want_p}"
        if n == steps:
            break
        idx = rng.randrange(len(decay.chains))
        ch = decay.chains[idx]
        if rng.random() < 0.5:
            reg.register_builder(ch, mk(n))
            for i2, ch2 in enumerate(decay.chains):
                if ch2 == ch:
                    last[i2] = n
        else:
            reg.register_builder(ch.resonance.name, mk(n))
            for i2, ch2 in enumerate(decay.chains):
                if ch2.resonance.name == ch.resonance.name:
                    last[i2] = n
        rn = ch.resonance.name
        names = {x.resonance.name for x in decay.chains}
        near = {rn[:-1], rn[1:], rn + "0", rn.upper(), rn.lower(), f" {rn}", rn + "|" + rn, "", ch.resonance.latex} - names
        for bad, exc in (*((x, ValueError) for x in strangers), ("unknown", KeyError), *((x, KeyError) for x in sorted(near)), (3, NotImplementedError),
                         (None, NotImplementedError), (ch.decay, NotImplementedError), (ch.resonance, NotImplementedError)):
            for f in (lambda: reg.register_builder(bad, mk(99)), lambda: reg.get_builder(bad)):
                try:
                    f()
                except exc as e:
                    if exc is ValueError and isinstance(e, (KeyError,)):
                        return f"{bad!r}: {e!r}"
                    continue
                except Exception as e:  # noqa: BLE001
                    return f"identifier {str(bad)[:60]} raises {e!r} instead of {exc.__name__}"
                return f"identifier {str(bad)[:60]} is accepted"
    if steps and builder is not None:
        m = G.quiet(builder.formulate)
        want_p = {f"g_{v}": v + 0.5 for v in last.values()}
        got_p = {s.name: v for s, v in m.parameter_defaults.items() if isinstance(s, sp.Symbol) and s.name.startswith("g_")}
        if got_p != want_p:
            return f"dynamics parameters of the model: {got_p}, expected {want_p}"
    return None
