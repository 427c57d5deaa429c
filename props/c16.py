from __future__ import annotations

import random
from fractions import Fraction

import sympy as sp
from oracle import ref
from props import _gen as G

RULE = "random decay chains (with and without LS couplings, both child orders) x all flag combinations x phase-space factors"


def prove(ctx):
    from contracts import lineshapes as C

    C.prove_builder(ctx)


def cases(ctx):
    for n in range(600 if ctx.thorough else 60):
        yield {"seed": ctx.seed * 217645177 + n}


def num(e, sub):
    return complex(sp.N(sp.sympify(e).doit().subs(sub).doit(), 25))


def run_case(c):
    from itertools import product

    from ampform.dynamics.form_factor import FormFactor
    from ampform.dynamics.phasespace import PhaseSpaceFactor, PhaseSpaceFactorAbs
    from ampform_dpd.dynamics import RelativisticBreitWigner, SimpleBreitWigner
    from ampform_dpd.dynamics.builder import BreitWignerBuilder, formulate_breit_wigner_with_form_factor

    rng = random.Random(c["seed"])
    spec = G.random_decay(rng, n_chains=1, ls=None if c["seed"] % 3 == 0 else True)
    x = spec["chains"][0]
    states = spec["states"]
    decay = G.make_decay(spec)
    chain = decay.chains[0]
    k = x["k"]
    i, j = G.PAIR[k]
    lat = x["res"]["latex"]
    nn = {"nonnegative": True}
    s = sp.Symbol(f"sigma{k}", **nn)
    M, W = sp.Symbol(f"m_{{{lat}}}", **nn), sp.Symbol(Rf"\Gamma_{{{lat}}}", **nn)
    mi, mj, mk, m0 = (sp.Symbol(f"m{q}", **nn) for q in (i, j, k, 0))
    Rr = sp.Symbol(R"R_\mathrm{res}", **nn)
    Rp = sp.Symbol(Rf"R_{{{states[0]['latex']}}}", **nn)
    sub = {q: sp.Rational(rng.randint(300, 900), 1000) for q in (mi, mj, mk)}
    sub |= {s: sp.Rational(7, 2), M: sp.Rational(rng.randint(1900, 2300), 1000), W: sp.Rational(1, 7), m0: sp.Rational(51, 10),
            Rr: sp.Rational(rng.randint(500, 1500), 1000), Rp: sp.Rational(rng.randint(1600, 3000), 1000)}
    finding = None
    for edw, dff, pff in product((True, False), repeat=3):
        ph = rng.choice([PhaseSpaceFactor, PhaseSpaceFactorAbs])
        b = BreitWignerBuilder(energy_dependent_width=edw, decay_form_factor=dff, production_form_factor=pff, phsp_factor=ph)
        if edw and dff and pff and ph is PhaseSpaceFactor:
            b = formulate_breit_wigner_with_form_factor
        needs = (edw or dff) and x["dec_ls"] is None or pff and x["prod_ls"] is None
        try:
            d = b(chain)
        except ValueError:
            if needs:
                continue
            return f"ValueError although all angular momenta are there ({edw, dff, pff}): {x}"
        if needs:
            return f"no ValueError although angular momenta are missing ({edw, dff, pff}): {x}"
        Ld = None if x["dec_ls"] is None else x["dec_ls"][0]
        Lp = None if x["prod_ls"] is None else x["prod_ls"][0]
        want = RelativisticBreitWigner(s, M, W, mi, mj, Ld, Rr, phsp_factor=ph) if edw else SimpleBreitWigner(s, M, W)
        p_want = {M: x["res"]["mass"], W: x["res"]["width"]}
        base = num(want, sub)
        known = base
        if edw:
            p_want[Rr] = 1
        if dff:
            known *= num(FormFactor(s**2, mi, mj, Ld, Rr), sub)
            base *= num(FormFactor(s, mi, mj, Ld, Rr), sub)
            p_want |= {Rr: 1, mi: states[i]["mass"], mj: states[j]["mass"]}
        if pff:
            # the isobar child enters with its nominal mass, the mass of the initial state is m0
            f = num(FormFactor(m0**2, M, mk, Lp, Rp), sub)
            known *= f
            base *= f
            p_want |= {Rp: 1, M: x["res"]["mass"], mk: states[k]["mass"], m0: states[0]["mass"]}
        got = num(d.expression, sub)
        free = {q for q in d.expression.doit().free_symbols}
        for q, v in p_want.items():
            if d.parameters.get(q) != v:
                return f"default of {q} is {d.parameters.get(q)}, expected {v} ({edw, dff, pff})"
        allowed = {M: x["res"]["mass"], W: x["res"]["width"], Rr: 1, Rp: 1, m0: states[0]["mass"],
                   **{q: states[n]["mass"] for q, n in ((mi, i), (mj, j), (mk, k))}}
        for q, v in d.parameters.items():
            if allowed.get(q) != v:
                return f"unexpected default {q}: {v} ({edw, dff, pff})"
        if not free <= {s, *allowed}:
            return f"unexpected symbols {free - {s, *allowed}} ({edw, dff, pff})"
        if not ref.close(got, base, 1e-9):
            if dff and ref.close(got, known, 1e-9):
                finding = f"FINDING:F8: decay form factor at sigma{k}**2 instead of sigma{k} for {x}"
                continue
            return f"dynamics with flags {edw, dff, pff}: {d.expression} evaluates to {got}, expected {base}"
    return finding
