from __future__ import annotations

import random
from fractions import Fraction as F

import sympy as sp
from oracle import ref
from props import _gen as G
from props import _ser as S

RULE = "random model definitions: dynamics and form factors of every propagator and vertex on their own, and merged per chain and model (there, values must be those of the definitions; name collisions are finding F10)"


def prove(ctx):
    from contracts import serialization as C

    C.prove_dynamics(ctx)


def cases(ctx):
    for n in range(1200 if ctx.thorough else 120):
        yield {"seed": ctx.seed * 573259391 + n, "collide": n % 2 == 1}


def value(ev_env, expr):
    return ref.Evaluator(ev_env)(expr)


def table(model, chains, tl, names=True):
    """Symbol values if, per symbol, the last definition wins (used to recognise F10 only)."""
    t = {}
    for x in chains:
        f = S.definition(model, x["propagators"][0]["parametrization"])
        i, j = x["propagators"][0]["node"]
        r = tl(x["name"])
        t |= entries(model, x, f, i, j, r)
        for v in x["vertices"]:
            if v.get("formfactor"):
                g = S.definition(model, v["formfactor"])
                name = "R_{S0}" if S.is_production(v) else R"R_\mathrm{res}"
                t[name] = g["radius"]
    return t


def entries(model, x, f, i, j, r):
    if f["type"] == "BreitWigner":
        return {f"m_{{{r}}}": f["mass"], Rf"\Gamma_{{{r}}}": f["width"], f"m{i}": f["ma"], f"m{j}": f["mb"],
                R"R_\mathrm{res}": f["d"]}
    if f["type"] == "MultichannelBreitWigner":
        c = f["channels"]
        t = {f"m_{{{r}}}": f["mass"], Rf"\Gamma_{{{r}}}": c[0]["gsq"], f"m{i}": c[0]["ma"], f"m{j}": c[0]["mb"],
             f"R_{{{r}}}": c[0]["d"]}
        for n, ch in enumerate(c[1:], 2):
            t |= {f"m_{{a,{n}}}": ch["ma"], f"m_{{b,{n}}}": ch["mb"], Rf"\Gamma_{{{r}}}^\text{{ch. {n}}}": ch["gsq"],
                  Rf"R_{{{r}}}^\text{{ch. {n}}}": ch["d"]}
        return t
    return {f"v_{{{r}}}": f["value"]}


def run_case(c):
    from ampform_dpd.io.serialization import amplitude as SA
    from ampform_dpd.io.serialization import dynamics as SD

    rng = random.Random(c["seed"])
    model, info = S.random_model(rng, max_two_j=1, collide=c["collide"], n_chains=rng.randint(1, 3))
    chains = model["distributions"][0]["decay_description"]["chains"]
    masses = info["masses"]
    sigma = {k: rng.uniform(2.0, 6.0) for k in (1, 2, 3)}
    base = {f"sigma{k}": v for k, v in sigma.items()} | {f"m{q}": masses[q] for q in range(4)}
    tl = rng.choice([lambda n: n, lambda n: f"t({n})"])
    add = {"MyShape": S.custom_builder}
    finding = None
    for x, mt in zip(chains, info["meta"]):
        k = mt["k"]
        f = S.definition(model, x["propagators"][0]["parametrization"])
        if f["type"] == "MyShape":
            for kw in ({}, {"additional_definitions": {"Other": S.custom_builder}}, {"additional_definitions": {}}):
                try:
                    SD.formulate_dynamics(x, model, tl, **kw)
                except NotImplementedError:
                    continue
                return f"unknown function type {f['type']} accepted with {kw}"
        d = SD.formulate_dynamics(x, model, tl, add)
        env = base | {s.name: complex(v) for s, v in d.parameters.items()}
        undefined = {s.name for s in d.expression.doit().free_symbols} - set(env)
        if undefined:
            return f"symbols {undefined} of {d.expression} have no value"
        got, want = value(env, d.expression), S.propagator_value(model, x, sigma[k])
        if not ref.close(got, want, 1e-8):
            return f"dynamics of {f} evaluate to {got}, expected {want}"
        if f["type"] != "MyShape":
            extra = {f["type"]: lambda propagator, resonance, model: S.custom_builder(  # noqa: ARG005
                propagator, resonance, {"functions": [{"name": propagator["parametrization"], "value": 1.25}]})}
            d2 = SD.formulate_dynamics(x, model, tl, extra)
            if not ref.close(value({s.name: v for s, v in d2.parameters.items()}, d2.expression), 1.25 / (1 + 1.25**2)):
                return "an additional builder does not take precedence"
        ffs = []
        for v in x["vertices"]:
            ff = SD.formulate_form_factor(v, model)
            want = S.vertex_form_factor(model, x, v, sigma, masses)
            env = base | {s.name: complex(q) for s, q in ff.parameters.items()}
            got = value(env, ff.expression)
            if not ref.close(got, want, 1e-8):
                return f"form factor of vertex {v}: {ff.expression} evaluates to {got}, expected {want}"
            if not v.get("formfactor") and (ff.expression != 1 or ff.parameters):
                return f"vertex without form factor gives {ff}"
            ffs.append(want)
        # merged into the chain amplitude
        spins = [F(s) for s in info["spins"]]
        lam = [rng.choice(ref.spin_range(s)) for s in spins]
        idx = chains.index(x)
        q = SA.formulate_chain_amplitude(*(sp.Rational(str(l)) for l in lam), model, idx, tl, add)
        pars = [(a, b) for a, b in q.items() if isinstance(b, (int, float, complex))]
        (amp,) = (b for a, b in q.items() if isinstance(a, sp.Indexed))
        (th,) = (a for a in q if getattr(a, "name", "").startswith("theta") and not isinstance(a, sp.Indexed) and isinstance(q[a], sp.Expr))
        env = base | {s.name: complex(v) for s, v in pars}
        env |= {th.name: 0.7} | {f"lambda{n}": l for n, l in enumerate(lam)}
        rec = mt["weight"] * S.recoupling_sum(x, mt, spins, lam, 0.7)
        got = value(env, amp)
        want = rec * S.propagator_value(model, x, sigma[k])
        for w in ffs:
            want *= w
        if not ref.close(got, want, 1e-8):
            t = table(model, [x], tl)
            alt = rec * value_last(model, x, sigma, masses, base | t, tl)
            if c["collide"] and ref.close(got, alt, 1e-8):
                finding = f"FINDING:F10: symbols collide in chain {x['name']}"
            else:
                return f"chain amplitude of {x} evaluates to {got}, expected {want}"
    if c["collide"]:
        return finding
    return finding


def value_last(model, x, sigma, masses, t, tl):
    """Dynamics of the chain with the values of a symbol table."""
    f = S.definition(model, x["propagators"][0]["parametrization"])
    i, j = x["propagators"][0]["node"]
    k = 6 - i - j
    s = sigma[k]
    r = tl(x["name"])
    m = [t[f"m{q}"] for q in range(4)]
    if f["type"] == "BreitWigner":
        v = S.breit_wigner(s, f["mass"], f["width"], m[i], m[j], int(f["l"]), t[R"R_\mathrm{res}"])
    elif f["type"] == "MultichannelBreitWigner":
        ch = [dict(c) for c in f["channels"]]
        ch[0].update(ma=m[i], mb=m[j])
        import cmath

        M = f["mass"]
        v = 1 / (M * M - s - 1j * M * sum(c["gsq"] * M / cmath.sqrt(s) * S.blatt_weisskopf(
            int(c["l"]), S.q2(s, c["ma"], c["mb"]) * c["d"] ** 2) for c in ch))
    else:
        v = f["value"] / (1 + f["value"] ** 2)
    for vert in x["vertices"]:
        if vert.get("formfactor"):
            g = S.definition(model, vert["formfactor"])
            if S.is_production(vert):
                v *= S.form_factor(m[0] ** 2, sigma[k] ** 0.5, m[k], int(g["l"]), t["R_{S0}"])
            else:
                v *= S.form_factor(s, m[i], m[j], int(g["l"]), t[R"R_\mathrm{res}"])
    return v
