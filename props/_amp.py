"""Reference amplitudes (numeric) for C09-C14 and C27, written from the property texts."""
from __future__ import annotations

import math
import random
from fractions import Fraction
from itertools import product

import pyvc.env  # noqa: F401
import sympy as sp
from oracle import ref
from props import _gen as G

F = Fraction


def rat(x: Fraction):
    return sp.Rational(x.numerator, x.denominator)


def tag_builder(chain_index):
    from ampform_dpd import DefinedExpression

    def build(chain):
        d = sp.Symbol(f"D_{chain_index}")
        g = sp.Symbol(f"g_{chain_index}")
        return DefinedExpression(d * g, {g: 0.5 + chain_index, d: 2.5 + chain_index})

    return build


def register_tags(builder, decay, tags=None):
    """``tags``: number of the dynamics of each chain, several chains may share one; None = nothing registered."""
    for n, c in enumerate(decay.chains):
        tag = n if tags is None else tags[n]
        if tag is not None:
            builder.dynamics_choices.register_builder(c, tag_builder(tag))


def random_tags(rng, spec):
    n = len(spec["chains"])
    if rng.random() < 0.5:
        return list(range(n))
    return [rng.choice([None, 0, 1]) for _ in range(n)] if rng.random() < 0.5 else [None] * n


def coupling(basis_hel, typ, latex, idx):
    """Value of a coupling, as the evaluator would give it."""
    label = rf"\mathcal{{H}}^\mathrm{{{typ}}}" if basis_hel else rf"\mathcal{{H}}^\mathrm{{LS,{typ}}}"
    return f"{label}[{', '.join([latex, *map(str, idx)])}]"


def coefficient(prod_hel, dec_hel, latex, idx):
    if prod_hel and dec_hel:
        label = rf"\mathcal{{H}}^\mathrm{{{latex}}}"
    elif prod_hel:
        label = rf"\mathcal{{H}}^\mathrm{{LS,\lambda,{latex}}}"
    elif dec_hel:
        label = rf"\mathcal{{H}}^\mathrm{{\lambda,LS,{latex}}}"
    else:
        label = rf"\mathcal{{H}}^\mathrm{{LS,{latex}}}"
    return f"{label}[{', '.join(map(str, idx))}]"


def sgn(x: Fraction) -> int:
    assert x.denominator == 1
    return -1 if x.numerator % 2 else 1


def ls_factor(J, j1, m1, j2, m2, ls):
    L, S = F(ls[0]), F(ls[1])
    return math.sqrt((2 * L + 1) / (2 * F(J) + 1)) * ref.cg(j1, m1, j2, -m2, S, m1 - m2) * ref.cg(L, 0, S, m1 - m2, J, m1 - m2)


def children_in_order(c, states, hel_R, lam):
    """(spin, helicity) of the two children of production and decay node, in node order."""
    k = c["k"]
    i, j = G.PAIR[k]
    jr = F(c["res"]["spin"])
    prod = [(jr, hel_R), (F(states[k]["spin"]), lam[k])]
    dec = [(F(states[i]["spin"]), lam[i]), (F(states[j]["spin"]), lam[j])]
    if c["swap_prod"]:
        prod.reverse()
    if c["swap_dec"]:
        dec.reverse()
    return prod, dec


def chain_value(ev, spec, n, lam, prod_hel, dec_hel, coeff=False, dyn=None):
    """Value of chain n at the helicities, and the keys of the couplings that contribute."""
    c = spec["chains"][n]
    states = spec["states"]
    k = c["k"]
    i, j = G.PAIR[k]
    jr = F(c["res"]["spin"])
    spins = [F(s["spin"]) for s in states]
    theta = sp.Symbol(f"theta_{i}{j}", real=True)
    tot, used = 0, set()
    for lr in ref.spin_range(jr):
        if lam[0] != lr - lam[k]:
            continue
        if coeff:
            idx = [*((lr, lam[k]) if prod_hel else (c["prod_ls"][0], F(c["prod_ls"][1]))),
                   *((lam[i], lam[j]) if dec_hel else (c["dec_ls"][0], F(c["dec_ls"][1])))]
            keys = [coefficient(prod_hel, dec_hel, c["res"]["latex"], idx)]
        else:
            keys = [coupling(prod_hel, "production", c["res"]["latex"],
                             (lr, lam[k]) if prod_hel else (c["prod_ls"][0], F(c["prod_ls"][1]))),
                    coupling(dec_hel, "decay", c["res"]["latex"],
                             (lam[i], lam[j]) if dec_hel else (c["dec_ls"][0], F(c["dec_ls"][1])))]
        v = 1
        for key in keys:
            used.add(key)
            v *= ev.env[key] if key in ev.env else ev.unknown(key)
        v *= sgn(spins[k] - lam[k]) * sgn(spins[j] - lam[j])
        v *= ref.wigner_d(jr, lr, lam[i] - lam[j], ev(theta))
        v *= dyn if dyn is not None else ev(sp.Symbol(f"D_{n}")) * ev(sp.Symbol(f"g_{n}"))
        prod, dec = children_in_order(c, states, lr, lam)
        if not prod_hel:
            v *= ls_factor(spins[0], *prod[0], *prod[1], c["prod_ls"])
        if not dec_hel:
            v *= ls_factor(jr, *dec[0], *dec[1], c["dec_ls"])
        tot += v
    return tot, used


def indexed_key(e) -> str:
    ev = ref.Evaluator()
    idx = tuple(ev.index(i) for i in e.indices)
    return f"{e.base.label}[{', '.join(map(str, idx))}]"


def check_subsystem(spec, decay, builder, k, lam, prod_hel, dec_hel, coeff=False, defaults=True, tags=None):
    """Compare formulate_subsystem_amplitude with the reference."""
    from ampform_dpd.angles import formulate_scattering_angle

    i, j = G.PAIR[k]
    args = [rat(x) for x in lam]
    model = G.quiet(builder.formulate_subsystem_amplitude, *args, k, **({"use_coefficients": True} if coeff else {}))
    if len(model.amplitudes) != 1:
        return f"subsystem amplitude has {len(model.amplitudes)} definitions"
    (sym, expr), = model.amplitudes.items()
    want_key = f"A^{k}[{', '.join(map(str, lam))}]"
    if indexed_key(sym) != want_key:
        return f"amplitude symbol is {sym}, expected {want_key}"
    th, th_expr = formulate_scattering_angle(i, j)
    if dict(model.variables) != {th: th_expr}:
        return f"variables of the subsystem amplitude are {model.variables}, expected theta_{i}{j}"
    ev = ref.Evaluator()
    got = ev(expr)
    want, used = 0, set()
    for n, c in enumerate(spec["chains"]):
        if c["k"] == k:
            tag = n if tags is None else tags[n]
            dyn = 1 if tag is None else ev(sp.Symbol(f"D_{tag}")) * ev(sp.Symbol(f"g_{tag}"))
            v, u = chain_value(ev, spec, n, lam, prod_hel, dec_hel, coeff, dyn)
            want += v
            used |= u
    where = f"A^{k} at helicities {list(map(str, lam))}, helicity basis {prod_hel, dec_hel}, coefficients {coeff}"
    if not ref.close(got, want):
        return f"{where}: expression evaluates to {got}, the formula gives {want}; expression {expr}"
    if not defaults:
        return None
    have = {}
    for s, v in model.parameter_defaults.items():
        if isinstance(s, sp.Indexed):
            have[indexed_key(s)] = v
    if set(have) != used:
        return f"{where}: couplings with a default {sorted(have)}, couplings that occur {sorted(used)}"
    if any(v != 1 for v in have.values()):
        return f"{where}: defaults {have}"
    want_dyn = {f"{x}_{n}": o + n for n, c in enumerate(spec["chains"]) if c["k"] == k for x, o in (("g", 0.5), ("D", 2.5))}
    got_dyn = {s.name: v for s, v in model.parameter_defaults.items() if isinstance(s, sp.Symbol)}
    if got_dyn != want_dyn:
        return f"{where}: dynamics defaults {got_dyn}, expected {want_dyn}"
    # every coupling left after evaluating the helicity sums has a default
    left = {indexed_key(x) for x in expr.doit().atoms(sp.Indexed)}
    if not left <= set(have):
        return f"{where}: couplings without default {left - set(have)}"
    return None


def aligned_value(ev, spec, lam, r, ks=None):
    """Value of the aligned amplitude at outer helicities lam."""
    from ampform_dpd.angles import formulate_zeta_angle

    spins = [F(s["spin"]) for s in spec["states"]]
    tot = 0
    if ks is None:
        ks = sorted({c["k"] for c in spec["chains"]})
    for k in ks:
        z = [ev(formulate_zeta_angle(i, k, r)[0]) for i in range(4)]
        for lp in product(*(ref.spin_range(j) for j in spins)):
            key = f"A^{k}[{', '.join(map(str, lp))}]"
            v = ev.env[key] if key in ev.env else ev.unknown(key)
            v *= ref.wigner_d(spins[0], lam[0], lp[0], z[0]) if spins[0] else 1
            for i in (1, 2, 3):
                if spins[i]:
                    v *= ref.wigner_d(spins[i], lp[i], lam[i], z[i])
            tot += v
    return tot


def want_angles(spec, r, ks=None):
    from ampform_dpd.angles import formulate_zeta_angle

    if ks is None:
        ks = sorted({c["k"] for c in spec["chains"]})
    out = {}
    for k in ks:
        for i, s in enumerate(spec["states"]):
            if F(s["spin"]) != 0:
                sym, e = formulate_zeta_angle(i, k, r)
                out[sym] = e
    return out


def best_references(spec):
    n = {}
    for c in spec["chains"]:
        n[c["k"]] = n.get(c["k"], 0) + 1
    return {k for k in n if n[k] == max(n.values())}
