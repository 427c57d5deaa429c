"""Random serialized model definitions and their reference amplitudes (C22-C24)."""
from __future__ import annotations

import cmath
import math
import random
from fractions import Fraction

import pyvc.env  # noqa: F401
import sympy as sp
from oracle import ref
from props import _gen as G

F = Fraction


def hel_str(x: Fraction, rng=None) -> str:
    return str(x)


def weight_str(rng):
    """A weight string and its value."""
    kind = rng.randrange(7)
    re_, im_ = round(rng.uniform(-3, 3), 6), round(rng.uniform(0.01, 3), 6)
    if rng.random() < 0.25:  # parts of different magnitude
        re_, im_ = rng.choice([(re_ * 1000, im_ / 1000), (re_ / 1000, im_ * 1000), (re_, im_ * 1e-7), (re_ * 1e-7, im_)])
    if kind == 0:
        return f"{re_} + {im_}i", complex(re_, im_)
    if kind == 1:
        return f"{re_} - {im_}i", complex(re_, -im_)
    if kind == 2:
        return f"{re_}+{im_}i", complex(re_, im_)
    if kind == 3:
        return f"{re_}", complex(re_)
    if kind == 4:
        return f"{im_}i", complex(0, im_)
    if kind == 5:
        return f"{re_:.3e} - {im_:.3e}i", complex(float(f"{re_:.3e}"), -float(f"{im_:.3e}"))
    return f"{re_} + 0.0i", complex(re_)


def random_model(rng: random.Random, *, max_two_j=1, max_two_jr=3, n_chains=None, max_combos=8, collide=False,
                 repeat=True, types=("helicity", "parity", "ls"), custom=True):
    while True:
        two = [rng.randint(0, max_two_j) for _ in range(4)]
        combos = math.prod(t + 1 for t in two)
        if sum(two) % 2 == 0 and combos <= max_combos:
            break
    masses = [round(rng.uniform(4, 5), 4), *(round(rng.uniform(0.1, 0.9), 4) for _ in range(3))]
    spins = [F(t, 2) for t in two]

    def state(i):
        return {"index": i, "name": f"S{i}", "spin": str(spins[i]), "mass": masses[i]}

    fs = [state(i) for i in (1, 2, 3)]
    rng.shuffle(fs)
    radius, radius0 = round(rng.uniform(0.5, 3), 3), round(rng.uniform(0.5, 5), 3)
    functions, chains, meta = [], [], []
    weights = set()
    n = n_chains or rng.randint(1, 4)
    tries = 0
    while len(chains) < n and tries < 100:
        tries += 1
        if repeat and meta and rng.random() < 0.35:
            src = rng.choice(meta)
            k, pair, two_jr, name, prop = src["k"], src["pair"], src["two_jr"], src["name"], src["parametrization"]
        else:
            k = rng.choice([1, 2, 3])
            pair = list(G.PAIR[k])
            if rng.random() < 0.4:
                pair.reverse()
            cand = [t for t in range(max_two_jr + 1) if (t + two[pair[0]] + two[pair[1]]) % 2 == 0]
            two_jr = rng.choice(cand)
            name = f"R{len(chains)}({rng.randint(1000, 1999)})"
            prop = f"{name}_dyn"
            d = round(rng.uniform(0.5, 3), 3) if collide else radius
            typ = rng.choice(["BreitWigner", "BreitWigner", "Multi"] + (["Custom"] if custom else []))
            mass, width = round(rng.uniform(1.5, 3), 4), round(rng.uniform(0.05, 0.5), 4)
            if collide and rng.random() < 0.5:
                ma, mb = round(rng.uniform(0.1, 0.6), 4), round(rng.uniform(0.1, 0.6), 4)
            else:
                ma, mb = masses[pair[0]], masses[pair[1]]
            num = rng.choice([int, float])
            if typ == "BreitWigner":
                functions.append({"name": prop, "type": typ, "mass": mass, "width": width, "ma": ma, "mb": mb,
                                  "l": num(rng.randint(0, 3)), "d": d})
            elif typ == "Custom":
                functions.append({"name": prop, "type": "MyShape", "value": round(rng.uniform(0.5, 2), 4)})
            else:
                if not collide and any(f["type"] == "MultichannelBreitWigner" for f in functions):
                    chan = [dict(c) for c in next(f for f in functions if f["type"] == "MultichannelBreitWigner")["channels"]]
                    chan = [{**c, "gsq": round(rng.uniform(0.05, 0.5), 4), "l": rng.randint(0, 2)} for c in chan]
                    chan[0].update(ma=ma, mb=mb)
                    dd = round(rng.uniform(0.5, 3), 3)
                    chan = [{**c, "d": dd} for c in chan]
                else:
                    zero = lambda x: rng.choice([0, 0.0]) if rng.random() < 0.15 else x  # noqa: E731
                    chan = [{"gsq": zero(round(rng.uniform(0.05, 0.5), 4)), "ma": ma if q == 0 else zero(round(rng.uniform(0.1, 0.6), 4)),
                             "mb": mb if q == 0 else zero(round(rng.uniform(0.1, 0.6), 4)), "l": num(rng.randint(0, 2)),
                             "d": zero(round(rng.uniform(0.5, 3), 3))} for q in range(rng.randint(2, 3))]
                functions.append({"name": prop, "type": "MultichannelBreitWigner", "mass": mass, "channels": chan})
        jr = F(two_jr, 2)
        i, j = pair
        pick = lambda s: rng.choice(ref.spin_range(s))  # noqa: E731
        lr, lk, li, lj = pick(jr), pick(spins[k]), pick(spins[i]), pick(spins[j])
        key = (name, lr, *sorted([(k, lk), (i, li), (j, lj)]))
        if key in weights:
            continue
        weights.add(key)

        def vertex(node, hel, J, s1, s2, production):
            t = rng.choice(types)
            v = {"type": t, "node": node, "helicities": [hel_str(h) for h in hel]}
            if t == "parity":
                f = rng.choice(["+", "-", "", None, " - "])
                if f is not None:
                    v["parity_factor"] = f
            if t == "ls":
                l, s = G.allowed_ls(J, s1, s2, rng) or [rng.randint(0, 2), str(s1)]
                v["l"], v["s"] = rng.choice([str(l), l]), s
            r = rng.random()
            if r < 0.3:
                v["formfactor"] = ""
            elif r < 0.7:
                ff = {"type": "BlattWeisskopf", "l": rng.randint(0, 3),
                      "radius": round(rng.uniform(0.5, 3), 3) if collide else (radius0 if production else radius)}
                ff["name"] = f"FF{len(functions)}"
                functions.append(ff)
                v["formfactor"] = ff["name"]
            return v

        dec = vertex(pair, (li, lj), jr, spins[i], spins[j], False)
        if rng.random() < 0.5:
            prod = vertex([pair, k], (lr, lk), spins[0], jr, spins[k], True)
        else:
            prod = vertex([k, pair], (lk, lr), spins[0], spins[k], jr, True)
        vs = [prod, dec]
        if rng.random() < 0.5:
            vs.reverse()
        w, wv = weight_str(rng)
        topo = rng.choice([[pair, k], [k, pair]])
        chains.append({"name": name, "propagators": [{"spin": str(jr), "node": pair, "parametrization": prop}],
                       "vertices": vs, "topology": topo, "weight": w})
        meta.append({"k": k, "pair": pair, "two_jr": two_jr, "name": name, "parametrization": prop, "weight": wv})
    rng.shuffle(functions)
    r = rng.choice([1, 2, 3])
    a, b = G.PAIR[r]
    model = {
        "distributions": [{
            "name": "m", "type": "HadronicUnpolarizedIntensity", "variables": [],
            "decay_description": {
                "kinematics": {"initial_state": state(0), "final_state": fs},
                "reference_topology": rng.choice([[[a, b], r], [r, [b, a]]]),
                "chains": chains, "appendix": {}}}],
        "functions": functions, "domains": [], "misc": {}, "parameter_points": []}
    return model, {"meta": meta, "spins": [str(s) for s in spins], "masses": masses, "reference": r}


def custom_builder(propagator, resonance, model):
    """Additional builder for "MyShape"."""
    from ampform_dpd import DefinedExpression

    f = next(f for f in model["functions"] if f["name"] == propagator["parametrization"])
    v = sp.Symbol(f"v_{{{resonance}}}")
    return DefinedExpression(v / (1 + v**2), {v: f["value"]})


# ------------------------------------------------------------- reference dynamics
def blatt_weisskopf(l, z):
    """B_l^2(z), normalised to one at z = 1."""
    def num(x):
        return [1, 1 + x, 9 + 3 * x + x**2, 225 + 45 * x + 6 * x**2 + x**3][l]

    return num(1) * z**l / num(z)


def q2(s, a, b):
    return (s - (a + b) ** 2) * (s - (a - b) ** 2) / (4 * s)


def form_factor(s, a, b, l, d):
    return cmath.sqrt(blatt_weisskopf(l, q2(s, a, b) * d**2))


def breit_wigner(s, m, w, a, b, l, d):
    ff2 = lambda x: blatt_weisskopf(l, q2(x, a, b) * d**2)  # noqa: E731
    rho = lambda x: 2 * cmath.sqrt(q2(x, a, b)) / cmath.sqrt(x)  # noqa: E731
    width = w * ff2(s) / ff2(m * m) * rho(s) / rho(m * m)
    return 1 / (m * m - s - 1j * m * width)


def definition(model, name):
    return next(f for f in model["functions"] if f["name"] == name)


def propagator_value(model, chain, s):
    f = definition(model, chain["propagators"][0]["parametrization"])
    if f["type"] == "BreitWigner":
        return breit_wigner(s, f["mass"], f["width"], f["ma"], f["mb"], int(f["l"]), f["d"])
    if f["type"] == "MultichannelBreitWigner":
        m = f["mass"]
        w = sum(c["gsq"] * m / cmath.sqrt(s) * blatt_weisskopf(int(c["l"]), q2(s, c["ma"], c["mb"]) * c["d"] ** 2)
                for c in f["channels"])
        return 1 / (m * m - s - 1j * m * w)
    return f["value"] / (1 + f["value"] ** 2)


def is_production(v):
    return any(not isinstance(x, int) for x in v["node"])


def vertex_form_factor(model, chain, v, sigma, m):
    """Form factor of a vertex; ``m``: masses m0..m3; ``sigma``: values of sigma_k."""
    name = v.get("formfactor")
    if not name:
        return 1
    f = definition(model, name)
    if is_production(v):
        k = next(x for x in v["node"] if isinstance(x, int))
        return form_factor(m[0] ** 2, cmath.sqrt(sigma[k]), m[k], int(f["l"]), f["radius"])
    i, j = v["node"]
    k = 6 - i - j
    return form_factor(sigma[k], m[i], m[j], int(f["l"]), f["radius"])


def vertex_value(v, hel, spins, jr, jparent):
    """Recoupling function of a vertex for the helicities of its node items."""
    node = v["node"]
    la, lb = (hel[x] if isinstance(x, int) else hel["R"] for x in node)
    ja, jb = (spins[x] if isinstance(x, int) else jr for x in node)
    if v["type"] == "ls":
        l, s = F(str(v["l"])), F(v["s"])
        return (math.sqrt((2 * l + 1) / (2 * jparent + 1)) * ref.cg(ja, la, jb, -lb, s, la - lb)
                * ref.cg(l, 0, s, la - lb, jparent, la - lb))
    a0, b0 = (F(h) for h in v["helicities"])
    out = 1.0 if (la, lb) == (a0, b0) else 0.0
    if v["type"] == "parity":
        f = {"+": 1, "-": -1, "": 0}[v.get("parity_factor", "+").strip()]
        out += f * (1.0 if (la, lb) == (-a0, -b0) else 0.0)
    return out


def recoupling_sum(chain, meta, spins, lam, theta):
    """Sum over the resonance helicity of both recouplings and the Wigner function."""
    k, (i, j) = meta["k"], meta["pair"]
    jr = F(meta["two_jr"], 2)
    tot = 0
    for lr in ref.spin_range(jr):
        hel = {0: lam[0], 1: lam[1], 2: lam[2], 3: lam[3], "R": lr}
        v = 1
        for vert in chain["vertices"]:
            v *= vertex_value(vert, hel, spins, jr, spins[0] if is_production(vert) else jr)
        tot += v * ref.wigner_d(jr, lr, lam[i] - lam[j], theta)
    return tot
