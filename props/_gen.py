"""Random decays as JSON descriptions, and their construction through the public API."""
from __future__ import annotations

import random
from fractions import Fraction

import pyvc.env  # noqa: F401
import sympy as sp

PAIR = {1: (2, 3), 2: (3, 1), 3: (1, 2)}


def R(x):
    f = Fraction(str(x))
    return sp.Rational(f.numerator, f.denominator)


def spin_str(two_j: int) -> str:
    return str(Fraction(two_j, 2))


def allowed_ls(J, s1, s2, rng):
    """Any (L, S) with |s1-s2|<=S<=s1+s2 and |L-S|<=J<=L+S in integer steps."""
    J, s1, s2 = Fraction(J), Fraction(s1), Fraction(s2)
    out = []
    S = abs(s1 - s2)
    while S <= s1 + s2:
        for L in range(5):
            if abs(L - S) <= J <= L + S and (L + S - J).denominator == 1:
                out.append([L, str(S)])
        S += 1
    return rng.choice(out) if out else None


def random_decay(rng: random.Random, *, max_two_j=2, max_two_jr=4, n_chains=None, ls=None, max_combos=None,
                 shared_names=True, swap=True, subsystems=None):
    """``ls``: None = random presence, True = always, False = never."""
    while True:
        two = [rng.randint(0, max_two_j) for _ in range(4)]
        if sum(two) % 2:
            continue
        combos = 1
        for t in two:
            combos *= t + 1
        if max_combos and combos > max_combos:
            continue
        break
    states = []
    names = [f"P{i}" for i in range(4)]
    rng.shuffle(names)
    for i in range(4):
        states.append({
            "name": names[i], "latex": rng.choice([f"P_{i}", f"P{i}", Rf"\Lambda_{{{i}}}^0"]), "spin": spin_str(two[i]),
            "parity": rng.choice([-1, 1]), "mass": round(rng.uniform(0.1, 1.0) + (4.0 if i == 0 else 0), 4),
            "width": round(rng.uniform(0, 0.1), 4)})
    n = rng.randint(1, 4) if n_chains is None else n_chains
    chains, seen = [], set()
    tries = 0
    while len(chains) < n and tries < 200:
        tries += 1
        k = rng.choice(subsystems or [1, 2, 3])
        i, j = PAIR[k]
        jr = [t for t in range(0, max_two_jr + 1) if (t + two[i] + two[j]) % 2 == 0]
        t = rng.choice(jr)
        if shared_names and chains and rng.random() < 0.3:
            name = rng.choice(chains)["res"]["name"]
        else:
            name = f"R{len(chains)}({rng.randint(1000, 1999)})"
        again = [c for c in chains if c["res"]["name"] == name]
        if again and rng.random() < 0.6:  # another (LS) chain of the very same resonance
            k, res = again[0]["k"], again[0]["res"]
            i, j = PAIR[k]
            t = int(2 * Fraction(res["spin"]))
        else:
            latex = name if int(name[-2]) % 2 else rf"{name[0]}_{{{name[1:]}}}"
            res = {"name": name, "latex": latex, "spin": spin_str(t), "parity": rng.choice([-1, 1]),
                   "mass": round(rng.uniform(0.8, 3.0), 4), "width": round(rng.uniform(0.01, 0.5), 4)}
        with_ls = rng.random() < 0.5 if ls is None else ls
        pls = allowed_ls(states[0]["spin"], spin_str(t), states[k]["spin"], rng)
        dls = allowed_ls(spin_str(t), states[i]["spin"], states[j]["spin"], rng)
        if with_ls and (pls is None or dls is None):
            continue
        if not with_ls:
            pls = dls = None
            if ls is None and rng.random() < 0.3:
                pls = allowed_ls(states[0]["spin"], spin_str(t), states[k]["spin"], rng)
        c = {"k": k, "res": res, "swap_prod": swap and rng.random() < 0.35, "swap_dec": swap and rng.random() < 0.35,
             "prod_ls": pls, "dec_ls": dls}
        if repr(c) in seen:
            continue
        seen.add(repr(c))
        chains.append(c)
    if len(chains) < min(n, 1):
        return random_decay(rng, max_two_j=max_two_j, max_two_jr=max_two_jr, n_chains=n_chains, ls=ls,
                            max_combos=max_combos, shared_names=shared_names, swap=swap, subsystems=subsystems)
    order = [0, 1, 2, 3]
    rng.shuffle(order)
    return {"states": states, "chains": chains, "order": order}


def cyclic_chain(c):
    """Helicity order conventions of the LS factors need the cyclic child order."""
    return not c["swap_prod"] and not c["swap_dec"]


def make_particle(d):
    from ampform_dpd.decay import Particle

    return Particle(name=d["name"], latex=d["latex"], spin=R(d["spin"]), parity=d["parity"], mass=d["mass"], width=d["width"])


def make_states(spec):
    from ampform_dpd.decay import State

    return {i: State(name=d["name"], latex=d["latex"], spin=R(d["spin"]), parity=d["parity"], mass=d["mass"],
                     width=d["width"], index=i) for i, d in enumerate(spec["states"])}


def make_chain(c, states):
    from ampform_dpd.decay import IsobarNode, ThreeBodyDecayChain

    def ls(x):
        return None if x is None else (x[0], R(x[1]))

    i, j = PAIR[c["k"]]
    if c["swap_dec"]:
        i, j = j, i
    dec = IsobarNode(parent=make_particle(c["res"]), child1=states[i], child2=states[j], interaction=ls(c["dec_ls"]))
    ch = (dec, states[c["k"]])
    if c["swap_prod"]:
        ch = ch[::-1]
    return ThreeBodyDecayChain(IsobarNode(parent=states[0], child1=ch[0], child2=ch[1], interaction=ls(c["prod_ls"])))


def make_decay(spec):
    from ampform_dpd.decay import ThreeBodyDecay

    states = make_states(spec)
    return ThreeBodyDecay(states={i: states[i] for i in spec.get("order", (0, 1, 2, 3))}, chains=[make_chain(c, states) for c in spec["chains"]])


def helicity_sets(spec):
    from itertools import product

    from oracle import ref

    return list(product(*(ref.spin_range(d["spin"]) for d in spec["states"])))


def quiet(fn, *a, **k):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)
