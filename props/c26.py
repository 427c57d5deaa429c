from __future__ import annotations

import random
from fractions import Fraction

from props import _gen as G

RULE = "random particles, states and decay chains (with, without and with partial LS couplings; with and without parity), sequences of every length and type"


def prove(ctx):
    from contracts import io as C

    C.prove_tables(ctx)
    C.prove_latex(ctx)


def cases(ctx):
    for n in range(20000 if ctx.thorough else 2000):
        yield {"seed": ctx.seed * 472882027 + n}


def cells(line):
    if not (line.startswith("|") and line.rstrip().endswith("|")):
        return None
    return [x.strip() for x in line.strip()[1:-1].split("|")]


def jp(spin, parity):
    f = Fraction(spin)
    s = str(f) if f.denominator == 1 else rf"\frac{{{f.numerator}}}{{{f.denominator}}}"
    return f"J={s}" if parity is None else f"{s}^{'-' if parity < 0 else '+'}"


def mev(x):
    return f"{int(1e3 * x):,.0f}"


def check_table(text, rows):
    lines = text.split("\n")
    if lines[-1] != "":
        return "table does not end with a newline"
    lines = lines[:-1]
    if len(lines) != len(rows) + 2:
        return f"table has {len(lines)} lines for {len(rows)} items"
    parsed = [cells(x) for x in lines]
    if any(p is None for p in parsed):
        return f"malformed row in {text}"
    n = len(rows[0])
    if any(len(p) != n for p in parsed):
        return f"rows have {[len(p) for p in parsed]} cells, expected {n}:\n{text}"
    if any(set(x) != {"-"} for x in parsed[1]):
        return f"no separator row:\n{text}"
    if len(set(parsed[0])) != n or not all(parsed[0]):
        return f"header {parsed[0]}"
    for got, want in zip(parsed[2:], rows):
        if got != want:
            return f"row {got}, expected {want}"
    return None


def run_case(c):
    from ampform_dpd.decay import IsobarNode, Particle, State, ThreeBodyDecay, ThreeBodyDecayChain
    from ampform_dpd.io import as_markdown_table, aslatex

    rng = random.Random(c["seed"])
    spec = G.random_decay(rng, max_two_j=4, max_two_jr=5, n_chains=rng.randint(1, 7), ls=rng.choice([None, None, True, False]))
    for x in spec["chains"]:
        r = rng.random()
        if r < 0.15:
            x["prod_ls"] = None
        elif r < 0.3:
            x["dec_ls"] = None
        if rng.random() < 0.2:
            x["res"]["parity"] = None
    for s in [*spec["states"], *(x["res"] for x in spec["chains"])]:
        if rng.random() < 0.3:
            s["mass"], s["width"] = rng.choice([(12.5, 1.234), (0, 0), (1.0, 0.0005), (1234.5, 999.9)])
    decay = G.make_decay(spec)
    tex = lambda d: d["latex"]  # noqa: E731

    # particles and states
    particles = [G.make_particle(x["res"]) for x in spec["chains"]]
    descr = [x["res"] for x in spec["chains"]]
    row = lambda d: [f"`{d['name']}`", f"${d['latex']}$", f"${jp(d['spin'], d['parity'])}$", mev(d["mass"]), mev(d["width"])]  # noqa: E731
    msg = check_table(as_markdown_table(particles), [row(d) for d in descr])
    if msg:
        return "particles: " + msg
    states = [decay.states[i] for i in range(4)]
    order = list(range(4))
    rng.shuffle(order)
    msg = check_table(as_markdown_table([states[i] for i in order]), [[str(i), *row(spec["states"][i])] for i in order])
    if msg:
        return "states: " + msg
    mixed = [("", d, p) for d, p in zip(descr, particles)] + [(str(i), spec["states"][i], states[i]) for i in order]
    rng.shuffle(mixed)
    # a mixture of particles and states is a sequence of particles
    msg = check_table(as_markdown_table([p for _, _, p in mixed]), [[i, *row(d)] for i, d, _ in mixed])
    if msg:
        return "particles and states: " + msg
    # chains
    out_ls = any(x["dec_ls"] for x in spec["chains"])
    in_ls = any(x["prod_ls"] for x in spec["chains"])
    rows = []
    for x in spec["chains"]:
        i, j = G.PAIR[x["k"]]
        if x["swap_dec"]:
            i, j = j, i
        d = x["res"]
        r = [rf"${d['latex']} \to {tex(spec['states'][i])} {tex(spec['states'][j])}$", f"${jp(d['spin'], d['parity'])}$",
             mev(d["mass"]), mev(d["width"])]
        if out_ls:
            r.append("" if x["dec_ls"] is None else str(x["dec_ls"][0]))
        if in_ls:
            r.append("" if x["prod_ls"] is None else str(x["prod_ls"][0]))
        rows.append(r)
    for obj in (decay, list(decay.chains), tuple(decay.chains)):
        text = as_markdown_table(obj)
        msg = check_table(text, rows)
        if msg:
            return "chains: " + msg
        head = cells(text.split("\n")[0])
        dec, prod = [("dec" in h) for h in head], [("prod" in h) for h in head]
        if any(dec) != out_ls or any(prod) != in_ls:
            return f"LS columns {head}"
        if out_ls and in_ls and dec.index(True) > prod.index(True):
            return f"LS columns {head} are not in the order of the cells"

    # LaTeX
    def arrow(ls):
        return r"\to" if ls is None else rf"\xrightarrow[S={ls[1]}]{{L={ls[0]}}}"

    for x, chain in zip(spec["chains"], decay.chains):
        i, j = G.PAIR[x["k"]]
        if x["swap_dec"]:
            i, j = j, i
        d = rf"\left({x['res']['latex']} {arrow(x['dec_ls'])} {tex(spec['states'][i])} {tex(spec['states'][j])}\right)"
        children = [d, tex(spec["states"][x["k"]])]
        if x["swap_prod"]:
            children.reverse()
        want = f"{tex(spec['states'][0])} {arrow(x['prod_ls'])} {children[0]} {children[1]}"
        for got in (aslatex(chain), aslatex(chain.decay)):
            if got != want:
                return f"LaTeX of chain is {got}, expected {want}"

        def full(p):
            return rf"{p['latex']}\left[{jp(p['spin'], p['parity'])}\right]"

        d = rf"\left({full(x['res'])} {arrow(x['dec_ls'])} {full(spec['states'][i])} {full(spec['states'][j])}\right)"
        children = [d, full(spec["states"][x["k"]])]
        if x["swap_prod"]:
            children.reverse()
        want = f"{full(spec['states'][0])} {arrow(x['prod_ls'])} {children[0]} {children[1]}"
        for got in (aslatex(chain, with_jp=True), aslatex(chain.decay, with_jp=True)):
            if got != want:
                return f"LaTeX of chain with spin-parity is {got}, expected {want}"
    whole = aslatex(decay)
    if any(aslatex(x) not in whole for x in decay.chains):
        return f"LaTeX of the decay lacks a chain: {whole}"
    for d, p in zip(descr, particles):
        want = jp(d["spin"], d["parity"])
        if aslatex(p) != d["latex"] or aslatex(p, only_jp=True) != want or aslatex(p, with_jp=True) != rf"{d['latex']}\left[{want}\right]":
            return f"LaTeX of {p}: {aslatex(p)}, {aslatex(p, only_jp=True)}, {aslatex(p, with_jp=True)}"
    # rejected
    for bad, exc in (([], ValueError), ((), ValueError), ([particles[0], decay.chains[0]], ValueError), ([1, particles[0]], ValueError),
                     ([1, 2.5], ValueError), ([1, 2], NotImplementedError), (["a"], NotImplementedError),
                     ([decay], NotImplementedError), ([decay.chains[0].decay], NotImplementedError), (1, NotImplementedError),
                     ([decay.chains[0], states[0], particles[0]], ValueError), ([decay, decay.chains[0]], ValueError)):
        try:
            as_markdown_table(bad)
        except exc:
            continue
        except Exception as e:  # noqa: BLE001
            return f"{bad} raises {e!r} instead of {exc.__name__}"
        return f"{bad} is rendered"
    return None
