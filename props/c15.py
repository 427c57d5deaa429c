from __future__ import annotations

import cmath
import random

import sympy as sp
from oracle import ref

RULE = "random complex/real arguments for every lineshape class and keyword combination; formulas of the documentation coded independently (Blatt-Weisskopf and phase-space factors of AmpForm evaluated numerically)"
ASSUMPTIONS = ["ampform FormFactor/EnergyDependentWidth/BreakupMomentum/PhaseSpaceFactor are the documented functions (dependency)"]


def prove(ctx):
    from contracts import lineshapes as C

    C.prove_formulas(ctx)


def cases(ctx):
    for n in range(1500 if ctx.thorough else 120):
        yield {"seed": ctx.seed * 160481183 + n}


def num(e):
    return complex(sp.N(sp.sympify(e).doit(), 30))


def run_case(c):
    from ampform.dynamics import EnergyDependentWidth
    from ampform.dynamics.form_factor import FormFactor
    from ampform.dynamics.phasespace import (
        BreakupMomentum, EqualMassPhaseSpaceFactor, PhaseSpaceFactor, PhaseSpaceFactorAbs, PhaseSpaceFactorComplex,
    )
    from ampform_dpd import dynamics as D

    rng = random.Random(c["seed"])
    q = lambda a, b: sp.Rational(rng.randint(int(a * 1000), int(b * 1000)), 1000)  # noqa: E731
    m1, m2, m3, m4 = (q(0.1, 0.6) for _ in range(4))
    m0 = q(1.4, 2.5)
    s = q(1.5, 8)
    w0, w2 = q(0.01, 0.4), q(0.01, 0.4)
    L, L2 = rng.randint(0, 4), rng.randint(0, 4)
    Rr, R2 = q(0.3, 5), q(0.3, 5)
    ph = rng.choice([PhaseSpaceFactor, PhaseSpaceFactorAbs, PhaseSpaceFactorComplex, EqualMassPhaseSpaceFactor, None])
    kw = {} if ph is None else {"phsp_factor": ph}
    ph = ph or PhaseSpaceFactor
    edw = lambda s_, m0_, w, a, b, l, r: num(EnergyDependentWidth(s_, m0_, w, a, b, l, r, phsp_factor=ph))  # noqa: E731
    ff = lambda *a: num(FormFactor(*a))  # noqa: E731
    p = lambda *a: num(BreakupMomentum(*a))  # noqa: E731
    n = complex
    checks = []
    G = edw(s, m0, w0, m1, m2, L, Rr)
    checks.append(("RelativisticBreitWigner", D.RelativisticBreitWigner(s, m0, w0, m1, m2, L, Rr, **kw),
                   n(m0 * w0) / (n(m0) ** 2 - n(s) - 1j * n(m0) * G)))
    on = D.RelativisticBreitWigner(m0**2, m0, w0, m1, m2, L, Rr, **kw)
    checks.append(("RelativisticBreitWigner at s=m0^2", on, 1j))
    mt, ms = q(3.2, 5), q(0.1, 0.5)
    G2 = edw(s, m0, w0, m1, m2, L, Rr)
    bw = 1 / (n(m0) ** 2 - n(s) - 1j * n(m0) * G2)
    # signature: s, m_top, m_spec, m0, width, child2_mass, child1_mass, l_dec, l_prod, R_dec, R_prod
    checks.append(("BreitWignerMinL",
                   D.BreitWignerMinL(s=s, decaying_mass=mt, spectator_mass=ms, resonance_mass=m0, resonance_width=w0,
                                     child2_mass=m1, child1_mass=m2, l_dec=L, l_prod=L2, R_dec=Rr, R_prod=R2, **kw),
                   ff(mt**2, sp.sqrt(s), ms, L2, R2) / ff(mt**2, m0, ms, L2, R2) * bw
                   * ff(s, m1, m2, L, Rr) / ff(m0**2, m1, m2, L, Rr)))
    g = q(0, 2)
    sA = n(m1) ** 2 - n(m2) ** 2 / 2
    checks.append(("BuggBreitWigner", D.BuggBreitWigner(s, m0, w0, m1, m2, g),
                   1 / (n(m0) ** 2 - n(s) - 1j * n(m0) * n(w0) * cmath.exp(-n(g) * n(s)) * (n(s) - sA) / (n(m0) ** 2 - sA))))
    q0 = p(m0**2, m3, m4)
    Gf = (n(w0) * p(s, m1, m2) + n(w2) * p(s, m3, m4)) / q0 * n(m0) / cmath.sqrt(n(s))
    checks.append(("FlattéSWave", D.FlattéSWave(s, m0, (w0, w2), (m1, m2), (m3, m4)),
                   1 / (n(m0) ** 2 - n(s) - 1j * n(m0) * Gf)))
    chans, width = [], 0
    for _ in range(rng.randint(1, 3)):
        if not chans or rng.random() < 0.7:  # channels may be equal
            a = (q(0.01, 0.4), q(0.1, 0.6), q(0.1, 0.6), rng.randint(0, 3), q(0.4, 4))
        chans.append(D.ChannelArguments(s, m0, *a))
        wi = n(a[0]) * n(m0) / cmath.sqrt(n(s)) * ff(s, *a[1:]) ** 2
        checks.append(("ChannelArguments", chans[-1], wi))
        width += wi
    checks.append(("MultichannelBreitWigner", D.MultichannelBreitWigner(s, m0, tuple(chans)),
                   1 / (n(m0) ** 2 - n(s) - 1j * n(m0) * width)))
    dflt = D.ChannelArguments(s, m0, w0)
    checks.append(("ChannelArguments defaults", dflt, n(w0) * n(m0) / cmath.sqrt(n(s)) * ff(s, 0, 0, 0, 1) ** 2))
    checks.append(("BreitWigner", D.BreitWigner(s, m0, w0, m1, m2, L, Rr, **kw), bw))
    for a, b, l in ((0, 0, 0), (m1, 0, 0), (0, m2, 0), (0, 0, 1), (m1, m2, 0)):
        const = a == b == l == 0
        if not const and ph is not PhaseSpaceFactor:
            continue
        G3 = n(w0) if const else edw(s, m0, w0, a, b, l, Rr)
        checks.append((f"BreitWigner(m1={a}, m2={b}, L={l})", D.BreitWigner(s, m0, w0, a, b, l, Rr),
                       1 / (n(m0) ** 2 - n(s) - 1j * n(m0) * G3)))
    checks.append(("BreitWigner at s=m0^2", D.BreitWigner(m0**2, m0, w0, m1, m2, L, Rr, **kw), 1j / (n(m0) * n(w0))))
    checks.append(("BreitWigner defaults", D.BreitWigner(s, m0, w0), 1 / (n(m0) ** 2 - n(s) - 1j * n(m0) * n(w0))))
    checks.append(("SimpleBreitWigner", D.SimpleBreitWigner(s, m0, w0), 1 / (n(m0) ** 2 - n(s) - 1j * n(m0) * n(w0))))
    for name, e, want in checks:
        got = num(e)
        if not ref.close(got, want, 1e-9):
            return f"{name}: {e} evaluates to {got}, formula gives {want} (s={s}, m0={m0}, L={L}, phase space {ph.__name__})"
    # formulas hold for symbols, too: evaluate after substitution
    S, M, W, A_, B_, d = sp.symbols("s m0 w0 a b d", positive=True)
    sub = {S: s, M: m0, W: w0, A_: m1, B_: m2, d: Rr}
    for name, e, want in (
        ("RelativisticBreitWigner", D.RelativisticBreitWigner(S, M, W, A_, B_, L, d, **kw), checks[0][2]),
        ("BreitWigner", D.BreitWigner(S, M, W, A_, B_, L, d, **kw), bw),
        ("SimpleBreitWigner", D.SimpleBreitWigner(S, M, W), checks[-1][2]),
    ):
        got = num(e.doit().subs(sub))
        if not ref.close(got, want, 1e-9):
            return f"{name} with symbols evaluates to {got}, formula gives {want}"
    return None
