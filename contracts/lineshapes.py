"""C15, C16, C17 and C28: lineshapes, their builder, invariants and products of dynamics."""
from __future__ import annotations

import sympy as sp
import z3
from contracts import symbolic as Y
from pyvc import compare as K
from pyvc import values as V
from pyvc.compare import Differ, require, same, verify
from pyvc.engine import num_term
from pyvc.values import Obj, Seg, VDict, VList, VSeq, number, string


# ------------------------------------------------------------------ C28
def prove_products(ctx):
    import ampform_dpd as A

    E = [V.unknown_expr(f"expr{n}") for n in (1, 2, 3)]

    def defined(n):
        return Y.native(A.DefinedExpression, expression=E[n - 1], parameters=Y.mapping(f"params{n}"))

    def merged(*maps):
        out = VDict()
        for d in maps:
            out.items.extend(d.items)
        return out

    KINDS = ["defined", "tuple", "list", "expression", "complex", "int"]

    def inputs(m):
        kind = m.choose(KINDS, "factor")
        p2 = Y.mapping("params2")
        other = {"defined": lambda: defined(2), "tuple": lambda: (E[1], p2), "list": lambda: VList([E[1], p2]),
                 "expression": lambda: E[1], "complex": lambda: complex(2, 3), "int": lambda: 5}[kind]()
        return [defined(1), other], {}

    def post(m, kind, val, args, kwargs):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        a, b = args
        if not isinstance(val, A.DefinedExpression):
            raise Differ(f"returns {val!r}", m.model())
        which = m.choose(KINDS, "factor")
        e2 = {"complex": complex(2, 3), "int": 5}.get(which, E[1])
        same(m, val.expression, E[0] * e2, "expression")
        p1, p2 = Y.mapping("params1"), Y.mapping("params2")
        same(m, val.parameters, merged(p1, p2) if which in ("defined", "tuple", "list") else p1, "parameters")
        same(m, a.expression, E[0], "expression of the left operand")
        same(m, a.parameters, p1, "parameters of the left operand")
        if which == "defined":
            same(m, b.expression, E[1], "expression of the right operand")
            same(m, b.parameters, p2, "parameters of the right operand")
        elif which in ("tuple", "list"):
            x, d = K.items(m, b)
            same(m, d, p2, "parameters of the right operand")

    verify(ctx, "ensures: product of the expressions, merged parameters (right wins), operands unchanged",
           A.DefinedExpression.__mul__, inputs, post=post)
    verify(ctx, "ensures: product of the expressions, merged parameters (operator *)",
           A.DefinedExpression.__mul__, inputs, post=post, name="DefinedExpression * x",
           invoke=lambda m, a, k: m.call(lambda x, y: x * y, a))
    verify(ctx, "ensures: product of the expressions, merged parameters (operator *=)",
           A.DefinedExpression.__mul__, inputs, post=post, name="DefinedExpression *= x",
           invoke=lambda m, a, k: m.call(imul, a))

    def unit(m, kind, val, args, kwargs):
        same(m, val.expression, sp.Integer(1), "expression")
        same(m, val.parameters, {}, "parameters")

    verify(ctx, "ensures: one, without parameters, by default", A.DefinedExpression, lambda m: ([], {}), post=unit)


def imul(x, y):
    z = x
    z *= y
    return z


# ------------------------------------------------------------------ C16
class AnyPhaseSpace:
    """An arbitrary phase-space factor (the builder only passes it on)."""

    def __call__(self, s, m1, m2):
        return sp.Function("rho")(s, m1, m2)


def rational(x):
    return sp.Symbol(x, nonnegative=True)


def prove_builder(ctx):
    from itertools import product

    from ampform.dynamics.form_factor import FormFactor
    from ampform_dpd.dynamics import RelativisticBreitWigner, SimpleBreitWigner
    from ampform_dpd.dynamics import builder as B

    ctx.assume("the phase-space factor is an arbitrary opaque callable (the builder only passes it on)")
    phsp = AnyPhaseSpace()

    def the_builder(edw, dff, pff):
        return Y.native(B.BreitWignerBuilder, energy_dependent_width=edw, decay_form_factor=dff, production_form_factor=pff,
                        phsp_factor=phsp)

    def post_for(edw, dff, pff, ph):
        def post(m, kind, val, args, kwargs):
            c = args[1] if len(args) > 1 else args[0]
            states = c.lazy.states
            k = m.choose([1, 2, 3], f"{c.name}.k")
            swap_d = m.choose([False, True], f"{c.name}.swap-decay") if edw or dff else False
            swap_p = m.choose([False, True], f"{c.name}.swap-production")
            i, j = Y.PAIR[k]
            if swap_d:
                i, j = j, i
            prod = m.getattr(c, "decay")
            dec = m.getattr(c, "decay_node")
            R = m.getattr(dec, "parent")
            ls_dec = m.getattr(dec, "interaction") if edw or dff else None
            ls_prod = m.getattr(prod, "interaction") if pff else None
            missing = (edw or dff) and ls_dec is None or pff and ls_prod is None
            if missing:
                if kind != "raise" or not isinstance(val, ValueError):
                    raise Differ(f"{K.describe(kind, val)} although an angular momentum is missing", m.model())
                return
            if kind != "return":
                raise Differ(f"raises {val!r} although all angular momenta are there", m.model())
            s, m0 = rational(f"sigma{k}"), rational("m0")
            M, W = rational(f"m_{{{R.latex}}}"), rational(rf"\Gamma_{{{R.latex}}}")
            mi, mj, mk = rational(f"m{i}"), rational(f"m{j}"), rational(f"m{k}")
            r_dec, r_prod = rational(r"R_\mathrm{res}"), rational(f"R_{{{states[0].latex}}}")
            need = {M: R.mass, W: R.width}
            if edw:
                need[r_dec] = 1
                want = RelativisticBreitWigner(s, M, W, mi, mj, ls_dec.L, r_dec, phsp_factor=ph)
            else:
                want = SimpleBreitWigner(s, M, W)
            known = want
            if dff:
                want *= FormFactor(s, mi, mj, ls_dec.L, r_dec)
                known *= FormFactor(s**2, mi, mj, ls_dec.L, r_dec)  # finding F8
                need |= {r_dec: 1, mi: states[i].mass, mj: states[j].mass}
            if pff:
                a, b = (mk, M) if swap_p else (M, mk)
                ff = FormFactor(m0**2, a, b, ls_prod.L, r_prod)
                want, known = want * ff, known * ff
                need |= {r_prod: 1, M: R.mass, mk: states[k].mass, m0: states[0].mass}
            try:
                same(m, val.expression, want, "expression")
            except Differ as d:
                try:
                    same(m, val.expression, known, "expression (up to finding F8)")
                except Differ:
                    raise d from None
            allowed = {M: R.mass, W: R.width, r_dec: 1, r_prod: 1, m0: states[0].mass, **{rational(f"m{n}"): states[n].mass for n in (1, 2, 3)}}
            got = K.dict_pairs(m, val.parameters)
            if got is None:
                raise Differ("parameters of unknown number")
            for sym, v in need.items():
                hits = [x for q, x in got if m.decide_eq(q, sym)]
                if not hits:
                    raise Differ(f"no default for {K.show(sym)}", m.model())
                same(m, hits[0], v, f"default of {K.show(sym)}")
            for q, x in got:
                hits = [v for sym, v in allowed.items() if m.decide_eq(q, sym)]
                if not hits:
                    raise Differ(f"a default for {K.show(q)}", m.model())
                same(m, x, hits[0], f"default of {K.show(q)}")

        return post

    def one_chain(m):
        states = {i: Y.state(m, i) for i in (0, 1, 2, 3)}
        return Y.chain(m, "chain;", states)

    for flags in product((True, False), repeat=3):
        verify(ctx, f"ensures: Breit-Wigner, form factors and defaults of the chain, else ValueError [energy-dependent width, decay and "
               f"production form factor: {', '.join(map(str, flags))}]", B.BreitWignerBuilder.__call__,
               lambda m, flags=flags: ([the_builder(*flags), one_chain(m)], {}), post=post_for(*flags, phsp))

    def default_phsp(m, kind, val, args, kwargs):
        from ampform.dynamics.phasespace import PhaseSpaceFactor

        want = dict(energy_dependent_width=True, decay_form_factor=True, production_form_factor=True, phsp_factor=PhaseSpaceFactor)
        for n, w in want.items():
            if getattr(val, n) is not w:
                raise Differ(f"{n} is {getattr(val, n)}", m.model())

    verify(ctx, "ensures: all flags on and the standard phase-space factor by default", B.BreitWignerBuilder, lambda m: ([], {}),
           post=default_phsp)
    verify(ctx, "ensures: the predefined builder is the default builder", B.BreitWignerBuilder, lambda m: ([], {}), post=default_phsp,
           name="dynamics.builder.formulate_breit_wigner_with_form_factor", invoke=lambda m, a, k: B.formulate_breit_wigner_with_form_factor)


# ------------------------------------------------------------------ C15
def formula(m, x):
    """The documented formulas; phase-space factors, form factors and widths of AmpForm are opaque."""
    from ampform.dynamics import EnergyDependentWidth
    from ampform.dynamics.form_factor import FormFactor
    from ampform.dynamics.phasespace import BreakupMomentum
    from ampform_dpd import dynamics as D

    a = x.args
    ph = getattr(x, "phsp_factor", None)

    def bw(s, m0, width):
        return 1 / (m0**2 - s - sp.I * m0 * width)

    if isinstance(x, D.SimpleBreitWigner):
        return bw(*a)
    if isinstance(x, D.BreitWigner):
        s, m0, w, m1, m2, L, R = a
        if all(m.truth(m.eq_bool(v, 0)) for v in (L, m1, m2)):
            return bw(s, m0, w)
        return bw(s, m0, EnergyDependentWidth(*a, phsp_factor=ph))
    if isinstance(x, D.RelativisticBreitWigner):
        return a[1] * a[2] * bw(a[0], a[1], EnergyDependentWidth(*a, phsp_factor=ph))
    if isinstance(x, D.BreitWignerMinL):
        s, mt, ms, m0, w, m2, m1, ld, lp, Rd, Rp = a
        return (FormFactor(mt**2, sp.sqrt(s), ms, lp, Rp) / FormFactor(mt**2, m0, ms, lp, Rp)
                * bw(s, m0, EnergyDependentWidth(s, m0, w, m2, m1, ld, Rd, phsp_factor=ph))
                * FormFactor(s, m2, m1, ld, Rd) / FormFactor(m0**2, m2, m1, ld, Rd))
    if isinstance(x, D.BuggBreitWigner):
        s, m0, w, m1, m2, g = a
        sA = m1**2 - m2**2 / 2
        return bw(s, m0, w * sp.exp(-g * s) * (s - sA) / (m0**2 - sA))
    if isinstance(x, D.FlattéSWave):
        s, m0, ws, c1, c2 = a
        q0 = BreakupMomentum(m0**2, *c2)
        return bw(s, m0, sum(w * BreakupMomentum(s, *c) / q0 * m0 / sp.sqrt(s) for w, c in zip(ws, (c1, c2))))
    if isinstance(x, D.ChannelArguments):
        s, m0, w, *rest = a
        return w * m0 / sp.sqrt(s) * FormFactor(s, *rest) ** 2
    return None


class Abstraction:
    """Rational functions over opaque terms: terms that are equal under the path condition share a symbol."""

    def __init__(self, m):
        self.m, self.classes, self.roots, self.squares = m, [], {}, {}

    def atom(self, e):
        from ampform.dynamics import EnergyDependentWidth

        if isinstance(e, EnergyDependentWidth):  # the name is only for LaTeX
            e = EnergyDependentWidth(*e.args, phsp_factor=e.phsp_factor)
        for other, sym in self.classes:
            if K.match(self.m, other, e) is None:
                return sym
        sym = sp.Symbol(f"t{len(self.classes)}")
        self.classes.append((e, sym))
        return sym

    def __call__(self, e):
        if isinstance(e, (sp.Add, sp.Mul)):
            return e.func(*map(self, e.args))
        if e is sp.I:
            i = sp.Symbol("i")
            self.squares[i] = sp.Integer(-1)
            return i
        if e.is_Float:
            return sp.Rational(float(e))
        if e.is_Rational or e.is_Symbol:
            return e
        if isinstance(e, sp.Pow) and e.exp.is_Rational and e.exp.q in (1, 2):
            base = self(e.base)
            if e.exp.q == 1:
                return base**e.exp
            for other, sym in self.roots.items():
                if sp.expand(other - base) == 0:
                    return sym**e.exp.p
            sym = sp.Symbol(f"r{len(self.roots)}")
            self.roots[base] = sym
            self.squares[sym] = base
            return sym**e.exp.p
        if isinstance(e, sp.exp):
            arg = sp.expand(e.args[0])
            if arg.could_extract_minus_sign():
                return 1 / self.atom(sp.exp(-arg))
            return self.atom(sp.exp(arg))
        return self.atom(e)

    def reduced(self, p):
        p = sp.expand(p)
        for s, v in self.squares.items():
            while sp.degree(p, s) > 1:
                p = sp.expand(sum(c * v ** (k // 2) * s ** (k % 2) for (k,), c in sp.Poly(p, s).terms()))
        return p


def same_function(m, got, want, what):
    """Equal as rational functions of the opaque terms (decided as a polynomial identity), wherever both are defined."""
    from pyvc import smt

    got, want = sp.sympify(got), sp.sympify(want)
    f = Abstraction(m)
    num = sp.numer(sp.together(f(got) - f(want)))
    num = f.reduced(num)
    ok, _, _, why = smt.poly_identity(num, sp.Integer(0))
    if ok:
        return
    raise Differ(f"{what}: {K.show(got)} is not {K.show(want)} ({why})", distinguishing(m, got, want))


def distinguishing(m, got, want):
    """A model of the path condition at which the formulas have different values."""
    syms = sorted((got.free_symbols | want.free_symbols) - {s for s in got.atoms(sp.Symbol) if not V.is_ghost_symbol(s)}, key=str)
    if got.atoms(V.GFold) or want.atoms(V.GFold):
        return None
    for mod in K.samples(m, syms, 8):
        vals = {}
        for g in syms:
            f = K.value_of(mod, g)
            vals[g] = sp.Rational(f.numerator, f.denominator)
        try:
            x, y = (complex(sp.N(e.xreplace(vals).doit().replace(sp.Function("rho"), lambda s, a, b: 3 + s + 2 * a + 5 * b), 25))
                    for e in (got, want))
        except Exception:  # noqa: BLE001
            continue
        if x == x and y == y and abs(x) < 1e12 and abs(x - y) > 1e-9 * (1 + abs(y)):
            m.witness_values = {str(k): str(v) for k, v in vals.items()}
            return mod
    return None


def evaluated(m, x):
    """The value of evaluate(), with lineshapes in it replaced by their formulas (their own contracts)."""
    val = m.call(m.getattr(x, "evaluate"), [])
    from ampform_dpd import dynamics as D

    def inner(e):
        if not isinstance(e, sp.Basic) or not e.args or isinstance(e, (V.GFold, V.GPool)):
            return e
        if type(e).__module__ == D.__name__:
            f = formula(m, e)
            if f is not None:
                return f
        args = [inner(a) for a in e.args]
        return e if all(p is q for p, q in zip(args, e.args)) else e.func(*args)

    return inner(val)


def prove_formulas(ctx):
    from ampform.dynamics import EnergyDependentWidth
    from ampform_dpd import dynamics as D

    ctx.assume("ampform: doit() evaluates by evaluate(), arguments are the fields in the order of their declaration; FormFactor, "
               "EnergyDependentWidth and BreakupMomentum are opaque functions of their arguments (their formulas are AmpForm's)")

    def phsp(s, m1, m2):
        return sp.Function("rho")(s, m1, m2)

    def ghosts(names):
        return [number(n, "int" if n[0] in "Ll" else "real") for n in names.split()]

    def lineshape(cls, names, fields, given=None, keywords=False, phase=True, build=None):
        """Clauses of one class: any values for the first ``given`` fields, defaults for the others."""
        n = len(names.split()) if given is None else given

        def inputs(m):
            args = build(m) if build else ghosts(names)[:n]
            kw = {"phsp_factor": phsp} if phase else {}
            if keywords:
                kw = {**dict(zip(fields.split(), args)), **kw}
                args = []
            return [m.call(cls, args, kw)], {}

        def post(m, kind, val, args, kwargs):
            if kind != "return":
                raise Differ(f"raises {val!r}", m.model())
            vals = build(m) if build else ghosts(names)[:n]
            from ampform.dynamics.phasespace import PhaseSpaceFactor

            full = [*vals, *DEFAULTS.get(cls.__name__, [])[n:]]
            x = args[0]
            if hasattr(cls, "__slots__") and "phsp_factor" in cls.__slots__ and x.phsp_factor is not (phsp if phase else PhaseSpaceFactor):
                raise Differ(f"phase-space factor {x.phsp_factor}", m.model())
            for f, v in zip(fields.split(), full):
                if not isinstance(v, tuple):
                    same(m, m.getattr(x, f), sp.sympify(v), f"argument {f}")
            want = formula(m, x)
            same_function(m, val, want, cls.__name__)

        how = "by keyword" if keywords else f"{n} arguments" if n != len(names.split()) else "any arguments"
        verify(ctx, f"ensures: the documented formula [{how}{'' if phase else ', default phase-space factor'}]", cls.evaluate, inputs,
               post=post, invoke=lambda m, a, k: evaluated(m, a[0]), name=f"dynamics.{cls.__name__}.evaluate")

    DEFAULTS = {
        "BreitWigner": [None, None, None, 0, 0, 0, 1],
        "ChannelArguments": [None, None, None, 0, 0, 0, 1],
    }
    R7 = "s m0 w m1 m2 L R"
    for kw in (False, True):
        lineshape(D.RelativisticBreitWigner, R7, "s mass0 gamma0 m1 m2 angular_momentum meson_radius", keywords=kw)
        lineshape(D.BreitWigner, R7, "s mass width m1 m2 angular_momentum meson_radius", keywords=kw)
        lineshape(D.BreitWignerMinL, "s mt ms m0 w m2 m1 ld lp Rd Rp",
                  "s decaying_mass spectator_mass resonance_mass resonance_width child2_mass child1_mass l_dec l_prod R_dec R_prod", keywords=kw)
        lineshape(D.ChannelArguments, R7, "s m0 width m1 m2 angular_momentum meson_radius", phase=False, keywords=kw)
        lineshape(D.SimpleBreitWigner, "s m0 w", "s mass width", phase=False, keywords=kw)
        lineshape(D.BuggBreitWigner, "s m0 w m1 m2 g", "s m0 Γ0 m1 m2 γ", phase=False, keywords=kw)
        lineshape(D.FlattéSWave, "s m0 ws c1 c2", "s m0 widths masses1 masses2", phase=False, keywords=kw,
                  build=lambda m: [*ghosts("s m0"), tuple(ghosts("w1 w2")), tuple(ghosts("ma1 mb1")), tuple(ghosts("ma2 mb2"))])
    for n in (3, 5, 6):
        lineshape(D.BreitWigner, R7, "s mass width m1 m2 angular_momentum meson_radius", given=n, phase=False)
        lineshape(D.ChannelArguments, R7, "s m0 width m1 m2 angular_momentum meson_radius", given=n, phase=False)
    for cls in (D.RelativisticBreitWigner, D.BreitWignerMinL):
        names = {D.RelativisticBreitWigner: (R7, "s mass0 gamma0 m1 m2 angular_momentum meson_radius"),
                 D.BreitWignerMinL: ("s mt ms m0 w m2 m1 ld lp Rd Rp", "s decaying_mass spectator_mass resonance_mass resonance_width "
                                     "child2_mass child1_mass l_dec l_prod R_dec R_prod")}[cls]
        lineshape(cls, *names, phase=False)

    # ---- any number of channels, each with any arguments
    class Channels(V.Base):
        def make(self, m, tag):
            s, m0 = ghosts("s m0")
            args = [number(f"{tag}.{n}", "int" if n == "L" else "real") for n in ("w", "m1", "m2", "L", "R")]
            return D.ChannelArguments(s, m0, *args)

        def retagged(self, old, new):
            return self

    base = Channels("channels", None)

    def channels(m):
        s, m0 = ghosts("s m0")
        return [Obj("multichannel", D.MultichannelBreitWigner, {"s": s, "mass": m0, "channels": VSeq([Seg(base)], pytype=tuple)})], {}

    def channels_post(m, kind, val, args, kwargs):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        s, m0 = ghosts("s m0")
        width = m.call(total, [[VSeq([Seg(base)], pytype=tuple)][0], lambda c: formula(m, c)])
        same_function(m, val, 1 / (m0**2 - s - sp.I * m0 * width), "multichannel Breit-Wigner")

    verify(ctx, "ensures: Breit-Wigner with the sum of the channel widths, for any number of channels", D.MultichannelBreitWigner.evaluate,
           channels, post=channels_post, invoke=lambda m, a, k: evaluated(m, a[0]), name="dynamics.MultichannelBreitWigner.evaluate")

    def made(m):
        s, m0 = ghosts("s m0")
        cs = tuple(base.make(m, f"c{i}") for i in range(2))
        return [m.call(D.MultichannelBreitWigner, [s, m0, cs]), s, m0, cs], {}

    def made_post(m, kind, val, args, kwargs):
        x, s, m0, cs = args
        same(m, m.getattr(x, "s"), s, "s")
        same(m, m.getattr(x, "mass"), m0, "mass")
        same(m, tuple(m.getattr(x, "channels")), cs, "channels")

    verify(ctx, "ensures: the fields are those given", D.MultichannelBreitWigner, made, post=made_post, invoke=lambda m, a, k: None)

    # ---- lemma: nominal width on the mass shell
    M, W, a, b, L, R = sp.symbols("M W a b L R", positive=True)
    from pyvc.result import PROVED, UNDECIDED

    width = EnergyDependentWidth(M**2, M, W, a, b, L, R, phsp_factor=phsp).evaluate()
    ctx.add("lemma: the energy-dependent width of AmpForm is the nominal width at s = m0^2", "lemma",
            PROVED if sp.cancel(width - W) == 0 else UNDECIDED, "normal form", 0.0, str(width))


def total(xs, f):
    return sum(f(x) for x in xs)


# ------------------------------------------------------------------ C17
def same_polynomial(m, got, want, what):
    from pyvc import smt

    if not isinstance(got, sp.Expr):
        raise Differ(f"{what} is {K.show(got)}", m.model())
    unknown = got.free_symbols - want.free_symbols - set(mandelstams()) - set(masses())
    if unknown:
        raise Differ(f"{what} is {K.show(got)}", m.model())
    try:
        ok, _, _, why = smt.poly_identity(got, want)
    except smt.NotArithmetic:
        ok, why = sp.cancel(got - want) == 0, "normal form"
    if not ok:
        raise Differ(f"{what}: {K.show(got)} is not {K.show(want)} ({why})", m.model() if why == "sat" else None)


def mandelstams():
    return sp.symbols("sigma1:4", nonnegative=True)


def masses():
    return sp.symbols("m:4", nonnegative=True)


def prove_invariants(ctx):
    from itertools import permutations

    import ampform_dpd as A

    pairs = list(permutations((1, 2, 3), 2))
    orders = list(permutations((0, 1, 2, 3)))
    squares = sum(x**2 for x in masses())

    def some_decay(m):
        return Y.decay(m, order=m.choose(orders, "order of the states"))

    def third(m, kind, val, x, y):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        s = dict(zip((1, 2, 3), mandelstams()))
        same_polynomial(m, val, squares - s[x] - s[y], f"third Mandelstam variable of sigma{x} and sigma{y}")

    verify(ctx, "ensures: the sum of the squared masses minus the two given variables", A.formulate_third_mandelstam,
           lambda m: ([some_decay(m), *m.choose(pairs, "given variables")], {}),
           post=lambda m, kind, val, a, k: third(m, kind, val, *a[1:]))
    verify(ctx, "ensures: sigma3 by default", A.formulate_third_mandelstam, lambda m: ([some_decay(m)], {}),
           post=lambda m, kind, val, a, k: third(m, kind, val, 1, 2))

    def post(m, kind, val, args, kwargs):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        got = K.dict_pairs(m, val)
        s = mandelstams()
        if got is None or len(got) != 3:
            raise Differ(f"invariants {K.show(val)}", m.model())
        for sym, want in zip(s, (squares - s[1] - s[2], squares - s[0] - s[2], squares - s[0] - s[1])):
            hits = [v for q, v in got if q == sym]
            if not hits:
                raise Differ(f"no definition of {sym}", m.model())
            same_polynomial(m, hits[0], want, str(sym))

    verify(ctx, "ensures: every variable through the two others by the sum rule", A.formulate_invariants,
           lambda m: ([some_decay(m)], {}), post=post)
    s = mandelstams()
    defs = {s[k]: squares - s[(k + 1) % 3] - s[(k + 2) % 3] for k in range(3)}
    from pyvc import smt
    from pyvc.result import PROVED, REFUTED

    for k in range(3):
        total_ = sum(defs[x] if x == s[k] else x for x in s)
        ok, _, dt, _ = smt.poly_identity(sp.expand(total_), squares)
        ctx.add(f"lemma: sigma1 + sigma2 + sigma3 is the sum of the squared masses with sigma{k + 1} by its definition", "lemma",
                PROVED if ok else REFUTED, "z3", dt)
