"""C09 to C14 and C27: the amplitude builder (package module ``ampform_dpd``)."""
from __future__ import annotations

from itertools import permutations

import sympy as sp
import z3
from contracts import spin as CS
from contracts import symbolic as Y
from pyvc import compare as K
from pyvc import values as V
from pyvc.compare import Differ, require, same, verify
from pyvc.engine import num_term, z_is_int
from pyvc.values import Obj, Seg, VDict, VList, VSeq, number, string, unknown_expr

PAIR = Y.PAIR


def pool(expression, *indices):
    from ampform.sympy import PoolSum

    return PoolSum(expression, *indices)


# ------------------------------------------------------------------ C09, C10, C11: subsystems
def dynamics_of(m, chain):
    """The dynamics that some builder gives for this chain: any expression, any parameters."""
    import ampform_dpd as A

    return Y.native(A.DefinedExpression, expression=unknown_expr(f"{chain.name}.dynamics"), parameters=Y.mapping(f"{chain.name}.parameters"))


def get_builder_contract(m, self, chain):
    """requires: a chain of the decay; ensures: the builder registered for it (C14)."""
    from ampform_dpd.decay import ThreeBodyDecayChain

    if not isinstance(chain, Obj) or chain.cls is not ThreeBodyDecayChain:
        raise V.Unsupported("get_builder for something else than a chain")
    if self.name != "configurator":
        raise V.Unsupported("another configurator")

    def call(m, args, kwargs):
        (c,) = args
        if not (isinstance(c, Obj) and c.name == chain.name):
            raise V.Unsupported("the builder of one chain is called with another")
        return dynamics_of(m, c)

    return Obj(f"builder({chain.name})", object, {}, call)


def subsystem_chains(decay, k):
    return [c for c in decay.chains if c.spectator.index == k]


def get_subsystem_contract(m, decay, k):
    """ensures: the chains with that spectator, in order (C08)."""
    from ampform_dpd.decay import ThreeBodyDecay

    chains = m.call(subsystem_chains, [decay, k])
    m.events.items.append(("warn", "maybe"))
    return Y.native(ThreeBodyDecay, states=decay.states, chains=VSeq(chains.items, pytype=tuple))


def builder_object(m, decay, prod_hel=True, dec_hel=True, all_subsystems=False):
    import ampform_dpd as A

    conf = Obj("configurator", A.DynamicsConfigurator, {"decay": decay})
    return Obj("builder", A.DalitzPlotDecompositionBuilder, {
        "decay": decay, "dynamics_choices": conf, "use_production_helicity_couplings": prod_hel,
        "use_decay_helicity_couplings": dec_hel, "all_subsystems": all_subsystems})


def helicities(m, decay):
    """Any allowed helicity per state."""
    out = []
    for i in (0, 1, 2, 3):
        j = decay.states[i].spin
        x = number(f"helicity{i}", "half", sp.Rational)
        m.assume(z3.And(num_term(x) <= num_term(j), num_term(x) >= -num_term(j), z_is_int(j - x)))
        out.append(x)
    return out


def table():
    import ampform_dpd as A
    from ampform_dpd.decay import ThreeBodyDecay

    t = CS.table()
    t[A.DynamicsConfigurator.get_builder] = get_builder_contract
    t[ThreeBodyDecay.get_subsystem] = get_subsystem_contract
    return t


LAM_R = sp.Symbol(R"\lambda_R", rational=True)


def node_factor(J, j1, m1, j2, m2, ls):
    """sqrt((2L+1)/(2J+1)) C(j1 m1; j2 -m2 | S m1-m2) C(L 0; S m1-m2 | J m1-m2)"""
    from sympy.physics.quantum.spin import CG

    L, S = ls.L, ls.S
    return sp.sqrt((2 * L + 1) / (2 * J + 1)) * CG(L, 0, S, m1 - m2, J, m1 - m2) * CG(j1, m1, j2, -m2, S, m1 - m2)


def coupling_symbols(chain, prod_hel, dec_hel, lam_r, lk, li, lj, coefficients):
    """The couplings of a chain at these helicities (or its one coefficient)."""
    latex = chain.resonance.latex
    prod = (lam_r, lk) if prod_hel else (chain.incoming_ls.L, chain.incoming_ls.S)
    dec = (li, lj) if dec_hel else (chain.outgoing_ls.L, chain.outgoing_ls.S)
    if coefficients:
        if prod_hel and dec_hel:
            name = rf"\mathcal{{H}}^\mathrm{{{latex}}}"
        elif prod_hel:
            name = rf"\mathcal{{H}}^\mathrm{{LS,\lambda,{latex}}}"
        elif dec_hel:
            name = rf"\mathcal{{H}}^\mathrm{{\lambda,LS,{latex}}}"
        else:
            name = rf"\mathcal{{H}}^\mathrm{{LS,{latex}}}"
        return [sp.IndexedBase(name)[(*prod, *dec)]]
    R = sp.core.symbol.Str(latex)
    h_prod = sp.IndexedBase(R"\mathcal{H}^\mathrm{production}" if prod_hel else R"\mathcal{H}^\mathrm{LS,production}")
    h_dec = sp.IndexedBase(R"\mathcal{H}^\mathrm{decay}" if dec_hel else R"\mathcal{H}^\mathrm{LS,decay}")
    return [h_prod[(R, *prod)], h_dec[(R, *dec)]]


def chain_amplitude(decay, chain, dynamics, k, lam, theta, prod_hel, dec_hel, coefficients):
    """Amplitude of one chain, from the statements of C09 to C11."""
    from sympy.physics.quantum.spin import Rotation

    i, j = PAIR[k]
    jr = chain.resonance.spin
    amp = sp.KroneckerDelta(lam[0], LAM_R - lam[k]) * (-1) ** (decay.states[k].spin - lam[k]) * (-1) ** (decay.states[j].spin - lam[j])
    amp *= dynamics * Rotation.d(jr, LAM_R, lam[i] - lam[j], theta)
    for h in coupling_symbols(chain, prod_hel, dec_hel, LAM_R, lam[k], lam[i], lam[j], coefficients):
        amp *= h
    if not dec_hel:
        kids = [(p.spin, lam[p.index]) for p in chain.decay_node.children]
        amp *= node_factor(jr, *kids[0], *kids[1], chain.outgoing_ls)
    if not prod_hel:
        kids = [(jr, LAM_R), (decay.states[k].spin, lam[k])]
        if isinstance(chain.decay.child2, type(chain.decay)):
            kids = kids[::-1]
        amp *= node_factor(decay.states[0].spin, *kids[0], *kids[1], chain.incoming_ls)
    return pool(amp, (LAM_R, CS.create_range(-jr, jr)))


def subsystem_spec(decay, get, k, lam, theta, prod_hel, dec_hel, coefficients):
    terms = [chain_amplitude(decay, c, get(c).expression, k, lam, theta, prod_hel, dec_hel, coefficients)
             for c in subsystem_chains(decay, k)]
    return sp.Add(*terms)


def defaults_spec(decay, get, k, lam, prod_hel, dec_hel, coefficients):
    """Dynamics parameters, and 1 for every coupling that helicity conservation allows."""
    i, j = PAIR[k]
    out = {}
    for c in subsystem_chains(decay, k):
        out.update(get(c).parameters)
        for lam_r in CS.create_range(-c.resonance.spin, c.resonance.spin):
            if lam[0] == lam_r - lam[k]:
                for h in coupling_symbols(c, prod_hel, dec_hel, lam_r, lam[k], lam[i], lam[j], coefficients):
                    out[h] = 1
    return out


def needs_ls(c, prod_hel, dec_hel):
    return not prod_hel and c.incoming_ls is None or not dec_hel and c.outgoing_ls is None


def ls_spec(decay, k, prod_hel, dec_hel):
    for c in subsystem_chains(decay, k):
        if needs_ls(c, prod_hel, dec_hel):
            raise ValueError


def prove_subsystem(ctx, helicity=True, what=("amplitude", "variables")):
    """Clauses on formulate_subsystem_amplitude: for helicity couplings or with LS couplings."""
    import ampform_dpd as A
    from ampform_dpd.angles import formulate_scattering_angle

    ctx.assume("dynamics builders return some expression and some parameters (arbitrary per chain) and have no side effects")
    bases = [(True, True)] if helicity else [(True, False), (False, True), (False, False)]
    for prod_hel, dec_hel in bases:
        for coeff in (False, True):
            for k in (1, 2, 3):
                orders = list(permutations(range(4))) if helicity and not coeff else ((1, 0, 3, 2), (0, 1, 2, 3))
                one_subsystem(ctx, prod_hel, dec_hel, coeff, k, what, orders)


def one_subsystem(ctx, prod_hel, dec_hel, coeff, k, what, orders=((1, 0, 3, 2), (0, 1, 2, 3))):
    import ampform_dpd as A
    from ampform_dpd.angles import formulate_scattering_angle

    i, j = PAIR[k]
    theta, theta_expr = formulate_scattering_angle(i, j)

    def inputs(m):
        order = m.choose(orders, "order of the states")
        decay = Y.decay(m, order, ls=("some",) if prod_hel and dec_hel else ("some", None))
        lam = helicities(m, decay)
        return [builder_object(m, decay, prod_hel, dec_hel), *lam, k], dict(use_coefficients=coeff)

    def post(m, kind, val, args, kwargs):
        self, *lam, _k = args
        decay = self.attrs["decay"]
        expected, _ = K.outcome(m, ls_spec, [decay, k, prod_hel, dec_hel], {})
        if not m.feasible():
            return
        if expected == "raise":
            if kind != "raise" or not isinstance(val, ValueError):
                raise Differ(f"{K.describe(kind, val)} although an LS coupling is missing", m.model())
            return
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        get = Obj("get", object, {}, lambda m, a, kw: dynamics_of(m, *a))
        if "amplitude" in what:
            want = m.call(subsystem_spec, [decay, get, k, tuple(lam), theta, prod_hel, dec_hel, coeff])
            got = K.dict_pairs(m, val.amplitudes)
            if got is None or len(got) != 1:
                raise Differ(f"amplitudes {K.show(val.amplitudes)}", m.model())
            same(m, got[0][0], sp.IndexedBase(sp.Symbol(f"A^{k}"))[tuple(lam)], "amplitude symbol")
            same(m, got[0][1], want, "amplitude")
        if "variables" in what:
            same(m, val.variables, {theta: theta_expr}, "variables")
        if "defaults" in what:
            want = m.call(defaults_spec, [decay, get, k, tuple(lam), prod_hel, dec_hel, coeff])
            same(m, val.parameter_defaults, want, "parameter defaults")

    basis = "/".join("helicity" if x else "LS" for x in (prod_hel, dec_hel))
    title = {"amplitude": "the DPD formula", "variables": "its angle", "defaults": "exactly the defaults of the couplings that occur"}
    contracts = table()
    contracts[CS.create_range] = CS.range_contract
    verify(ctx, f"ensures: {', '.join(title[w] for w in what)} [k={k}, {basis} couplings{', coefficients' if coeff else ''}]",
           A.DalitzPlotDecompositionBuilder.formulate_subsystem_amplitude, inputs, post=post, contracts=contracts)


def prove_defaults(ctx):
    ctx.assume("dynamics builders return some expression and some parameters (arbitrary per chain) and have no side effects")
    for prod_hel, dec_hel in ((True, True), (True, False), (False, True), (False, False)):
        for coeff in (False, True):
            for k in (1, 2, 3):
                one_subsystem(ctx, prod_hel, dec_hel, coeff, k, ("defaults",), orders=((0, 1, 2, 3),))


def prove_cg(ctx):
    """The factor of one node, for any node and any helicities of its children."""
    import ampform_dpd as A

    def inputs(m):
        states = {i: Y.state(m, i) for i in (0, 1, 2, 3)}
        c = Y.chain(m, "chain;", states)
        node = m.getattr(c, "decay") if m.choose(["production", "decay"], "node") == "production" else m.getattr(c, "decay_node")
        kids = m.getattr(node, "children")
        hel = VDict()
        for n, p in ((1, kids[1]), (0, kids[0])):
            x = number(f"m{n}", "half", sp.Rational) if n or m.choose(["value", "symbol"], "helicity") == "value" else LAM_R
            hel.items.append(("set", m.call(A.to_particle, [p]), x))
        return [node, hel], {}

    def spec(node, helicities):
        if node.interaction is None:
            raise ValueError
        p1, p2 = [p if isinstance(p, A.State) else p.parent for p in node.children]
        return node_factor(node.parent.spin, p1.spin, helicities[p1], p2.spin, helicities[p2], node.interaction)

    verify(ctx, "ensures: sqrt((2L+1)/(2J+1)) C(j1 m1; j2 -m2|S m1-m2) C(L 0; S m1-m2|J m1-m2), children in the order of the node, "
           "ValueError without LS coupling", A._formulate_clebsch_gordan_factors, inputs, spec=spec)


# ------------------------------------------------------------------ C12: alignment
PRIMES = sp.symbols(R"\lambda_(0:4)^{\prime}", rational=True)
OUTER = sp.symbols("lambda:4", rational=True)


def has_subsystem(decay, k):
    for c in decay.chains:
        if c.spectator.index == k:
            return True
    return False


def subsystems_of(decay):
    """Indices of the subsystems with chains, in order (used by specifications)."""
    raise NotImplementedError


def subsystems(m, decay):
    """The indices of the subsystems with chains: any set."""
    return [k for k in (1, 2, 3) if m.choose([True, False], f"subsystem {k} has chains")]


def subsystem_ids_contract(m, decay):
    """ensures: the set of the indices k for which the decay has a chain with spectator k."""
    return V.VSet(subsystems(m, decay), depth=m.depth)


class HiddenChains(Y.ChainBase):
    """Chains of which only the contracts of the callees speak."""

    def make(self, m, tag):
        raise V.Unsupported("the chains are iterated here: their subsystems are only known by contract")


def hidden_decay(m, order):
    return Y.decay(m, order, base=HiddenChains({i: Y.state(m, i) for i in (0, 1, 2, 3)}))


def subsystems_in_spec(m, decay):
    return V.VList(subsystems(m, decay))


def prove_subsystem_ids(ctx):
    from ampform_dpd import decay as D

    def post(m, kind, val, args, kwargs):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        for k in (1, 2, 3):
            want = m.call(has_subsystem, [args[0], k])
            got = m.contains(val, k)
            if want != (got if isinstance(got, bool) else m.decide(got)):
                raise Differ(f"subsystem {k}: {got}", m.model())
        for x in m.flat(val) or ():
            if x not in (1, 2, 3):
                raise Differ(f"subsystem {x!r}", m.model())

    verify(ctx, "ensures: the indices of the subsystems that have chains", D._get_subsystem_ids, lambda m: ([Y.decay(m)], {}), post=post)


def aligned_spec(decay, lam, r):
    """The alignment formula of C12 and the angles in it."""
    from ampform_dpd.angles import formulate_zeta_angle
    from sympy.physics.quantum.spin import Rotation

    amp, angles = sp.S.Zero, {}
    for k in subsystems_of(decay):
        term = sp.IndexedBase(sp.Symbol(f"A^{k}"))[PRIMES]
        for i in (0, 1, 2, 3):
            j = decay.states[i].spin
            if j != 0:
                zeta, expr = formulate_zeta_angle(i, k, r)
                angles[zeta] = expr
                term *= Rotation.d(j, lam[0], PRIMES[0], zeta) if i == 0 else Rotation.d(j, PRIMES[i], lam[i], zeta)
        amp += term
    ranges = [(PRIMES[i], CS.create_range(-decay.states[i].spin, decay.states[i].spin)) for i in (0, 1, 2, 3)]
    return pool(amp, *ranges), angles


def zeta_contract(m, i, j, k=0):
    """The angle of C03 (which holds for all IDs)."""
    from ampform_dpd.angles import formulate_zeta_angle

    key = (i, j, k)
    if not all(isinstance(x, int) for x in key):
        raise V.Unsupported("angle of unknown IDs")
    if key not in _ZETA:
        _ZETA[key] = formulate_zeta_angle(*key)
    return _ZETA[key]


_ZETA: dict = {}


def chain_count(decay, k):
    return len(subsystem_chains(decay, k))


def prove_best_reference(ctx):
    import ampform_dpd as A

    def inputs(m):
        return [Y.decay(m, m.choose([(0, 1, 2, 3), (3, 1, 0, 2)], "order"))], {}

    def post(m, kind, val, args, kwargs):
        (decay,) = args
        ks = [k for k in (1, 2, 3) if m.call(has_subsystem, [decay, k])]
        if not m.feasible():
            raise K.Infeasible
        if not ks:
            if kind != "raise" or not isinstance(val, ValueError):
                raise Differ(f"{K.describe(kind, val)} although there are no chains", m.model())
            return
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        if val not in ks:
            raise Differ(f"returns {val!r}, which is none of the subsystems {ks}", m.model())
        best = m.call(chain_count, [decay, val])
        for k in ks:
            require(m, num_term(best) >= num_term(m.call(chain_count, [decay, k])), f"subsystem {k} has more chains than {val}")

    contracts = table()
    verify(ctx, "ensures: a subsystem with the largest number of chains; raises: ValueError iff there are no chains",
           A._get_best_reference_subsystems, inputs, post=post, contracts=contracts)


def best_reference_contract(m, decay):
    """ensures: some subsystem of the decay (with the largest number of chains); ValueError if there is none."""
    ks = subsystems(m, decay)
    if not ks:
        raise K.PyRaise(ValueError("no subsystems"))
    return m.choose(ks, "best reference")


def prove_aligned(ctx):
    import ampform_dpd as A
    from ampform_dpd.angles import formulate_zeta_angle

    prove_subsystem_ids(ctx)
    prove_best_reference(ctx)
    for ref in (1, 2, 3, None):
        def inputs(m, ref=ref):
            decay = hidden_decay(m, m.choose([(0, 1, 2, 3), (3, 1, 0, 2)], "order"))
            args = [builder_object(m, decay), *OUTER]
            if ref is not None or m.choose(["given", "omitted"], "reference") == "given":
                args.append(ref)
            return args, {}

        def post(m, kind, val, args, kwargs, ref=ref):
            decay = args[0].attrs["decay"]
            ks = subsystems(m, decay)
            if ref is None and not ks:
                if kind != "raise" or not isinstance(val, ValueError):
                    raise Differ(f"{K.describe(kind, val)} although there are no chains", m.model())
                return
            if kind != "return":
                raise Differ(f"raises {val!r}", m.model())
            r = ref or m.choose(ks, "best reference")
            if ref is not None:
                warned = any(e[0] == "warn" and e[1] != "maybe" for e in m.events.items)
                if warned != (ref not in ks):
                    raise Differ(f"{'a' if warned else 'no'} warning for reference {ref} with subsystems {ks}", m.model())
            amp, angles = m.call(aligned_spec, [decay, OUTER, r])
            same(m, val[0], amp, "aligned amplitude")
            same(m, val[1], angles, "angles")

        contracts = table()
        contracts[CS.create_range] = CS.range_contract
        contracts[formulate_zeta_angle] = zeta_contract
        contracts[A._get_best_reference_subsystems] = best_reference_contract
        contracts[A._get_subsystem_ids] = subsystem_ids_contract
        contracts[subsystems_of] = subsystems_in_spec
        verify(ctx, f"ensures: the alignment formula, exactly the angles in it, a warning iff the reference has no chains [reference {ref}]",
               A.DalitzPlotDecompositionBuilder.formulate_aligned_amplitude, inputs, post=post, contracts=contracts)


# ------------------------------------------------------------------ C13 and C27: the model
def theta_of(k):
    from ampform_dpd.angles import formulate_scattering_angle

    return formulate_scattering_angle(*PAIR[k])


def subsystem_contract(m, self, l0, l1, l2, l3, subsystem_id, *, use_coefficients=False):
    """requires: allowed helicities; ensures: one amplitude, its angle and its defaults (C09 to C11)."""
    import ampform_dpd as A

    lam, k, decay = (l0, l1, l2, l3), subsystem_id, self.attrs["decay"]
    if k not in (1, 2, 3) or not isinstance(use_coefficients, bool):
        raise V.Unsupported("precondition of formulate_subsystem_amplitude")
    for i, x in enumerate(lam):
        j = decay.states[i].spin
        if not m.entails(z3.And(z_is_int(j - x), num_term(x) <= num_term(j), num_term(x) >= -num_term(j))):
            raise V.Unsupported("precondition of formulate_subsystem_amplitude: allowed helicities")
    theta, expr = theta_of(k)
    value = sp.Function(f"amplitude{k}{use_coefficients}")(*lam)
    return Y.native(A.AmplitudeModel, decay=decay, intensity=sp.S.One,
                    amplitudes=VDict([("set", sp.IndexedBase(sp.Symbol(f"A^{k}"))[lam], value)]),
                    variables=VDict([("set", theta, expr)]),
                    parameter_defaults=Y.mapping(f"defaults{k}{use_coefficients}({lam})"), masses=VDict(), invariants=VDict())


def opaque_aligned(m, self, l0, l1, l2, l3, reference_subsystem=None):
    """Some amplitude and some angles, as a function of the arguments (and of self.decay)."""
    r = best_reference_contract(m, self.attrs["decay"]) if reference_subsystem is None else reference_subsystem
    return sp.Function("aligned")(l0, l1, l2, l3, r), Y.mapping(f"zeta angles({r})")


def aligned_contract(m, self, l0, l1, l2, l3, reference_subsystem=None):
    """ensures: the alignment formula (C12)."""
    r = best_reference_contract(m, self.attrs["decay"]) if reference_subsystem is None else reference_subsystem
    amp, angles = m.call(aligned_spec, [self.attrs["decay"], (l0, l1, l2, l3), r])
    return amp, angles


def model_spec(decay, ids, sub):
    amplitudes, variables, defaults = {}, {}, {}
    for lam in every_helicity(decay):
        for k in ids:
            model = sub(lam, k)
            amplitudes.update(model.amplitudes)
            variables.update(model.variables)
            defaults.update(model.parameter_defaults)
    return amplitudes, variables, defaults


def every_helicity(decay):
    from itertools import product

    return product(*[CS.create_range(-decay.states[i].spin, decay.states[i].spin) for i in (0, 1, 2, 3)])


def clean_intensity(m, decay, amp):
    """The intensity without indices of spinless states, with 0 for their helicity."""
    def clean(expr, symbols):
        zero, rest = {}, []
        for i, s in enumerate(symbols):
            j = decay.states[i].spin
            if m.decide(num_term(j) == 0):
                zero[s] = 0
            else:
                rest.append((s, -j, j))
        expr = expr.xreplace(zero)
        return V.GPool(expr, *rest) if rest else expr

    if not isinstance(amp, V.GPool):
        raise V.Unsupported("aligned amplitude")
    if amp.expression == 0:
        return sp.Integer(0)
    return clean(sp.Abs(clean(amp.expression, PRIMES)) ** 2, OUTER)


def one_model(ctx, cleanup):
    import ampform_dpd as A

    cls = A.DalitzPlotDecompositionBuilder
    options = [(a, b, (r,)) for a, b in ((False, False), (True, True)) for r in (None, 1, 2, 3)] if cleanup else \
        [(a, b, (None, 1, 2, 3)) for a in (False, True) for b in (False, True)]
    for everything, coeff, refs in options:
        for orders in ([(3, 1, 0, 2)] if cleanup else [(0, 1, 2, 3), (3, 1, 0, 2)],):
            def inputs(m, everything=everything, coeff=coeff, refs=refs, orders=orders):
                decay = hidden_decay(m, m.choose(orders, "order"))
                self = builder_object(m, decay, all_subsystems=everything)
                kw = {}
                if coeff or m.choose([True, False], "coefficients given"):
                    kw["use_coefficients"] = coeff
                if cleanup or m.choose([True, False], "clean-up given"):
                    kw["cleanup_summations"] = cleanup
                ref = m.choose(refs, "reference")
                return [self, *([ref] if ref else [])], kw

            def post(m, kind, val, args, kw, everything=everything, coeff=coeff):
                self, ref = args[0], args[1] if len(args) > 1 else None
                decay = self.attrs["decay"]
                ks = subsystems(m, decay)
                if ref is None and not ks:
                    if kind != "raise" or not isinstance(val, ValueError):
                        raise Differ(f"{K.describe(kind, val)} although there are no chains", m.model())
                    return
                if kind != "return":
                    raise Differ(f"raises {val!r}", m.model())
                sub = Obj("sub", object, {}, lambda m, a, kw: subsystem_contract(m, self, *a[0], a[1], use_coefficients=coeff))
                amplitudes, variables, defaults = m.call(model_spec, [decay, (1, 2, 3) if everything else ks, sub])
                r = ref if ref is not None else m.choose(ks, "best reference")
                if cleanup:
                    amp, zetas = m.call(aligned_spec, [decay, OUTER, r])
                    intensity = clean_intensity(m, decay, amp)
                else:
                    amp, zetas = opaque_aligned(m, self, *OUTER, r)
                    intensity = V.GPool(sp.Abs(amp) ** 2, *[(s, -decay.states[i].spin, decay.states[i].spin) for i, s in enumerate(OUTER)])
                masses = VDict([("set", sp.Symbol(f"m{i}", nonnegative=True), decay.states[i].mass) for i in (0, 1, 2, 3)])
                m.dict_update(variables, zetas)
                m.dict_update(defaults, masses)
                if val.decay is not decay:
                    raise Differ("decay of the model", m.model())
                same(m, val.intensity, intensity, "intensity")
                same(m, val.amplitudes, amplitudes, "amplitudes")
                same(m, val.variables, variables, "variables")
                same(m, val.parameter_defaults, defaults, "parameter defaults")
                same(m, val.masses, masses, "masses")
                same(m, val.invariants, Y.mapping("invariants"), "invariants")

            contracts = table()
            contracts[CS.create_range] = CS.range_contract
            contracts[cls.formulate_subsystem_amplitude] = subsystem_contract
            contracts[cls.formulate_aligned_amplitude] = aligned_contract if cleanup else opaque_aligned
            contracts[A._get_best_reference_subsystems] = best_reference_contract
            contracts[A._get_subsystem_ids] = subsystem_ids_contract
            contracts[subsystems_of] = subsystems_in_spec
            contracts[A.formulate_invariants] = lambda m, decay: Y.mapping("invariants")
            title = "the same model, its intensity without indices of spinless states" if cleanup else \
                "amplitudes for all subsystems and helicities, all angles and defaults, masses, the incoherent sum as intensity"
            verify(ctx, f"ensures: {title} [{'all subsystems' if everything else 'subsystems of the decay'}{', coefficients' if coeff else ''}{f', reference {refs[0]}' if cleanup else ''}]",
                   cls.formulate, inputs, post=post, contracts=contracts)


def prove_model(ctx):
    ctx.assume("a model is a function of builder and decay: the engine rejects any write to either, so that the clauses hold for repeated calls")
    one_model(ctx, cleanup=False)
    prove_masses(ctx)
    prove_full_expression(ctx)
    prove_configuration(ctx)


def prove_masses(ctx):
    import ampform_dpd as A

    def inputs(m):
        return [Y.decay(m, m.choose(list(permutations(range(4))), "order"))], {}

    def spec(decay):
        return {sp.Symbol(f"m{i}", nonnegative=True): decay.states[i].mass for i in (0, 1, 2, 3)}

    def post(m, kind, val, args, kw):
        if kind == "return" and [str(k) for k, _ in K.dict_pairs(m, val)] != ["m0", "m1", "m2", "m3"]:
            raise Differ(f"order of the masses {val}", m.model())

    verify(ctx, "ensures: m0..m3 are the masses of the states with these indices, in this order", A.create_mass_symbol_mapping, inputs,
           spec=spec, post=post)


def evaluated(m, obj, field):
    """obj.doit() is a function of obj."""
    from pyvc.interp import MISSING

    return Obj(f"{obj.name}.doit", object, {}, lambda m, a, k: Obj(f"{obj.name}.doit()", sp.Expr)) if field == "doit" else MISSING


class Entries(V.Base):
    """The entries of an arbitrary dict of amplitudes: (symbol, expression that can be evaluated)."""

    def make(self, m, tag):
        n = number(f"{tag}.index", "half", sp.Rational)
        value = Obj(f"{tag}.value", sp.Expr)
        value.lazy = evaluated
        return sp.IndexedBase(string(f"{tag}.base"))[n], value

    def retagged(self, old, new):
        return self


def prove_full_expression(ctx):
    import ampform_dpd as A

    base = Entries("amplitudes", None, distinct=True)

    def entry_log(m, value=lambda v: v):
        out = VDict(depth=m.depth)
        m.for_each(VSeq([Seg(base)]), lambda kv: m.mutate(out, [("set", kv[0], value(kv[1]))]))
        out.distinct = True
        return out

    def inputs(m):
        def xreplace(m, a, k):
            return ("xreplace", *a)

        done = Obj("intensity.doit()", sp.Expr, {"xreplace": Obj("xreplace", object, {}, xreplace)})
        intensity = Obj("intensity", sp.Expr, {"doit": Obj("doit", object, {}, lambda m, a, k: done)})
        return [Y.native(A.AmplitudeModel, decay=None, intensity=intensity, amplitudes=entry_log(m), variables=VDict(),
                         parameter_defaults=VDict(), masses=VDict(), invariants=VDict())], {}

    def post(m, kind, val, args, kw):
        if kind != "return":
            raise Differ(f"raises {val!r}")
        want = entry_log(m, lambda v: m.call(m.getattr(v, "doit"), []))
        if not (isinstance(val, tuple) and val[0] == "xreplace" and len(val) == 2):
            raise Differ(f"returns {val!r}")
        K.same_log(m, val[1].items, want.items, "replacements")

    verify(ctx, "ensures: the evaluated intensity with every amplitude symbol replaced by its evaluated expression", A.AmplitudeModel, inputs,
           post=post, invoke=lambda m, a, k: m.getattr(a[0], "full_expression"), name="AmplitudeModel.full_expression")


def prove_configuration(ctx):
    """The options of the builder."""
    import ampform_dpd as A

    def inputs(m):
        decay = hidden_decay(m, (0, 1, 2, 3))
        kw = {}
        min_ls = m.choose(["omitted", True, False, (True, True), (True, False), (False, True), (False, False), (True,), None, "x"], "min_ls")
        if min_ls != "omitted":
            kw["min_ls"] = min_ls
        everything = m.choose(["omitted", True, False], "all_subsystems")
        if everything != "omitted":
            kw["all_subsystems"] = everything
        return [decay], kw

    def post(m, kind, val, args, kw):
        x = kw.get("min_ls", True)
        want = (x, x) if isinstance(x, bool) else x
        if not (isinstance(want, tuple) and len(want) == 2):
            if kind != "raise" or not isinstance(val, NotImplementedError):
                raise Differ(f"{K.describe(kind, val)} for min_ls={x!r}", m.model())
            return
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        got = tuple(m.getattr(val, n) for n in ("use_production_helicity_couplings", "use_decay_helicity_couplings", "all_subsystems"))
        if got != (*want, kw.get("all_subsystems", False)) or m.getattr(val, "decay") is not args[0]:
            raise Differ(f"options {got} for {kw}", m.model())

    verify(ctx, "ensures: helicity basis per node and subsystems as configured; raises: NotImplementedError for other values",
           A.DalitzPlotDecompositionBuilder, inputs, post=post, name="DalitzPlotDecompositionBuilder.__init__")


def prove_cleanup(ctx):
    one_model(ctx, cleanup=True)
