"""C26: Markdown tables and LaTeX (module ``io``)."""
from __future__ import annotations

import re

import sympy as sp
from contracts import symbolic as Y
from pyvc import compare as K
from pyvc import values as V
from pyvc.compare import Differ, require, same, verify
from pyvc.engine import Case, Poison
from pyvc.values import Base, Obj, Seg, VSeq, VStr, number, string


# ------------------------------------------------------------------ inputs
HIDDEN = Poison("the parity of a particle (only its rendering is under contract)")


def fields(m, tag, hidden=False):
    f = Y.particle_fields(m, tag)
    if hidden:
        f["parity"] = HIDDEN
    elif m.choose([False, True], f"{tag}.parity-undefined"):
        f["parity"] = None
    return f


def particle(m, tag, hidden=False):
    from ampform_dpd.decay import Particle

    return Y.native(Particle, **fields(m, tag, hidden))


def state(m, tag, hidden=False):
    from ampform_dpd.decay import State

    return Y.native(State, **fields(m, tag, hidden), index=number(f"{tag}.index", "int", int))


class RowLazy(Y.ChainLazy):
    """A chain of its own: any resonance and states, isobar first or second."""

    def __init__(self, states, hidden):
        super().__init__(states, (1,), ("some", None))
        self.hidden = hidden

    def retagged(self, r):
        return RowLazy({i: r(s) for i, s in self.states.items()}, self.hidden)

    def __call__(self, m, obj, field):
        base, _, part = obj.name.rpartition(".")
        if part == "decay":
            if field == "parent":
                return particle(m, f"{base}.R", self.hidden)
            if field in ("child1", "child2"):
                return self.states[2 if field == "child1" else 3]
        return super().__call__(m, obj, field)


def chain(m, tag, hidden=False):
    from ampform_dpd.decay import ThreeBodyDecayChain

    c = Obj(tag, ThreeBodyDecayChain)
    c.lazy = RowLazy({i: state(m, f"{tag}.state{i}", hidden=True) for i in (0, 1, 2, 3)}, hidden)
    return c


class ItemBase(Base):
    """Any number of items of the given kinds."""

    def __init__(self, name, kinds):
        super().__init__(name, None)
        self.kinds = kinds

    def make(self, m, tag):
        return item(m, m.choose(self.kinds, f"{tag}.kind"), tag)

    def retagged(self, old, new):
        return self


def item(m, kind, tag):
    """Items of which the parity is hidden; others are returned as they are."""
    make = {"particle": particle, "state": state, "chain": chain}.get(kind) if isinstance(kind, str) else None
    return make(m, tag, True) if make else kind


# ------------------------------------------------------------------ contracts of callees
def jp_contract(m, p):
    """The text of spin and parity (proved for ``aslatex`` below)."""
    name = p.name
    if not V.tokens(name):
        raise V.Unsupported("particle without a generic name")
    return V.derived("jp", None, V.show(name))


def table_contracts():
    import ampform_dpd.io as IO
    from ampform_dpd.decay import Particle

    def aslatex(m, obj, **kwargs):
        if m.isinstance(obj, Particle) and kwargs == {"only_jp": True}:
            return jp_contract(m, obj)
        return m.call(IO.aslatex.dispatch(m.type_of(obj)), [obj], kwargs)

    out = {IO.aslatex: aslatex, jp: jp_contract}
    if hasattr(IO, "_render_jp"):
        out[IO._render_jp] = jp_contract
    return out


# ------------------------------------------------------------------ specification
def jp(p):
    if p.spin.denominator == 1:
        j = sp.latex(p.spin)
    else:
        j = rf"\frac{{{p.spin.numerator}}}{{{p.spin.denominator}}}"
    if p.parity is None:
        return f"J={j}"
    if p.parity < 0:
        return f"{j}^-"
    return f"{j}^+"


def mev(x):
    return f"{int(1e3 * x):,.0f}"


def particle_rows(items):
    from ampform_dpd.decay import State

    with_index = any(isinstance(p, State) for p in items)
    text = ""
    for p in items:
        index = ""
        if with_index:
            index = f"{p.index}|" if isinstance(p, State) else "|"
        text += f"|{index}`{p.name}`|${p.latex}$|${jp(p)}$|{mev(p.mass)}|{mev(p.width)}|\n"
    return with_index, text


def chain_rows(items):
    with_dec = any(c.outgoing_ls is not None for c in items)
    with_prod = any(c.incoming_ls is not None for c in items)
    text = ""
    for c in items:
        a, b = c.decay_products
        r = c.resonance
        dec, prod = "", ""
        if with_dec:
            dec = "|" if c.outgoing_ls is None else f"{c.outgoing_ls.L}|"
        if with_prod:
            prod = "|" if c.incoming_ls is None else f"{c.incoming_ls.L}|"
        text += rf"|${r.latex} \to {a.latex} {b.latex}$|${jp(r)}$|{mev(r.mass)}|{mev(r.width)}|{dec}{prod}" + "\n"
    return with_dec, with_prod, text


# ------------------------------------------------------------------ tables up to white space between cells
def trimmed(x):
    if isinstance(x, str):
        return re.sub(r"[ \t]*\|[ \t]*", "|", x)
    if isinstance(x, VStr):
        return VStr([trimmed(p) for p in x.parts])
    if type(x) is Seg and x.cases is not None:
        return Seg(x.base, [Case(c.facts, [trimmed(i) for i in c.items], c.elem, c.univ, c.tag, c.inv, c.exits) for c in x.cases], x.elem)
    return x


def split_table(m, text):
    """Header cells, and the text of the rows."""
    parts = VStr([trimmed(text)]).parts
    head = parts[0] if parts and isinstance(parts[0], str) else ""
    lines = head.split("\n", 2)
    if len(lines) != 3:
        raise V.Unsupported(f"table without a fixed header: {K.show(text)}")
    titles, line = (x.removeprefix("|").removesuffix("|").split("|") if x.startswith("|") and x.endswith("|") else None for x in lines[:2])
    if titles is None or line is None:
        raise Differ(f"malformed header {head!r}", m.model())
    if len(titles) != len(line) or any(set(x) != {"-"} for x in line) or len(set(titles)) != len(titles) or not all(titles):
        raise Differ(f"malformed header {titles}, {line}", m.model())
    return titles, VStr([lines[2], *parts[1:]])


def table_post(spec, columns):
    def post(m, kind, val, args, kwargs):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        items = args[-1]
        *flags, want = m.call(spec, [items])
        titles, rows = split_table(m, val)
        if len(titles) != columns + sum(flags):
            raise Differ(f"header {titles}", m.model())
        if spec is chain_rows:
            for flag, mark in zip(flags, ("dec", "prod")):
                if any(mark in t for t in titles) != flag:
                    raise Differ(f"header {titles}", m.model())
            if all(flags) and [("dec" in t) for t in titles].index(True) > [("prod" in t) for t in titles].index(True):
                raise Differ(f"header {titles}: columns are not in the order of the cells", m.model())
        same(m, rows, VStr([want]), "rows")

    return post


def prove_tables(ctx):
    import ampform_dpd.io as IO
    from ampform_dpd.decay import Particle, State, ThreeBodyDecayChain

    ctx.assume("white space around the cells of a table is irrelevant; column titles are free except for the LS columns")

    def sequence(m, kinds, pytype=list):
        first = item(m, m.choose(kinds, "kind of the first item"), "first")
        return VSeq([first, Seg(ItemBase("items", kinds))], pytype=pytype)

    contracts = table_contracts()

    for kinds in (["particle"], ["state"], ["particle", "state"]):
        verify(ctx, f"ensures: one row of equal length per item, with the properties of the item [{', '.join(kinds)}]", IO.as_markdown_table,
               lambda m, kinds=kinds: ([sequence(m, kinds)], {}), post=table_post(particle_rows, 5),
               contracts=contracts)
    for pytype in (list, tuple):
        verify(ctx, f"ensures: one row of equal length per chain, with the properties of the chain [{pytype.__name__}]", IO.as_markdown_table,
               lambda m, pytype=pytype: ([sequence(m, ["chain"], pytype)], {}), post=table_post(chain_rows, 4),
               contracts=contracts)

    class Chains(Base):
        def make(self, m, tag):
            return chain(m, tag, True)

    def decay(m):
        d = Y.decay(m, base=Chains("chains", None))
        return [d, d.chains], {}

    verify(ctx, "ensures: the table of a decay is that of its chains, for any number of chains", IO.as_markdown_table, decay,
           invoke=lambda m, a, k: m.call(IO.as_markdown_table, a[:1]), post=table_post(chain_rows, 4),
               contracts=contracts)

    # ---- rejected
    def minimal(items):
        """The most general type of the items if there is one."""
        types = {type(i) for i in items}
        rest = [t for t in types if not any(t is not o and issubclass(t, o) for o in types)]
        if len(rest) != 1:
            raise ValueError
        if rest[0] not in (Particle, State, ThreeBodyDecayChain):
            raise NotImplementedError
        return None

    def rejected(m, kind, val, args, kwargs):
        want, exc = K.outcome(m, minimal, args, {})
        if not m.feasible():
            raise K.Infeasible
        if want == "raise" and (kind != "raise" or not isinstance(val, type(exc))):
            raise Differ(f"{K.describe(kind, val)}, expected: {exc!r}", m.model())
        if want == "return" and kind != "return":
            raise Differ(f"raises {val!r}", m.model())

    for kinds in (["particle", "chain"], ["state", "chain"], ["particle", "state", "chain"], ["particle", 1], ["state", 1], ["chain", 1], [1, 2.5],
                  [1], ["particle", "state", 1], [1, True], [1, True, 2.5]):
        verify(ctx, f"raises: exactly for sequences of mixed or unsupported items {kinds}", IO.as_markdown_table,
               lambda m, kinds=kinds: ([sequence(m, kinds)], {}), post=rejected, contracts=contracts)

    def empty(m, kind, val, args, kwargs):
        if kind != "raise" or not isinstance(val, ValueError):
            raise Differ(K.describe(kind, val), m.model())

    verify(ctx, "raises: ValueError for an empty sequence", IO.as_markdown_table, lambda m: ([m.choose([(), []], "empty")], {}), post=empty)

    def unsupported(m, kind, val, args, kwargs):
        if kind != "raise" or not isinstance(val, NotImplementedError):
            raise Differ(K.describe(kind, val), m.model())

    verify(ctx, "raises: NotImplementedError for other objects", IO.as_markdown_table, lambda m: ([m.choose([1, None, 2.5], "object")], {}),
           post=unsupported)


# ------------------------------------------------------------------ LaTeX
def prove_latex(ctx):
    import ampform_dpd.io as IO

    def arrow(ls):
        return r"\to" if ls is None else rf"\xrightarrow[S={ls.S}]{{L={ls.L}}}"

    def node(n):
        from ampform_dpd.decay import IsobarNode

        return rf"\left({spec(n)}\right)" if isinstance(n, IsobarNode) else n.latex

    def spec(n):
        return rf"{n.parent.latex} {arrow(n.interaction)} {node(n.child1)} {node(n.child2)}"

    def with_jp(p):
        return rf"{p.latex}\left[{jp(p)}\right]"

    def node_jp(n):
        from ampform_dpd.decay import IsobarNode

        return rf"\left({spec_jp(n)}\right)" if isinstance(n, IsobarNode) else with_jp(n)

    def spec_jp(n):
        return rf"{with_jp(n.parent)} {arrow(n.interaction)} {node_jp(n.child1)} {node_jp(n.child2)}"

    def one_chain(m):
        return [chain(m, "chain;")], {}

    def post(m, kind, val, args, kwargs):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        same(m, val, m.call(spec, [m.getattr(args[0], "decay")]), "LaTeX")

    verify(ctx, "ensures: parent, arrow with L and S if present, and both children of each node", IO.aslatex, one_chain, post=post,
           name="io.aslatex(ThreeBodyDecayChain)")
    verify(ctx, "ensures: parent, arrow with L and S if present, and both children of each node", IO.aslatex, one_chain, post=post,
           name="io.aslatex(IsobarNode)", invoke=lambda m, a, k: m.call(IO.aslatex, [m.getattr(a[0], "decay")]))

    def post_jp(m, kind, val, args, kwargs):
        if kind != "return":
            raise Differ(f"raises {val!r}", m.model())
        same(m, val, m.call(spec_jp, [m.getattr(args[0], "decay")]), "LaTeX with spin-parity")

    for name, attr in (("ThreeBodyDecayChain", None), ("IsobarNode", "decay")):
        verify(ctx, "ensures: with_jp adds the spin-parity of every particle of the nodes", IO.aslatex, one_chain, post=post_jp,
               name=f"io.aslatex({name})", contracts=table_contracts(),
               invoke=lambda m, a, k, attr=attr: m.call(IO.aslatex, [m.getattr(a[0], attr) if attr else a[0]], {"with_jp": True}))

    def one(m):
        return [m.choose([particle, state], "kind")(m, "P")], {}

    def rendered(only_jp, with_jp):
        def post(m, kind, val, args, kwargs):
            if kind != "return":
                raise Differ(f"raises {val!r}", m.model())
            p = args[0]
            t = m.call(jp, [p])
            same(m, val, t if only_jp else rf"{p.latex}\left[{t}\right]" if with_jp else p.latex, "LaTeX")

        return post

    for only, with_ in ((False, False), (False, True), (True, False)):
        verify(ctx, f"ensures: LaTeX and spin with the sign of the parity [only_jp={only}, with_jp={with_}]", IO.aslatex, one,
               name="io.aslatex(Particle)", post=rendered(only, with_),
               invoke=lambda m, a, k, o=only, w=with_: m.call(IO.aslatex, a, {**({"only_jp": True} if o else {}), **({"with_jp": True} if w else {})}))
