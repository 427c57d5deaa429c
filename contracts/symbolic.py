"""Symbolic decays: arbitrary particles, states, chains and three-body decays.

The objects obey the invariant of the data structures (C07): a chain has a production node
with one isobar and one final state, in either order, and its states are those of the decay.
Everything else is arbitrary: names, spins, masses, couplings, number and order of chains.
"""
from __future__ import annotations

import sympy as sp
import z3
from pyvc import values as V
from pyvc.engine import num_term
from pyvc.interp import MISSING
from pyvc.values import Base, Obj, Seg, VDict, VSeq, number, string

PAIR = {1: (2, 3), 2: (3, 1), 3: (1, 2)}


def particle_fields(m, tag, spin=None):
    j = number(f"{tag}.spin", "half", sp.Rational) if spin is None else spin
    if spin is None:
        m.assume(num_term(j) >= 0)
    par = number(f"{tag}.parity", "int", int)
    m.assume(z3.Or(num_term(par) == 1, num_term(par) == -1))
    mass, width = number(f"{tag}.mass", "real", float), number(f"{tag}.width", "real", float)
    m.assume(num_term(mass) >= 0)
    m.assume(num_term(width) >= 0)
    return dict(name=string(f"{tag}.name"), latex=string(f"{tag}.latex"), spin=j, parity=par, mass=mass, width=width)


def native(cls, **fields):
    obj = object.__new__(cls)
    for k, v in fields.items():
        object.__setattr__(obj, k, v)
    return obj


_OBJECTS: dict = {}


def shared(key, make):
    """One object per key: equal objects are then identical (they are immutable)."""
    o = _OBJECTS.get(key)
    if o is None:
        o = _OBJECTS[key] = make()
    return o


def state(m, i, tag=None, spin=None, index=None):
    """An arbitrary state with the given index."""
    from ampform_dpd.decay import State

    tag = tag or f"state{i}"
    index = i if index is None else index
    fields = particle_fields(m, tag, spin)
    return shared(("state", tag, spin, index), lambda: native(State, **fields, index=index))


def particle(m, tag, spin=None):
    from ampform_dpd.decay import Particle

    fields = particle_fields(m, tag, spin)
    return shared(("particle", tag, spin), lambda: native(Particle, **fields))


def coupling(m, tag):
    """An arbitrary LS coupling."""
    from ampform_dpd.decay import LSCoupling

    L, S = number(f"{tag}.L", "int", int), number(f"{tag}.S", "half", sp.Rational)
    m.assume(num_term(L) >= 0)
    m.assume(num_term(S) >= 0)
    return shared(("coupling", tag), lambda: native(LSCoupling, L=L, S=S))


def chain(m, tag, states, spectators=(1, 2, 3), ls=("some", None)):
    """An arbitrary chain over the states, with shapes chosen on demand."""
    from ampform_dpd.decay import ThreeBodyDecayChain

    c = Obj(tag, ThreeBodyDecayChain)
    c.lazy = ChainLazy(states, tuple(spectators), tuple(ls))
    return c


class ChainLazy:
    """Fields of a chain and of its nodes; choices are named after the chain."""

    def __init__(self, states, spectators, ls):
        self.states, self.spectators, self.ls = states, spectators, ls

    def retagged(self, r):
        return ChainLazy({i: r(s) for i, s in self.states.items()}, self.spectators, self.ls)

    def _node(self, obj, name):
        from ampform_dpd.decay import IsobarNode

        n = Obj(f"{obj.name}.{name}", IsobarNode)
        n.lazy = self
        return n

    def __call__(self, m, obj, field):
        base, _, part = obj.name.rpartition(".")
        if part == "production":
            chain_name = base
            if field == "parent":
                return self.states[0]
            if field in ("child1", "child2"):
                k = m.choose(self.spectators, f"{chain_name}.k")
                swap = m.choose([False, True], f"{chain_name}.swap-production")
                dec = Obj(f"{chain_name}.decay", obj.cls)
                dec.lazy = self
                return (dec, self.states[k])[(field == "child2") != swap]
            if field == "interaction":
                return self._ls(m, obj.name)
        elif part == "decay":
            chain_name = base
            if field == "parent":
                return particle(m, f"{chain_name}.R")
            if field in ("child1", "child2"):
                k = m.choose(self.spectators, f"{chain_name}.k")
                swap = m.choose([False, True], f"{chain_name}.swap-decay")
                i, j = PAIR[k]
                return (self.states[i], self.states[j])[(field == "child2") != swap]
            if field == "interaction":
                return self._ls(m, obj.name)
        elif field == "decay":
            return self._node(obj, "production")
        return MISSING

    def _ls(self, m, name):
        if m.choose(list(self.ls), f"{name}.has-ls") is None:
            return None
        return coupling(m, name)


class ChainBase(Base):
    """The chains of a decay: any number, in any order, possibly repeated."""

    def __init__(self, states, name="chains", **kw):
        super().__init__(name, None)
        self.states, self.kw = states, kw

    def make(self, m, tag):
        return chain(m, tag, self.states, **self.kw)


def decay(m, order=(0, 1, 2, 3), states=None, base=None, **kw):
    """An arbitrary well-formed decay."""
    from ampform_dpd.decay import ThreeBodyDecay

    states = states or {i: state(m, i) for i in (0, 1, 2, 3)}
    base = base or ChainBase(states, **kw)
    return native(ThreeBodyDecay, states={i: states[i] for i in order}, chains=VSeq([Seg(base)], pytype=tuple))


def mapping(name):
    """An arbitrary mapping (a parameter set, say)."""
    return VDict([("update", Obj(name, dict, {"__items__": True}))])
