"""Grouping: the loop rule for ``for x in xs: groups[key(x)].append(x)``.

A loop over any number of elements that only appends to the lists of a mapping that was empty
before gives a mapping of each distinct key, in order of first appearance, to the list of the
values with that key, in order. A group is its first element and any number of further ones
with an equal key. Likewise for ``totals[key(x)] = totals.get(key(x), 0) + term(x)``.
"""
from __future__ import annotations

from pyvc import values as V
from pyvc.engine import Infeasible, retag, retag_value
from pyvc.values import Seg, Sym, Unsupported, VList, VSeq


class GroupRef(Sym):
    """``groups[key]`` in the body of a loop, for a mapping from outside of it."""

    pytype = list

    def __init__(self, mapping, key, depth):
        self.mapping, self.key, self.depth = mapping, key, depth


def starts(m, d):
    """Can the mapping be filled by grouping in the present loop?"""
    return d.depth < m.depth and not d.items and d.base is None


def reference(m, d, key):
    m.mutate(d, [("touch", key)])
    return GroupRef(d, key, m.depth)


def append(m, ref, x):
    if ref.depth != m.depth:
        raise Unsupported("a group is changed in an inner loop")
    m.mutate(ref.mapping, [("group", ref.key, x)])


# ------------------------------------------------------------------ sums
class SumRef(Sym):
    """``totals.get(key, 0) + terms`` in the body of a loop, for a mapping from outside of it.

    The log of the mapping gets ("read", key) and then ("add", key, terms) where the sum is stored again.
    """

    def __init__(self, mapping, key, depth, terms=0):
        self.mapping, self.key, self.depth, self.terms = mapping, key, depth, terms

    def plus(self, m, x):
        import ast

        return SumRef(self.mapping, self.key, self.depth, m.binop(ast.Add, self.terms, x))


def total(m, d, key):
    m.mutate(d, [("read", key)])
    return SumRef(d, key, m.depth)


def store(m, d, key, ref):
    from pyvc.engine import same_plain

    effects = m.frames[m.depth - 1]["effects"].get(id(d), (d, []))[1] if m.depth else []
    if ref.mapping is not d or ref.depth != m.depth or not same_plain(ref.key, key):
        raise Unsupported("a sum is stored under another key")
    if not effects or not isinstance(effects[-1], tuple) or effects[-1][0] != "read" or not same_plain(effects[-1][1], key):
        raise Unsupported("a sum is not stored right after it was read")
    m.mutate(d, [("add", key, ref.terms)])


def has_sums(items):
    for i in items:
        if isinstance(i, Seg):
            if any(has_sums(c.items) for c in i.cases or ()):
                return True
        elif isinstance(i, tuple) and i and i[0] in ("read", "add"):
            return True
    return False


def segment(d):
    """The segment of a mapping that was filled by grouping, else None."""
    if has_sums(d.items):
        raise Unsupported("a look into a mapping of sums")
    segs = [i for i in d.items if isinstance(i, Seg)]
    if not any(isinstance(i, tuple) and i[0] in ("touch", "group") for s in segs for c in s.cases or () for i in c.items):
        return None
    if len(d.items) != 1:
        raise Unsupported("a mapping of groups that is changed otherwise")
    for c in segs[0].cases:
        if len(c.items) not in (0, 2) or any(not isinstance(i, tuple) for i in c.items):
            raise Unsupported("grouping with several values per element")
        if c.items and (c.items[0][0] != "touch" or c.items[1][0] != "group" or c.items[0][1] is not c.items[1][1]):
            raise Unsupported("grouping of another form")
    return segs[0]


def entry(m, seg, tag):
    """(key, value) that the generic element with this tag adds."""
    elem = m.element_as(seg.base, tag)
    items = m.items_of(seg, elem)
    if not items:
        raise Infeasible
    return items[1][1], items[1][2]


def same_partition(m, a, b, what):
    """Two elements have equal keys in one grouping iff they have them in the other one."""
    from pyvc.compare import Differ, require, same, same_base

    memo = m.__dict__.setdefault("partitions", [])
    for a2, b2, facts in memo:  # shown before, of fewer facts
        if a2 is a and b2 is b and len(facts) <= len(m.facts) and all(x is y for x, y in zip(facts, m.facts)):
            return
    known = list(m.facts)
    same_base(m, a.base, b.base, what)

    def first(e1):
        t1 = m.last_tag
        ka, va = m.items_of(a, e1)[0][1], m.items_of(a, e1)[1][2]
        m.last_tag = t1
        kb, vb = m.items_of(b, e1)[0][1], m.items_of(b, e1)[1][2]
        same(m, va, vb, what + " (values)")

        def second(e2):
            t2 = m.last_tag
            ka2 = m.items_of(a, e2)[0][1]
            m.last_tag = t2
            kb2 = m.items_of(b, e2)[0][1]
            try:
                ea, eb = m.eq(ka, ka2), m.eq(kb, kb2)
            except Unsupported as u:
                raise Differ(f"{what}: keys {u}") from None
            require(m, m.z_or([m.z_and([ea, eb]), m.z_and([m.z_not(ea), m.z_not(eb)])]), f"{what}: groups by other keys")

        m.generic(a.base, second)

    if any(not c.items for s in (a, b) for c in s.cases):
        raise Differ(f"{what}: groups of a part of the elements")
    m.generic(a.base, first)
    memo.append((a, b, known))


class GroupBase(V.Base):
    """The groups, in order of first appearance of their key."""

    def __init__(self, seg, what):
        super().__init__(f"groups[{seg.base.name}]", None, distinct=what != "values")
        self.seg, self.what = seg, what

    def make(self, m, tag):
        key, first = entry(m, self.seg, tag)
        group = VList([first, Seg(MemberBase(self.seg, tag, key))], depth=m.depth)
        return {"values": group, "items": (key, group), "keys": key}[self.what]

    def retagged(self, old, new):
        return GroupBase(retag_value(self.seg, old, new), self.what)

    def same_as(self, m, other, what):
        from pyvc.compare import Differ

        if self.what != other.what:
            raise Differ(f"{what}: {self.what} instead of {other.what} of groups")
        same_partition(m, self.seg, other.seg, what)


class MemberBase(V.Base):
    """The further members of a group."""

    def __init__(self, seg, group, key):
        super().__init__(f"members of {group}", None)
        self.seg, self.group, self.key = seg, group, key

    def make(self, m, tag):
        key, x = entry(m, self.seg, tag)
        e = m.eq(key, self.key)
        if e is False:
            raise Infeasible
        if e is not True:
            m.assume(e)
            if not m.feasible():
                raise Infeasible
        return x

    def retagged(self, old, new):
        seg = self.seg if old == self.group else retag_value(self.seg, old, new)  # made before the group was picked
        return MemberBase(seg, self.group.replace(old, new), retag_value(self.key, old, new))

    def same_as(self, m, other, what):
        from pyvc.compare import Differ

        if self.group != other.group:
            raise Differ(f"{what}: members of {self.group} instead of {other.group}")
        same_partition(m, self.seg, other.seg, what)


class Extreme(Sym):
    """Minimum or maximum of a sequence of unknown length."""

    def __init__(self, kind, items):
        self.kind, self.items = kind, list(items)

    def __repr__(self):
        return f"{self.kind}({self.items})"


_ = retag
