"""Verification-condition generator for the Python code in /repo.

The functions of /repo are interpreted from their current source text (module ASTs), for
symbolic inputs. Paths are explored exhaustively; a branch is taken when z3 shows that the
path condition implies it, otherwise both sides are explored. Loops over sequences of
unknown length are summarised by the map/filter/fold rule: the body is explored once for an
arbitrary element, in every way it can behave, and must not depend on what earlier
iterations did (else: Unsupported). Functions with a contract are replaced by it at call
sites. Nothing here gives a verdict: anything outside the subset raises Unsupported.
"""
from __future__ import annotations

import ast
import builtins
import inspect
import sys
import types

import pyvc.env as env
import sympy as sp
import z3
from pyvc import smt
from pyvc import values as V
from pyvc.values import (
    NUMBERS, STRINGS, GBool, GFold, GPool, Obj, Seg, Sym, Unsupported, VDict, VList, VRange, VSeq, VSet, VStr,
    ghost_number, has_ghost, number, plain_number,
)

PKG = ("ampform_dpd", "contracts")
LIBRARY = ("qrules.topology",)  # of which the source is executed as well


class PyRaise(Exception):
    """A Python exception raised by the interpreted code."""

    def __init__(self, exc):
        self.exc = exc

    def __str__(self):
        return f"{type(self.exc).__name__}: {V.show(self.exc)}"


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Infeasible(Exception):
    pass


class Poison:
    def __init__(self, why):
        self.why = why


class Carried:
    """Value of a local variable from earlier iterations of a generic loop."""

    def __init__(self, name, init, depth):
        self.name, self.init, self.depth = name, init, depth


class Closure:
    def __init__(self, node, env_, globals_, qualname, defaults, kwdefaults, cls_name=None):
        self.node, self.env, self.globals, self.qualname = node, env_, globals_, qualname
        self.defaults, self.kwdefaults, self.cls_name = defaults, kwdefaults, cls_name
        self.__name__ = qualname.rsplit(".", 1)[-1]


class BoundClosure:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class VMethod:
    """Method of a symbolic container or string."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Denom:
    def __init__(self, q):
        self.q = q


class Case:
    """One way through a loop body: its condition, what holds anyway, and what it contributes."""

    def __init__(self, facts, items, elem, univ=(), tag="", inv=(), exits=()):
        self.facts, self.items, self.elem, self.univ, self.tag = list(facts), list(items), elem, list(univ), tag
        self.inv = list(inv)
        self.exits = list(exits)

    @property
    def all(self):
        return [*self.inv, *self.facts]

    def __repr__(self):
        return f"Case({len(self.facts)} facts: {self.items})"


class Exit:
    """A loop that may be left: its label says how (or, as last value, that it is not)."""

    def __init__(self, label, size, base, tag, conds, inv):
        self.label, self.size, self.base, self.tag, self.conds, self.inv = label, size, base, tag, conds, list(inv)

    def chosen(self):
        return z3.Int(f"choice{self.size}:{self.label}")

    def retagged(self, old, new):
        conds = None if self.conds is None else [retag(c, old, new) for c in self.conds]
        return Exit(self.label.replace(old, new), self.size, retag_value(self.base, old, new), self.tag.replace(old, new), conds,
                    [retag(f, old, new) for f in self.inv])


class Witness:
    """First element of ``base`` for which a loop was left (or a condition held)."""

    def __init__(self, base, elem, tag, facts, univ=(), cond=None, inv=()):
        self.base, self.elem, self.tag, self.facts, self.univ = base, elem, tag, facts, list(univ)
        self.inv = list(inv)
        self.cond = cond  # condition (on ``tag``) of which this is the first element

    def __repr__(self):
        return f"Witness({self.base.name}: {self.facts})"


class Path:
    def __init__(self, facts, kind, value, universals, witnesses, events):
        self.facts, self.kind, self.value = facts, kind, value
        self.universals, self.witnesses, self.events = universals, witnesses, events

    def __repr__(self):
        return f"Path({self.kind}: {self.value!r})"


# --------------------------------------------------------------------------- sources
_ASTS: dict[str, tuple] = {}


def module_index(module):
    if module.__name__ not in _ASTS:
        src = inspect.getsource(module)
        tree = ast.parse(src)
        index: dict[int, list] = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([node.lineno, *(d.lineno for d in node.decorator_list)])
                index.setdefault(line, []).append(node)
            elif isinstance(node, ast.Lambda):
                index.setdefault(node.lineno, []).append(node)
        _ASTS[module.__name__] = (tree, index)
    return _ASTS[module.__name__]


def function_node(fn):
    module = sys.modules[fn.__module__]
    _, index = module_index(module)
    code = fn.__code__
    cands = index.get(code.co_firstlineno, [])
    names = code.co_varnames[: code.co_argcount + code.co_kwonlyargcount]
    for node in cands:
        a = node.args
        got = tuple(x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs))
        is_lambda = isinstance(node, ast.Lambda)
        if is_lambda == (fn.__name__ == "<lambda>") and len(got) == len(names):
            return node
    raise Unsupported(f"no source for {fn.__module__}.{fn.__qualname__}")


def in_package(obj) -> bool:
    m = getattr(obj, "__module__", None) or ""
    return m.split(".", 1)[0] in PKG or m in LIBRARY


def mangle(name, cls_name):
    if cls_name and name.startswith("__") and not name.endswith("__"):
        return f"_{cls_name.lstrip('_')}{name}"
    return name


# --------------------------------------------------------------------------- the machine
class Machine:
    def __init__(self, contracts=None, timeout_ms=4000):
        self.contracts = dict(contracts or {})
        self.timeout_ms = timeout_ms
        self.used: set[str] = set()  # functions whose source was interpreted
        self.assumed: set[str] = set()  # library models that were used
        self.contract_uses: set[str] = set()
        self.solver_s = 0.0
        self.queries = 0
        self._cache: dict = {}
        self._stack = smt.Stack()
        self.max_paths = 4000
        self.reset()

    # ---- state of one path
    def reset(self):
        self.facts: list = []
        self.instances: set = set()  # positions of instances of universal facts
        self.given: set = set()  # positions of facts that hold anyway (assumed, not decided)
        self.universals: list = []  # (base, tag, z3 term): holds for every element of base
        self.witnesses: list = []
        self.exits: list = []
        self.loop = ""  # number of the loop (unique for code and specification)
        self.events = VList(depth=0)
        self.counts: list = []
        self.depth = 0
        self.frames: list = []  # generic frames: dict(effects=..., reads=...)
        self.script: list = []
        self.pos = 0
        self.trace: list = []
        self.counter: dict = {}
        self.tags: list = []
        self.statics: dict = {}

    def fresh(self, name):
        """Unique name; inside the body of a generic loop it is a function of that loop and the generic element."""
        key = (name, tuple(self.tags))
        n = self.counter.get(key, 0)
        self.counter[key] = n + 1
        return f"{name}@{n}" + "".join(f"%{self.loop}({t})" for t in self.tags[-1:]) + ";"

    # ---- solver
    def _check(self, terms):
        key = frozenset({t.get_id() for t in terms})
        r = self._cache.get(key)
        if r is None:
            s, m, dt = self._stack.check(terms, self.timeout_ms)
            self.queries += 1
            self.solver_s += dt
            r = (s, m, terms)  # keeps the terms (and their ids) alive
            self._cache[key] = r
        return r[0], r[1]

    def axioms(self):
        n = len(_LITERALS)
        if n < 2:
            return []
        if _DISTINCT.get("n") != n:
            _DISTINCT.update(n=n, term=z3.Distinct(*_LITERALS.values()))
        return [_DISTINCT["term"]]

    def entails(self, cond) -> bool:
        if isinstance(cond, bool):
            return cond
        if z3.is_true(cond):
            return True
        return self._check([*self.axioms(), *self.facts, z3.Not(cond)])[0] == "unsat"

    def feasible(self, *extra) -> bool:
        return self._check([*self.axioms(), *self.facts, *extra])[0] != "unsat"

    def model(self, *extra):
        s, m = self._check([*self.axioms(), *self.facts, *extra])
        return m if s == "sat" else None

    def assume(self, cond):
        if cond is True or (z3.is_expr(cond) and z3.is_true(cond)):
            return
        if cond is False:
            raise Infeasible
        self.given.add(len(self.facts))
        self.instances.discard(len(self.facts))
        self.facts.append(cond)

    def take(self, cond):
        """A condition that distinguishes this path from others."""
        if cond is True or (z3.is_expr(cond) and z3.is_true(cond)):
            return
        if cond is False:
            raise Infeasible
        self.given.discard(len(self.facts))
        self.instances.discard(len(self.facts))
        self.facts.append(cond)

    def split_facts(self, start):
        """(conditions decided since ``start``, what holds anyway under the earlier conditions)."""
        decided, inv = [], []
        for n in range(start, len(self.facts)):
            f = self.facts[n]
            if n in self.given:
                if n in self.instances:  # (an instance of a universal fact: not to be generalized again)
                    continue
                inv.append(z3.Implies(_conj(decided), f) if decided and not _is_range(f) else f)
            else:
                decided.append(f)
        return decided, inv

    def decide(self, cond) -> bool:
        if isinstance(cond, bool):
            return cond
        cond = _simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = _negate(cond)
        i, k = cond.get_id(), neg.get_id()
        for f in reversed(self.facts):
            fid = f.get_id()
            if fid == i:
                return True
            if fid == k:
                return False
        if self.entails(cond):
            return True
        if self.entails(neg):
            return False
        val = self._next()
        self.take(cond if val else neg)
        return val

    def _next(self) -> bool:
        if self.pos < len(self.script):
            val = self.script[self.pos]
        else:
            val = True
            self.script.append(True)
        self.pos += 1
        return val

    def choose(self, options, label):
        """Fork over finitely many alternatives of an unknown kind."""
        if len(options) == 1:
            return options[0]
        c = z3.Int(f"choice{len(options)}:" + label)  # (its range is a fact about the name)
        tests = {_simplify(c == n).get_id(): n for n in range(len(options))}
        for f in self.facts:
            n = tests.get(f.get_id())
            if n is not None:
                return options[n]
        self.assume(z3.Or(*[c == n for n in range(len(options))]))
        for n, o in enumerate(options[:-1]):
            if self.decide(c == n):
                return o
        self.take(_simplify(c == len(options) - 1))
        return options[-1]

    # ---- exploration
    def explore(self, fn):
        """All paths of ``fn()`` from the initial state (fresh machine state per path)."""
        paths = []
        script: list = []
        while True:
            self.reset()
            self.script = list(script)
            try:
                try:
                    v = fn()
                    kind = "return"
                except PyRaise as e:
                    v, kind = e.exc, "raise"
                paths.append(Path(list(self.facts), kind, v, list(self.universals), list(self.witnesses), list(self.events.items)))
            except Infeasible:
                pass
            script = self.script[: self.pos]
            while script and script[-1] is False:
                script.pop()
            if not script:
                return paths
            script[-1] = False
            if len(paths) > self.max_paths:
                raise Unsupported("too many paths")

    def sub_explore(self, fn, on_path):
        """Explore ``fn`` locally: facts and decisions are undone after each path."""
        saved = (self.script, self.pos)
        n_facts, n_univ, n_wit, n_ex = len(self.facts), len(self.universals), len(self.witnesses), len(self.exits)
        counter = dict(self.counter)
        statics = dict(self.statics)
        script: list = []
        count = 0
        top = dict(counter)
        try:
            while True:
                self.script, self.pos = list(script), 0
                self.counter = dict(counter)
                self.statics = dict(statics)
                try:
                    on_path(fn, n_facts)
                except Infeasible:
                    pass
                count += 1
                for k, n in self.counter.items():
                    top[k] = max(top.get(k, 0), n)
                script = self.script[: self.pos]
                del self.facts[n_facts:]
                del self.universals[n_univ:]
                del self.witnesses[n_wit:]
                del self.exits[n_ex:]
                while script and script[-1] is False:
                    script.pop()
                if not script:
                    return
                script[-1] = False
                if count > self.max_paths:
                    raise Unsupported("too many local paths")
        finally:
            self.script, self.pos = saved
            self.counter, self.statics = top, statics
            del self.facts[n_facts:]
            del self.universals[n_univ:]
            del self.witnesses[n_wit:]
            del self.exits[n_ex:]

    # ---- generic elements
    def element(self, base):
        tag = self.fresh(base.name)
        self.tags.append(tag)
        elem = base.make(self, tag)
        self.last_tag = tag
        for b, t, term in self.universals:
            if b is base:
                n = len(self.facts)
                self.assume(retag(term, t, tag))
                self.instances.update(range(n, len(self.facts)))
        return elem, tag

    def element_as(self, base, tag):
        """A generic element of ``base`` with the tag of an element of another sequence."""
        elem = base.make(self, tag)
        self.last_tag = tag
        for b, t, term in self.universals:
            if b is base:
                n = len(self.facts)
                self.assume(retag(term, t, tag))
                self.instances.update(range(n, len(self.facts)))
        return elem

    def universal(self, base, tag, term):
        """``term`` (about the element ``tag``) holds for every element of ``base``."""
        self.universals.append((base, tag, term))
        for w in self.witnesses:
            if w.base is base:
                self.assume(retag(term, tag, w.tag))
        if not self.feasible():
            raise Infeasible

    def same_witness(self, base, exits):
        """An earlier witness that is the first element under an equivalent condition."""
        for w in self.witnesses:
            if w.base is base and w.cond is not None:
                t = self.fresh("any")
                old = retag(w.cond, w.tag, t)
                new = z3.Or(*[_conj([retag(f, r["tag"], t) for f in r["facts"]]) for r in exits])
                inv = [retag(f, w.tag, t) for f in w.inv] + [retag(f, r["tag"], t) for r in exits for f in r["inv"]]
                if self.entails(z3.Implies(_conj(inv), old == new)):
                    return w
        return None

    # ---- effects on objects from outside a generic loop body
    def mutate(self, obj, items):
        if obj.depth < self.depth:
            frame = self.frames[self.depth - 1]
            if id(obj) in frame["reads"]:
                raise Unsupported("a loop reads a container that it changes")
            frame["effects"].setdefault(id(obj), (obj, []))[1].extend(items)
        else:
            self._apply(obj, items)

    @staticmethod
    def _apply(obj, items):
        obj.items.extend(items)

    def read(self, obj):
        if isinstance(obj, Sym) and obj.depth < self.depth:
            for frame in self.frames[obj.depth: self.depth]:
                if id(obj) in frame["effects"]:
                    raise Unsupported("a loop reads a container that it changes")
                frame["reads"][id(obj)] = obj
        return obj

    def generic(self, base, body, assigned=(), env_=None, elem_of=None):
        """Map/filter/fold rule for ``for x in base: body(x)``.

        Returns "next" after a loop that runs to its end, or raises what the body raised
        (return, exception, break) for the first element that leaves the loop.
        """
        cases, exits = [], []
        depth0 = self.depth
        init = {}
        if env_ is not None:
            for name in assigned:
                if name in env_:
                    init[name] = env_[name]

        def on_path(fn, n_facts):
            n_tags = len(self.tags)
            self.depth = depth0 + 1
            frame = {"effects": {}, "reads": {}, "carried": {}}
            self.frames.append(frame)
            n_univ, n_wit, n_ex = len(self.universals), len(self.witnesses), len(self.exits)
            if env_ is not None:
                for name in assigned:
                    if name in init:
                        env_[name] = Carried(name, init[name], self.depth)
                    else:
                        env_.pop(name, None)
            try:
                elem, tag = self.element(base)
                kind, val = "next", None
                try:
                    body(elem)
                except _Continue:
                    pass
                except _Break:
                    kind = "break"
                except _Return as r:
                    kind, val = "return", r.value
                except PyRaise as r:
                    kind, val = "raise", r.exc
                facts, inv = self.split_facts(n_facts)
                univ = list(self.universals[n_univ:])
                wit = list(self.witnesses[n_wit:])
                left = list(self.exits[n_ex:])
                plain = set()
                if env_ is not None:
                    for name in assigned:
                        cur = env_.get(name)
                        if not (isinstance(cur, Carried) and cur.name == name):
                            plain.add(name)
                rec = dict(facts=facts, inv=inv, univ=univ, wit=wit, elem=elem, tag=tag, kind=kind, val=val, frame=frame,
                           plain=plain, exits=left)
                (cases if kind == "next" else exits).append(rec)
            finally:
                self.frames.pop()
                self.depth = depth0
                del self.tags[n_tags:]
                if env_ is not None:
                    for name in assigned:
                        if name in init:
                            env_[name] = init[name]
                        else:
                            env_.pop(name, None)

        outer = self.loop
        k = self.counter.get(("loop", outer), 0)
        self.counter["loop", outer] = k + 1
        self.loop = f"{outer}.{k}"
        try:
            self.sub_explore(None, on_path)
        finally:
            self.loop = outer
        if not cases and not exits:
            return "next"  # no element is possible
        # loop-carried dependences through containers
        changed, reads = {}, {}
        for rec in (*cases, *exits):
            for k, (o, _items) in rec["frame"]["effects"].items():
                changed[k] = o
            reads.update(rec["frame"]["reads"])
        if set(changed) & set(reads):
            raise Unsupported("a loop reads a container that it changes")
        always = {}
        for r in (*cases, *exits):
            for f in r["inv"]:
                always[f.get_id()] = (r["tag"], f)
        exits = merge_records(exits)
        cases = merge_records(cases)
        # ---- first element that leaves the loop
        if exits:
            label = self.fresh(f"{base.name}:exit")
            plain = not any(r["univ"] or r["wit"] for r in exits)
            known = self.same_witness(base, exits) if plain else None
            options = [*exits, None] if known is None else exits
            rec = self.choose(options, label)
            if len(options) > 1:
                self.exits.append(Exit(label, len(options), base, exits[0]["tag"],
                                       [retag(_conj(r["facts"]), r["tag"], exits[0]["tag"]) for r in exits] if plain and known is None else None,
                                       [retag(f, r["tag"], exits[0]["tag"]) for r in exits for f in r["inv"]]))
            if known is not None:
                rec = retag_record(rec, rec["tag"], known.tag)
            if rec is not None:
                # witness: the first element that leaves the loop; it leaves this way
                if known is None:
                    cond = None
                    if plain:
                        cond = z3.Or(*[_conj([retag(f, r["tag"], rec["tag"]) for f in r["facts"]]) for r in exits])
                    self.witnesses.append(Witness(base, rec["elem"], rec["tag"], list(rec["facts"]), list(rec["univ"]), cond,
                                                  [f for r in exits for f in r["inv"]]))
                    self.witnesses.extend(rec["wit"])
                    for b, t, term in self.universals:
                        if b is base:
                            self.assume(retag(term, t, rec["tag"]))
                self.universals.extend(rec["univ"])
                for f in rec["inv"]:
                    self.assume(f)
                for f in rec["facts"]:  # (follows from the choice of the record)
                    self.assume(f)
                if not self.feasible():
                    raise Infeasible
                self._poison(env_, assigned, "loop left early")
                for r in (*cases, *exits):
                    for _, (o, _items) in r["frame"]["effects"].items():
                        self.mutate(o, [Poison("loop left early")])
                if rec["kind"] == "return":
                    raise _Return(rec["val"])
                if rec["kind"] == "raise":
                    raise PyRaise(rec["val"])
                return "break"
            for tag, f in always.values():
                self.universals.append((base, tag, f))
                for w in self.witnesses:
                    if w.base is base:
                        self.assume(retag(f, tag, w.tag))
            # (choices of loops inside are functions of the element, so that the facts say exactly when it leaves)
            for rec in exits:
                self.universal(base, rec["tag"], z3.Not(_conj(rec["facts"])))
        # ---- effects of a complete loop
        effects: dict = {}
        for rec in cases:
            for k, (o, _items) in rec["frame"]["effects"].items():
                effects[k] = o
        for k, o in effects.items():
            seg = Seg(base, [Case(r["facts"], r["frame"]["effects"].get(k, (o, []))[1], r["elem"], r["univ"], r["tag"], r["inv"], r["exits"]) for r in cases])
            self.mutate(o, [seg])
        if env_ is not None:
            for name in assigned:
                ops = [r["frame"]["carried"].get(name) for r in cases]
                if any(op is not None for op in ops):
                    kinds = {op[0] for op in ops if op is not None}
                    if len(kinds) != 1 or any(name in r["plain"] for r in cases) or name not in init:
                        env_[name] = Poison(f"{name} after a loop")
                        continue
                    kind = kinds.pop()
                    seg = Seg(base, [Case(r["facts"], [x for x in (op[1] if op else [])], r["elem"], r["univ"], r["tag"], r["inv"], r["exits"]) for r, op in zip(cases, ops)])
                    env_[name] = self.fold(kind, init[name], seg)
                elif any(name in r["plain"] for r in cases):
                    env_[name] = Poison(f"{name} after a loop")
        return "next"

    def _poison(self, env_, assigned, why):
        if env_ is not None:
            for name in assigned:
                env_[name] = Poison(why)

    def fold(self, op, init, seg):
        if isinstance(init, Carried):
            frame = self.frames[init.depth - 1]
            prev = frame["carried"].get(init.name)
            if prev is not None and prev[0] != op:
                raise Unsupported("mixed accumulation")
            frame["carried"][init.name] = (op, [*(prev[1] if prev else []), seg])
            return init
        if op == "+" and isinstance(init, (str, VStr)):
            return VStr([init, seg])
        if op == "+" and (isinstance(init, (sp.Expr, int)) and not isinstance(init, bool)):
            return sp.sympify(init) + V.fold("Add", seg)
        if op == "*" and (isinstance(init, (sp.Expr, int)) and not isinstance(init, bool)):
            return sp.sympify(init) * V.fold("Mul", seg)
        return Folded(op, init, seg)


class Folded(Sym):
    """init op item1 op item2 ... for other types (e.g. DefinedExpression)."""

    def __init__(self, op, init, seg):
        self.op, self.init, self.seg = op, init, seg


def _conj(facts):
    return z3.And(*facts) if facts else z3.BoolVal(True)


def merge_records(recs):
    """Join the ways through a loop body that do the same (their conditions are disjoined).

    Exceptions of one type count as the same; containers, folds and local facts that
    hold for other sequences keep records apart.
    """
    out = []
    for r in recs:
        simple = not (r["univ"] or r["wit"] or r["exits"] or any(its for _, its in r["frame"]["effects"].values()))
        if r["kind"] == "next":  # (variables have no known value after a loop that is left)
            simple = simple and not r["frame"]["carried"]
        if simple:
            for o in out:
                if (o["simple"] and o["kind"] == r["kind"] and o["tag"] == r["tag"] and same_plain(o["elem"], r["elem"])
                        and (r["kind"] != "next" or o["plain"] == r["plain"])
                        and (same_plain(o["val"], r["val"]) or r["kind"] == "raise" and type(o["val"]) is type(r["val"]))):
                    o["any"].append(_conj(r["facts"]))
                    o["invs"].append(r["inv"])
                    break
            else:
                out.append({**r, "simple": True, "any": [_conj(r["facts"])], "invs": [r["inv"]]})
        else:
            out.append({**r, "simple": False})
    for o in out:
        if o["simple"] and len(o["any"]) > 1:
            o["facts"] = [z3.simplify(z3.Or(*o["any"]))]
            o["inv"] = list({f.get_id(): f for fs in o["invs"] for f in fs}.values())
    return out


def same_plain(a, b):
    """Structurally the same value (never decided by the solver)."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Obj):
        return a.name == b.name and a.cls is b.cls
    if isinstance(a, (str, int, float, complex, sp.Basic)):
        return bool(a == b)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_plain(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, GBool):
        return a.term.eq(b.term) if z3.is_expr(a.term) and z3.is_expr(b.term) else False
    if hasattr(type(a), "__attrs_attrs__"):
        return all(same_plain(getattr(a, f.name), getattr(b, f.name)) for f in type(a).__attrs_attrs__)
    return False


def retag_record(rec, old, new):
    out = dict(rec)
    out["facts"] = [retag(f, old, new) for f in rec["facts"]]
    out["inv"] = [retag(f, old, new) for f in rec["inv"]]
    out["elem"], out["val"], out["tag"] = retag_value(rec["elem"], old, new), retag_value(rec["val"], old, new), new
    return out


# --------------------------------------------------------------------------- z3 terms
_LITERALS: dict[str, z3.ExprRef] = {}
_DISTINCT: dict = {}
_SIMPLE: dict = {}
_NOT: dict = {}
_RANGE: dict = {}


def _is_range(f):
    """The range of a choice: it holds whatever was decided before."""
    hit = _RANGE.get(f.get_id())
    if hit is None:
        ok = z3.is_or(f) and all(z3.is_eq(a) and z3.is_const(a.arg(0)) and a.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED
                                 and a.arg(0).decl().name().startswith("choice") and z3.is_int_value(a.arg(1)) for a in f.children())
        if ok:
            c = f.arg(0).arg(0)
            n = len(f.children())
            ok = (c.decl().name().startswith(f"choice{n}:") and all(a.arg(0).eq(c) for a in f.children())
                  and {a.arg(1).as_long() for a in f.children()} == set(range(n)))
        hit = _RANGE[f.get_id()] = (f, ok)
    return hit[1]


def _simplify(cond):
    hit = _SIMPLE.get(cond.get_id())
    if hit is None:
        hit = _SIMPLE[cond.get_id()] = (cond, z3.simplify(cond))
    return hit[1]


def _negate(cond):
    hit = _NOT.get(cond.get_id())
    if hit is None:
        hit = _NOT[cond.get_id()] = (cond, z3.Not(cond))
    return hit[1]




def str_term(s: str):
    """z3 term of a string that is a literal or one ghost."""
    toks = V.tokens(s)
    if not toks:
        if s not in _LITERALS:
            _LITERALS[s] = z3.Const("lit:" + s, V.StrSort)
        return _LITERALS[s]
    if len(s) == 1:
        return STRINGS[s][1]
    return None


_TERMS: dict = {}


def num_term(x):
    if isinstance(x, sp.Basic):
        key = (type(x), x)
        t = _TERMS.get(key)
        if t is None:
            t = _TERMS[key] = _num_term(x)
        return t
    return _num_term(x)


def _num_term(x):
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        r = sp.Rational(x)
        return z3.RealVal(f"{r.p}/{r.q}")
    try:
        return smt.to_z3(x, _leaf)
    except smt.NotArithmetic as e:
        raise Unsupported(f"not arithmetic: {e}") from None


def _leaf(e):
    if isinstance(e, sp.Symbol) and e.name in NUMBERS:
        t = NUMBERS[e.name][0]
        return z3.ToReal(t) if t.sort() == z3.IntSort() else t
    if isinstance(e, sp.Symbol):
        raise Unsupported(f"code symbol {e} in a condition")
    if isinstance(e, sp.Pow) and e.base == -1 and not e.exp.is_Integer:
        ic = int_combo(e.exp)
        if ic is not None and ic[0] == 1:
            return z3.If(ic[1] % 2 == 0, z3.RealVal(1), z3.RealVal(-1))
    if isinstance(e, sp.Mod) and e.args[1].is_Integer:
        ic = int_combo(e.args[0])
        if ic is not None:
            return z3.ToReal(ic[1] % (int(e.args[1]) * ic[0])) / ic[0]
    if isinstance(e, sp.floor):
        return z3.ToReal(z3.ToInt(num_term(e.args[0])))
    return None


def int_combo(x):
    """(D, t) with x = t/D for an integer term t, if x is a linear combination of (half-)integers."""
    if isinstance(x, (int, float)):
        x = sp.Rational(x)
    if not isinstance(x, sp.Expr):
        return None
    x = sp.expand(x)
    den, parts = 1, []
    for term in sp.Add.make_args(x):
        c, rest = term.as_coeff_Mul()
        if c.is_Float:
            c = sp.Rational(float(c))
        if not c.is_Rational:
            return None
        if rest == 1:
            parts.append((c, None))
            continue
        if not (isinstance(rest, sp.Symbol) and rest.name in NUMBERS):
            return None
        t, kind, _ = NUMBERS[rest.name]
        if kind == "int" and t.sort() == z3.IntSort():
            parts.append((c, t))
        elif kind == "half":
            parts.append((c / 2, t.children()[0].children()[0] if z3.is_app(t) and t.num_args() == 2 else None))
            if parts[-1][1] is None:
                return None
        else:
            return None
    for c, _ in parts:
        den = den * c.q // __import__("math").gcd(den, c.q)
    tot = z3.IntVal(0)
    for c, t in parts:
        k = int(c * den)
        tot = tot + (k if t is None else k * t)
    return den, tot


def z_is_int(x):
    if not isinstance(x, z3.ExprRef):
        ic = int_combo(x)
        if ic is not None:
            d, t = ic
            return z3.BoolVal(True) if d == 1 else t % d == 0
    return z3.IsInt(num_term(x))


_CONSTS: dict[int, tuple] = {}
_RETAG: dict[tuple, tuple] = {}


def consts(term):
    """Uninterpreted constants of a term (each once)."""
    hit = _CONSTS.get(term.get_id())
    if hit is not None:
        return hit[1]
    if z3.is_const(term):
        out = (term,) if term.decl().kind() == z3.Z3_OP_UNINTERPRETED else ()
    else:
        found = {}
        for c in term.children():
            for k in consts(c):
                found[k.get_id()] = k
        out = tuple(found.values())
    _CONSTS[term.get_id()] = (term, out)  # keeps the term (and its id) alive
    return out


_NAMES: dict[int, tuple] = {}


def const_name(c):
    hit = _NAMES.get(c.get_id())
    if hit is None:
        hit = _NAMES[c.get_id()] = (c, c.decl().name())
    return hit[1]


def retag(term, old, new):
    if old == new:
        return term
    key = (term.get_id(), old, new)
    hit = _RETAG.get(key)
    if hit is not None:
        return hit[1]
    subs = []
    for c in consts(term):
        n = const_name(c)
        if old in n:
            subs.append((c, z3.Const(n.replace(old, new), c.sort())))
    out = z3.substitute(term, *subs) if subs else term
    _RETAG[key] = (term, out)
    return out


def retag_str(s, old, new):
    if not V.tokens(s):
        return s
    out = []
    for c in s:
        if c in STRINGS and old in STRINGS[c][0]:
            new_c = V.string(STRINGS[c][0].replace(old, new))
            if c in V.DERIVED:
                func, value = V.DERIVED[c]
                V.DERIVED.setdefault(new_c, (func, retag_value(value, old, new)))
            c = new_c
        out.append(c)
    return "".join(out)


def retag_value(x, old, new, memo=None):
    """The same value for another generic element (tag ``new`` instead of ``old``)."""
    memo = {} if memo is None else memo
    r = lambda v: retag_value(v, old, new, memo)  # noqa: E731
    if isinstance(x, str):
        return retag_str(x, old, new)
    if isinstance(x, GFold):
        return V.fold(x.kind, r(x.seg))
    if isinstance(x, sp.Basic):
        subs = {}
        for a in x.atoms(sp.Symbol, sp.core.symbol.Str, GFold):
            if isinstance(a, GFold):
                subs[a] = r(a)
            elif V.is_ghost_symbol(a):
                if old in a.name:
                    root = V.root_of(a)
                    _, kind, pyt = NUMBERS[root.name]
                    b = number(root.name[1:].replace(old, new), kind, pyt, **root._assumptions_orig)
                    subs[a] = V.typed(b, NUMBERS[a.name][2])
            elif isinstance(a, sp.Symbol):
                n = retag_str(a.name, old, new)
                if n != a.name:
                    subs[a] = type(a)(n, **a._assumptions_orig)
            else:
                n = retag_str(a.name, old, new)
                if n != a.name:
                    subs[a] = sp.core.symbol.Str(n)
        return x.xreplace(subs) if subs else x
    if isinstance(x, z3.ExprRef):
        return retag(x, old, new)
    if x is None or isinstance(x, (bool, int, float, complex, type, types.FunctionType, types.ModuleType)):
        return x
    if id(x) in memo:
        return memo[id(x)][1]
    if isinstance(x, GBool):
        y = GBool(retag(x.term, old, new))
    elif isinstance(x, V.Struct):
        y = V.Struct(x.cls, {})
        memo[id(x)] = (x, y)
        y.attrs = {k: r(v) for k, v in x.attrs.items()}
    elif isinstance(x, Obj):
        if old not in x.name:
            return x
        y = Obj(x.name.replace(old, new), x.cls, {}, x.call)
        memo[id(x)] = (x, y)
        y.attrs = {k: r(v) for k, v in x.attrs.items()}
        lazy = getattr(x, "lazy", None)
        y.lazy = lazy.retagged(r) if hasattr(lazy, "retagged") else lazy
    elif isinstance(x, tuple):
        y = tuple(r(v) for v in x)
    elif isinstance(x, Seg):
        y = Seg(r(x.base), None if x.cases is None else [r(c) for c in x.cases], x.elem)
    elif isinstance(x, Case):
        y = Case([retag(f, old, new) for f in x.facts], [r(i) for i in x.items], r(x.elem),
                 [(r(b), t.replace(old, new), retag(f, old, new)) for b, t, f in x.univ], x.tag.replace(old, new),
                 [retag(f, old, new) for f in x.inv], [e.retagged(old, new) for e in x.exits])
    elif isinstance(x, V.Base):
        if old not in x.name:
            return x
        # (one object per base and renaming: universal facts are about the same object)
        memo = x.__dict__.setdefault("_retagged", {})
        y = memo.get((old, new))
        if y is None:
            y = memo[old, new] = x.retagged(old, new)
    elif type(x).__name__ == "Extreme":
        y = type(x)(x.kind, [r(i) for i in x.items])
    elif isinstance(x, (VList, VSet, VSeq)):
        import copy

        y = copy.copy(x)
        y.items = [r(i) for i in x.items]
    elif isinstance(x, VDict):
        import copy

        y = copy.copy(x)
        y.items = [r(i) for i in x.items]
        if x.base is not None:
            raise Unsupported("retag of a map")
    elif isinstance(x, VStr):
        y = VStr([r(p) for p in x.parts])
    elif isinstance(x, VRange):
        y = VRange(r(x.lo), r(x.hi))
    elif hasattr(type(x), "__attrs_attrs__"):
        fields = {a.name: r(getattr(x, a.name)) for a in type(x).__attrs_attrs__}
        if all(v is getattr(x, n) for n, v in fields.items()):
            y = x
        else:
            y = object.__new__(type(x))
            for n, v in fields.items():
                object.__setattr__(y, n, v)
    elif isinstance(x, (frozenset, set)) and not has_ghost(x):
        return x
    elif isinstance(x, dict):
        new_items = {r(k): r(v) for k, v in x.items()}
        y = x if all(k in x and x[k] is v for k, v in new_items.items()) else type(x)(new_items)
    elif isinstance(x, Closure):
        raise Unsupported("retag of a closure")
    else:
        if has_ghost(x):
            raise Unsupported(f"retag of {type(x).__name__}")
        return x
    memo[id(x)] = (x, y)
    return y
