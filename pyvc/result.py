"""Obligations, bounded cases and verdicts."""
from __future__ import annotations

import os
import pickle
import select
import signal
import time
import traceback
from dataclasses import dataclass, field
from typing import Any

PROVED = "proved"
REFUTED = "refuted"
UNDECIDED = "undecided"


@dataclass
class Obligation:
    name: str  # function and clause, e.g. "decay.get_subsystem/ensures:chains[path 2]"
    function: str
    status: str
    backend: str = ""
    time_s: float = 0.0
    detail: str = ""
    model: Any = None


@dataclass
class CaseFailure:
    case: Any
    message: str
    finding: str | None = None  # id of a known finding, if it is exactly that


@dataclass
class Context:
    """Collects what a check did."""

    prop: str
    tier: str
    seed: int
    deadline: float = 0.0
    obligations: list[Obligation] = field(default_factory=list)
    functions: set = field(default_factory=set)
    assumptions: list[str] = field(default_factory=list)
    trusted: list[str] = field(default_factory=list)
    notes: list[str] = field(default_factory=list)
    solver_time: dict = field(default_factory=dict)
    vacuity: list = field(default_factory=list)
    parallel: bool = False
    tasks: list = field(default_factory=list)

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def time_left(self) -> float:
        return self.deadline - time.monotonic()

    def add(self, name, function, status, backend="", time_s=0.0, detail="", model=None):
        ob = Obligation(name, function, status, backend, time_s, str(detail)[:2000], model)
        self.obligations.append(ob)
        self.functions.add(function)
        if backend:
            self.solver_time[backend] = self.solver_time.get(backend, 0.0) + time_s
        return ob

    def assume(self, text: str):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def trust(self, text: str):
        if text not in self.trusted:
            self.trusted.append(text)

    def note(self, text: str):
        if text not in self.notes:
            self.notes.append(text)

    def guarded(self, name: str, function: str, fn):
        """Run a proof script, now or with the others in :meth:`run_tasks`."""
        if self.parallel:
            self.tasks.append((name, function, fn))
            return None
        return self.run_script(name, function, fn)

    def run_tasks(self, workers: int = 8, memory: int = 10 << 30):
        """Run the proof scripts, each in a process of its own; their results in the order of the scripts."""
        import resource

        tasks, self.tasks, self.parallel = self.tasks, [], False
        results: dict = {}
        running: dict = {}
        waiting = list(range(len(tasks)))
        while waiting or running:
            while waiting and len(running) < workers:
                n = waiting.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
                        self.obligations, self.functions, self.assumptions, self.trusted = [], set(), [], []
                        self.notes, self.solver_time, self.vacuity = [], {}, []
                        self.run_script(*tasks[n])
                        data = pickle.dumps(self.portable())
                        with os.fdopen(w, "wb") as f:
                            f.write(data)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                running[r] = (n, pid, [])
            ready, _, _ = select.select(list(running), [], [], max(0.0, min(1.0, self.time_left())))
            for r in ready:
                n, pid, chunks = running[r]
                data = os.read(r, 1 << 20)
                if data:
                    chunks.append(data)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                try:
                    results[n] = pickle.loads(b"".join(chunks))
                except Exception:  # noqa: BLE001
                    results[n] = "the proof process ended without a result (memory limit?)"
            if self.time_left() <= 0:
                for r, (n, pid, _) in running.items():
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    results[n] = "time limit of the run"
                running = {}
                for n in waiting:
                    results[n] = "time limit of the run"
                waiting = []
        for n, (name, function, _fn) in enumerate(tasks):
            res = results[n]
            if isinstance(res, str):
                self.add(name, function, UNDECIDED, "", 0.0, res)
            else:
                self.merge(res)

    def portable(self) -> dict:
        for o in self.obligations:
            if o.model is not None:
                o.model = {str(k): str(v) for k, v in o.model.items()} if isinstance(o.model, dict) else str(o.model)
        names = ("obligations", "functions", "assumptions", "trusted", "notes", "solver_time", "vacuity")
        return {n: getattr(self, n) for n in names}

    def merge(self, res: dict):
        self.obligations += res["obligations"]
        self.functions |= res["functions"]
        for n, f in (("assumptions", self.assume), ("trusted", self.trust), ("notes", self.note)):
            for x in res[n]:
                f(x)
        for k, v in res["solver_time"].items():
            self.solver_time[k] = self.solver_time.get(k, 0.0) + v
        self.vacuity += res["vacuity"]

    def run_script(self, name: str, function: str, fn):
        """Anything unexpected makes an obligation undecided."""
        t = time.monotonic()
        try:
            return fn()
        except Exception as exc:  # noqa: BLE001
            tb = traceback.format_exc(limit=-4)
            self.add(name, function, UNDECIDED, "", time.monotonic() - t,
                     f"outside the verifier's subset: {type(exc).__name__}: {exc}\n{tb}")
            return None
