"""Entry point of every check: prove obligations, run the bounded cases, report."""
from __future__ import annotations

import argparse
import importlib
import json
import os
import sys
import time
import traceback

import pyvc.env as env
from pyvc.result import PROVED, REFUTED, UNDECIDED, Context

HERE = env.VERIF
CHECKER = "/opt/venv/bin/python -m pyvc.runner (z3 {z3} via Python API; cvc5 {cvc5} as second back end)"


def load_findings(prop: str) -> dict:
    with open(os.path.join(HERE, "known_findings.json")) as f:
        data = json.load(f)
    return {e["id"]: e for e in data["findings"] if e["property"] == prop}


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        if isinstance(x, dict):
            return {str(k): jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple, set, frozenset)):
            return [jsonable(v) for v in x]
        return repr(x)


def main(argv=None) -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-bounded", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("-v", "--verbose", action="store_true")
    args = ap.parse_args(argv)
    prop = args.property
    tier = args.tier if args.tier in {"quick", "thorough"} else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    module = importlib.import_module(f"props.{prop.lower()}")
    if args.replay:
        with open(args.replay) as f:
            data = json.load(f)
        msg = module.run_case(data["case"])
        print("replay:", msg or "case passes")
        return 1 if msg else 0
    ctx = Context(prop, tier, seed, deadline=t0 + (420 if tier == "quick" else 600))
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    findings = load_findings(prop)

    # ---- 1. deductive part
    if not args.no_proof:
        try:
            ctx.parallel = os.environ.get("PYVC_JOBS", "8") != "1"
            module.prove(ctx)
            ctx.run_tasks(int(os.environ.get("PYVC_JOBS", "8")))
        except Exception as exc:  # noqa: BLE001
            ctx.add("prove()", "-", UNDECIDED, "", 0.0, traceback.format_exc(limit=-6))
            ctx.note(f"proof script stopped: {type(exc).__name__}: {exc}")
    obs = ctx.obligations
    proved = [o for o in obs if o.status == PROVED]
    refuted = [o for o in obs if o.status == REFUTED]
    undecided = [o for o in obs if o.status == UNDECIDED]

    # ---- 2. concrete cases: CPython cross-check / replay pool / bounded stand-in
    n_cases, nontrivial, samples, failures, known = 0, set(), [], [], {}
    if not args.no_bounded:
        t_end = time.monotonic() + getattr(module, "BOUNDED_S", {}).get(tier, 60 if tier == "quick" else 400)
        extra = []
        for o in refuted:
            to_case = getattr(module, "model_to_case", None)
            if to_case is not None:
                try:
                    c = to_case(o)
                    if c is not None:
                        extra.append(c)
                except Exception:  # noqa: BLE001
                    pass
        import itertools

        gen = itertools.chain(extra, module.cases(ctx))
        while True:
            try:
                case = next(gen)
            except StopIteration:
                break
            except Exception as exc:  # noqa: BLE001 - a failing generator is never a verdict
                ctx.note(f"case generator stopped: {type(exc).__name__}: {exc}")
                ctx.note(traceback.format_exc(limit=-4))
                break
            if time.monotonic() > t_end:
                ctx.note("bounded part stopped by its time budget")
                break
            try:
                msg = module.run_case(case)
            except Exception as exc:  # noqa: BLE001
                msg = f"unexpected {type(exc).__name__}: {exc}\n" + traceback.format_exc(limit=-5)
            n_cases += 1
            key = json.dumps(jsonable(case), sort_keys=True)
            nontrivial.add(key)
            if len(samples) < 3 or (n_cases in {10, 100, 1000}):
                samples.append(jsonable(case))
            if msg:
                fid = msg[len("FINDING:"):].split(":", 1)[0] if msg.startswith("FINDING:") else None
                if fid is not None and fid in findings:
                    known.setdefault(fid, []).append((case, msg))
                else:
                    failures.append((case, msg))
                    if len(failures) >= 5:
                        break

    # ---- 3. verdict
    out = []
    violations = 0
    if failures:
        case, msg = failures[0]
        path = os.path.join(HERE, "evidence", "replay", f"{prop}-case.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "case": jsonable(case), "message": msg,
                       "failed_obligations": [o.name for o in (*refuted, *undecided)][:20],
                       "verifier_output": next((o.detail for o in (*refuted, *undecided) if o.detail), ""),
                       "replay_cmd": f"./check {prop} --replay {path}"}, f, indent=1)
        print(msg[:1500], file=sys.stderr)
        for o in (*refuted, *undecided)[:3]:
            print(f"obligation not discharged ({o.status}): {o.name}", file=sys.stderr)
        out.append(f"VIOLATION property={prop} replay={path}")
        violations = len(failures)
    elif refuted:
        o = refuted[0]
        path = os.path.join(HERE, "evidence", "replay", f"{prop}-obligation.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "obligation": o.name, "function": o.function, "backend": o.backend,
                       "verifier_output": o.detail, "model": jsonable(o.model),
                       "all_failed": [x.name for x in refuted][:50]}, f, indent=1)
        print(o.name, o.detail[:1500], file=sys.stderr)
        out.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        violations = len(refuted)
    for fid, hits in known.items():
        print(f"KNOWN-FINDING: property={prop} {fid}: {findings[fid]['what']} ({len(hits)} inputs of this run)")

    import cvc5
    import z3

    def by(key):
        d = {}
        for o in obs:
            e = d.setdefault(key(o) or "-", {"obligations": 0, "discharged": 0})
            e["obligations"] += 1
            e["discharged"] += o.status == PROVED
        return d

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "proof") if proved else "exploration",
        "coverage": {
            "evaluations": n_cases,
            "distinct_nontrivial": len(nontrivial),
            "rule": getattr(module, "RULE", "") + "; non-trivial: a distinct generated case",
            "samples": samples,
            "obligations": len(obs),
            "discharged": len(proved),
            "checker_cmd": CHECKER.format(z3=z3.get_version_string(), cvc5=cvc5.__version__),
            "trusted_base": sorted(set(getattr(module, "TRUSTED", [])) | set(ctx.trusted)),
            "functions_under_contract": sorted(ctx.functions),
            "per_function": by(lambda o: o.function),
            "per_back_end": by(lambda o: o.backend if o.status == PROVED else "(not discharged)"),
            "solver_time_s": {k: round(v, 3) for k, v in ctx.solver_time.items()},
            "refuted": [{"name": o.name, "detail": o.detail[:400]} for o in refuted][:20],
            "undecided": [{"name": o.name, "detail": o.detail[:600]} for o in undecided][:40],
            "vacuity_checks": ctx.vacuity[:50],
            "vacuity_checks_passed": sum(1 for v in ctx.vacuity if v.get("reachable")),
            "bounded": {
                "label": "bounded - never counted as proved; cross-checks the proofs in CPython and stands in for undecided obligations",
                "counts": "see evaluations, distinct_nontrivial, rule, samples",
            },
            "notes": ctx.notes,
            "obligation_names": [f"{o.status}: {o.name}" for o in obs][:400],
        },
        "assumptions": ctx.assumptions + list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 3),
        "violations": violations,
    }
    epath = os.path.join(HERE, "evidence", f"{prop}.json")
    tmp = epath + f".{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    os.replace(tmp, epath)
    print(f"{prop} [{tier}]: {len(proved)}/{len(obs)} obligations discharged, {len(refuted)} refuted, "
          f"{len(undecided)} undecided; {n_cases} concrete cases; {evidence['wall_s']} s")
    if args.verbose:
        for o in obs:
            if o.status != PROVED:
                print("  ", o.status, o.name, "\n      ", o.detail.replace("\n", "\n       "))
        for n in ctx.notes:
            print("   note:", n)
    for line in out:
        print(line)
    vac_fail = [v for v in ctx.vacuity if not v.get("reachable")]
    if vac_fail:
        print("note: vacuity checks that failed:", vac_fail[:3])
    if not out and n_cases == 0 and len(proved) == 0:
        print("error: vacuous run")
        return 3
    return 1 if out else 0


if __name__ == "__main__":
    sys.exit(main())
