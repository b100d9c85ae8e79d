"""
One check: verifies every contract of a property against the current source, replays on the real functions, decides the
verdict and writes the evidence.

Verdict of a contract
  proved      every obligation generated from the current source is discharged, all declared cases are reachable
  violated    a concrete run of the contract on the real functions breaks a clause (with or without a failed obligation),
              or the solver refutes an obligation (and no concrete run reproduces it: no-failing-input-found)
  bounded     the verifier cannot decide (construct out of reach, solver gives up): concrete runs stand in, nothing proved
"""
from __future__ import annotations

import logging
logging.disable(logging.CRITICAL)
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.jsonl")
REPLAYS = os.path.join(VERIF, "replays")

TIERS = {
    # contract time factor, concrete runs factor, seconds of concrete runs, extra search seconds after a failed obligation
    "quick": (1.0, 1.0, 20.0, 60.0),
    "thorough": (4.0, 20.0, 240.0, 300.0),
}


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.strip():
                    out.append(json.loads(line))
    return out


def work(job):
    "Runs in a process of its own."
    kind, cid, seed, tier = job
    from . import runner

    tf, rf, rs, extra = TIERS[tier]
    t0 = time.monotonic()
    out = {"contract": cid, "kind": kind}
    try:
        if kind == "contract":
            c = runner.find(cid)
            out["functions"] = list(c.functions)
            out["assumes"] = list(c.assumes)
            out["bounded_reason"] = c.bounded
            failed = False
            if c.bounded is None:
                p = runner.prove(cid, tf)
                missing = [k for k in c.covers if k not in p.covers]
                by = {}
                for name, status, detail in p.obligations:
                    d = by.setdefault(name, {"discharged": 0, "refuted": 0, "undecided": 0})
                    d[status if status in d else "undecided"] += 1
                out["proof"] = {
                    "proved": p.proved and not missing,
                    "obligations": len(p.obligations),
                    "discharged": len(p.discharged),
                    "clauses": by,
                    "failed": [(n, s, d[:6000]) for n, s, d in p.bad[:5]],
                    "refuted": [(n, d[:6000]) for n, s, d in p.refuted[:5]],
                    "unsupported": p.unsupported,
                    "error": p.error,
                    "trace": getattr(p, "trace", None) if (p.error or p.unsupported) else None,
                    "missing_cases": missing,
                    "paths": p.stats.get("paths"),
                    "solver_s": round(p.stats.get("solver_s", 0.0), 3),
                    "checks": p.stats.get("checks"),
                    "interpreted": p.interpreted,
                    "contract_uses": p.contract_uses,
                    "covers": p.covers,
                    "wall_s": round(p.wall, 2),
                }
                failed = not (p.proved and not missing)
            runs = int(c.samples * rf)
            secs = rs
            if failed or c.bounded is not None:
                runs, secs = max(runs * 10, 3000), extra
            h = runner.hunt(cid, runs, seed, secs)
            if failed and h.found is None and tier == "quick":
                h2 = runner.hunt(cid, runs * 3, seed + 1000, extra / 2)
                h.runs += h2.runs
                h.skipped += h2.skipped
                h.clauses += h2.clauses
                h.found = h2.found
            out["runs"] = {"runs": h.runs, "skipped": h.skipped, "clauses": h.clauses, "distinct": h.distinct,
                           "found": h.found, "covers": h.covers, "sample": h.sample}
        else:
            out["still"] = runner.finding(cid)
    except BaseException as ex:
        out["crash"] = f"{type(ex).__name__}: {ex}\n{traceback.format_exc()}"
    out["wall_s"] = round(time.monotonic() - t0, 2)
    return out


def write_replay(pid, res, payload):
    os.makedirs(REPLAYS, exist_ok=True)
    name = f"{res['contract'].replace('.', '-')}-{hashlib.sha1(json.dumps(payload, sort_keys=True, default=str).encode()).hexdigest()[:8]}.json"
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        json.dump(payload, f, indent=1, default=str)
    return path


def check(pid, tier, seed, jobs=None):
    from . import runner
    from .contract import CONTRACTS, FINDINGS

    t0 = time.monotonic()
    runner.load(pid)
    cs = CONTRACTS[pid]
    work_items = [("contract", c.id, seed, tier) for c in cs.values()]
    work_items.sort(key=lambda w: -runner.find(w[1]).weight)
    work_items += [("finding", f"{pid}.{k}", seed, tier) for k in FINDINGS.get(pid, {})]
    ctx = mp.get_context("fork")
    n = jobs or min(8, os.cpu_count() or 4)
    results = []
    # a process per contract: a lost process (memory) costs only its contract
    pending = list(work_items)
    live = {}
    results = []
    hard = 780 if tier == "quick" else 6 * 3600
    stop = None  # once a failing input is known, the rest gets a short grace
    while pending or live:
        if stop is not None and time.monotonic() > stop:
            results += [{"contract": w[1], "kind": w[0], "crash": "not run: a violation was found before"} for w in pending]
            pending = []
        while pending and len(live) < n:
            w = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=child, args=(b, w))
            p.start()
            b.close()
            live[w] = (p, a)
        done = mp.connection.wait([a for _, a in live.values()], timeout=5)
        for w, (p, a) in list(live.items()):
            if a in done:
                try:
                    results.append(a.recv())
                    if (results[-1].get("runs") or {}).get("found") and stop is None:
                        stop = time.monotonic() + 45
                except EOFError:
                    results.append({"contract": w[1], "kind": w[0], "crash": "the process ended without a result"})
                p.join()
                del live[w]
            elif time.monotonic() - t0 > hard or (stop is not None and time.monotonic() > stop):
                p.kill()
                results.append({"contract": w[1], "kind": w[0], "crash": "out of time"})
                del live[w]
    return verdict(pid, tier, seed, results, t0)


def child(pipe, w):
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    pipe.send(work(w))
    pipe.close()


def verdict(pid, tier, seed, results, t0):
    from .contract import CONTRACTS

    known = {k["id"]: k for k in known_findings() if k["property"] == pid and k.get("status", "open") == "open"}
    violations = []
    lines = []
    tot = dis = runs = clauses = distinct = 0
    solver = 0.0
    contracts_out = []
    proved_fns, bounded_fns = set(), set()
    trusted, interpreted, uses = set(), {}, {}
    samples = []
    crashed = []
    for r in sorted(results, key=lambda r: r["contract"]):
        if r["kind"] == "finding":
            still = r.get("still")
            fid = r["contract"]
            if "crash" in r:
                crashed.append(r)
                continue
            if still:
                if fid in known:
                    lines.append(f"KNOWN-FINDING: property={pid} {known[fid]['what']}")
                else:
                    path = write_replay(pid, r, {"property": pid, "finding": fid, "detail": still})
                    violations.append((path, ""))
            continue
        entry = {k: r.get(k) for k in ("contract", "functions", "bounded_reason", "wall_s")}
        if "crash" in r:
            crashed.append(r)
            entry["status"] = "no result: " + r["crash"][:300]
            contracts_out.append(entry)
            continue
        trusted.update(r["assumes"])
        pr = r.get("proof")
        h = r["runs"]
        runs += h["runs"]
        clauses += h["clauses"]
        distinct += h["distinct"]
        if h["sample"] and len(samples) < 6:
            samples.append(h["sample"])
        entry["runs"] = {k: h[k] for k in ("runs", "skipped", "clauses", "distinct", "covers")}
        if pr:
            tot += pr["obligations"]
            dis += pr["discharged"]
            solver += pr["solver_s"]
            entry["proof"] = {k: pr[k] for k in ("proved", "obligations", "discharged", "clauses", "paths", "solver_s",
                                                 "checks", "unsupported", "error", "missing_cases", "covers", "wall_s")}
            for k, v in pr["interpreted"].items():
                interpreted[k] = interpreted.get(k, 0) + v
            for k, v in pr["contract_uses"].items():
                uses[k] = uses.get(k, 0) + v
        ok = bool(pr and pr["proved"])
        if h["found"]:
            entry["status"] = "violated"
            payload = {"property": pid, "contract": r["contract"], "seed": h["found"]["seed"], "clause": h["found"]["clause"],
                       "detail": h["found"]["detail"], "inputs": h["found"]["inputs"],
                       "failed_obligations": pr["failed"] if pr else [],
                       "how": f"{VERIF}/replay <this file> runs the contract on the real functions with this input"}
            violations.append((write_replay(pid, r, payload), ""))
        elif pr and pr["refuted"] and not pr["unsupported"] and not pr["error"]:
            entry["status"] = "violated (obligation refuted by the solver, no failing input found)"
            payload = {"property": pid, "contract": r["contract"], "failed_obligations": pr["failed"], "seed": None,
                       "note": "the verifier refutes these obligations; no concrete run reproduced the failure"}
            violations.append((write_replay(pid, r, payload), " no-failing-input-found"))
        elif ok:
            entry["status"] = "proved"
            proved_fns.update(r["functions"])
        else:
            entry["status"] = "bounded"
            bounded_fns.update(r["functions"])
            if pr:
                entry["why_not_proved"] = (pr["unsupported"] or pr["error"] or
                                           (f"cases not reached: {pr['missing_cases']}" if pr["missing_cases"] else None)
                                           or f"{len(pr['failed'])} obligations undecided")
        contracts_out.append(entry)
    if not any(e.get("status") for e in contracts_out):
        crashed.append({"contract": pid, "crash": "no contracts"})
    allproved = all(e.get("status") == "proved" for e in contracts_out)
    checker = f"{VERIF}/check {pid} {tier}"
    level = "proof" if MANIFEST_LEVEL(pid) == "proof" else "other"
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "obligations": tot,
            "discharged": dis,
            "checker_cmd": checker,
            "explanation": "Contracts on the real functions; obligations generated from /repo's current source by /verif/pyvc "
                           "(symbolic execution, loops summarised inductively) and discharged by z3; every contract is also "
                           "run on the real functions with generated inputs. Contracts with status 'bounded' are not proved: "
                           "the concrete runs stand in for them.",
            "back_end": "z3 (python bindings in /opt/veriftools/pyvenv)",
            "trusted_base": sorted(trusted | set(TRUSTED)),
            "contracts": contracts_out,
            "contracts_proved": sum(e.get("status") == "proved" for e in contracts_out),
            "contracts_bounded": sum(e.get("status") == "bounded" for e in contracts_out),
            "all_contracts_proved": allproved,
            "functions_under_contract": sorted(proved_fns),
            "functions_bounded_only": sorted(bounded_fns - proved_fns),
            "functions_interpreted_in_proofs": dict(sorted(interpreted.items())),
            "callees_used_by_contract": dict(sorted(uses.items())),
            "solver_s": round(solver, 2),
            "evaluations": runs,
            "distinct_nontrivial": distinct,
            "rule": "an evaluation is one concrete run of a contract on the real functions with generated inputs; distinct: "
                    "distinct inputs whose run evaluated at least one clause",
            "samples": samples,
            "clauses_evaluated": clauses,
        },
        "assumptions": sorted(trusted | set(TRUSTED)),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for line in lines:
        print(line)
    for e in contracts_out:
        p = e.get("proof") or {}
        print(f"  {e['contract']}: {e.get('status')} [{p.get('discharged', 0)}/{p.get('obligations', 0)} obligations, "
              f"{(e.get('runs') or {}).get('runs', 0)} runs, {e.get('wall_s')} s]"
              + (f" -- {e['why_not_proved'][:300]}" if e.get("why_not_proved") else ""))
    for path, suffix in violations:
        print(f"VIOLATION property={pid} replay={path}{suffix}")
    if violations:
        return 1
    for r in crashed:
        print(f"NO RESULT: {r['contract']}: {r['crash']}", file=sys.stderr)
    if len(crashed) >= len(results):
        return 2
    print(f"{pid}: held on everything explored ({dis}/{tot} obligations, {runs} concrete runs, {ev['wall_s']} s)")
    return 0


def MANIFEST_LEVEL(pid):
    try:
        with open(os.path.join(VERIF, "MANIFEST.json")) as f:
            for c in json.load(f)["checks"]:
                if c["property"] == pid:
                    return c["level"]
    except Exception:
        pass
    return "proof"


TRUSTED = [
    "pyvc (this verifier: symbolic execution of the Python subset, inductive loop summaries) is correct; cross-checked on every run by evaluating every contract natively under CPython",
    "z3 is correct",
    "the semantics given to Python built-ins and standard-library calls in pyvc/builtins_.py match CPython 3.12",
    "the reader of SQL in spec/sql.py reads text as the databases do",
    "type annotations, docstrings and decorators without run-time effect are dropped by the extraction; everything else of the interpreted functions is executed as written",
]


def replay(path):
    from . import runner

    with open(path) as f:
        d = json.load(f)
    if d.get("finding"):
        still = runner.finding(d["finding"])
        print(still or "no longer fails")
        return 1 if still else 0
    if not d.get("seed"):
        print(json.dumps(d, indent=1))
        return 1
    c = runner.find(d["contract"])
    try:
        runner.run_once(c, d["seed"])
    except Exception as ex:
        print(f"{type(ex).__name__}: {ex}\n{getattr(ex, 'detail', '')}")
        for k, v in d["inputs"]:
            print(f"  {k} = {v}")
        return 1
    print("the contract holds on this input")
    return 0


def main(argv):
    sys.setrecursionlimit(20000)
    if argv[0] == "replay":
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return check(pid, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
