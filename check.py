#!/usr/bin/env python3
"""Decides one property:  python3 check.py <id> [--replay FILE]

1. deductive part: python3-vt -m pyvc.run <id>: all proof obligations of the contracts of the
   property, generated from the current text of /repo;
2. contract evaluation on the real code under CPython (bounded, seeded): clauses of the property
   that are out of reach of the verifier, and the search for a failing input.

Exit 0: every obligation discharged and no failing input.  Exit 1: VIOLATION.
"""

import glob
import hashlib
import json
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from props import PROPS

PY = "/opt/venv/bin/python"
VT = "python3-vt"
BASE_TRUST = [
    "the VC generator pyvc (symbolic execution of the real function bodies) and its loop and numpy/math stand-ins",
    "z3 4.x and cvc5 as solvers; the rational-function normaliser pyvc/ring.py",
    "floats are treated as mathematical real numbers in the deductive part",
]


def run(cmd, timeout, env, log):
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=HERE, env=env, start_new_session=True)
    return p


def wait(p, deadline):
    try:
        return p.wait(max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        return None


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except Exception as e:
        return None


def known_findings(pid):
    out = []
    for k in load(os.path.join(HERE, "known-findings.json")) or []:
        if k.get("property") == pid and k.get("status") == "known":
            out.append(k)
    return out


def matches(k, fail):
    return all(str(v) in json.dumps(fail.get(f), default=str) for f, v in k.get("match", {}).items()) and k.get("match")


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    P = PROPS[pid]
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO, PYTHONHASHSEED="0")
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[v] = "1"
    work = os.path.join(HERE, "work")
    evid = os.path.join(HERE, "evidence")
    os.makedirs(work, exist_ok=True)
    os.makedirs(evid, exist_ok=True)
    ded_out, rt_out = (os.path.join(work, f"{pid}.{k}.json") for k in ("ded", "rt"))
    for f in (ded_out, rt_out):
        if os.path.exists(f):
            os.unlink(f)
    has_ded = os.path.exists(os.path.join(HERE, "contracts", pid + ".py"))
    has_rt = os.path.exists(os.path.join(HERE, "rt", pid.lower() + ".py"))
    deadline = t0 + (780 if tier == "quick" else 3000)
    ded_cmd = [VT, "-m", "pyvc.run", pid, ded_out]
    rt_cmd = [PY, "-W", "ignore", os.path.join(HERE, "rt", "base.py"), pid, rt_out]
    pd = run(ded_cmd, 0, env, os.path.join(work, f"{pid}.ded.log")) if has_ded else None
    pr = run(rt_cmd, 0, env, os.path.join(work, f"{pid}.rt.log")) if has_rt else None
    problems = []  # of the deductive part
    if pr:
        wait(pr, deadline)
    if pd:
        # a failing input decides the property: the proof then gets only a little more time
        found = [f for f in (load(rt_out) or {}).get("fails", []) if not any(matches(k, f) for k in known_findings(pid))] if has_rt else []
        wait(pd, min(deadline, max(time.time() + 30, t0 + 180)) if found else deadline)
    ded = load(ded_out) if has_ded else None
    rt = load(rt_out) if has_rt else None

    # ---------------------------------------------------------------- deductive part
    total = discharged = 0
    backends, functions, assumed, sources = {}, {}, set(), {}
    solver_s = 0.0
    harn = []
    undischarged = []
    if has_ded:
        if ded is None or "error" in ded:
            undischarged.append(dict(label="generation of the obligations", status="unsupported", detail=(ded or {}).get("error", "no answer within the time limit")[-1500:]))
        else:
            for r in ded["results"]:
                solver_s += r["solver_s"]
                sources.update(r["sources"])
                assumed.update(r["assumed"])
                n = 0
                for o in r["obligations"]:
                    total += 1
                    if o["status"] == "discharged":
                        discharged += 1
                        n += 1
                        for b in str(o["backend"]).split("+"):
                            backends[b] = backends.get(b, 0) + 1
                    else:
                        undischarged.append(dict(o, harness=r["harness"]))
                for c in r["expect"]:
                    if not r["covers"].get(f"{r['harness']}: {c}"):
                        undischarged.append(dict(label=f"{r['harness']}: point '{c}' is reachable (vacuity guard)", status="vacuous", detail="no feasible path reaches it", harness=r["harness"]))
                if not r["obligations"]:
                    undischarged.append(dict(label=f"{r['harness']}: at least one obligation", status="vacuous", detail=""))
                for q in r["functions"]:
                    functions[q] = functions.get(q, 0) + n
                harn.append(dict(harness=r["harness"], obligations=len(r["obligations"]), discharged=n, paths=r["paths"], wall_s=r["wall_s"]))
            if not ded["results"]:
                undischarged.append(dict(label="at least one contract", status="vacuous", detail=""))

    # ---------------------------------------------------------------- contract evaluation
    known = known_findings(pid)
    seen_known, fails = {}, []
    rt_error = None
    if has_rt:
        if rt is None:
            rt_error = "the contract evaluation gave no answer: " + tail(os.path.join(work, f"{pid}.rt.log"))
        else:
            for f in rt["fails"]:
                k = next((k for k in known if matches(k, f)), None)
                if k:
                    seen_known[k["what"]] = k
                else:
                    fails.append(f)
            if not rt["evaluations"] and not rt["fails"]:
                rt_error = "the contract evaluation evaluated nothing"

    # ---------------------------------------------------------------- evidence
    level = P["level"]
    cov = dict(
        obligations=total,
        discharged=discharged,
        checker_cmd=" ".join(ded_cmd) if has_ded else "",
        trusted_base=BASE_TRUST + P.get("trust", []),
        backends=backends,
        solver_s=round(solver_s, 2),
        functions_under_contract=functions,
        assumed_contracts=sorted(assumed),
        harnesses=harn,
        source_sha256=sources,
    )
    if has_rt and rt:
        cov["bounded_evaluation"] = dict(
            note="contract clauses evaluated on the real code under CPython; bounded, not counted as proved",
            cases=rt["cases"], evaluations=rt["evaluations"], distinct=rt["distinct"], skipped=rt["skipped"], clauses=rt["clauses"], wall_s=rt["wall_s"],
        )
        cov["evaluations"] = rt["evaluations"]
        cov["distinct_nontrivial"] = rt["distinct"]
        cov["rule"] = P.get("rule", "seeded generation of inputs (see rt/%s.py); a case is distinct by its inputs, cases outside of the precondition are skipped and not counted" % pid.lower())
        cov["samples"] = rt["samples"]
    if level == "other":
        cov["explanation"] = P["note"]
    nviol = len(fails) + (0 if fails else len(undischarged)) + (1 if rt_error and not fails else 0)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(evid, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    # ---------------------------------------------------------------- answer
    for w in seen_known:
        print(f"KNOWN-FINDING: property={pid} {w}")
    print(f"{pid}: {discharged}/{total} obligations discharged, {len(functions)} functions under contract, " + (f"{rt['evaluations']} contract clauses evaluated on {rt['cases']} cases" if rt else "no contract evaluation") + f", {time.time() - t0:.1f} s")
    for o in undischarged[:8]:
        print("  obligation not discharged:", o.get("status"), o.get("label"), "|", o.get("where", ""), "|", str(o.get("detail"))[:300])
    if fails or undischarged or rt_error:
        rp = os.path.join(work, f"{pid}.replay.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, failing_inputs=fails, failed_obligations=undischarged, contract_evaluation_error=rt_error,
                           how=f"VERIF_SEED={seed} VERIF_TIER={tier} {' '.join(rt_cmd)}"), f, indent=1, default=str)
        for x in fails[:4]:
            print("  failing input:", x["clause"], "|", json.dumps(x["inputs"], default=str)[:500], "|", x["detail"][:300])
        if rt_error:
            print("  " + rt_error)
        print(f"VIOLATION property={pid} replay={rp}" + ("" if fails else " no-failing-input-found"))
        return 1
    return 0


def tail(p):
    try:
        return open(p).read()[-600:]
    except OSError:
        return ""


if __name__ == "__main__":
    sys.exit(main())
