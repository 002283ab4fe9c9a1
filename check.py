#!/usr/bin/env python3
"""check.py PROPERTY  -  decides one property for the current tree.

1. Deductive part: every contract the property depends on is verified against
   the current source of /repo (pyvc: symbolic execution of the real syntax
   trees, obligations discharged by z3).
2. Bounded part: the executable form of the same contract is evaluated on
   generated inputs by the real code (functions outside the verifier's reach,
   and the search for a failing input when an obligation fails).

Exit 0: held.  Exit 1: a line VIOLATION property=<id> replay=<path>.
"""
import json
import os
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "pyvc"))
from plan import PLAN  # noqa

REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
EVID = os.path.join(HERE, "evidence")
WORK = None
RT_PY = next((p for p in ("/opt/venv/bin/python",) if os.path.exists(p)), sys.executable)
VC_PY = next((p for p in ("/opt/veriftools/pyvenv/bin/python3", "/usr/local/bin/python3-vt",
                          "/opt/veriftools/pyvenv/bin/python") if os.path.exists(p)), "python3-vt")
PROOF_TIMEOUT = 600 if THOROUGH else 300
SEARCH_S = 240 if THOROUGH else 11
EXTENDED_S = 400 if THOROUGH else 75
WORKERS = 6


def env(hashseed="0"):
    e = dict(os.environ)
    e["VERIF_REPO"] = REPO
    e["PYTHONHASHSEED"] = hashseed
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def run(cmd, timeout, hashseed="0"):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=env(hashseed), cwd=HERE, start_new_session=True)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return None, "time limit"
    except Exception as e:  # noqa
        return None, f"{type(e).__name__}: {e}"


# ------------------------------------------------------------------ deductive


def prove(name):
    out = os.path.join(WORK, "proof-" + name.replace("/", "_") + ".json")
    cmd = [VC_PY, os.path.join(HERE, "pyvc", "prove.py"), "--json", out, name]
    if THOROUGH:
        cmd.insert(2, "--thorough")
    rc, txt = run(cmd, PROOF_TIMEOUT)
    try:
        return json.load(open(out))
    except Exception:  # noqa
        return {"function": name, "error": f"engine: no report ({rc}) {txt[-400:]}", "obligations": [], "vacuous": [],
                "vacuity_checks": 0, "inlined": [], "contracts_used": [], "queries": 0, "solver_s": 0.0,
                "wall_s": 0.0, "assumptions": []}


# ------------------------------------------------------------------ bounded


def search(prop, seed, seconds, tag):
    out = os.path.join(WORK, f"search-{tag}-{seed}.json")
    rc, txt = run([RT_PY, os.path.join(HERE, "rt", "driver.py"), "search", prop, str(seed), str(seconds), out],
                  seconds + 150, str(seed % 1000))
    try:
        r = json.load(open(out))
        r["seed"] = seed
        return r
    except Exception:  # noqa
        return {"evaluations": 0, "distinct": 0, "skips": 0, "hangs": 0, "samples": [], "skip_reasons": {},
                "violation": None, "error": txt[-400:], "seed": seed}


def confirm(prop, v, seed):
    """the failing case, executed again in a fresh process"""
    path = os.path.join(EVID, f"replay-{prop}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "case": v["case"], "message": v["message"],
                   "replay": f"VERIF_REPO={REPO} PYTHONHASHSEED={seed % 1000} {RT_PY} /verif/rt/driver.py replay {prop} {path}"},
                  f, indent=1)
    for _ in range(3):
        rc, txt = run([RT_PY, os.path.join(HERE, "rt", "driver.py"), "replay", prop, path], 150, str(seed % 1000))
        if rc == 1:
            return path
    return None


def campaign(prop, seconds, base, tag):
    with ThreadPoolExecutor(WORKERS) as tp:
        return list(tp.map(lambda i: search(prop, base + i, seconds, tag), range(WORKERS)))


def findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                d = dict(x.split("=", 1) for x in line[7:].split(" | ") if "=" in x)
                out.append(d)
    return out


def main():
    global WORK
    import shutil
    import tempfile

    prop = sys.argv[1]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    WORK = tempfile.mkdtemp(prefix="verif-")
    try:
        return decide(prop, t0)
    finally:
        shutil.rmtree(WORK, ignore_errors=True)


def decide(prop, t0):
    level, contracts, outside = PLAN[prop]
    base = SEED * 1000 + 1
    reps, runs = [], []
    box = {}
    th = threading.Thread(target=lambda: box.update(r=campaign(prop, SEARCH_S, base, "a")))
    th.start()
    rc, txt = run([VC_PY, os.path.join(HERE, "pyvc", "prove.py"), "--closure"] + contracts, PROOF_TIMEOUT)
    relied = json.loads(txt.strip().splitlines()[-1])
    with ThreadPoolExecutor(4) as tp:
        reps = list(tp.map(prove, contracts + relied))
    th.join()
    runs = box["r"]

    if not any(r["evaluations"] for r in runs):
        raise RuntimeError(f"the bounded check did not run: {[r.get('error') for r in runs]}")
    mine = lambda o: not o["props"] or prop in o["props"]  # noqa
    failed, undecided, total, done = [], [], 0, 0
    for r in reps:
        obs = [o for o in r["obligations"] if mine(o)]
        if r["function"] in relied:
            # the proofs of this property use the whole contract
            others = [o["name"] for o in r["obligations"] if not o["ok"] and prop not in o["props"]]
            obs = [o for o in r["obligations"] if o["ok"] or prop in o["props"]]
            if others and not r["error"]:
                undecided.append((r["function"], "contract relied upon does not hold: " + "; ".join(others)))
        total += len(obs)
        done += sum(1 for o in obs if o["ok"])
        bad = [o for o in obs if not o["ok"]]
        if r["error"]:
            undecided.append((r["function"], r["error"]))
        elif r["vacuous"] and not bad:
            undecided.append((r["function"], "vacuous: " + "; ".join(r["vacuous"])))
        elif not r["obligations"]:
            undecided.append((r["function"], "no obligation generated"))
        else:
            failed += [(r["function"], o) for o in bad]

    def first_violation(rs):
        for r in rs:
            if r["violation"]:
                p = confirm(prop, r["violation"], r["seed"])
                if p:
                    return p, r["violation"]
                r["unconfirmed"] = r["violation"]["message"]
        return None

    hit = first_violation(runs)
    if hit is None and (failed or undecided):
        more = campaign(prop, EXTENDED_S if failed else min(EXTENDED_S, 45), base + 100, "b")
        runs += more
        hit = first_violation(more)
    known = [k for k in findings() if k.get("property") == prop]
    code, line, nviol = 0, None, 0
    if hit is not None:
        k = next((k for k in known if k.get("match") and k["match"] in hit[1]["message"]), None)
        if k is None:
            code, nviol = 1, 1
            line = f"VIOLATION property={prop} replay={hit[0]}"
            print(f"{prop}: {hit[1]['message']}")
            for f, o in failed:
                print(f"{prop}: failed obligation: {f}: {o['name']} ({o['how']})")
    elif failed:
        path = os.path.join(EVID, f"replay-{prop}.json")
        json.dump({"property": prop, "case": None,
                   "failed_obligations": [{"function": f, "obligation": o["name"], "kind": o["kind"],
                                           "solver": o["how"], "smt2": (o.get("smt2") or "")[:200000]}
                                          for f, o in failed]}, open(path, "w"), indent=1)
        for f, o in failed:
            print(f"{prop}: failed obligation: {f}: {o['name']} ({o['how']})")
        code, nviol = 1, len(failed)
        line = f"VIOLATION property={prop} replay={path} no-failing-input-found"
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k.get('what', '')}")
    evidence(prop, level, reps, runs, failed, undecided, total, done, outside, nviol, t0)
    for f, e in undecided:
        print(f"{prop}: bounded stand-in for {f}: {e}")
    print(f"{prop}: {done}/{total} obligations discharged, {sum(r['evaluations'] for r in runs)} executions, "
          f"{time.time() - t0:.1f}s")
    if line:
        print(line)
    return code


RULE = ("cases are generated by gen_%s in /verif/rt/props.py (random problems, histories and settings, plus boundary "
        "shapes) and executed on the real package; distinct cases by their JSON text, skipped ones not counted")


def evidence(prop, level, reps, runs, failed, undecided, total, done, outside, nviol, t0):
    cov = {
        "evaluations": sum(r["evaluations"] for r in runs),
        "distinct_nontrivial": sum(r["distinct"] for r in runs),
        "rule": RULE % prop,
        "samples": [s for r in runs for s in r["samples"]][:2],
        "bounded_functions": outside + [f for f, _ in undecided],
    }
    if reps:
        cov["obligations"] = total
        cov["discharged"] = done
        cov["checker_cmd"] = "python3-vt /verif/pyvc/prove.py " + " ".join(r["function"] for r in reps)
        cov["trusted_base"] = TRUST
        cov["functions_under_contract"] = [
            {"function": r["function"], "obligations": len(r["obligations"]),
             "discharged": sum(1 for o in r["obligations"] if o["ok"]), "solver_s": r["solver_s"],
             "queries": r["queries"], "vacuity_checks": r["vacuity_checks"], "error": r["error"],
             "bodies_inlined": r["inlined"], "callees_by_contract": r["contracts_used"]} for r in reps]
        cov["back_end"] = {}
        for r in reps:
            for o in r["obligations"]:
                if o["ok"]:
                    k = o["how"].split(" ")[0]
                    cov["back_end"][k] = cov["back_end"].get(k, 0) + 1
        cov["solver_s"] = round(sum(r["solver_s"] for r in reps), 2)
    if failed:
        cov["failed_obligations"] = [f"{f}: {o['name']}" for f, o in failed]
    if undecided:
        cov["undecided_functions"] = [f"{f}: {e}" for f, e in undecided]
    lv = level
    if level == "proof" and (total == 0 or undecided or failed):
        lv = "exploration"
    ass = list(ASSUME)
    for r in reps:
        ass += [a for a in r["assumptions"] if a not in ass]
    ev = {"property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": lv, "coverage": cov,
          "assumptions": ass, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


TRUST = [
    "pyvc: the verification condition generator of /verif/pyvc (Python semantics of the executed subset, models of "
    "built-ins), tested against CPython by /verif/pyvc/tests",
    "z3 (python3-vt), quantifier instantiation by patterns, mbqi as second attempt",
    "CPython's parser: the syntax trees verified are those of /repo's current source",
]
ASSUME = [
    "floating point arithmetic treated as exact real arithmetic",
    "partial correctness: termination is not proved",
    "one thread, no memory exhaustion, no interruption inside a function",
    "hooks a user may override (calculate_objective_value, subclasses) are the shipped ones",
    "logging calls have no effect on the result",
]


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # noqa
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
