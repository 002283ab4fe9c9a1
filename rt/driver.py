"""driver.py search PROP SEED SECONDS OUT   |   driver.py replay PROP CASEFILE

search: runs generated cases until a violation is found or the time is over;
writes a JSON report to OUT.  replay: runs one case; exit 1 if it violates.
"""
import json
import os
import random
import signal
import sys
import time

import lib
import props

CASE_SECONDS = 60


class Hang(Exception):
    pass


def _alarm(*a):
    raise Hang()


def run_case(prop, case, limit=CASE_SECONDS):
    """(status, message) with status in ok / skip / violation / hang"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        getattr(props, "run_" + prop)(case)
        return "ok", ""
    except Hang:
        return "hang", f"did not finish in {limit}s"
    except lib.Skip as e:
        return "skip", str(e)
    except lib.Violation as e:
        return "violation", str(e)
    except (MemoryError, RecursionError) as e:
        return "skip", type(e).__name__
    except Exception as e:  # noqa  - the code under check failed on valid input
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "hyperpack" in f.filename and "/rt/" not in f.filename]
        if not where:
            # our own harness stumbled: says nothing about the property
            return "skip", f"harness: {type(e).__name__}: {e} at {tb[-1].name}:{tb[-1].lineno}"
        w = where[-1]
        return "violation", f"raised {type(e).__name__}: {e} in {w.name} ({os.path.basename(w.filename)}:{w.lineno})"
    finally:
        signal.alarm(0)


def shrink(prop, case, message, deadline):
    """Greedy removal of items, containers and operations."""
    best = case

    def variants(c):
        if isinstance(c.get("spec"), dict):
            for key in ("items", "containers"):
                lst = c["spec"].get(key)
                if lst and len(lst) > 1:
                    for i in range(len(lst)):
                        n = json.loads(json.dumps(c))
                        gone = n["spec"][key].pop(i)
                        if key == "items":
                            for o in n.get("ops", []):
                                if isinstance(o, list) and o and o[0] == "solve_seq":
                                    o[1] = [x for x in o[1] if x != gone[0]]
                            if "seq" in n:
                                n["seq"] = [x for x in n["seq"] if x != gone[0]]
                        yield n
        ops = c.get("ops")
        if isinstance(ops, list) and len(ops) > 1:
            for i in range(len(ops)):
                n = json.loads(json.dumps(c))
                n["ops"].pop(i)
                yield n

    progress = True
    while progress and time.time() < deadline:
        progress = False
        for v in variants(best):
            if time.time() > deadline:
                break
            st, msg = run_case(prop, v, 10)
            if st == "violation":
                best, message, progress = v, msg, True
                break
    return best, message


def main():
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    mode, prop = sys.argv[1:3]
    if mode == "replay":
        case = json.load(open(sys.argv[3]))
        case = case.get("case", case)
        st, msg = run_case(prop, case)
        print(f"{prop}: {st} {msg}")
        sys.exit(1 if st == "violation" or (st == "hang" and prop == "C12") else 0)
    seed, seconds, out = int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    t0 = time.time()
    rng = random.Random(seed * 7919 + int(prop[1:]))
    gen = getattr(props, "gen_" + prop)
    rep = {"evaluations": 0, "distinct": 0, "skips": 0, "hangs": 0, "samples": [], "skip_reasons": {},
           "violation": None}
    seen = set()
    fixed = list(getattr(props, "FIXED_" + prop, []))
    corpus = os.path.join(os.path.dirname(os.path.abspath(__file__)), "corpus", prop + ".json")
    if os.path.exists(corpus):
        fixed += json.load(open(corpus))
    while time.time() - t0 < seconds or fixed:
        if fixed:
            case = fixed.pop(0)
        else:
            case = json.loads(json.dumps(gen(rng)))
        key = json.dumps(case, sort_keys=True)
        with lib.quiet():
            st, msg = run_case(prop, case)
        rep["evaluations"] += 1
        if st == "skip":
            rep["skips"] += 1
            rep["skip_reasons"][msg[:120]] = rep["skip_reasons"].get(msg[:120], 0) + 1
            continue
        if st == "hang":
            rep["hangs"] += 1
            if prop != "C12":
                continue
        if key not in seen:
            seen.add(key)
            rep["distinct"] = len(seen)
            if len(rep["samples"]) < 2 and len(key) < 1500:
                rep["samples"].append(case)
        if st in ("violation", "hang"):
            if st == "violation":
                with lib.quiet():
                    case, msg = shrink(prop, case, msg, time.time() + 15)
            rep["violation"] = {"case": case, "message": msg}
            break
    rep["wall_s"] = round(time.time() - t0, 3)
    with open(out, "w") as f:
        json.dump(rep, f, indent=1)


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
