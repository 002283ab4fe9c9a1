"""One generator and one executable oracle per property.

gen_Cxx(rng) makes a JSON case, run_Cxx(case) executes it on the real code and
raises lib.Violation when the property is broken by it.  An unexpected
exception of the code under check on valid input is a violation as well.
"""
import ast
import contextlib
import copy
import functools
import importlib
import itertools
import json
import math
import os
import re
import subprocess
import sys
import tempfile
import time
import types
from fractions import Fraction
from unittest import mock

from lib import *  # noqa
import lib

# ------------------------------------------------------------------ C01 - C04, C07


def _gen_packing(rng):
    spec = gen_problem(rng)
    return {"spec": spec, "ops": gen_ops(rng, spec)}


def _run_packing(case, check):
    prob = build(case["spec"])
    run_ops(prob, case["spec"], case["ops"], lambda op, h: check(prob, op, h))


gen_C01 = gen_C02 = gen_C04 = _gen_packing


def gen_C03(rng):
    r = rng.random()
    if r < 0.05:
        # items that would fit rotated only, several workers
        spec = {"cls": "HyperPack", "settings": {"rotation": rng.random() < 0.2},
                "items": [[f"i{k}", *rng.sample(range(1, 6), 2)] for k in range(rng.randint(1, 3))]}
        if rng.random() < 0.4:
            spec["strip"] = rng.randint(2, 5)
        else:
            spec["containers"] = [["c0", rng.randint(1, 6), rng.randint(1, 6)]]
        return {"spec": spec, "workers": rng.choice([1, 2]), "ops": []}
    return _gen_packing(rng)


gen_C07 = gen_C03


def run_C01(case):
    _run_packing(case, lambda p, op, h: chk_contained(p, h))


def run_C02(case):
    _run_packing(case, lambda p, op, h: chk_disjoint(p))


def _run_workers(case):
    """the problem after a hypersearch with one or several workers that
    try two strategies and orient nothing"""
    spec = dict(case["spec"], settings=dict(case["spec"]["settings"], workers_num=case["workers"]))

    class P(hp().HyperPack):
        def get_strategies(self, *, _exhaustive=True):
            return [tuple(x) for x in _strategies(2)]

    prob = build(spec, P)
    prob.hypersearch(orientation=None, sorting_by=None)
    return prob


def run_C03(case):
    if "workers" in case:
        return chk_identity(_run_workers(case), rotation_on(case["spec"]))
    rot = rotation_on(case["spec"])
    orig = {i: tuple(sorted((w, l))) for i, w, l in case["spec"]["items"]}

    def check(p, op, h):
        if not isinstance(op, str) or not op.startswith("hyper"):
            chk_identity(p, rot)
        else:
            # orient_items may have interchanged the items themselves
            chk_identity(p, rot)
            for s in p.solution.values():
                for i, v in s.items():
                    if tuple(sorted(v[2:])) != orig[i]:
                        raise Violation(f"item {i} changed dimensions: {orig[i]} -> {v}")

    _run_packing(case, check)


def run_C04(case):
    _run_packing(case, lambda p, op, h: chk_utils(p))


def run_C07(case):
    rot = rotation_on(case["spec"])
    if "workers" in case:
        return chk_empty(_run_workers(case), rot)
    _run_packing(case, lambda p, op, h: chk_empty(p, rot))


# ------------------------------------------------------------------ C05


def gen_C05(rng):
    spec = gen_problem(rng)
    seq = [i[0] for i in spec["items"]]
    rng.shuffle(seq)
    other = gen_problem(rng, size=rng.choice([4, 8]))
    hist = []
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.3:
            hist.append("solve")
        elif r < 0.6:
            hist.append("solve_seq")
        elif r < 0.7:
            hist.append("debug")
        elif r < 0.85 and len(seq) <= 7:
            hist.append("local_search")
        elif len(seq) <= 4:
            hist.append("hypersearch_plain")
        else:
            hist.append("strategy")
    case = {"spec": spec, "seq": seq, "other": other, "hist": hist}
    if rng.random() < 0.4:
        # the instance served other items and containers before
        before = gen_problem(rng, strip="strip" in spec, max_items=5)
        items = before["items"]
        how = rng.random()
        if how < 0.3:
            items = [[i, w, w] for i, w, l in items]
        elif how < 0.5:
            items = [[i, w, l] for i, w, l in items[:1]]
        elif how < 0.65:
            items = [[i, w + 50, l + 50] for i, w, l in items]
        case["before"] = {"items": items}
        if "containers" in before and rng.random() < 0.5:
            case["before"]["containers"] = before["containers"]
    if rng.random() < 0.02:
        case["hashseeds"] = [rng.randint(1, 1000), rng.randint(1, 1000)]
    return case


def _state_back(prob, spec):
    prob.potential_points_strategy = tuple(spec["strategy"] if "strategy" in spec else POINTS_DEFAULT())
    if "strip" in spec:
        h, m = spec.get("height", 10 * spec["strip"]), spec.get("min_height")
        prob.reset_container_height()
        prob.container_height = h
        if m is not None:
            prob.container_min_height = m


def POINTS_DEFAULT():
    return hp().HyperPack.DEFAULT_POTENTIAL_POINTS_STRATEGY


def solve_plain(spec, seq=None):
    p = build(spec)
    p.solve(sequence=seq)
    return result(p)


def run_C05(case):
    spec, seq = case["spec"], case["seq"]
    ref = solve_plain(spec)
    ref_seq = solve_plain(spec, seq)
    build(case["other"]).solve()
    prob = build(dict(spec, **case.get("before", {})))
    for op in case["hist"]:
        if "before" in case and op in ("solve_seq", "hypersearch_plain"):
            op = "solve"
        if op == "solve":
            prob.solve()
        elif op == "debug":
            prob.solve(debug=True)
        elif op == "solve_seq":
            prob.solve(sequence=list(seq)[::-1])
        elif op == "local_search":
            prob.local_search()
        elif op == "hypersearch_plain":
            prob.hypersearch(orientation=None, sorting_by=None, _exhaustive=False)
        elif op == "strategy":
            prob.potential_points_strategy = POINTS[::-1]
            prob.solve()
    if "before" in case:
        # one after the other, as a user does it
        if "containers" in case["before"]:
            prob.containers = {c: {"W": W, "L": L} for c, W, L in spec["containers"]}
        prob.items = {i: {"w": w, "l": l} for i, w, l in spec["items"]}
    _state_back(prob, spec)
    prob.solve()
    if result(prob) != ref:
        raise Violation(f"after {case['hist']} solve gives {result(prob)} instead of {ref}")
    prob.solve(sequence=list(seq))
    if result(prob) != ref_seq:
        raise Violation(f"after {case['hist']} solve({seq}) gives {result(prob)} instead of {ref_seq}")
    prob.solve()
    if result(prob) != ref:
        raise Violation(f"repeated solve gives {result(prob)} instead of {ref}")
    # the instance attribute order given directly equals the sequence given
    spec2 = dict(spec, items=[next(i for i in spec["items"] if i[0] == s) for s in seq])
    if solve_plain(spec2) != ref_seq:
        raise Violation(f"items in order {seq} solve differently than sequence {seq}")
    for hs in case.get("hashseeds", []):
        env = dict(os.environ, PYTHONHASHSEED=str(hs), VERIF_REPO=lib.REPO)
        code = (
            "import sys,json; sys.path.insert(0, sys.argv[1]); import props;"
            "s=json.loads(sys.stdin.read()); print(json.dumps([props.solve_plain(x) for x in s]))"
        )
        out = subprocess.run(
            [sys.executable, "-c", code, os.path.dirname(os.path.abspath(__file__))],
            input=json.dumps([spec, spec2]), capture_output=True, text=True, env=env,
        )
        if out.returncode:
            raise Skip("subprocess failed: " + out.stderr[-300:])
        got = json.loads(out.stdout.strip().splitlines()[-1])
        if got != json.loads(json.dumps([ref, ref_seq])):
            raise Violation(f"solve differs between interpreter runs (hash seed {hs}): {got}")


# ------------------------------------------------------------------ C06


def _orient(items, how, rotation):
    out = []
    for i, w, l in items:
        if rotation and how in ("wide", "long"):
            if (how == "wide" and l > w) or (how == "long" and l < w):
                w, l = l, w
        out.append([i, w, l])
    return out


CRIT = {
    "area": lambda w, l: w * l,
    "perimeter": lambda w, l: 2 * w + 2 * l,
    "longest_side_ratio": lambda w, l: max(w, l) / min(w, l),
}


def gen_C06(rng):
    spec = gen_problem(rng)
    ops = gen_ops(rng, spec, heavy=0.4)
    case = {"spec": spec, "ops": ops}
    if len(spec["items"]) <= 5 and max(x for i in spec["items"] for x in i[1:]) <= 20 and rng.random() < 0.3:
        case["hyper"] = [
            rng.choice(["wide", "long", None, "bogus"]),
            rng.choice([None, ["area", True], ["area", False], ["perimeter", True],
                        ["longest_side_ratio", False]]),
        ]
        if "strip" not in spec and rng.random() < 0.04:
            spec["settings"]["workers_num"] = 2
    case["ops"] = [o for o in ops if not (isinstance(o, str) and o.startswith("hyper"))]
    if rng.random() < 0.3:
        spec["settings"]["max_time_in_seconds"] = rng.randint(5, 90)
    return case


def run_C06(case):
    spec = case["spec"]
    prob = build(spec)
    before = snapshot(prob)

    def check(op, h):
        if snapshot(prob) != before:
            raise Violation(f"{op} changed the problem: {before} -> {snapshot(prob)}")

    run_ops(prob, spec, case["ops"], lambda op, h: check(op, h))
    if "hyper" in case:
        orientation, sorting = case["hyper"]
        prob.hypersearch(
            orientation=orientation,
            sorting_by=tuple(sorting) if sorting else None,
            _exhaustive=False,
        )
        after = snapshot(prob)
        if after[0] != before[0] or after[3] != before[3]:
            raise Violation(f"hypersearch changed containers or settings: {before} -> {after}")
        want = {i: (w, l) for i, w, l in _orient(spec["items"], orientation, rotation_on(spec))}
        if dict(after[1]) != want:
            raise Violation(f"hypersearch({orientation}) left items {after[1]}, expected dims {want}")
        order = [i for i, _ in after[1]]
        if sorting is None:
            if order != [i[0] for i in spec["items"]]:
                raise Violation(f"hypersearch without sorting reordered the items: {order}")
        else:
            orig = {i: (w, l) for i, w, l in spec["items"]}
            vals = [CRIT[sorting[0]](*orig[i]) for i in order]
            if vals != sorted(vals, reverse=sorting[1]):
                raise Violation(f"hypersearch sorted items by {sorting} as {order}")


# ------------------------------------------------------------------ C08 - C11


def _recording(base, log, fake=None):
    """Subclass recording every public solve (and optionally replacing it)."""

    class Recording(base):
        def solve(self, sequence=None, debug=False):
            pre = self.container_height
            entry = {"seq": None if sequence is None else list(sequence), "h_before": pre}
            if fake is None:
                super().solve(sequence=sequence, debug=debug)
            else:
                fake(self, sequence)
            entry["h_after"] = self.container_height
            entry["min_after"] = self.container_min_height
            entry["sol"], entry["util"] = copy_solution(self)
            entry["obj"] = self.calculate_obj_value()
            log.append(entry)

    return Recording


def _all_placed(spec_n, sol):
    return sum(len(s) for s in sol.values()) == spec_n


def gen_C08(rng):
    n = rng.choice([2, 3, 3, 4, 4, 5, 6, 8])
    spec = gen_problem(rng, max_items=n, size=rng.choice([3, 4, 5, 6, 8, 10, 15]), big_ok=False)
    return {"spec": spec, "pre": rng.choice([[], [], ["solve"], ["local_search"]]),
            "throttle": rng.random() < 0.8}


def run_C08(case):
    spec = case["spec"]
    log = []
    cls = _recording(hp().HyperPack, log)
    prob = build(spec, cls)
    for op in case["pre"]:
        getattr(prob, op)()
    rot = rotation_on(spec)
    ids = [i[0] for i in spec["items"]]
    # what the solve it starts from gives
    base_spec = dict(spec)
    if "strip" in spec:
        base_spec["height"] = prob.container_height
    base = build(base_spec)
    base.potential_points_strategy = prob.potential_points_strategy
    base.solve()
    base_obj = base.calculate_obj_value()
    log.clear()
    prob.local_search(throttle=case["throttle"])
    final = prob.calculate_obj_value()
    if final < base_obj - 1e-12:
        raise Violation(f"local_search ends with {final}, the solve it starts from gives {base_obj}")
    chk_utils(prob)
    chk_identity(prob, rot)
    chk_disjoint(prob)
    if not log:
        return
    init = log[0]["obj"]
    if final < init - 1e-12:
        raise Violation(f"local_search ends with {final}, its first solve gave {init}")
    for e in log:
        if e["seq"] is not None and sorted(e["seq"]) != sorted(ids):
            raise Violation(f"evaluated sequence {e['seq']} is no permutation of {ids}")
    strict = "strip" in spec and spec.get("min_height") is None
    best = init
    for e in log[1:]:
        if e["obj"] > best and (not strict or _all_placed(len(ids), e["sol"])):
            best = e["obj"]
    if final != best:
        raise Violation(f"local_search publishes objective {final}, the best value it accepted is {best}")
    sol, util = copy_solution(prob)
    if not any(e["sol"] == sol and e["util"] == util for e in log):
        raise Violation(f"published solution {sol} with {util} was never evaluated together")


class Clock:
    """Replaces time.time everywhere in the package by a scripted clock."""

    def __init__(self):
        self.now = 1000.0

    def __call__(self):
        return self.now

    def __enter__(self):
        import time

        hp()
        self.saved = []
        real = time.time
        self.real = real
        for name, mod in list(sys.modules.items()):
            if name == "hyperpack" or name.startswith("hyperpack."):
                for k, v in list(vars(mod).items()):
                    if v is real:
                        self.saved.append((mod, k, v))
                        setattr(mod, k, self)
        self.saved.append((time, "time", real))
        time.time = self
        return self

    def __exit__(self, *a):
        for mod, k, v in self.saved:
            setattr(mod, k, v)


def gen_C09(rng):
    kind = rng.random()
    if kind < 0.45:
        n = rng.choice([2, 3, 4, 5, 6, 10, 20, 40])
        return {
            "mode": "time", "n": n, "limit": rng.choice([1, 2, 5, 7, 60]),
            "step": rng.choice([0.5, 1.0, 0.25, 2.0, 7.0, 100.0]),
            "improve": sorted(rng.sample(range(1, 60), rng.randint(0, 6))),
            "strip": rng.random() < 0.2,
        }
    if kind < 0.7:
        n = rng.choice([1, 2, 3, 5, 8, 30, 70, 71, 72, 73, 80, 90])
        return {
            "mode": "count", "n": n, "throttle": rng.random() < 0.6,
            "improve": sorted(rng.sample(range(1, 30), rng.randint(0, 3))),
            "via": rng.choice(["local", "local", "hyper"]),
        }
    return {
        "mode": "hyper", "n": rng.choice([1, 2, 3, 4]), "limit": rng.choice([1, 3, 10]),
        "step": rng.choice([0.5, 1.0, 4.0, 25.0]), "strategies": rng.randint(1, 6),
        "improve": sorted(rng.sample(range(1, 40), rng.randint(0, 4))),
        "worker": rng.random() < 0.3,
    }


def _fake_problem(case, log, clock):
    """A problem whose solve is replaced by a scripted objective."""
    n = case["n"]
    improve = set(case["improve"])
    state = {"k": 0, "best": 0.1}

    def fake(self, sequence):
        k = state["k"]
        state["k"] += 1
        val = 0.01
        if k == 0:
            val = 0.1
        elif k in improve:
            state["best"] += 0.001
            val = state["best"]
        c = list(self.containers)[0]
        self.solution = {c: {i: [0, j, 1, 1] for j, i in enumerate(self.items)}}
        self.obj_val_per_container = {c: val}
        log.append({"k": k, "t": clock.now, "obj": val, "seq": sequence})
        clock.now += case.get("step", 0)

    base = hp().HyperPack

    class Fake(base):
        def solve(self, sequence=None, debug=False):
            fake(self, sequence)

        def local_search(self, **kw):
            log.append({"ls": True, "t": clock.now})
            super().local_search(**kw)

        def get_strategies(self, *, _exhaustive=True):
            s = list(base.DEFAULT_POTENTIAL_POINTS_STRATEGY)
            return [tuple(s[i:] + s[:i]) for i in range(case.get("strategies", 1))]

    items = {f"i{i}": {"w": 1, "l": 1} for i in range(n)}
    settings = {"max_time_in_seconds": case.get("limit", 60)}
    if case.get("strip"):
        return Fake(strip_pack_width=n + 5, items=items, settings=settings)
    return Fake(containers={"c": {"W": 50, "L": 50}}, items=items, settings=settings)


def run_C09(case):
    with Clock() as clock:
        log = []
        prob = _fake_problem(case, log, clock)
        n = case["n"]
        start = clock.now
        if case["mode"] == "time":
            prob.local_search()
            T = start + case["limit"]
            if log and "ls" in log[0]:
                log = log[1:]
            for e in log[2:]:
                if e["t"] >= T:
                    raise Violation(
                        f"neighbour {e['k']} evaluated at {e['t']-start}s with a limit of"
                        f" {case['limit']}s"
                    )
        elif case["mode"] == "count":
            if case["via"] == "hyper":
                prob.hypersearch(orientation=None, sorting_by=None, throttle=case["throttle"])
            else:
                prob.local_search(throttle=case["throttle"])
            cap = n * (n - 1) // 2
            if case["throttle"]:
                cap = min(cap, 2500)
            best, cnt, fresh = None, 0, True
            for e in log:
                if "ls" in e:
                    fresh, best, cnt = True, None, 0
                    continue
                if best is None or (e["seq"] is None):
                    best, cnt = e["obj"], 0
                    continue
                cnt += 1
                if cnt > cap:
                    raise Violation(
                        f"{cnt} neighbours evaluated for one node, n={n},"
                        f" throttle={case['throttle']}, bound {cap}"
                    )
                if e["obj"] > best:
                    best, cnt = e["obj"], 0
            if cap > 0 and n > 1 and len([e for e in log if "seq" in e]) < 2:
                raise Violation("no neighbour evaluated at all")
        else:
            T = start + case["limit"]
            if case.get("worker"):
                _c09_worker(case, prob, clock, start)
            else:
                prob.hypersearch(orientation=None, sorting_by=None)
            first = True
            in_ls = 0
            for e in log:
                if "ls" in e:
                    in_ls = 0
                    if not first and e["t"] > T:
                        raise Violation(
                            f"a further strategy started at {e['t']-start}s, limit {case['limit']}s"
                        )
                    first = False
                else:
                    in_ls += 1
                    if not first and in_ls > 2 and e["t"] >= T:
                        raise Violation(
                            f"neighbour evaluated at {e['t']-start}s, limit {case['limit']}s"
                        )


def _c09_worker(case, prob, clock, start):
    """The same through the worker process' own loop, run in this process."""
    h = hp()
    from multiprocessing import Array

    prob.start_time = start
    try:
        proc = h.HyperSearchProcess(
            index=0, containers=prob.containers.deepcopy(), items=prob.items.deepcopy(),
            settings=dict(prob.settings), strategies_chunk=prob.get_strategies(), name="w",
            start_time=start, shared_array=Array("d", [0, 0]), throttle=True,
        )
        proc.instance = prob
    except Exception:
        raise Skip("worker interface changed")
    proc.run()
    proc.queue.close()
    proc.queue.cancel_join_thread()


def gen_C10(rng):
    n = rng.choice([2, 3, 4, 4, 5, 6])
    w = rng.choice([1, 2, 3, 4, 5, 6, 8])
    items = [[f"i{i}", rng.randint(1, w + (rng.random() < 0.1)), rng.randint(1, rng.choice([2, 4, 2 * w]))]
             for i in range(n)]
    spec = {"cls": "HyperPack", "strip": w, "items": items, "settings": {}}
    if rng.random() < 0.4:
        spec["settings"]["rotation"] = False
    if rng.random() < 0.35:
        tot = sum(i[2] for i in items)
        spec["height"] = rng.randint(max(1, tot // 2), tot + 3)
    if rng.random() < 0.35:
        spec["min_height"] = rng.randint(1, spec.get("height", 10 * w))
    s = rnd_strategy(rng)
    if s:
        spec["strategy"] = s
    ops = [rng.choice(["local_search", "local_search", "hypersearch"])]
    if rng.random() < 0.3:
        ops.append("local_search")
    return {"spec": spec, "ops": ops,
            "strategies": [rng.sample(list(POINTS), 10) for _ in range(rng.randint(1, 4))]}


def run_C10(case):
    spec = case["spec"]
    n = len(spec["items"])
    log = []
    rec = _recording(hp().HyperPack, log)

    class P(rec):
        def get_strategies(self, *, _exhaustive=True):
            return [tuple(s) for s in case["strategies"]]

    prob = build(spec, P)
    for op in case["ops"]:
        min0, h0 = prob.container_min_height, prob.container_height
        # would solve place all the items from this very state?
        ref = build(dict(spec, items=[[i, prob.items[i]["w"], prob.items[i]["l"]] for i in prob.items]))
        ref.reset_container_height()
        ref.container_height = h0
        if min0 is not None:
            ref.container_min_height = min0
        ref.potential_points_strategy = prob.potential_points_strategy
        if op == "hypersearch":
            ref.sort_items()
            ref.orient_items()
        ref.solve()
        complete = _all_placed(n, ref.solution)
        log.clear()
        if op == "local_search":
            prob.local_search()
        else:
            prob.hypersearch()
        if prob.container_min_height != min0:
            raise Violation(f"{op} changed container_min_height {min0} -> {prob.container_min_height}")
        if min0 is None and complete and not _all_placed(n, prob.solution):
            raise Violation(
                f"{op}: solve places all {n} items but the search ends with"
                f" {sum(len(s) for s in prob.solution.values())}"
            )
        hs = [h0] + [e["h_before"] for e in log] + [prob.container_height]
        if any(b > a for a, b in zip(hs, hs[1:])):
            raise Violation(f"{op}: container_height rose: {hs}")
        # every change is the stack height of the evaluation just before it
        seen = []
        for e, nxt in zip(log, [x["h_before"] for x in log[1:]] + [prob.container_height]):
            if e["h_after"] != e["h_before"]:
                raise Violation(f"solve changed container_height {e['h_before']} -> {e['h_after']}")
            if nxt != e["h_after"]:
                stack = max([v[1] + v[3] for v in e["sol"][STRIP].values()] or [0])
                want = max(stack, min0) if min0 is not None else stack
                if nxt != want:
                    raise Violation(
                        f"{op}: container_height changed to {nxt} after a solution of height {stack}"
                        f" (minimum {min0})"
                    )
                if min0 is None and not _all_placed(n, e["sol"]):
                    raise Violation(f"{op}: container_height changed for an incomplete solution")
                if seen and e["obj"] <= min(x["obj"] for x in seen):
                    raise Violation(f"{op}: container_height changed for a solution that is no better")
            seen.append(e)


def gen_C11(rng):
    strip = rng.random() < 0.5
    n = rng.choice([2, 3, 3, 4, 5])
    spec = gen_problem(rng, strip=strip, max_items=n, size=rng.choice([3, 4, 6, 8]), big_ok=False)
    if strip and rng.random() < 0.7:
        spec.pop("height", None)
        spec.pop("min_height", None)
        for i in spec["items"]:
            i[1] = min(i[1], spec["strip"])
    return {"spec": spec, "strategies": [rng.sample(list(POINTS), 10) for _ in range(rng.randint(1, 6))],
            "orientation": rng.choice(["wide", None, "long"]),
            "sorting": rng.choice([["area", True], None, ["perimeter", False]]),
            "worker": rng.random() < 0.25,
            # the time runs out during this search
            "late": rng.choice([None, None, 1, 2, 3]),
            "pre": rng.choice([[], [], ["solve"], ["local_search"]])}


def run_C11(case):
    if case.get("late") is None:
        return run_C11_with(case, None)
    with Clock() as clock:
        return run_C11_with(case, clock)


def run_C11_with(case, clock):
    spec = case["spec"]
    n = len(spec["items"])
    base = hp().HyperPack
    searches, solves, order = [], [], []

    class P(base):
        def solve(self, sequence=None, debug=False):
            super().solve(sequence=sequence, debug=debug)
            if not order:
                solves.append((self.calculate_obj_value(), copy_solution(self)))

        def get_strategies(self, *, _exhaustive=True):
            return [tuple(s) for s in case["strategies"]]

        def local_search(self, **kw):
            order.append(1)
            super().local_search(**kw)
            searches.append((self.calculate_obj_value(), copy_solution(self),
                             list(self.potential_points_strategy)))
            if clock is not None and len(searches) == case["late"]:
                clock.now += 10**7

    prob = build(spec, P)
    for op in case["pre"]:
        getattr(prob, op)()
    searches.clear()
    solves.clear()
    order.clear()
    if case["worker"]:
        from multiprocessing import Array

        h = hp()
        prob.start_time = __import__("time").time()
        arr = Array("d", [0, 0])
        try:
            proc = h.HyperSearchProcess(
                index=0, strip_pack="strip" in spec, containers=prob.containers.deepcopy(),
                items=prob.items.deepcopy(), settings=dict(prob.settings),
                strategies_chunk=prob.get_strategies(), name="w", start_time=prob.start_time,
                shared_array=arr, throttle=True,
            )
            proc.instance = prob
        except Exception:
            raise Skip("worker interface changed")
        proc.run()
        out = proc.queue.get(timeout=20)
        proc.queue.close()
        obj, sol, util, strategy = out
        sol = {c: {i: list(v) for i, v in s.items()} for c, s in sol.items()}
        if obj == -1:
            raise Violation("worker failed on a valid problem")
        if not close(obj, expected_objective([util[c] for c in prob.containers])):
            raise Violation(f"worker reports {obj} with utilization {util}")
        if obj > solves[0][0] and not close(arr[0], obj):
            raise Violation(f"worker delivers objective {obj} but reported {arr[0]}")
    else:
        prob.hypersearch(
            orientation=case["orientation"],
            sorting_by=tuple(case["sorting"]) if case["sorting"] else None,
        )
        sol, util = copy_solution(prob)
        obj = prob.calculate_obj_value()
        strategy = prob.best_strategy
    if not solves:
        raise Skip("no starting solve seen")
    strict = "strip" in spec and spec.get("min_height") is None
    init_obj, (init_sol, init_util) = solves[0]
    if obj < init_obj:
        raise Violation(f"hypersearch ends with {obj}, its starting solve gave {init_obj}")
    for o, (s, u), st in searches:
        if strict and not _all_placed(n, s):
            continue
        if obj < o:
            raise Violation(f"hypersearch ends with {obj} although the local search of {st} gave {o}")
    cands = [(init_obj, (init_sol, init_util), None)] + [
        x for x in searches if not strict or _all_placed(n, x[1][0])
    ]
    if not any(c[1] == (sol, util) for c in cands):
        raise Violation(f"published solution {sol} {util} is neither the starting one nor of a local search")
    if obj > init_obj:
        if not any(c[1] == (sol, util) and c[2] == list(strategy or []) for c in cands):
            raise Violation(f"best_strategy {strategy} is not the one that produced {sol}")


# ------------------------------------------------------------------ C12


def gen_C12(rng):
    r = rng.random()
    if r < 0.35:
        return {"mode": "split", "spec": gen_problem(rng, max_items=4, size=5, big_ok=False),
                "workers": rng.randint(2, 9), "strategies": rng.randint(1, 23)}
    if r < 0.6:
        k = rng.randint(2, 4)
        n = rng.randint(k, 9)
        return {"mode": "values", "workers": k, "strip": rng.random() < 0.3,
                "vals": [rng.choice([-1, 0.2, 0.25, 0.5, 0.5, 0.9, 0.7, 0.6, 0.9004, 0.90041, 0.7 + 1e-9]) if rng.random() < 0.9 else 0
                         for _ in range(n)],
                "fails": rng.random() < 0.4, "incomplete": [rng.random() < 0.2 for _ in range(n)]}
    if r < 0.67:
        n = rng.randint(1, 6)
        return {"mode": "cells", "workers": 1, "strip": rng.random() < 0.3, "index": rng.randint(0, 3),
                "vals": [rng.choice([0.2, 0.25, 0.5, 0.5, 0.9, 0.7, 0.6, 0.9004, 0.70001]) for _ in range(n)],
                "cells": [rng.choice([0, 0, -1, 0.1, 0.55, 0.65, 0.95]) for _ in range(4)],
                "incomplete": [rng.random() < 0.2 for _ in range(n)]}
    if r < 0.72:
        return {"mode": "inline", "spec": gen_problem(rng, max_items=5, size=6, big_ok=False, strip=False),
                "workers": rng.randint(2, 3), "strategies": rng.randint(2, 5), "seed": rng.randint(0, 10**6)}
    if r < 0.97:
        k = rng.randint(2, 6)
        vals = [rng.choice([-1, 0, 0.1, 0.25, 0.5, 0.9, 0.9004, 0.90041, 0.9 + 1e-9]) for _ in range(k)]
        if rng.random() < 0.2:
            vals = [-1] * k
        return {"mode": "winner", "workers": k, "vals": vals,
                "strip": rng.random() < 0.3}
    if r < 0.985:
        return {"mode": "real", "spec": gen_problem(rng, max_items=3, size=4, big_ok=False),
                "workers": rng.randint(2, 3), "payload": 0}
    return {"mode": "payload", "workers": 2, "size": rng.choice([10, 30000])}


FIXED_C12 = [
    {"mode": "payload", "workers": 2, "size": 30000},
    {"mode": "dead", "workers": 2},
    {"mode": "real", "workers": 2,
     "spec": {"cls": "HyperPack", "settings": {}, "strip": 3, "height": 7,
              "items": [["a", 2, 2], ["b", 3, 1], ["c", 1, 2]]}},
]


def _with_workers(spec, k, strategies, runner=None, real=False, cls_extra=None):
    """hypersearch of a problem with its worker class replaced by one that is
    run inline (or really started), recording what every worker was given."""
    h = hp()
    import hyperpack.heuristics as heur

    made = []
    real_cls = heur.HyperSearchProcess

    class Rec(real_cls):
        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)
            made.append(self)

        def run(self):
            if runner is None:
                super().run()
            else:
                runner(self)

        if not real:
            def start(self):
                self.run()

            def join(self, timeout=None):
                return None

            def is_alive(self):
                return False

    class P(h.HyperPack):
        def get_strategies(self, *, _exhaustive=True):
            return [tuple(s) for s in strategies]

    spec = dict(spec, settings=dict(spec.get("settings") or {}, workers_num=k))
    prob = build(spec, P)
    heur.HyperSearchProcess = Rec
    try:
        out = call(prob.hypersearch, orientation=None, sorting_by=None)
    finally:
        heur.HyperSearchProcess = real_cls
    return prob, made, out


def _strategies(k):
    perms = itertools.permutations(["A", "B", "C", "D", "A_", "B_"])
    return [list(p) + ["A__", "B__", "F", "E"] for p in itertools.islice(perms, k)]


def run_C12(case):
    k = case["workers"]
    if case["mode"] == "split":
        spec = case["spec"]
        strategies = _strategies(case["strategies"])
        seen = []

        def runner(self):
            seen.append(self)
            self.shared_array[self.index] = 0.5
            cs = list(self.instance.containers)
            self.queue.put((0.5, {c: {} for c in cs}, {c: 0.5 for c in cs}, None))

        prob, made, out = _with_workers(spec, k, strategies, runner)
        if not made:
            raise Skip("workers are created in another way")
        if out[0] != "ok":
            raise Violation(f"multi process hypersearch failed: {out}")
        given = [tuple(s) for p in made for s in p.strategies_chunk]
        if sorted(given) != sorted(tuple(s) for s in strategies):
            raise Violation(
                f"{len(strategies)} strategies, {k} workers: handed out"
                f" {[len(p.strategies_chunk) for p in made]}, not every strategy exactly once"
            )
        if len(seen) != len(made):
            raise Violation(f"{len(made)} workers created, {len(seen)} started")
        want = snapshot(prob)
        for p in made:
            inst = p.instance
            got = snapshot(inst)
            if got[0] != want[0] or got[1] != want[1]:
                raise Violation(f"worker got {got[:2]}, instance has {want[:2]}")
            if (inst.container_height, inst.container_min_height) != (
                prob.container_height, prob.container_min_height
            ):
                raise Violation(
                    f"worker heights {(inst.container_height, inst.container_min_height)},"
                    f" instance {(prob.container_height, prob.container_min_height)}"
                )
            a = {x: y for x, y in inst.settings.items() if x != "workers_num"}
            b = {x: y for x, y in prob.settings.items() if x != "workers_num"}
            if a != b:
                raise Violation(f"worker settings {a}, instance {b}")
    elif case["mode"] == "winner":
        vals = case["vals"]
        items = [[f"i{j}", 1, 1] for j in range(k)]
        if case["strip"]:
            spec = {"strip": 10, "items": items, "settings": {}}
            cid = STRIP
        else:
            spec = {"containers": [["c", 10, 10]], "items": items, "settings": {}}
            cid = "c"
        strategies = _strategies(k)

        def runner(self):
            i = self.index
            v = vals[i]
            if v == -1:
                # fails on its own in the real loop
                def boom(*a, **kw):
                    raise ValueError("worker failure")

                self.instance.local_search = boom
                type(self).__mro__[1].run(self)
                return
            sol = {cid: {f"i{i}": [i, 0, 1, 1]}}
            if v:
                self.shared_array[i] = v
            self.queue.put((v, sol, {cid: v}, list(self.strategies_chunk[0])))

        prob, made, out = _with_workers(spec, k, strategies, runner)
        if len(made) != k:
            raise Skip("workers are created in another way")
        if all(v == -1 for v in vals):
            if out[0] == "ok" or out[1] != "MultiProcessError":
                raise Violation(f"all workers failed, got {out}")
            return
        if out[0] != "ok":
            raise Violation(f"workers {vals}: {out}")
        best = max(vals)
        winners = [i for i, v in enumerate(vals) if v == best]
        sol, util = copy_solution(prob)
        for i in winners:
            if sol == {cid: {f"i{i}": [i, 0, 1, 1]}} and util == {cid: vals[i]} and list(
                prob.best_strategy
            ) == strategies[i]:
                return
        raise Violation(f"workers reported {vals}; published {sol} {util} {prob.best_strategy}")
    elif case["mode"] == "values":
        # the real loop of the workers over searches with known results
        vals = case["vals"] if case["fails"] else [abs(v) for v in case["vals"]]
        strategies = _strategies(len(vals))
        items = [[f"i{j}", 1, 1] for j in range(k)]
        if case["strip"]:
            spec, cid = {"strip": 10, "items": items, "settings": {}}, STRIP
        else:
            spec, cid = {"containers": [["c", 10, 10]], "items": items, "settings": {}}, "c"
        where = {tuple(x): j for j, x in enumerate(strategies)}

        def runner(self):
            inst = self.instance

            def fake(*a, **kw):
                j = where[tuple(inst.potential_points_strategy)]
                if vals[j] == -1:
                    raise ValueError("worker failure")
                lost = case["strip"] and case["incomplete"][j]
                inst.solution = {cid: {f"i{m}": [m, j, 1, 1] for m in range(k - (1 if lost else 0))}}
                inst.obj_val_per_container = {cid: vals[j]}

            inst.local_search = fake
            type(self).__mro__[1].run(self)

        prob, made, out = _with_workers(spec, k, strategies, runner)
        if not made:
            raise Skip("workers are created in another way")
        chunks = [[where[tuple(x)] for x in p.strategies_chunk] for p in made]
        good = [ch for ch in chunks if all(vals[j] != -1 for j in ch)]
        if not good:
            if out[0] == "ok" or out[1] != "MultiProcessError":
                raise Violation(f"all workers failed ({vals} in {chunks}), got {out}")
            return
        if out[0] != "ok":
            raise Violation(f"workers {chunks} with values {vals}: {out}")
        start = build(dict(spec, strategy=POINTS_DEFAULT()))
        start.solve()
        start = start.obj_val_per_container[cid]
        ok = [j for ch in good for j in ch if not (case["strip"] and case["incomplete"][j]) and vals[j] > start]
        best = max([vals[j] for j in ok] or [start])
        sol, util = copy_solution(prob)
        if util != {cid: best}:
            raise Violation(f"workers {chunks} with values {vals} (start {start}) published {util}")
        if ok:
            if prob.best_strategy is None:
                raise Violation(f"workers {chunks} with values {vals}: no best strategy")
            j = where.get(tuple(prob.best_strategy))
            if j not in ok or vals[j] != best or sol != {cid: {f"i{m}": [m, j, 1, 1] for m in range(k)}}:
                raise Violation(f"workers {chunks} with values {vals} published {sol} {util} {prob.best_strategy}")
    elif case["mode"] == "cells":
        # one worker on its own, next to others that have any values so far
        from multiprocessing import Array

        from hyperpack.processes import HyperSearchProcess

        vals, strategies = case["vals"], _strategies(len(case["vals"]))
        where = {tuple(x): j for j, x in enumerate(strategies)}
        settings, items = {"workers_num": 2}, {f"i{m}": {"w": 1, "l": 1} for m in range(2)}
        if case["strip"]:
            cid, conts, kw = STRIP, {STRIP: {"W": 10, "L": 100}}, {"strip_pack": True, "container_height": 100}
        else:
            cid, conts, kw = "c", {"c": {"W": 10, "L": 10}}, {}
        cells = Array("d", case["cells"])
        cells[case["index"]] = 0
        proc = HyperSearchProcess(case["index"], conts, items, settings, [tuple(x) for x in strategies], "p",
                                  time.time(), cells, **kw)
        inst = proc.instance

        def fake(*a, **kw):
            j = where[tuple(inst.potential_points_strategy)]
            inst.solution = {cid: {f"i{m}": [m, j, 1, 1] for m in range(1 if case["strip"] and case["incomplete"][j] else 2)}}
            inst.obj_val_per_container = {cid: vals[j]}

        inst.get_init_solution()
        start = inst.calculate_obj_value()
        inst.local_search = fake
        proc.run()
        out = proc.queue.get(timeout=10)
        ok = [v for v, lost in zip(vals, case["incomplete"]) if not (case["strip"] and lost) and v > start]
        best = max(ok or [start])
        if out[0] != best or dict(out[2]) != {cid: best}:
            raise Violation(f"a worker that starts at {start} and finds {vals} delivers {out}, others have {case['cells']}")
        want = [case["cells"][j] for j in range(4)]
        want[case["index"]] = best if ok else 0
        if list(cells) != want:
            raise Violation(f"a worker that finds {vals} leaves {list(cells)} in the shared array, {want} was expected")
    elif case["mode"] == "inline":
        import random as R

        spec = case["spec"]
        rng = R.Random(case["seed"])
        strategies = []
        for _ in range(case["strategies"]):
            t = list(POINTS_DEFAULT())
            rng.shuffle(t)
            if t not in strategies:
                strategies.append(t)
        prob, made, out = _with_workers(spec, k, strategies)
        if out[0] != "ok":
            raise Violation(f"multi process hypersearch failed: {out}")
        best = 0
        for t in strategies:
            p = build(dict(spec, strategy=t))
            p.local_search()
            best = max(best, p.calculate_obj_value())
        if prob.calculate_obj_value() < best - 1e-9:
            raise Violation(f"published value {prob.calculate_obj_value()}, a strategy alone gives {best}")
        chk_identity(prob, rotation_on(spec))
        chk_disjoint(prob)
        chk_contained(prob)
        chk_utils(prob)
    elif case["mode"] == "real":
        spec = case["spec"]
        strategies = _strategies(4)
        prob, made, out = _with_workers(spec, k, strategies, None, real=True)
        if out[0] != "ok":
            raise Violation(f"multi process hypersearch failed: {out}")
        chk_identity(prob, rotation_on(spec))
        chk_disjoint(prob)
        chk_contained(prob)
        chk_utils(prob)
        # as good as the best strategy tried alone (when improved)
        best = 0
        for s in strategies:
            p = build(dict(spec, strategy=s))
            p.local_search()
            if "strip" in spec and spec.get("min_height") is None and not _all_placed(
                len(spec["items"]), p.solution
            ):
                continue
            if "strip" in spec:
                continue
            best = max(best, p.calculate_obj_value())
        base = build(spec)
        base.potential_points_strategy = POINTS_DEFAULT()
        base.solve()
        if prob.calculate_obj_value() < base.calculate_obj_value() - 1e-9 and "strip" not in spec:
            raise Violation("result worse than the starting solve")
    elif case["mode"] == "payload":
        size = case["size"]
        spec = {"containers": [["c", 10, 10]], "items": [["i0", 1, 1]], "settings": {}}

        def runner(self):
            i = self.index
            self.shared_array[i] = 0.1 + i
            sol = {"c": {"i0": [0, 0, 1, 1]}}
            sol["pad"] = {f"x{j}": [0, 0, 1, 1] for j in range(size)}
            self.queue.put((0.1 + i, sol, {"c": 0.1 + i}, ["A"]))

        prob, made, out = _with_workers(spec, k, _strategies(4), runner, real=True)
        if out[0] != "ok":
            raise Violation(f"result of {size} entries: {out}")
        if prob.obj_val_per_container != {"c": 0.1 + (k - 1)}:
            raise Violation(f"winner not published: {prob.obj_val_per_container}")
    elif case["mode"] == "dead":
        spec = {"containers": [["c", 10, 10]], "items": [["i0", 1, 1]], "settings": {}}

        def runner(self):
            i = self.index
            if i == 0:
                raise_exit()
            self.shared_array[i] = 0.5
            self.queue.put((0.5, {"c": {"i0": [0, 0, 1, 1]}}, {"c": 0.5}, ["A"]))

        def raise_exit():
            os._exit(3)

        prob, made, out = _with_workers(spec, k, _strategies(4), runner, real=True)
        if out[0] != "ok" or prob.obj_val_per_container != {"c": 0.5}:
            raise Violation(f"one worker died: {out} {prob.obj_val_per_container}")


# ------------------------------------------------------------------ C13, C14, C17

BAD_DIM = [0, -1, -100, 1.5, "3", None, [1], {}]


def _rnd_value(rng, good=0.7, big=2**40):
    if rng.random() < good:
        return rng.choice([1, 2, 3, 5, 8, 13, big])
    return rng.choice(BAD_DIM)


def _rnd_dims(rng, keys, good=0.7):
    if rng.random() < good:
        return {k: _rnd_value(rng, 0.97, _big(keys)) for k in rng.sample(keys, 2)}
    r = rng.random()
    if r < 0.2:
        return {keys[0]: 3}
    if r < 0.3:
        return {}
    if r < 0.45:
        return {keys[0]: 2, keys[1]: 2, "h": 1}
    if r < 0.6:
        return {keys[0].swapcase(): 2, keys[1].swapcase(): 2}
    if r < 0.7:
        return rng.choice([None, [1, 2], "wl", 5])
    return {k: _rnd_value(rng, 0.4, _big(keys)) for k in keys}


def _big(keys):
    return 2**40 if "w" in keys else 40


def _rnd_id(rng, known, good=0.9):
    if rng.random() < good:
        return rng.choice(known + ["new0", "new1", ""])
    return rng.choice([1, None, 2.5, ["t", 1]])


def _rnd_structure(rng, keys, known):
    r = rng.random()
    if r < 0.1:
        return rng.choice([None, [], {}, "x", 3])
    out = []
    for _ in range(rng.randint(1, 4)):
        out.append([_rnd_id(rng, known, 0.96), _rnd_dims(rng, keys, 0.92)])
    return {"entries": out}


def _nearly_sorted(rng, spec):
    """items in the order of a criterion, but for one of them"""
    by = rng.choice(list(CRIT.values()))
    spec["items"].sort(key=lambda i: by(i[1], i[2]), reverse=rng.random() < 0.7)
    k = rng.randrange(len(spec["items"]))
    i = spec["items"].pop(k)
    spec["items"].insert(rng.choice([k, max(0, k - 1), len(spec["items"])]), i)


def gen_C13(rng):
    spec = gen_problem(rng, max_items=rng.choice([4, 4, 4, 9]), size=6, big_ok=False, strip=rng.random() < 0.25)
    ops = []
    for _ in range(rng.randint(1, 8)):
        tgt = rng.choice(["items", "items", "containers"])
        keys = ["w", "l"] if tgt == "items" else ["W", "L"]
        known = [i[0] for i in spec["items"]] if tgt == "items" else (
            [c[0] for c in spec["containers"]] if "containers" in spec else [STRIP])
        op = rng.choice(["assign", "entry", "entry", "dim", "dim", "dim", "del", "del", "deldim",
                         "update", "ior", "pop", "setdefault", "delall", "dimupdate", "dimior",
                         "solve", "new", "touch", "touch", "object"])
        o = {"op": op, "on": tgt}
        if op == "object":
            o["id"] = _rnd_id(rng, known, 0.97)
            o["source"] = rng.choice(["items", "containers"])
            o["how"] = rng.choice(["entry", "assign", "update", "setdefault"])
        if op in ("assign", "new"):
            o["value"] = _rnd_structure(rng, keys, known)
            if rng.random() < 0.3:
                o["shared"] = True
        elif op in ("entry", "setdefault"):
            o["id"], o["value"] = _rnd_id(rng, known), _rnd_dims(rng, keys)
        elif op == "dim":
            o["id"], o["key"], o["value"] = rng.choice(known), rng.choice(keys + ["x"]), _rnd_value(rng, 0.7, _big(keys))
        elif op in ("del", "pop"):
            o["id"] = _rnd_id(rng, known)
        elif op == "deldim":
            o["id"], o["key"] = rng.choice(known), rng.choice(keys)
        elif op in ("update", "ior"):
            o["value"] = {"entries": [[_rnd_id(rng, known), _rnd_dims(rng, keys)]]}
        elif op in ("dimupdate", "dimior"):
            o["id"], o["key"], o["value"] = rng.choice(known), rng.choice(keys + ["x"]), _rnd_value(rng, 0.7, _big(keys))
        ops.append(o)
    return {"spec": spec, "ops": ops}


def _hash_id(i):
    return tuple(i) if isinstance(i, list) else i


def _mk(value, shared=False):
    """the structure to be given; shared: the same dictionary for all entries"""
    if isinstance(value, dict) and "entries" in value:
        if shared and value["entries"]:
            d = value["entries"][0][1]
            return {_hash_id(i): d for i, _ in value["entries"]}
        return {_hash_id(i): d for i, d in value["entries"]}
    return value


def _touch(given):
    """the caller goes on using (and changing) the dictionaries it has given"""
    for v in given:
        for d in list(v.values()) if all(isinstance(x, dict) for x in v.values()) else [v]:
            if isinstance(d, dict):
                for k in list(d):
                    d[k] = -7
                d["y"] = 1
        if v and all(isinstance(x, dict) for x in v.values()):
            v.clear()
            v[3] = {}
    del given[:]


def _valid_dims(d, keys):
    return isinstance(d, dict) and set(d) == set(keys) and all(
        isinstance(v, int) and v > 0 for v in d.values())


def _valid_structure(v, keys):
    return isinstance(v, dict) and bool(v) and all(
        isinstance(i, str) and _valid_dims(d, keys) for i, d in v.items())


def _plain(struct):
    return {i: {k: struct[i][k] for k in struct[i]} for i in struct}


STRUCT_ERRORS = ("ContainersError", "ItemsError", "DimensionsError")


def _check_structures(prob, strip):
    for name, keys in (("items", ["w", "l"]), ("containers", ["W", "L"])):
        s = getattr(prob, name)
        if not _valid_structure(_plain(s), keys):
            raise Violation(f"{name} is no valid structure: {_plain(s)}")


def _apply(prob, o, strip):
    """Applies one operation. Returns (outcome, expected new plain structure or
    None when it must be rejected, allowed error names)."""
    tgt = o["on"]
    keys = ["w", "l"] if tgt == "items" else ["W", "L"]
    s = getattr(prob, tgt)
    cur = _plain(s)
    op = o["op"]
    locked = strip and tgt == "containers"
    errs = STRUCT_ERRORS
    new = None
    given = prob.__dict__.setdefault("_verif_given", [])
    if op == "assign":
        v = _mk(copy.deepcopy(o["value"]), o.get("shared"))
        if isinstance(v, dict):
            given.append(v)
        new = {i: dict(d) for i, d in v.items()} if _valid_structure(v, keys) else None
        out = call(setattr, prob, tgt, v)
    elif op == "delall":
        out = call(delattr, prob, tgt)
    elif op == "entry":
        i, d = _hash_id(o["id"]), copy.deepcopy(o["value"])
        if isinstance(d, dict):
            given.append(d)
        if isinstance(i, str) and _valid_dims(d, keys):
            new = dict(cur)
            new[i] = dict(d)
        out = call(s.__setitem__, i, d)
    elif op in ("update", "ior"):
        v = _mk(copy.deepcopy(o["value"]))
        given.append(v)
        (i, d), = v.items()
        if isinstance(i, str) and _valid_dims(d, keys):
            new = dict(cur)
            new[i] = dict(d)
        if op == "update":
            out = call(s.update, v)
        else:
            out = call(s.__ior__, v)
    elif op == "setdefault":
        i, d = _hash_id(o["id"]), o["value"]
        if i in cur:
            new = cur
            locked = False
        elif isinstance(i, str) and _valid_dims(d, keys):
            new = dict(cur)
            new[i] = dict(d)
        out = call(s.setdefault, i, d)
    elif op in ("del", "pop"):
        i = _hash_id(o["id"])
        if i not in cur:
            errs = STRUCT_ERRORS + ("KeyError",)
        elif len(cur) > 1:
            new = {k: v for k, v in cur.items() if k != i}
        out = call(s.__delitem__, i) if op == "del" else call(s.pop, i)
    else:
        i = o["id"]
        if i not in cur:
            raise Skip("")
        if op == "deldim":
            out = call(s[i].__delitem__, o["key"])
        else:
            if o["key"] in keys and isinstance(o["value"], int) and o["value"] > 0:
                new = {k: dict(v) for k, v in cur.items()}
                new[i][o["key"]] = o["value"]
            d = s[i]
            if op == "dim":
                out = call(d.__setitem__, o["key"], o["value"])
            elif op == "dimupdate":
                out = call(d.update, {o["key"]: o["value"]})
            else:
                out = call(d.__ior__, {o["key"]: o["value"]})
    if locked:
        new = None
    return out, cur, new, errs


def _apply_object(prob, o):
    """A Dimensions object of the problem itself, given as an entry: it is
    refused, or becomes an entry of its own; neither makes a structure invalid
    or ties two entries together."""
    s, i = getattr(prob, o["on"]), _hash_id(o["id"])
    keys = ["w", "l"] if o["on"] == "items" else ["W", "L"]
    d = next(iter(getattr(prob, o["source"]).values()))
    before = _plain(prob.items), _plain(prob.containers)
    had = i in s
    if o["how"] == "entry":
        out = call(s.__setitem__, i, d)
    elif o["how"] == "assign":
        out = call(setattr, prob, o["on"], {i: d})
    elif o["how"] == "update":
        out = call(s.update, {i: d})
    else:
        out = call(s.setdefault, i, d)
    after = _plain(prob.items), _plain(prob.containers)
    if out[0] != "ok":
        if out[1] not in STRUCT_ERRORS:
            raise Violation(f"{o} raised {out[1:]}")
        if after != before:
            raise Violation(f"rejected {o} changed the problem: {before} -> {after}")
        return
    s = getattr(prob, o["on"])
    if o["how"] == "setdefault" and had:
        return
    if not isinstance(i, str) or not _valid_dims(dict(d.data), keys):
        raise Violation(f"{o} accepted: {o['on']} now {_plain(s)}")
    if s[i] is d and o["how"] != "assign" and s is getattr(prob, o["source"]) and next(iter(s)) == i:
        return
    if s[i] is d or s[i].data is d.data:
        raise Violation(f"{o}: two entries share one set of dimensions")


def run_C13(case):
    prob = build(case["spec"])
    strip = "strip" in case["spec"]
    h = hp()
    for o in case["ops"]:
        if o["op"] == "object":
            _apply_object(prob, o)
            _check_structures(prob, strip)
            continue
        if o["op"] == "solve":
            prob.solve()
            _check_structures(prob, strip)
            continue
        if o["op"] == "touch":
            before = _plain(prob.items), _plain(prob.containers)
            _touch(prob.__dict__.get("_verif_given", []))
            if (_plain(prob.items), _plain(prob.containers)) != before:
                raise Violation(f"changing the dictionaries given earlier changed the problem: {before} -> "
                                f"{_plain(prob.items)}, {_plain(prob.containers)}")
            continue
        if o["op"] == "new":
            keys = ["w", "l"] if o["on"] == "items" else ["W", "L"]
            v = _mk(o["value"], o.get("shared"))
            kw = {"containers": {"c": {"W": 3, "L": 3}}, "items": {"a": {"w": 1, "l": 1}}}
            kw[o["on"]] = v
            out = call(h.HyperPack, **kw)
            good = _valid_structure(v, keys)
            if good != (out[0] == "ok"):
                raise Violation(f"constructor with {o['on']}={v!r}: {out[:2]}, valid={good}")
            if not good and out[1] not in STRUCT_ERRORS:
                raise Violation(f"constructor with {o['on']}={v!r} raised {out[1:]}")
            if good and _plain(getattr(out[1], o["on"])) != v:
                raise Violation(f"constructor stored {_plain(getattr(out[1], o['on']))} for {v}")
            continue
        try:
            other = {"items": "containers", "containers": "items"}[o["on"]]
            other_before = _plain(getattr(prob, other))
            out, cur, new, errs = _apply(prob, o, strip)
        except Skip:
            continue
        after = _plain(getattr(prob, o["on"]))
        if _plain(getattr(prob, other)) != other_before:
            raise Violation(f"{o} changed {other}")
        if new is None:
            if out[0] == "ok":
                raise Violation(f"{o} accepted; {o['on']} now {after}")
            if out[1] not in errs:
                raise Violation(f"{o} raised {out[1:]}, expected one of {errs}")
            if after != cur or list(after) != list(cur):
                raise Violation(f"rejected {o} changed {o['on']}: {cur} -> {after}")
        else:
            if out[0] != "ok":
                raise Violation(f"valid {o} rejected: {out[1:]}")
            if after != new:
                raise Violation(f"{o} gives {after}, expected {new}")
        _check_structures(prob, strip)


def gen_C14(rng):
    case = gen_C13(rng)
    if rng.random() < 0.3:
        _nearly_sorted(rng, case["spec"])
    extra = []
    for o in case["ops"]:
        if o["op"] in ("new", "solve", "touch", "object"):
            continue
        extra.append(o)
    for _ in range(rng.randint(0, 2)):
        if rng.random() < 0.5:
            extra.insert(rng.randint(0, len(extra)), {"op": "orient", "how": rng.choice(["wide", "long"])})
        else:
            extra.insert(rng.randint(0, len(extra)),
                         {"op": "sort", "by": [rng.choice(list(CRIT)), rng.random() < 0.5]})
    case["ops"] = extra
    return case


def run_C14(case):
    prob = build(case["spec"])
    strip = "strip" in case["spec"]
    for o in case["ops"]:
        prob.solve()
        before = {t: [(i, d) for i, d in _plain(getattr(prob, t)).items()] for t in ("items", "containers")}
        if o["op"] == "orient":
            prob.orient_items(o["how"])
            ok, must = True, None
        elif o["op"] == "sort":
            prob.sort_items(tuple(o["by"]))
            ok, must = True, None
        else:
            try:
                out, cur, new, errs = _apply(prob, o, strip)
            except Skip:
                continue
            ok = out[0] == "ok"
            must = ok and o["op"] != "setdefault"
        after = {t: [(i, d) for i, d in _plain(getattr(prob, t)).items()] for t in ("items", "containers")}
        if (ok and after != before) or must:
            if prob.solution != {} or prob.obj_val_per_container != {}:
                raise Violation(
                    f"{o} changed the problem but solution = {prob.solution},"
                    f" obj_val_per_container = {prob.obj_val_per_container}"
                )
        prob.solve()
        if list(prob.solution) != list(prob.containers):
            raise Violation(f"after {o} solution has containers {list(prob.solution)}")
        tot = prob.calculate_obj_value()
        want = expected_objective([prob.obj_val_per_container[c] for c in prob.containers])
        if not close(tot, want):
            raise Violation(
                f"after {o} the objective is {tot}, expected {want} for {prob.obj_val_per_container}")


def gen_C17(rng):
    w = rng.choice([1, 2, 3, 7])
    ops = []
    for _ in range(rng.randint(1, 10)):
        ops.append([
            rng.choice(["h", "h", "m", "m", "reset", "delh", "delm", "cassign", "centry", "cdim",
                        "cdel", "cupdate", "cior", "cdimupdate", "cdimior", "cpop", "local", "delc"]),
            rng.choice([1, 2, 3, 4, 10 * w, 10 * w + 1, 100, rng.randint(1, 12 * w)] + BAD_DIM)
            if rng.random() < 0.95 else rng.choice(BAD_DIM),
        ])
    return {"w": w, "ops": ops, "items": [["a", 1, 2], ["b", 1, 1]]}


def run_C17(case):
    w = case["w"]
    prob = build({"strip": w, "items": case["items"], "settings": {}})
    H, M = 10 * w, None
    cont0 = _plain(prob.containers)
    if prob.container_height != H or prob.container_min_height is not None:
        raise Violation(f"initial heights {prob.container_height}, {prob.container_min_height}")
    if list(cont0) != [STRIP] or cont0[STRIP]["W"] != w:
        raise Violation(f"strip container is {cont0}")
    for op, v in case["ops"]:
        posint = isinstance(v, int) and not isinstance(v, bool) and v >= 1
        out, good = None, None
        if op == "h":
            good = posint and (M is None or v >= M)
            out = call(setattr, prob, "container_height", v)
            if good:
                H = v
        elif op == "m":
            good = posint and v <= H
            out = call(setattr, prob, "container_min_height", v)
            if good:
                M = v
        elif op == "reset":
            prob.reset_container_height()
            H, M = 10 * w, None
        elif op == "delh":
            good, out = False, call(delattr, prob, "container_height")
        elif op == "delm":
            good, out = False, call(delattr, prob, "container_min_height")
        elif op == "local":
            prob.local_search()
            if prob.container_height > H:
                raise Violation(f"local_search raised container_height {H} -> {prob.container_height}")
            H = prob.container_height
        else:
            good = False
            c = prob.containers
            if op == "cassign":
                out = call(setattr, prob, "containers", {"c": {"W": 4, "L": 4}})
            elif op == "delc":
                out = call(delattr, prob, "containers")
            elif op == "centry":
                out = call(c.__setitem__, rndc(v), {"W": 4, "L": 4})
            elif op == "cdim":
                out = call(c[STRIP].__setitem__, "W" if v == 1 else "L", 4)
            elif op == "cdel":
                out = call(c.__delitem__, STRIP)
            elif op == "cpop":
                out = call(c.pop, STRIP)
            elif op == "cupdate":
                out = call(c.update, {rndc(v): {"W": 4, "L": 4}})
            elif op == "cior":
                out = call(c.__ior__, {rndc(v): {"W": 4, "L": 4}})
            elif op == "cdimupdate":
                out = call(c[STRIP].update, {"W": 4})
            elif op == "cdimior":
                out = call(c[STRIP].__ior__, {"W": 4})
        if out is not None:
            if good != (out[0] == "ok"):
                raise Violation(f"{op} {v!r} with heights {(H, M)}: {out[:2]}, valid={good}")
            if not good and out[1] not in STRUCT_ERRORS:
                raise Violation(f"{op} {v!r} raised {out[1:]}")
        if (prob.container_height, prob.container_min_height) != (H, M):
            raise Violation(
                f"{op} {v!r}: heights {(prob.container_height, prob.container_min_height)}, expected {(H, M)}")
        if _plain(prob.containers) != cont0:
            raise Violation(f"{op} changed the strip container: {_plain(prob.containers)}")


def rndc(v):
    return STRIP if v in (1, 2, 3) else "other"


# ------------------------------------------------------------------ C15


def gen_C15(rng):
    s = {}
    if rng.random() < 0.6:
        s["rotation"] = rng.choice([True, False, None, 1, 0, "True", [], "", 2.0])
        if rng.random() < 0.6:
            s["rotation"] = rng.choice([True, False])
    if rng.random() < 0.6:
        s["max_time_in_seconds"] = rng.choice([1, 5, 60, 3600, 0, -1, 1.5, "10", None, [1], 2.0])
        if rng.random() < 0.5:
            s["max_time_in_seconds"] = rng.choice([1, 2, 10, 100])
    if rng.random() < 0.6:
        s["workers_num"] = rng.choice([1, 2, 3, None, 0, -1, 1.5, "2", [2], 2.0, 400])
        if rng.random() < 0.5:
            s["workers_num"] = rng.choice([1, 2, 4])
    if rng.random() < 0.5:
        s["figure"] = _gen_figure(rng)
    if rng.random() < 0.1:
        s["unknown"] = 3
    if rng.random() < 0.06:
        s = rng.choice([[1], "settings", 5, True, {"rotation": False}])
    return {"settings": s, "via": rng.choice(["init", "setter", "validate"]),
            "cls": rng.choice(["HyperPack", "HyperPack", "PointGenPack"]),
            "installed": None if rng.random() < 0.7 else
            [rng.choice([None, "5.13.9", "5.2.0", "4.99.0", "5.14.0", "5.14.1", "5.24.1", "5.100.2"]),
             rng.choice([None, "0.2.0", "0.1.9", "0.2.1", "0.2.10", "0.2.1.post1", "0.2"])],
            "before": rng.choice([{}, {"rotation": False, "max_time_in_seconds": 7, "workers_num": 3}])}


def _gen_figure(rng):
    r = rng.random()
    if r < 0.08:
        return rng.choice([None, [], "x", 3, {}])
    f = {}
    if rng.random() < 0.5:
        f["show"] = rng.choice([True, False, True, False, 1, "yes", None])
    if rng.random() < 0.75:
        if rng.random() < 0.05:
            f["export"] = rng.choice([None, [], "html"])
        else:
            e = {"type": rng.choice(["html", "image", "image", "html", "pdf", None, 3]),
                 "path": rng.choice(["<dir>", "<dir>", "<dir>", "<dir>", "<dir>", "<file>", "<none>", 7, None]),
                 "format": rng.choice(["pdf", "png", "jpeg", "webp", "svg", "png", "gif", None, 4, ""]),
                 "file_name": rng.choice([None, "name", "a_b-C9", "x" * 45, "x" * 46, "a b", "a/b", "", 5,
                                          "é", "name.html"]),
                 "width": rng.choice([None, 1, 1700, 0, -5, 1.5, "7"]),
                 "height": rng.choice([None, 1, 1700, 0, -5, 1.5, "7"])}
            if rng.random() < 0.6:
                e["type"] = rng.choice(["html", "image"])
                e["path"] = "<dir>"
            if rng.random() < 0.5:
                e["file_name"] = rng.choice(["name", None])
                e["width"] = rng.choice([None, 5])
                e["height"] = rng.choice([None, 5])
            for k in list(e):
                if rng.random() < 0.08:
                    del e[k]
            f["export"] = e
    return f


def _enough(version, least):
    """the documented minimum, compared number by number"""
    if version is None:
        return False
    n = [int(re.match(r"\d*", x).group() or 0) for x in version.split(".")]
    return (n + [0, 0, 0])[:3] >= list(least)


def _installed(pair):
    """the session with these versions of plotly and kaleido"""
    if pair is None:
        return contextlib.nullcontext()
    return mock.patch.dict(sys.modules, {
        n: None if v is None else types.SimpleNamespace(__version__=v) for n, v in zip(("plotly", "kaleido"), pair)})


def _fig_valid(f, tmp, installed):
    if not isinstance(f, dict):
        return False
    if not f:
        return True
    if installed and not _enough(installed[0], (5, 14, 0)):
        return False
    if "export" in f:
        e = f["export"]
        if not isinstance(e, dict):
            return False
        if e.get("type") not in ("html", "image"):
            return False
        p = e.get("path")
        if not isinstance(p, str) or not os.path.isdir(p):
            return False
        fn = e.get("file_name")
        if fn is not None and (not isinstance(fn, str) or not re.fullmatch(r"[a-zA-Z0-9_-]{1,45}", fn)):
            return False
        if e["type"] == "image":
            if installed and not _enough(installed[1], (0, 2, 1)):
                return False
            if e.get("format") not in ("pdf", "png", "jpeg", "webp", "svg"):
                return False
            for k in ("width", "height"):
                v = e.get(k)
                if v is not None and (not isinstance(v, int) or v <= 0):
                    return False
    return isinstance(f.get("show", False), bool)


def _settings_valid(s, tmp, hyper, installed=None):
    if not isinstance(s, dict):
        return False
    if s.get("rotation") is not None and not isinstance(s["rotation"], bool):
        return False
    if hyper:
        m = s.get("max_time_in_seconds", 60)
        if not isinstance(m, int) or m < 1:
            return False
        wn = s.get("workers_num")
        if wn is not None and (not isinstance(wn, int) or wn < 1):
            return False
    if "figure" in s and not _fig_valid(s["figure"], tmp, installed):
        return False
    return True


def run_C15(case):
    h = hp()
    cls = getattr(h, case["cls"])
    hyper = case["cls"] == "HyperPack"
    with tempfile.TemporaryDirectory() as tmp:
        open(os.path.join(tmp, "file"), "w").close()

        def subst(x):
            if isinstance(x, dict):
                return {k: subst(v) for k, v in x.items()}
            return {"<dir>": tmp, "<file>": os.path.join(tmp, "file"),
                    "<none>": os.path.join(tmp, "missing")}.get(x, x) if isinstance(x, str) else x

        s = subst(json.loads(json.dumps(case["settings"])))
        inst = case.get("installed")
        good = _settings_valid(s, tmp, hyper, inst)
        kw = dict(containers={"c": {"W": 1, "L": 2}}, items={"a": {"w": 2, "l": 1}})
        prob = None
        if case["via"] == "init":
            with _installed(inst):
                out = call(cls, settings=s, **kw)
            if out[0] == "ok":
                prob = out[1]
        else:
            prob = cls(settings=dict(case["before"]), **kw)
            if case["via"] == "setter":
                with _installed(inst):
                    out = call(setattr, prob, "settings", s)
            else:
                if not isinstance(s, dict):
                    raise Skip("")
                prob.settings.clear()
                prob.settings.update(s)
                with _installed(inst):
                    out = call(prob.validate_settings)
        shown = case["settings"] if inst is None else (case["settings"], f"plotly {inst[0]}, kaleido {inst[1]}")
        if good != (out[0] == "ok"):
            raise Violation(f"settings {shown!r} via {case['via']}: {out[:2]}, valid={good}")
        if not good:
            if out[1] != "SettingsError":
                raise Violation(f"settings {shown!r} raised {out[1:]} instead of SettingsError")
            return
        rot = s.get("rotation")
        rot = True if rot is None else rot
        prob.solve()
        placed = bool(prob.solution["c"])
        if placed != rot:
            raise Violation(f"settings {shown!r}: rotation {rot} not in effect")
        if hyper:
            want = s.get("max_time_in_seconds", 60)
            _time_in_effect(prob, want, shown)
            wk = s.get("workers_num") or 1
            _workers_in_effect(prob, wk, shown)
        if prob.settings is not s and prob.settings != s:
            raise Violation(f"settings attribute is {prob.settings}, assigned {s}")


def _time_in_effect(prob, want, shown):
    """local_search must stop at the limit: fake clock, one second per solve."""
    h = hp()
    with Clock() as clock:
        n = 6
        prob.items = {f"i{i}": {"w": 1, "l": 1} for i in range(n)}
        times = []

        class T(type(prob)):
            def solve(self, sequence=None, debug=False):
                times.append(clock.now)
                c = list(self.containers)[0]
                self.solution = {c: {i: [0, j, 1, 1] for j, i in enumerate(self.items)}}
                self.obj_val_per_container = {c: 0.1}
                clock.now += want / 4 if len(times) > 1 else 0

        prob.__class__ = T
        try:
            prob.local_search()
        finally:
            prob.__class__ = T.__mro__[1]
        # 1 start solve + 4 neighbours of want/4 seconds each reach the limit
        if len(times) != 5:
            raise Violation(
                f"settings {shown!r}: limit {want}s not in effect, {len(times)-1} neighbours of {want/4}s")


def _workers_in_effect(prob, want, shown):
    called = []

    class T(type(prob)):
        def get_strategies(self, *, _exhaustive=True):
            return [tuple(s) for s in _strategies(3)]

        def _single_process_hypersearch(self, strategies, throttle):
            called.append("single")
            raise StopIteration

        def _multi_process_hypersearch(self, *a, **k):
            called.append("multi")
            raise StopIteration

    if not hasattr(prob, "_single_process_hypersearch") or not hasattr(prob, "_multi_process_hypersearch"):
        return
    prob.__class__ = T
    try:
        prob.hypersearch(orientation=None, sorting_by=None)
    except StopIteration:
        pass
    finally:
        prob.__class__ = T.__mro__[1]
    if called and called != (["single"] if want == 1 else ["multi"]):
        raise Violation(f"settings {shown!r}: {want} workers, hypersearch went {called}")
    if getattr(prob, "_workers_num", want) != want:
        raise Violation(f"settings {shown!r}: workers {prob._workers_num}, expected {want}")


# ------------------------------------------------------------------ C16


def gen_C16(rng):
    r = rng.random()
    if r < 0.4:
        pts = list(POINTS)
        rng.shuffle(pts)
        v = pts[: rng.randint(0, 10)]
        q = rng.random()
        if q < 0.3 and v:
            v.insert(rng.randint(0, len(v)), rng.choice(v))
        elif q < 0.5:
            v.insert(rng.randint(0, len(v)), rng.choice(["O", "", "a", "A___", "G", 1, None, 2.5, ["A"]]))
        return {"mode": "set", "value": v, "type": rng.choice(["tuple"] * 5 + ["list", "str", "none"])}
    if r < 0.97:
        spec = gen_problem(rng)
        return {"mode": "order", "spec": spec}
    return {"mode": "strategies", "strip": rng.random() < 0.5}


FIXED_C16 = [{"mode": "strategies", "strip": False}, {"mode": "strategies", "strip": True}]


def run_C16(case):
    h = hp()
    if case["mode"] == "set":
        prob = build({"containers": [["c", 3, 3]], "items": [["a", 1, 1]], "settings": {}})
        before = prob.potential_points_strategy
        v = [tuple(x) if isinstance(x, list) else x for x in case["value"]]
        val = {"tuple": tuple(v), "list": list(v), "str": "".join(map(str, v)), "none": None}[case["type"]]
        good = isinstance(val, tuple) and all(isinstance(x, str) and x in POINTS for x in val) and len(
            set(val)) == len(val)
        out = call(setattr, prob, "potential_points_strategy", val)
        if good != (out[0] == "ok"):
            raise Violation(f"strategy {val!r}: {out[:2]}, valid={good}")
        if good and prob.potential_points_strategy != val:
            raise Violation(f"strategy is {prob.potential_points_strategy} after assigning {val}")
        if not good:
            if out[1] != "PotentialPointsError":
                raise Violation(f"strategy {val!r} raised {out[1:]}")
            if prob.potential_points_strategy != before:
                raise Violation(f"rejected strategy {val!r} changed it to {prob.potential_points_strategy}")
        out = call(delattr, prob, "potential_points_strategy")
        if out[0] == "ok":
            raise Violation("potential_points_strategy can be deleted")
    elif case["mode"] == "strategies":
        spec = {"items": [["a", 1, 1]], "settings": {}}
        if case["strip"]:
            spec["strip"] = 3
        else:
            spec["containers"] = [["c", 3, 3]]
        prob = build(spec)
        st = prob.get_strategies()
        if len(set(map(tuple, st))) != len(st):
            raise Violation("strategies are not pairwise different")
        for s in st:
            if sorted(s) != sorted(POINTS):
                raise Violation(f"strategy {s} does not contain all points exactly once")
        tails = {tuple(s[6:]) for s in st}
        if len(tails) != 1 or len(st) != math.factorial(6):
            raise Violation(f"{len(st)} strategies with suffixes {tails}: not all orderings of the leading points")
        for s in prob.get_strategies(_exhaustive=False):
            if not isinstance(s, tuple) or any(x not in POINTS for x in s) or len(set(s)) != len(s):
                raise Violation(f"predefined strategy {s} invalid")
    else:
        spec = case["spec"]
        base = h.HyperPack
        if not hasattr(base, "_get_current_point"):
            raise Skip("no such function")
        seen = []

        class P(base):
            def _get_current_point(self, potential_points):
                pre = {k: list(v) if not isinstance(v, tuple) else v for k, v in potential_points.items()}
                out = super()._get_current_point(potential_points)
                seen.append((pre, out, {k: list(v) if not isinstance(v, tuple) else v
                                        for k, v in potential_points.items()}))
                return out

        prob = build(spec, P)
        prob.solve()
        strategy = prob.potential_points_strategy
        for pre, out, post in seen:
            want = next((c for c in strategy if pre[c]), None)
            point = pre[want][0] if want else None
            if out[0] != point or (want and out[1] != want):
                raise Violation(f"next point {out}, expected {point} of class {want}; points {pre}, strategy {strategy}")
            if want:
                pre = dict(pre)
                pre[want] = pre[want][1:]
            if post != pre:
                raise Violation(f"drawing {out} left the points {post}, expected {pre}")
        # points are appended in generation order, never reordered or dropped
        for (a, o1, post), (pre, o2, b) in zip(seen, seen[1:]):
            for c in POINTS:
                if c in post and pre.get(c) is not None and pre[c][: len(post[c])] != post[c]:
                    if len(prob.containers) == 1:
                        raise Violation(f"waiting points of class {c} changed: {post[c]} -> {pre[c]}")


# ------------------------------------------------------------------ C18, C19


def gen_C18(rng):
    spec = gen_problem(rng, max_items=8)
    spec["settings"] = rng.choice([{}, {"rotation": True}, {"rotation": False}, {"rotation": None}])
    how = rng.choice(["wide", "long", "wide", "long", None, "Wide", "", "tall", 3, "default"])
    return {"spec": spec, "how": how, "solve": rng.random() < 0.3, "twice": rng.random() < 0.2}


def run_C18(case):
    spec, how = case["spec"], case["how"]
    prob = build(spec)
    if case["solve"]:
        prob.solve()
    for _ in range(2 if case["twice"] else 1):
        if how == "default":
            prob.orient_items()
        else:
            prob.orient_items(how)
    eff = "wide" if how == "default" else how
    want = _orient(spec["items"], eff, rotation_on(spec))
    got = [[i, prob.items[i]["w"], prob.items[i]["l"]] for i in prob.items]
    if got != want:
        raise Violation(f"orient_items({how!r}) gives {got}, expected {want}")
    if [sorted(prob.items[i]) for i in prob.items] != [["l", "w"]] * len(want):
        raise Violation("item keys changed")


def gen_C19(rng):
    spec = gen_problem(rng, max_items=10)
    if rng.random() < 0.3:
        _nearly_sorted(rng, spec)
    by = rng.choice([None, "default"] + [[c, r] for c in CRIT for r in (True, False)] * 2
                    + [["bogus", True], ["Area", False], [None, True]])
    return {"spec": spec, "by": by, "solve": rng.random() < 0.3}


def run_C19(case):
    spec, by = case["spec"], case["by"]
    prob = build(spec)
    if case["solve"]:
        prob.solve()
    before = [[i, prob.items[i]["w"], prob.items[i]["l"]] for i in prob.items]
    if by is None:
        out = call(prob.sort_items, None)
    elif by == "default":
        out = call(prob.sort_items)
    else:
        out = call(prob.sort_items, tuple(by))
    after = [[i, prob.items[i]["w"], prob.items[i]["l"]] for i in prob.items]
    eff = ["area", True] if by == "default" else by
    if eff is not None and eff[0] not in CRIT:
        if out[0] == "ok" or out[1] != "NotImplementedError":
            raise Violation(f"unknown criterion {eff}: {out}")
        if after != before:
            raise Violation(f"unknown criterion changed the items: {before} -> {after}")
        return
    if out[0] != "ok":
        raise Violation(f"sort_items({by}) failed: {out}")
    if eff is None:
        if after != before:
            raise Violation(f"sort_items(None) changed the items: {after}")
        return
    if sorted(after) != sorted(before):
        raise Violation(f"sort_items({by}) changed the items: {before} -> {after}")
    vals = [CRIT[eff[0]](w, l) for _, w, l in after]
    if vals != sorted(vals, reverse=eff[1]):
        raise Violation(f"sort_items({by}) orders {after} with values {vals}")


# ------------------------------------------------------------------ C20


def gen_C20(rng):
    spec = gen_problem(rng)
    if rng.random() < 0.5:
        spec["cls"] = "PointGenPack"
    case = {"spec": spec, "op": rng.choice(["solve", "solve", "solve", "none", "local_search", "partial"])}
    if spec["cls"] == "PointGenPack" and case["op"] == "local_search":
        case["op"] = "solve"
    if case["op"] == "local_search" and (len(spec["items"]) > 6):
        case["op"] = "solve"
    if rng.random() < 0.2 and all(i[0].startswith("i") for i in spec["items"]):
        # ids are any strings
        for k, i in enumerate(spec["items"]):
            i[0] = rng.choice(["i%d", "i'%d", 'i"%d', "%d", "i %d, i", "[i%d]", "i%%%d", "{i%d}", "\\i%d", "é%d", "'%d'"]) % k
    return case


def run_C20(case):
    spec = case["spec"]
    prob = build(spec)
    ids = [i[0] for i in spec["items"]]
    if case["op"] == "none":
        out = call(prob.log_solution)
        if out != ("ok", None):
            raise Violation(f"log_solution without a solution: {out}")
        return
    if case["op"] == "partial":
        prob.solve(sequence=ids[: max(1, len(ids) // 2)])
    elif case["op"] == "local_search":
        prob.local_search()
    else:
        prob.solve()
    out = call(prob.log_solution)
    if out[0] != "ok":
        raise Violation(f"log_solution failed for {prob.solution}: {out}")
    text = out[1]
    placed = {i for s in prob.solution.values() for i in s}
    m = re.search(r"stored\s*:\s*([\d.]+)%", text)
    pct = 100 * len(placed) / len(ids)
    if not m or abs(float(m.group(1)) - pct) > 1e-3:
        raise Violation(f"log says {m and m.group(1)}% stored, {pct}% are: {text!r}")
    m = re.search(r"Remaining items\s*:\s*(.*)", text)
    rem = [i for i in ids if i not in placed]
    try:
        said = sorted(ast.literal_eval(m.group(1)))
    except Exception:  # noqa
        said = sorted(re.findall(r"i\d+", m.group(1))) if m else None
    if said != sorted(rem):
        raise Violation(f"log says remaining {m and m.group(1)}, unplaced are {rem}")
    strip = "strip" in spec
    parts = re.split(r"Container:\s*", text)[1:]
    if len(parts) != len(prob.containers):
        raise Violation(f"log has {len(parts)} containers: {text!r}")
    for c, part in zip(prob.containers, parts):
        sol = prob.solution[c]
        W = prob.containers[c]["W"]
        stack = max([v[1] + v[3] for v in sol.values()] or [0])
        L = prob.containers[c]["L"]
        if strip:
            L = max(stack, prob.container_min_height or 0)
        m = re.match(r"(\S+)\s+(\d+)x(\d+)", part)
        if not m or m.group(1) != c or (int(m.group(2)), int(m.group(3))) != (W, L):
            raise Violation(f"log says container {part.splitlines()[0]!r}, it is {c} {W}x{L}")
        m = re.search(r"util%\]\s*:\s*([\d.]+)", part)
        area = sum(v[2] * v[3] for v in sol.values())
        want = 100 * area / (W * L) if L else 0.0
        if not m or abs(float(m.group(1)) - want) > 1e-3:
            raise Violation(f"log says utilization {m and m.group(1)}, it is {want}: {part!r}")
        if strip:
            m = re.search(r"max height\]\s*:\s*(\d+)", part)
            if m and int(m.group(1)) != stack:
                raise Violation(f"log says max height {m.group(1)}, it is {stack}")


# ------------------------------------------------------------------ C21


def gen_C21(rng):
    spec = gen_problem(rng, max_items=6)
    if rng.random() < 0.5:
        spec["cls"] = "PointGenPack"
    fig = {}
    if rng.random() < 0.5:
        fig["show"] = rng.choice([True, False])
    if rng.random() < 0.5:
        kind = rng.choice(["html", "image"])
        fig["export"] = {"type": kind, "format": rng.choice(["pdf", "png", "jpeg", "webp", "svg"])}
        if kind == "html" and rng.random() < 0.5:
            del fig["export"]["format"]
        if rng.random() < 0.5:
            fig["export"]["file_name"] = rng.choice(["fig-1", "a_B"])
        for k in ("width", "height"):
            if rng.random() < 0.3:
                fig["export"][k] = rng.choice([None, 5, 1700])
    case = {"spec": spec, "figure": fig if fig or rng.random() < 0.5 else None,
            "show": rng.choice([None, True, False]), "solved": rng.random() < 0.9,
            "colors": rng.choice([None, None, 3]), "calls": rng.choice([1, 1, 2])}
    if rng.random() < 0.005:
        case["grid"] = rng.randint(50, 150)
    return case


def run_C21(case):
    import plotly.graph_objects as go
    import hyperpack.constants as constants

    spec = case["spec"]
    log = []
    saved = {k: getattr(go.Figure, k) for k in ("show", "write_html", "write_image")}
    colors = constants.ITEMS_COLORS
    if case["colors"]:
        constants.ITEMS_COLORS = colors[: case["colors"]]
    go.Figure.show = lambda self, *a, **k: log.append(("show", self, None))
    go.Figure.write_html = lambda self, path, *a, **k: log.append(("html", self, str(path)))
    go.Figure.write_image = lambda self, path, *a, **k: log.append(("image", self, str(path)))
    try:
        with tempfile.TemporaryDirectory() as tmp:
            st = dict(spec["settings"])
            f = case["figure"]
            if f is not None:
                f = dict(f)
                if "export" in f:
                    f["export"] = dict(f["export"], path=tmp)
                st["figure"] = f
            export = case["figure"] and case["figure"].get("export")
            prob = build(dict(spec, settings=st))
            if case["solved"]:
                prob.solve()
                if case.get("grid"):
                    # a large solution, given as such: the items in a row of squares
                    n = case["grid"]
                    first = list(prob.containers)[0]
                    prob.solution[first] = {f"g{i}": [i, i % 3, 1, 1] for i in range(n)}
            shows = bool(case["show"]) or bool(case["figure"] and case["figure"].get("show"))
            for _ in range(case["calls"]):
                del log[:]
                out = call(prob.create_figure, **({} if case["show"] is None else {"show": case["show"]}))
                if out[0] != "ok":
                    raise Violation(f"create_figure failed: {out[1:]} for {prob.solution}")
                how = f"figure settings {case['figure']}, show={case['show']}, solved={case['solved']}"
                if not case["solved"] or not (shows or export):
                    if log:
                        raise Violation(f"{how}: produced a figure")
                    continue
                for kind, wanted in (("show", shows), ("html", export and export["type"] == "html"),
                                     ("image", export and export["type"] == "image")):
                    figs = [g for k, g, _ in log if k == kind]
                    if not wanted:
                        if figs:
                            raise Violation(f"{how}: unwanted {kind}")
                        continue
                    _check_figs(prob, figs, "strip" in spec)
                    if kind != "show":
                        name = export.get("file_name") or "PlotlyGraph"
                        ext = "html" if kind == "html" else export["format"]
                        want = [os.path.join(tmp, f"{name}__{c}.{ext}") for c in prob.containers]
                        if [p for k, _, p in log if k == kind] != want:
                            raise Violation(f"{how}: exported {[p for k, _, p in log if k == kind]}, expected {want}")
    finally:
        for k, v in saved.items():
            setattr(go.Figure, k, v)
        constants.ITEMS_COLORS = colors


def _check_figs(prob, figs, strip):
    if len(figs) != len(prob.containers):
        raise Violation(f"{len(figs)} figures for {len(prob.containers)} containers")
    for c, fig in zip(prob.containers, figs):
        sol = prob.solution[c]
        W = prob.containers[c]["W"]
        L = prob.containers[c]["L"]
        if strip:
            L = max(max([v[1] + v[3] for v in sol.values()] or [0]), prob.container_min_height or 0)
        if c not in str(fig.layout.title.text):
            raise Violation(f"figure titled {fig.layout.title.text} for container {c}")
        rects = [(s.x0, s.y0, s.x1, s.y1, s.label.text) for s in fig.layout.shapes if s.type == "rect"]
        want = sorted(
            [(x, y, x + w, y + l, i) for i, (x, y, w, l) in sol.items()], key=str
        )
        got = sorted([r for r in rects if r[4] is not None], key=str)
        if got != want:
            raise Violation(f"figure of {c} shows items {got}, solution has {want}")
        outline = [r[:4] for r in rects if r[4] is None]
        if outline != [(0, 0, W, L)]:
            raise Violation(f"figure of {c} has outline {outline}, container is {W}x{L}")
        for axis, size in ((fig.layout.xaxis, W), (fig.layout.yaxis, L)):
            if axis.range is not None and not (axis.range[0] <= 0 and size <= axis.range[1]):
                raise Violation(f"figure of {c} ({W}x{L}) shows {axis.range} only")
        traces = sorted(
            [(min(t.x), min(t.y), max(t.x), max(t.y)) for t in fig.data], key=str)
        if traces and traces != sorted([r[:4] for r in want], key=str):
            raise Violation(f"figure of {c} has corner traces {traces}, items {want}")


# ------------------------------------------------------------------ C22


def gen_C22(rng):
    p = {}
    for k in ("containers_num", "items_num"):
        if rng.random() < 0.7:
            p[k] = rng.randint(1, 5)
    for k in ("containers_length", "containers_width", "items_length", "items_width"):
        if rng.random() < 0.75:
            p[k] = rng.choice([1, 2, 3, 4, 5, 6, 9, 10, 15, 25, 100, rng.randint(1, 200)])
    return {"params": p, "rand": rng.choice(["lo", "hi", "real", "real"]), "seed": rng.randint(0, 10**6)}


def run_C22(case):
    import random as R

    h = hp()
    p = case["params"]
    saved = R.randint
    state = R.getstate()
    R.seed(case["seed"])
    ranges = []

    def fake(a, b):
        if a > b:
            return saved(a, b)
        ranges.append((a, b))
        return {"lo": a, "hi": b}[case["rand"]]

    if case["rand"] != "real":
        R.randint = fake
    try:
        with quiet():
            out = call(h.generate_problem_data, **p)
    finally:
        R.randint = saved
        R.setstate(state)
    if out[0] != "ok":
        raise Violation(f"generate_problem_data(**{p}) failed: {out[1:]}")
    data = out[1]
    cn = p.get("containers_num", 1)
    if len(data["containers"]) != cn or len(data["items"]) != cn * p.get("items_num", 30):
        raise Violation(f"{p}: {len(data['containers'])} containers, {len(data['items'])} items")

    def near(v, avg, frac, least):
        dev = max(round(avg * frac), least)
        return isinstance(v, int) and v >= 1 and abs(v - avg) <= dev

    for c, d in data["containers"].items():
        if not isinstance(c, str) or set(d) != {"W", "L"} or not near(
            d["W"], p.get("containers_width", 50), 0.1, 0
        ) or not near(d["L"], p.get("containers_length", 50), 0.1, 0):
            raise Violation(f"{p}: container {c} {d}")
    for c, d in data["items"].items():
        if not isinstance(c, str) or set(d) != {"w", "l"} or not near(
            d["w"], p.get("items_width", 5), 0.6, 1
        ) or not near(d["l"], p.get("items_length", 3), 0.6, 1):
            raise Violation(f"{p}: item {c} {d}")
    out = call(h.HyperPack, containers=data["containers"], items=data["items"])
    if out[0] != "ok":
        raise Violation(f"{p}: generated data rejected: {out[1:]}")
