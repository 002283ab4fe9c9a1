"""Shared helpers of the run-time contract checks.

Everything here runs the real package, imported from the repository root given
by $VERIF_REPO (default /repo), and looks at it from outside: the oracles are
written from the statements in properties.jsonl, not from the code.
"""
import contextlib
import io
import logging
import math
import os
import random
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)

POINTS = ("A", "B", "C", "D", "A_", "B_", "B__", "A__", "E", "F")
STRIP = "strip-pack-container"


class Violation(Exception):
    """the property is broken; the message says how"""


class Skip(Exception):
    """the case says nothing about the property"""


def hp():
    import hyperpack

    return hyperpack


# ----------------------------------------------------------------- generators


def rnd_dim(rng, hi):
    r = rng.random()
    if r < 0.12:
        return 1
    if r < 0.2:
        return hi
    return rng.randint(1, hi)


def rnd_strategy(rng):
    r = rng.random()
    if r < 0.15:
        return None
    pts = list(POINTS)
    rng.shuffle(pts)
    if r > 0.85:
        pts = pts[: rng.randint(0, 10)]
    return pts


def gen_problem(rng, strip=None, max_items=9, size=None, containers=None, big_ok=True):
    """A problem instance as plain JSON data."""
    if strip is None:
        strip = rng.random() < 0.3
    r = rng.random()
    if size is None:
        if big_ok and r > 0.985:
            size = rng.choice([70, 120, 300])
        elif big_ok and r > 0.9:
            size = rng.choice([20, 40])
        else:
            size = rng.choice([2, 3, 4, 5, 6, 8, 10, 12])
    n = rng.randint(1, max_items)
    if big_ok and rng.random() > 0.985:
        n = rng.randint(20, 60)
    spec = {"cls": "HyperPack", "settings": {}}
    if strip:
        w = rnd_dim(rng, size)
        spec["strip"] = w
        hgt = rng.random()
        if hgt < 0.4:
            spec["height"] = rnd_dim(rng, 2 * size)
        if rng.random() < 0.25:
            top = spec.get("height", 10 * w)
            spec["min_height"] = rng.randint(1, max(1, top if rng.random() < 0.3 else max(1, top // 3)))
    else:
        k = containers or rng.choice([1, 1, 1, 2, 2, 3])
        spec["containers"] = [
            [f"c{i}", rnd_dim(rng, size), rnd_dim(rng, size)] for i in range(k)
        ]
        if rng.random() < 0.06:
            # accepted, and without a meaning here
            spec["bin_height"] = rnd_dim(rng, 3 * size)
        elif rng.random() < 0.02:
            spec["containers"][rng.randrange(k)][0] = STRIP
    style = rng.random()
    items = []
    for i in range(n):
        if style < 0.15:
            w, l = rng.randint(1, max(1, size // 2)), 1
            if rng.random() < 0.5:
                w, l = l, w
        elif style < 0.3:
            w, l = rng.randint(1, max(1, size // 3)), rng.randint(1, max(1, size // 3))
        elif style < 0.36:
            w, l = rnd_dim(rng, size + 2), rnd_dim(rng, size + 2)
        else:
            w, l = rnd_dim(rng, size), rnd_dim(rng, size)
            if rng.random() < 0.3:
                w = max(1, w // 2)
            if rng.random() < 0.3:
                l = max(1, l // 2)
        items.append([f"i{i}", w, l])
    if rng.random() < 0.5:
        rng.shuffle(items)
    if rng.random() < 0.08:
        # ids are any strings
        form = rng.choice(["i'%d", "%d", "i %d", "[i%d]", "i%%%d", "{%d}", "é%d", "i%d\n", "", "a", "i-1"])
        for k, i in enumerate(items):
            i[0] = form % k if "%d" in form else form + "a" * k
    spec["items"] = items
    rot = rng.random()
    if rot < 0.35:
        spec["settings"]["rotation"] = False
    elif rot < 0.6:
        spec["settings"]["rotation"] = rng.choice([True, True, None])
    s = rnd_strategy(rng)
    if s is not None:
        spec["strategy"] = s
    return spec


def build(spec, cls=None):
    h = hp()
    cls = cls or getattr(h, spec.get("cls", "HyperPack"))
    items = {i: {"w": w, "l": l} for i, w, l in spec["items"]}
    kw = {"items": items, "settings": dict(spec.get("settings") or {})}
    if "strip" in spec:
        prob = cls(strip_pack_width=spec["strip"], **kw)
        if "height" in spec:
            prob.container_height = spec["height"]
        if "min_height" in spec:
            prob.container_min_height = spec["min_height"]
    else:
        prob = cls(
            containers={c: {"W": W, "L": L} for c, W, L in spec["containers"]}, **kw
        )
        if "bin_height" in spec:
            call(setattr, prob, "container_height", spec["bin_height"])
    if "strategy" in spec:
        prob.potential_points_strategy = tuple(spec["strategy"])
    return prob


def rotation_on(spec):
    return spec.get("settings", {}).get("rotation") is not False


def run_ops(prob, spec, ops, after):
    """Runs solving operations; `after(op, height_before)` is called after each."""
    for op in ops:
        height = prob.container_height
        if op == "solve":
            prob.solve()
        elif op == "debug":
            prob.solve(debug=True)
        elif op[0] == "solve_seq":
            prob.solve(sequence=list(op[1]))
        elif op == "local_search":
            prob.local_search()
        elif op == "hypersearch":
            prob.hypersearch(_exhaustive=False)
        elif op == "hypersearch_plain":
            prob.hypersearch(orientation=None, sorting_by=None, _exhaustive=False)
        else:
            raise AssertionError(op)
        after(op, height)


def gen_ops(rng, spec, heavy=0.25):
    n = len(spec["items"])
    size = max([x for i in spec["items"] for x in i[1:]] + [1])
    ops = []
    if rng.random() < 0.12:
        ops.append("debug")
    else:
        ops.append("solve")
    if rng.random() < 0.25:
        seq = [i[0] for i in spec["items"]]
        rng.shuffle(seq)
        ops.append(["solve_seq", seq])
    if n <= 7 and size <= 40 and rng.random() < heavy:
        ops.append("local_search")
        if rng.random() < 0.3:
            ops.append("solve")
    if n <= 5 and size <= 20 and rng.random() < heavy / 2:
        ops.append(rng.choice(["hypersearch", "hypersearch_plain"]))
    if all(isinstance(o, list) or o in ("solve", "debug") for o in ops) and rng.random() < 0.15:
        spec["cls"] = "PointGenPack"
    return ops


# -------------------------------------------------------------------- oracles


def dims_of(prob):
    """(container id -> (W, L in force), item id -> (w, l)) as seen by a user"""
    cont = {}
    for c in prob.containers:
        W = prob.containers[c]["W"]
        L = prob.containers[c]["L"]
        cont[c] = (W, L)
    items = {i: (prob.items[i]["w"], prob.items[i]["l"]) for i in prob.items}
    return cont, items


def is_strip(prob):
    return STRIP in prob.containers and prob.container_height is not None


def chk_contained(prob, height=None):
    cont, _ = dims_of(prob)
    strip = is_strip(prob)
    for c, sol in prob.solution.items():
        W, L = cont[c]
        if strip:
            L = height if height is not None else prob.container_height
        for i, (x, y, w, l) in sol.items():
            if not (x >= 0 and y >= 0 and w >= 1 and l >= 1 and x + w <= W and y + l <= L):
                raise Violation(
                    f"item {i} placed at [x={x}, y={y}, w={w}, l={l}] is not inside"
                    f" container {c} of {W}x{L}"
                )


def chk_disjoint(prob):
    for c, sol in prob.solution.items():
        seen = list(sol.items())
        for a in range(len(seen)):
            ia, (xa, ya, wa, la) = seen[a]
            for b in range(a):
                ib, (xb, yb, wb, lb) = seen[b]
                if xa < xb + wb and xb < xa + wa and ya < yb + lb and yb < ya + la:
                    raise Violation(
                        f"items {ia} {sol[ia]} and {ib} {sol[ib]} overlap in {c}"
                    )


def chk_identity(prob, rotation):
    cont, items = dims_of(prob)
    if list(prob.solution) and set(prob.solution) != set(cont):
        raise Violation(f"solution has entries {list(prob.solution)} for containers {list(cont)}")
    if not prob.solution:
        raise Violation("solution is empty after solving")
    seen = {}
    for c, sol in prob.solution.items():
        for i, v in sol.items():
            if i not in items:
                raise Violation(f"unknown item {i} in solution")
            if i in seen:
                raise Violation(f"item {i} placed in {seen[i]} and {c}")
            seen[i] = c
            if len(v) != 4:
                raise Violation(f"item {i} has value {v}")
            w, l = v[2], v[3]
            if (w, l) != items[i] and not (rotation and (l, w) == items[i]):
                raise Violation(
                    f"item {i} {items[i]} placed with dimensions {(w, l)}, rotation={rotation}"
                )


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def expected_utils(prob):
    cont, _ = dims_of(prob)
    strip = is_strip(prob)
    out = {}
    for c in cont:
        sol = prob.solution[c]
        area = sum(v[2] * v[3] for v in sol.values())
        if strip:
            h = max([v[1] + v[3] for v in sol.values()] or [0])
            out[c] = area / (cont[c][0] * h) if h else 0.0
        else:
            out[c] = area / (cont[c][0] * cont[c][1])
    return out


def expected_objective(vals):
    vals = list(vals)
    if len(vals) == 1:
        return vals[0]
    return sum(vals[:-1]) + 0.7 * vals[-1]


def chk_utils(prob):
    exp = expected_utils(prob)
    got = prob.obj_val_per_container
    if list(got) != list(exp) and set(got) != set(exp):
        raise Violation(f"obj_val_per_container keys {list(got)}, containers {list(exp)}")
    for c in exp:
        if not close(got[c], exp[c]):
            raise Violation(
                f"obj_val_per_container[{c}] = {got[c]}, placed area ratio = {exp[c]};"
                f" solution {prob.solution[c]}"
            )
    if hasattr(prob, "calculate_obj_value"):
        tot = prob.calculate_obj_value()
        want = expected_objective([exp[c] for c in prob.containers])
        if not close(tot, want):
            raise Violation(f"objective value {tot}, expected {want} from {got}")


def chk_empty(prob, rotation):
    cont, items = dims_of(prob)
    strip = is_strip(prob)
    order = list(cont)
    where = {i: c for c, s in prob.solution.items() for i in s}
    for n, c in enumerate(order):
        if prob.solution.get(c):
            continue
        W, L = cont[c]
        if strip:
            L = prob.container_height
        later = set(order[n + 1:])
        for i, (w, l) in items.items():
            if i in where and where[i] not in later:
                continue
            if (w <= W and l <= L) or (rotation and l <= W and w <= L):
                raise Violation(
                    f"container {c} ({W}x{L}) is empty although item {i} {w}x{l}"
                    f" (placed: {where.get(i)}) fits it, rotation={rotation}"
                )


def snapshot(prob):
    cont, items = dims_of(prob)
    return (
        list(cont.items()),
        list(items.items()),
        [list(prob.items[i].items()) for i in prob.items],
        repr(prob.settings),
    )


def result(prob):
    return (
        [(c, [(i, list(v)) for i, v in s.items()]) for c, s in prob.solution.items()],
        list(prob.obj_val_per_container.items()),
    )


def copy_solution(prob):
    return (
        {c: {i: list(v) for i, v in s.items()} for c, s in prob.solution.items()},
        dict(prob.obj_val_per_container),
    )


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def call(f, *a, **k):
    """('ok', value) or ('err', exception class name, message)"""
    try:
        return ("ok", f(*a, **k))
    except Violation:
        raise
    except Exception as e:  # noqa
        return ("err", type(e).__name__, str(e))
