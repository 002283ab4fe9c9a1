"""Discharging of proof obligations with z3 (and cvc5 for cross-checking)."""
import time

import z3

from core import *  # noqa
import core

THOROUGH = False    # cross-check with cvc5
HYPS = False        # look for contradictory hypotheses of every obligation
STATS = {"queries": 0, "time": 0.0, "unsat": 0, "other": 0}


_keep = []
_nodes = {}
_EMPTY = frozenset()
INTEREST = set()


def _union(a, c):
    return c if a is _EMPTY or a <= c else a if c <= a else a | c


def symof(f):
    """names of interest in a term: axiom heads, literals and sums; every node
    is visited once for all queries"""
    i = f.get_id()
    r = _nodes.get(i)
    if r is not None:
        return r
    _keep.append(f)
    todo = [f]
    while todo:
        t = todo[-1]
        i = t.get_id()
        if i in _nodes:
            todo.pop()
            continue
        if z3.is_quantifier(t):
            kids = [t.body()]
            _keep.append(kids[0])
        else:
            kids = t.children() if z3.is_app(t) else []
        new = [k for k in kids if k.get_id() not in _nodes]
        if new:
            _keep.extend(new)
            todo.extend(new)
            continue
        out = _EMPTY
        for k in kids:
            out = _union(out, _nodes[k.get_id()])
        if z3.is_app(t):
            nm = t.decl().name()
            if nm in INTEREST or nm in SUMS or nm.startswith("str!"):
                out = _union(out, frozenset((nm,)))
        _nodes[i] = out
        todo.pop()
    return _nodes[f.get_id()]


def symbols(fs):
    out = set()
    for f in fs:
        s = symof(f)
        if s:
            out |= s
    return out


def _all_symbols(fs):
    seen, names, todo = set(), set(), list(fs)
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            names.add(t.decl().name())
            todo.extend(t.children())
    return names


_axiom_syms = None


def relevant_axioms(fs):
    global _axiom_syms
    if _axiom_syms is None:
        _axiom_syms = []
        for a in core.BASE_AXIOMS:
            if z3.is_quantifier(a) and a.num_patterns():
                p = a.pattern(0)
                heads = {c.decl().name() for c in p.children()}
            else:
                heads = _all_symbols([a]) & {"tag"}
            _axiom_syms.append((a, heads, _all_symbols([a])))
    if not INTEREST:
        for _, h, _n in _axiom_syms:
            INTEREST.update(h)
        INTEREST.update(("tag", "truthy", "DIV"))
        _nodes.clear()
    names = symbols(fs)
    out, added = [], True
    pending = list(_axiom_syms)
    while added:
        added = False
        for item in list(pending):
            a, heads, syms = item
            if heads <= names:
                out.append(a)
                names |= syms
                pending.remove(item)
                added = True
    if any(n.startswith("str!") for n in names):
        ts = [(s, t) for s, t in core._lits.items() if ("str!" + s) in names]
        if "tag" in names or "truthy" in names:
            for s, t in ts:
                out.append(core.tag(t) == core.TAGS["str"])
                out.append(core.truthyV(t) == (s != ""))
            if "tag" not in names:
                pass
        if len(ts) > 1:
            out.append(z3.Distinct(*[t for _, t in ts]))
    return out


class SumRec:
    """prefix sums P(amb, i) = f(0) + ... + f(i-1); f may mention amb"""

    def __init__(self, name, fn, amb, f):
        self.name, self.fn, self.amb, self.f = name, fn, list(amb), f

    def at(self, args, i):
        return self.fn(*args, i)

    def term(self, args, i):
        t = self.f(i)
        pairs = [(a, x) for a, x in zip(self.amb, args) if not a.eq(x)]
        return z3.substitute(t, *pairs) if pairs else t


class FoldRec:
    """F(amb, 0) = x0, F(amb, i+1) = step(i); step mentions F(amb, i)"""

    def __init__(self, name, fn, amb, x0, step):
        self.name, self.fn, self.amb, self.x0, self.step = name, fn, list(amb), x0, step

    def sub(self, t, args):
        pairs = [(a, x) for a, x in zip(self.amb, args) if not a.eq(x)]
        return z3.substitute(t, *pairs) if pairs else t


SUMS = {}


def has_var(t, memo):
    i = t.get_id()
    if i in memo:
        return memo[i]
    if z3.is_var(t):
        r = True
    elif z3.is_quantifier(t):
        r = True
    else:
        r = any(has_var(c, memo) for c in t.children())
    memo[i] = r
    return r


def div_lemmas(fs):
    """ground facts about the quotients of the query"""
    fs = [f for f in fs if "DIV" in symof(f)]
    if not fs:
        return []
    occ, memo, seen, todo = {}, {}, set(), list(fs)
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.decl().name() == "DIV" and not has_var(t, memo):
                occ[i] = t
            todo.extend(t.children())
    out, ts = [], list(occ.values())
    for q in ts:
        a, c = q.arg(0), q.arg(1)
        out.append(z3.Implies(c != 0, q * c == a))
        out.append(z3.Implies(z3.And(c != 0, a == 0), q == 0))
        out.append(z3.Implies(z3.And(c > 0, a >= 0), q >= 0))
    if len(ts) <= 8:
        for x in range(len(ts)):
            for y in range(x + 1, len(ts)):
                (a, c), (d, e) = ts[x].children(), ts[y].children()
                out.append(z3.Implies(z3.And(c == e, c != 0), ts[x] + ts[y] == core.DIV(a + d, c)))
    return out


def extra_lemmas(fs):
    return sum_lemmas(fs) + div_lemmas(fs)


def sum_terms(fs, known):
    """ground prefix sums of the formulas that are not known yet"""
    fs = [f for f in fs if any(n in SUMS for n in symof(f))]
    occ, memo, seen, todo = {}, {}, set(), list(fs)
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            nm = t.decl().name()
            if nm in SUMS and i not in known and not has_var(t, memo):
                occ[i] = (t, SUMS[nm], [t.arg(k) for k in range(t.num_args())])
            todo.extend(t.children())
    return occ


def sum_lemmas(fs):
    """defining equations and extensionality of the prefix sums in the query;
    those of the sums inside of sums in a second round"""
    if not SUMS:
        return []
    known, allof = {}, []
    for _ in range(2):
        occ = sum_terms(fs, known)
        if not occ:
            break
        known.update(occ)
        for _, r, a in occ.values():
            # (their neighbours need no equations of their own)
            for q in (iv(0), a[-1] - 1):
                t = r.fn(*a[:-1], q) if isinstance(r, FoldRec) else r.at(a[:-1], q)
                known[t.get_id()] = t
        fs = sum_equations([x[1:] for x in occ.values()])
        allof += fs
    return allof


def sum_equations(occ):
    out, pts = [], []
    for r, args in occ:
        a, n = args[:-1], args[-1]
        if isinstance(r, FoldRec):
            out.append(r.fn(*a, iv(0)) == r.sub(r.x0, a))
            out.append(z3.Implies(n > 0, r.fn(*a, n) == r.sub(r.step(n - 1), a)))
            continue
        out.append(r.at(a, iv(0)) == 0)
        out.append(z3.Implies(n > 0, r.at(a, n) == r.at(a, n - 1) + r.term(a, n - 1)))
        pts.append((r, a, n))
        pts.append((r, a, n - 1))
        j = z3.FreshConst(I, "neg")
        out.append(z3.Or(n < 0, r.at(a, n) >= 0, z3.And(j >= 0, j < n, r.term(a, j) < 0)))
    for x in range(len(pts)):
        for y in range(x + 1, len(pts)):
            r1, a1, n1 = pts[x]
            r2, a2, n2 = pts[y]
            if r1 is r2 and all(p.eq(q) for p, q in zip(a1, a2)):
                continue
            j = z3.FreshConst(I, "ext")
            out.append(z3.Or(
                n1 != n2, n1 < 0, r1.at(a1, n1) == r2.at(a2, n2),
                z3.And(j >= 0, j < n1, r1.term(a1, j) != r2.term(a2, j))))
    return out


RATE = 1500  # resource units per millisecond asked for


def check(pc, goal, timeout=8000, mbqi=False, want_model=False, seed=None):
    """'unsat' (proved), 'sat' or 'unknown' with a model/reason"""
    t0 = time.time()
    s = z3.Solver()
    if seed is not None:
        s.set("smt.random_seed", seed)
        s.set("smt.phase_selection", 5 if seed % 2 else 3)
    # a resource limit, which does not depend on the load of the machine
    s.set("rlimit", int(timeout * RATE))
    s.set("timeout", int(timeout * 10))
    if not mbqi:
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
    fs = list(pc) + [core.Not(goal)]
    lem = extra_lemmas(fs)
    fs += lem
    ax = relevant_axioms(fs)
    ctx = s.ctx.ref()
    for f in fs + ax:
        z3.Z3_solver_assert(ctx, s.solver, f.as_ast())
    r = s.check()
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS["time"] += dt
    STATS["unsat" if r == z3.unsat else "other"] += 1
    if r == z3.unsat:
        return "unsat", None, dt
    if r == z3.sat:
        return "sat", s.model() if want_model else None, dt
    return "unknown", s.reason_unknown(), dt


def open_goal(pc, goal):
    """universal goals proved for fresh constants, hypotheses moved to the left"""
    pc = list(pc)
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [z3.FreshConst(goal.var_sort(i), "sk") for i in range(goal.num_vars())]
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
        elif z3.is_implies(goal):
            pc.append(goal.arg(0))
            goal = goal.arg(1)
        elif z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_AND and goal.num_args() == 1:
            goal = goal.arg(0)
        else:
            return pc, goal


def prove(pc, goal, timeout=8000):
    """(proved, detail, seconds)"""
    goal = core.b(goal)
    if core.is_true(goal):
        return True, "trivial", 0.0
    ok, det, dt, split = prove_split(pc, goal, timeout)
    if ok or not split:
        return ok, det, dt
    st, _, dt2 = check(pc, goal, min(timeout, 4000), mbqi=True)
    if st == "unsat":
        return True, "z3-mbqi", dt + dt2
    return False, det, dt + dt2


def prove_split(pc, goal, timeout):
    pc2, g = open_goal(pc, goal)
    opened = len(pc2) != len(pc) or g is not goal
    if z3.is_and(g) and g.num_args() <= 12:
        total, how = 0.0, "simplified"
        for c in g.children():
            ok, det, dt, _ = prove_split(pc2, c, timeout)
            total += dt
            if not ok:
                return False, det + f" [conjunct: {str(c)[:160]}]", total, True
            if det.startswith("z3") and how != "z3-mbqi":
                how = det
        return True, how, total, True
    g = z3.simplify(g)
    if z3.is_true(g):
        return True, "simplified", 0.0, opened
    st, info, dt = check(pc2, g, timeout)
    if st == "unsat":
        return True, "z3", dt, opened
    st2, info2, dt2 = check(pc2, g, min(timeout, 4000), mbqi=True)
    if st2 == "unsat":
        return True, "z3-mbqi", dt + dt2, opened
    return False, f"{st}/{st2}: {info or info2 or ''}", dt + dt2, opened


def leaves(pc, goal):
    """the goals without conjunctions, as prove_split reaches them"""
    pc2, g = open_goal(pc, goal)
    if z3.is_and(g) and g.num_args() <= 12:
        return [x for c in g.children() for x in leaves(pc2, c)]
    return [(pc2, g)]


def retry(pc, goal, timeout, deadline):
    """further attempts for an obligation z3 did not discharge: other seeds, then cvc5"""
    how = ""
    for p, g in leaves(pc, core.b(goal)):
        ok = False
        for seed in (None, 1, 2, 3, 4):
            if time.time() > deadline:
                return False, ""
            if check(p, g, timeout if seed is None else timeout * 0.4, seed=seed)[0] == "unsat":
                ok = True
                how = how or "z3"
                break
        if not ok and time.time() < deadline and cvc5_check(p, g) == "unsat":
            ok, how = True, "cvc5"
        if not ok:
            return False, ""
    return True, how


def cvc5_check(pc, goal, timeout=8000):
    """the same query, decided by cvc5"""
    import cvc5
    text = smt2(pc, goal)
    t0 = time.time()
    try:
        tm = cvc5.TermManager()
        s = cvc5.Solver(tm)
        s.setOption("tlimit-per", str(timeout))
        s.setLogic("ALL")
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        r = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = str(c.invoke(s, sm)).strip()
            if out in ("sat", "unsat", "unknown"):
                r = out
        return r
    except Exception as e:  # noqa
        return f"error: {e}"
    finally:
        STATS["cvc5"] = STATS.get("cvc5", 0) + 1
        STATS["cvc5_s"] = STATS.get("cvc5_s", 0.0) + time.time() - t0


def smt2(pc, goal):
    s = z3.Solver()
    fs = list(pc) + [core.Not(goal)]
    fs += extra_lemmas(fs)
    for f in fs + relevant_axioms(fs):
        s.add(f)
    return s.to_smt2()
