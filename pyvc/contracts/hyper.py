"""Hypersearch: one local search per strategy (C01 - C04, C06, C07, C09 - C12)."""
import ast

import z3

from core import *  # noqa
from contracts.common import *  # noqa
from contracts.common import Contract
from contracts.local import GHOST, LocalSearch, find_pairs, ghost, ghost_set, ghosts_of, part, put_part, strip_parts
from contracts.pack import Ctx, key_at, mk_strategy
from contracts.search import CopySolution, CopyValues, ObjValue, STRIP, hp, mk_world
from contracts.manip import CRITERIA, ItemsView, OrientItems, SortItems, in_order, turned
from contracts.problem import given, valid_settings
from contracts.solve import Given, Solve, View, new_solution, problem_of, solved
from inv import LoopSpec
from loops import assigned_names
from vc import heap0, heapfam

STRATS = ("strategies", "one")


def mk_strategies(ex, st):
    """any number of strategies of known points"""
    sn, at, n = z3.Function("strategy.n", I, I), z3.Function("strategy.at", I, I, Val), z3.Int("strategies.n")
    st.assume(n >= 0)
    st.assume(ForAll([I], lambda i: sn(i) >= 0, lambda i: [sn(i)]))
    st.assume(ForAll([I, I], lambda i, j: Implies(And(j >= 0, j < sn(i)), Or(*[at(i, j) == lit(x) for x in NAMES])),
                     lambda i, j: [at(i, j)]))
    heapfam(st, STRATS, [I], lambda ix: Seq("tuple", n=sn(ix[0]), get=lambda j: VStr(at(ix[0], j))))
    ref = heap0(st, ("strategies",), Seq("list", n=n, get=lambda i: VRef(STRATS, (i,))))
    return ref, n, sn, at


def is_strategy(ex, st, c, v, i):
    """the value v lists the points of strategy number i"""
    out = []
    for q, x in alts_of(v):
        if isinstance(x, VTuple):
            t = And(c.sn(i) == len(x.items), *[c.sat(i, iv(j)) == force(u).t for j, u in enumerate(x.items)])
        elif isinstance(x, VRef) and isinstance(st.content(x), Seq):
            s = st.content(x)
            t = And(s.n == c.sn(i), ForAll([I], lambda j: Implies(And(j >= 0, j < s.n), key_at(s, j) == c.sat(i, j))))
        else:
            t = FALSE
        out.append(Implies(q, t))
    return And(*out)


def effective(s):
    """(rotation, time limit) of valid settings"""
    r, t = lit("rotation"), lit("max_time_in_seconds")
    return (If(given(s, "rotation"), ival(dget(s, r)) != 0, TRUE), If(given(s, "max_time_in_seconds"), ival(dget(s, t)), iv(60)))


class Strategies(LoopSpec):
    """one local search after the other: the best result seen is retained"""

    name = "loop over the strategies"
    auto = True

    def applies(self, ex, node, st, n, elem):
        c = getattr(ex, "hs", None)
        if c is None or n is None or not isinstance(node, ast.For) or c.node not in (None, node) or c.init is None \
                or c.node is node:
            return None
        c.node = node
        names = assigned_names(node.body)
        c.sols, c.objs, c.best = [], [], []
        find_pairs(st, names, c)
        for x in names:
            v = force(st.env.get(x, VPoison(x)))
            if v is VNone or isinstance(v, VTuple) and v.items and all(isinstance(force(u), VStr) for u in v.items):
                c.best.append(x)
        if len({r.fam for _, _, r in c.sols}) != 1 or len({r.fam for _, _, r in c.objs}) != 1 or len(c.best) != 1:
            raise Unsupported("hypersearch: the retained solution")
        c.best_entry = {x: st.env[x] for x in c.best}
        ghost_set(st, top=VReal(c.init))
        c.retained_fam = ex.fresh_n, c.sols[0][2].fam
        return c

    def mark(self, ex, c):
        return len(ex.solves), c.last

    def back(self, ex, c, m):
        del ex.solves[m[0]:]
        c.last = m[1]

    def retained(self, st, c):
        x, p, _ = c.sols[0]
        y, q, _ = c.objs[0]
        return part(st.env[x], p), part(st.env[y], q)

    def havoc(self, ex, c, st):
        s = new_solution(ex, st, c.g.cm, c.g.I0)
        sol, obj = heap0(st, s.fam + ("S",), s.solmap), heap0(st, s.fam + ("O",), s.objmap)
        ex.ghost_of[sol.fam] = (ex.fresh_fn("left", Val, B), ex.fresh_fn("where", Val, Val), ex.fresh_fn("H", Val, I))
        c.head_fam = sol.fam
        for refs, r in ((c.sols, sol), (c.objs, obj)):
            for x, p, _ in refs:
                st.env[x] = put_part(st.env[x], p, r)
        won, winner = ex.fresh("won", B), ex.fresh("winner", I)
        bn, bat = ex.fresh("best.n", I), ex.fresh_fn("best.at", I, Val)
        for x in c.best:
            r = heap0(st, s.fam + ("best", x), Seq("list", n=bn, get=lambda i: VStr(bat(i))))
            st.env[x] = merge(won, r, c.best_entry[x])
        f = st.content(c.me)
        for a in ("_current_potential_points", "solution", "obj_val_per_container", "_heights_history",
                  "_potential_points_strategy"):
            if a in f.f:
                f = f.set(a, VPoison(f"state of the last local search {ex.next_id()}"))
        if c.strip:
            f = f.set("_container_height", VInt(ex.fresh("height", I)))
        ex.put(st, c.me, f)
        ghost_set(st, top=VReal(ex.fresh("top", R)), expired=VBool(ex.fresh("expired", B)), won=VBool(won), winner=VInt(winner),
                  looked=VBool(ex.fresh("looked", B)))
        self.havoc_more(ex, c, st)

    def havoc_more(self, ex, c, st):
        pass

    def guesses(self, ex, c, st, x, v, k):
        if isinstance(v, VReal):
            return [("value", v.t == View(st, *self.retained(st, c)).value(ex))]
        return []

    def after_body(self, ex, c, head, st, k):
        settle(ex, c, st, self.retained(st, c)[0])

    def inv(self, ex, c, st, k):
        out = []
        sol, obj = self.retained(st, c)
        best_facts(ex, c, st, sol, obj, part(st.env[c.best[0]], ()), lambda n, f, p: out.append((n, f, p)))
        add = lambda n, f, p: out.append((n, f, p))  # noqa
        add("the time limit has not been seen to have passed", And(ghost(st)["looked"], Not(ghost(st)["expired"])), ("C09",))
        return out


def settle(ex, c, st, sol):
    """ghost: which strategy the retained solution is from"""
    new = Or(*[q for q, r in alts_of(sol) if r.fam != c.head_fam])
    g = ghost(st)
    i = c.last[1] if c.last is not None else iv(-1)
    for q, r in alts_of(sol):
        if r.fam != c.head_fam:
            ok = c.last is not None and ex.ghost_of.get(r.fam) is ex.ghost_of[c.last[0].sol.fam]
            ex.oblige(st, Implies(q, b(ok)), "what is retained is the result of the last local search", ("C11",))
    ghost_set(st, won=VBool(Or(g["won"], new)), winner=VInt(If(new, i, g["winner"])))


def best_facts(ex, c, st, sol, obj, best, add, g=None):
    g = ghost(st) if g is None else g
    v = View(st, sol, obj)
    left, where, H = ghosts_of(ex, sol)
    solved(ex, c.g, v, c.g.cm.n, left, where, H, add)
    val = v.value(ex)
    add("the value is at least that of the starting solve", val >= c.init, ("C11",))
    add("the value is at least that of every local search with an acceptable result", val >= g["top"], ("C11",))
    add("the best strategy produced the result", Implies(g["won"], is_strategy(ex, st, c, best, g["winner"])), ("C11",))
    add("without an improvement the starting solve is retained", Or(g["won"], val == c.init), ("C11",))
    if c.strip:
        n = strip_parts(st, c, sol)[0]
        add("not negative", val >= 0, ("C07",))
        add("all items are placed if the starting solve places them", Implies(And(c.nomin, c.complete), n == c.g.I0.n), ("C10",))
        h = st.content(c.me).f["_container_height"].t
        add("the height does not increase", And(h <= c.h0, h >= 1), ("C01", "C10"))
        add("the height is not below the minimum", Or(c.nomin, h >= c.min), ("C10", "C17"))


def on_time(ex, st, t):
    c, g = ex.hs, ghost(st)
    ghost_set(st, expired=VBool(Or(g["expired"], t - c.start > z3.ToReal(c.limit))), looked=VBool(TRUE))


def on_solve(ex, st, r):
    c = ex.hs
    if r.neighbour or c.init is not None:
        raise Unsupported("hypersearch: solves by itself")
    v = View(st, r.sol, r.obj)
    ex.ghost_of[r.sol.fam] = (r.left, r.where, r.H)
    c.init = v.value(ex)
    c.complete = v.n(lit(STRIP)) == c.g.I0.n if c.strip else TRUE
    ghost_set(st, top=VReal(c.init))
    c.head_fam = None
    for h in c.more:
        h(ex, st, c)


def on_local(ex, st, k):
    c, g = ex.hs, ghost(st)
    ex.oblige(st, Not(g["expired"]), "no strategy is started once the time limit was seen to have passed", ("C09",))
    ex.oblige(st, g["looked"], "the clock is read before every further strategy", ("C09",))
    ghost_set(st, looked=VBool(FALSE))
    s = force(st.content(c.me).f["_potential_points_strategy"])
    if not (isinstance(s, VRef) and s.fam == STRATS):
        raise Unsupported("hypersearch: strategy of a local search")
    c.last = (k, s.idx[0])
    val = View(st, k.sol, k.obj).value(ex)
    ok = TRUE
    if c.strip:
        ok = Or(Not(c.nomin), View(st, k.sol, k.obj).n(lit(STRIP)) == c.g.I0.n)
    ghost_set(st, top=VReal(If(And(ok, val > g["top"]), val, g["top"])))
    ex.oblige(st, Iff(k.throttle, c.throttle), "the local searches are throttled as asked", ("C09",))


def hyper_world(ex, st, strip):
    """an instance in which a hypersearch starts"""
    c = Ctx()
    w = c.w = mk_world(ex, st, strip)
    c.me, c.strip, c.node, c.init, c.last, c.more = w.me, strip, None, None, None, []
    c.limit, c.throttle, c.nomin, c.min, c.h0 = z3.Int("limit"), z3.Bool("throttle"), w.nomin, w.min, w.height
    c.start = z3.Real("started")
    st.assume(c.limit >= 1)
    rot = z3.Bool("rotation")
    f = st.content(w.me)
    for a, v in {"_potential_points_strategy": mk_strategy(st), "_rotation": VBool(rot), "_max_time_in_seconds": VInt(c.limit),
                 "start_time": VReal(c.start), "_heights_history": VPoison("old heights"),
                 "solution": VExt("old solution"), "obj_val_per_container": VExt("old values")}.items():
        f = f.set(a, v)
    ex.put(st, w.me, f)
    W = (lambda k: w.W) if strip else w.cW
    L = (lambda k: w.height) if strip else w.cL
    c.g = Given(w.cm, W, L, w.im, w.iw, w.il, rot, b(strip))
    heap0(st, GHOST, Dict({k: (TRUE, v) for k, v in {
        "expired": VBool(FALSE), "looked": VBool(TRUE), "top": VReal(0), "won": VBool(FALSE), "winner": VInt(-1)}.items()}))
    ex.hs, ex.ghost_of, ex.solves = c, {}, []
    ex.time_hooks, ex.solve_hooks, ex.local_hooks = [on_time], [on_solve], [on_local]
    return c


class SingleSearch(Contract):
    qual = "HyperPack._single_process_hypersearch"
    base_props = ("C01", "C02", "C03", "C04", "C06", "C07", "C09", "C10", "C11")
    uses = (Solve, LocalSearch, CopySolution, CopyValues, ObjValue)
    loops = (Strategies,)
    strip = False

    def function(self):
        return hp()._single_process_hypersearch

    def setup(self, ex, st):
        c = hyper_world(ex, st, self.strip)
        ref, c.n, c.sn, c.sat = mk_strategies(ex, st)
        c.st0 = st.copy()
        return [c.me, ref, VBool(c.throttle)], c

    def check(self, ex, st, c, v):
        v = force(v)
        ok = isinstance(v, VTuple) and len(v.items) == 3
        ex.oblige(st, b(ok), "a triple is returned", self.base_props)
        if not ok:
            return
        sol, obj, best = [force(x) for x in v.items]
        settle(ex, c, st, sol)
        best_facts(ex, c, st, sol, obj, best, lambda n, g, p: ex.oblige(st, g, n, p))
        allowed = [(("owner",), x) for x in ("_current_potential_points", "solution", "obj_val_per_container",
                                             "_heights_history", "_potential_points_strategy")] + [GHOST]
        if self.strip:
            allowed.append((("owner",), "_container_height"))
        ex.frame(c.st0, st, allowed, "changes only the solution" + (" and the height" if self.strip else ""), ("C06", "C10"))


    def apply(self, ex, st, a):
        """the best of the starting solve and the local searches: see check"""
        me, strategies = force(a["self"]), seq_of(st, force(a["strategies"]))
        P = self.base_props
        f = st.content(me).f
        c = Ctx()
        c.me, c.throttle = me, ex.truth(a["throttle"], st)
        c.g = problem_of(ex, st, me, self.qual, P)
        c.strip = is_true(c.g.strip)
        lim, start = force(f["_max_time_in_seconds"]), force(f.get("start_time", VNone))
        need(ex, st, lim.t >= 1 if isinstance(lim, VInt) else FALSE, f"{self.qual} (time limit)", P)
        need(ex, st, b(isinstance(start, (VInt, VReal))), f"{self.qual} (start time)", P)
        el = lambda i: seq_of(st, force(strategies.get(i)))  # noqa
        need(ex, st, ForAll([I, I], lambda i, j: Implies(And(i >= 0, i < strategies.n, j >= 0, j < el(i).n), Or(*[
            key_at(el(i), j) == lit(x) for x in NAMES]))), f"{self.qual} (strategies)", P)
        c.sn, c.sat = (lambda i: el(i).n), (lambda i, j: key_at(el(i), j))
        s = new_solution(ex, st, c.g.cm, c.g.I0)
        sol, obj = heap0(st, s.fam + ("S",), s.solmap), heap0(st, s.fam + ("O",), s.objmap)
        ex.ghost_of[sol.fam] = (ex.fresh_fn("left", Val, B), ex.fresh_fn("where", Val, Val), ex.fresh_fn("H", Val, I))
        o = {**f, "_potential_points_strategy": VPoison("strategy of the last local search"),
             **{x: VPoison("state of the last local search") for x in (
                 "_current_potential_points", "solution", "obj_val_per_container", "_heights_history")}}
        c.init, c.complete, top = ex.fresh("starting value", R), ex.fresh("complete", B), ex.fresh("top", R)
        if c.strip:
            mh = alts_of(f["_container_min_height"])
            c.nomin = Or(*[q for q, x in mh if x is VNone])
            c.min = pick([(q, x) for q, x in mh if isinstance(x, VInt)], lambda x: x.t, iv(1))
            c.h0 = force(f["_container_height"]).t
            need(ex, st, Or(c.nomin, And(c.min >= 1, c.min <= c.h0)), f"{self.qual} (minimum height)", P)
            o["_container_height"] = VInt(ex.fresh("height", I))
        ex.put(st, me, Inst(st.content(me).cls, self.after(ex, st, me, f, o)))
        won, winner = ex.fresh("won", B), ex.fresh("winner", I)
        bn, bat = ex.fresh("best.n", I), ex.fresh_fn("best.at", I, Val)
        best = heap0(st, s.fam + ("best",), Seq("list", n=bn, get=lambda i: VStr(bat(i))))
        best = merge(won, best, self.unnamed(ex, st))
        best_facts(ex, c, st, sol, obj, best, lambda n, q, p: st.assume(q), {"top": top, "won": won, "winner": winner})
        c.sol, c.obj, c.strategies, c.winner, c.won = sol, obj, strategies, winner, won
        for h in getattr(ex, "search_hooks", []):
            h(ex, st, c)
        return VTuple((sol, obj, best))


    def unnamed(self, ex, st):
        """the strategy named when nothing improved on the starting solve"""
        return ex.lift(hp().DEFAULT_POTENTIAL_POINTS_STRATEGY, st)

    def after(self, ex, st, me, f, o):
        """the fields of the instance afterwards"""
        return o


class SingleSearchStrip(SingleSearch):
    proof_name = "HyperPack._single_process_hypersearch (strip packing)"
    strip = True


class GetStrategies(Contract):
    """the exhaustive strategies: every ordering of the leading points, each once"""

    qual = "HyperPack.get_strategies"
    base_props = ("C16",)
    strip = False

    def function(self):
        return hp().get_strategies

    def call_kw(self, c):
        return {"_exhaustive": VBool(c)}

    def setup(self, ex, st):
        c = z3.Bool("exhaustive")
        return [heap0(st, ("owner",), Inst(hp(), {"_strip_pack": VBool(b(self.strip))}))], c

    def check(self, ex, st, c, v):
        for q, x in alts_of(v):
            st2 = st.copy()
            st2.assume(q)
            if not ex.infeasible(st2):
                self.check_one(ex, st2, c, x)

    def check_one(self, ex, st, c, v):
        P = self.base_props
        rows = self.seq(st, v)
        ex.oblige(st, b(rows is not None), "a sequence is returned", P)
        if rows is None:
            return
        ex.oblige(st, rows.n >= 1, "at least one strategy", P + ("C12",))
        if ex.proves(st, Not(c)):
            ok = rows.items is not None and all(self.known(st, x) for x in rows.items)
            ex.oblige(st, b(ok), "predefined strategies consist of known points", P)
            return
        i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
        here = And(c, i >= 0, i < rows.n)
        row, other = self.seq(st, rows.get(i)), self.seq(st, rows.get(j))
        if not ex.oblige(st, Implies(here, row.n == len(NAMES)), "each strategy has ten points", P):
            return
        a, d = [[key_at(r, iv(m)) for m in range(len(NAMES))] for r in (row, other)]
        ex.oblige(st, Implies(here, And(*[Or(*[x == lit(n) for n in NAMES]) for x in a])), "known points only", P)
        ex.oblige(st, Implies(here, z3.Distinct(*a)), "no point occurs twice in a strategy", P)
        ex.oblige(st, Implies(And(here, j >= 0, j < rows.n, i != j), Or(*[Not(x == y) for x, y in zip(a, d)])),
                  "the strategies are pairwise different", P)
        lead = [n for n in NAMES if n not in hp().STRATEGIES_SUFFIX]
        want = [ex.fresh(f"point{m}", Val) for m in range(len(lead))]
        hyp = And(c, *[Or(*[x == lit(n) for n in lead]) for x in want], z3.Distinct(*want))
        goal = lambda k: And(k >= 0, k < rows.n, *[  # noqa
            key_at(self.seq(st, rows.get(k)), iv(m)) == x for m, x in enumerate(want)])
        hints = []
        for idx, els in ex.arrangements:
            if len(els) == len(lead) and all(isinstance(force(e), VStr) for e in els):
                def at(x, els=els):
                    t = iv(0)
                    for m, e in enumerate(els):
                        t = If(x == force(e).t, iv(m), t)
                    return t
                ws = [ex.fresh(f"place{m}", I) for m in range(len(lead))]
                st.assume(And(*[w == at(x) for w, x in zip(ws, want)]))
                # every element is one of the leading points, so each of these has a place
                for w, x in zip(ws, want):
                    ex.lemma(st, Implies(hyp, Or(*[And(w == m, force(e).t == x) for m, e in enumerate(els)])))
                ex.lemma(st, Implies(hyp, z3.Distinct(*ws)))
                hints.append(goal(idx(*ws)))
        ex.oblige(st, Implies(hyp, Or(*hints) if hints else Exists([I], goal)),
                  "every ordering of the leading points occurs", P)

    def seq(self, st, v):
        v = force(v)
        if isinstance(v, VTuple):
            return Seq("tuple", list(v.items))
        return seq_of(st, v) if isinstance(v, VRef) else None

    def known(self, st, v):
        v = force(v)
        return isinstance(v, VTuple) and all(isinstance(force(x), VStr) and force(x).lit in NAMES for x in v.items)

    def apply(self, ex, st, a):
        ref, n, _, _ = mk_strategies(ex, st)
        st.assume(n >= 1)
        return ref


class GetStrategiesStrip(GetStrategies):
    proof_name = "HyperPack.get_strategies (strip packing)"
    strip = True


class HyperSearch(Contract):
    """sorts and orients the items as asked, then publishes the best result"""

    qual = "HyperPack.hypersearch"
    base_props = ("C01", "C02", "C03", "C04", "C06", "C07", "C10", "C11")
    uses = (SortItems, OrientItems, SingleSearch, GetStrategies)
    strip = several = False

    def function(self):
        return hp().hypersearch

    def call_kw(self, c):
        return {"throttle": VBool(c.throttle)}

    def setup(self, ex, st):
        c = hyper_world(ex, st, self.strip)
        ex.time_hooks, ex.solve_hooks, ex.local_hooks = [], [], []
        m = z3.Int("workers")
        st.assume(m >= 2 if self.several else m == 1)
        f = st.content(c.me).set("_workers_num", VInt(m if self.several else 1))
        if self.several:
            # the settings in effect are those of the instance
            s = z3.Const("settings", Val)
            rot, lim = effective(s)
            st.assume(And(valid_settings(s), rot == z3.Bool("rotation"), lim == c.limit))
            f = f.set("_settings", VAny(s))
        f = f.set("start_time", VPoison("not set yet"))
        ex.put(st, c.me, f)
        c.by, c.rev, c.none, c.o = z3.Const("by", Val), z3.Bool("reverse"), z3.Bool("none"), z3.Const("orientation", Val)
        c.found = []
        ex.search_hooks = [lambda ex, st, k: c.found.append(k)]
        c.st0 = st.copy()
        return [c.me, VAny(c.o), merge(c.none, VNone, VTuple((VAny(c.by), VBool(c.rev))))], c

    def check(self, ex, st, c, v):
        f = st.content(c.me).f
        ex.oblige(st, b(len(c.found) == 1), "one search", self.base_props)
        r = c.found[0]
        its, w = ItemsView(st, c.me), c.w
        x, i = z3.FreshConst(Val, "x"), z3.FreshConst(I, "i")
        P = ("C06", "C18", "C19")
        ex.oblige(st, And(its.m.n == w.im.n, b(its.m.dom(x)) == w.im.dom(x)), "the same items", P)
        ex.oblige(st, Implies(And(c.none, i >= 0, i < w.im.n), its.m.at(i) == w.im.at(i)), "no sorting: the same order", P)
        rot = z3.Bool("rotation")
        w2, l2, _ = turned(rot, c.o, w.iw, w.il)
        ex.oblige(st, Implies(its.m.dom(x), And(its.w(x) == w2(x), its.l(x) == l2(x))), "the dimensions as oriented", P)
        for name, fn in CRITERIA.items():
            ex.oblige(st, Implies(And(Not(c.none), c.by == lit(name)), in_order(its.m, w.iw, w.il, fn, c.rev)),
                      f"sorted by {name}", P)
        g = Given(c.g.cm, c.g.W, c.g.L, its.m, its.w, its.l, rot, c.g.strip)
        sol, obj, best = f["solution"], f["obj_val_per_container"], f.get("best_strategy", VNone)
        left, where, H = ghosts_of(ex, sol)
        v2 = View(st, sol, obj)
        solved(ex, g, v2, g.cm.n, left, where, H, lambda n, q, p: ex.oblige(st, q, n, p))
        val = v2.value(ex)
        ex.oblige(st, val >= r.init, "the value is at least that of the starting solve", ("C11",))
        ex.oblige(st, And(val == View(st, r.sol, r.obj).value(ex), *[b(alts_of(u)[0][1].fam == t.fam) for u, t in (
            (sol, r.sol), (obj, r.obj))]), "the result of the search is published", ("C11",))
        ex.oblige(st, Implies(r.won, is_strategy(ex, st, r, best, r.winner)), "the best strategy is published", ("C11",))
        if self.strip:
            ex.oblige(st, Implies(And(c.nomin, r.complete), v2.n(lit(STRIP)) == its.m.n),
                      "all items are placed if the starting solve places them", ("C10",))
            h = force(f["_container_height"]).t
            ex.oblige(st, And(h <= c.h0, h >= 1, Or(c.nomin, h >= c.min)), "the height does not increase", ("C01", "C10"))
        allowed = [(("owner",), y) for y in ("_current_potential_points", "solution", "obj_val_per_container", "_heights_history",
                                             "_potential_points_strategy", "_items", "best_strategy", "start_time")]
        if self.strip:
            allowed.append((("owner",), "_container_height"))
        ex.frame(c.st0, st, allowed, "changes only the items and the solution" + (" and the height" if self.strip else ""),
                 ("C06", "C10"))

    def check_raise(self, ex, c, o):
        if self.several and o.val.cls.__name__ == "MultiProcessError":
            return
        ex.oblige(o.st, And(Not(c.none), *[c.by != lit(n) for n in CRITERIA], b(o.val.cls is NotImplementedError)),
                  "raises only for an unknown criterion", ("C19",))


class HyperSearchStrip(HyperSearch):
    proof_name = "HyperPack.hypersearch (strip packing)"
    strip = True
