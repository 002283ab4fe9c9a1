"""Local search (C01 - C04, C06 - C10): every search over permutations."""
import ast

import z3

from core import *  # noqa
from contracts.common import *  # noqa
from contracts.common import Contract
from contracts.pack import Ctx, inside, key_at, mk_strategy
from contracts.search import (STRIP, CopySolution, CopyValues, ObjValue, SetHeightC, hp, mk_world, objective)
from contracts.solve import Given, MapView, Solve, View, new_solution, problem_of, solved
from inv import LoopSpec
from loops import assigned_names
from vc import heap0, heapfam

GHOST = ("ghost",)


def ghost(st):
    return {k: v.t for k, (p, v) in st.heap[GHOST].get(()).e.items()}


def ghost_set(st, **kw):
    e = dict(st.heap[GHOST].get(()).e)
    for k, v in kw.items():
        e[k] = (TRUE, v)
    st.heap[GHOST] = st.heap[GHOST].put((), Dict(e))


def ghosts_of(ex, sol):
    """the ghost functions (left, where, H) of a solution"""
    alts = [(q, ex.ghost_of[r.fam]) for q, r in alts_of(sol)]
    return (lambda k: pick(alts, lambda g: g[0](k), FALSE), lambda k: pick(alts, lambda g: g[1](k), NONEV),
            lambda c: pick(alts, lambda g: g[2](c), iv(0)))


def parts_of(v, path=()):
    """the references in a variable: a dictionary or a tuple of them"""
    v = force(v)
    if isinstance(v, VTuple):
        for i, x in enumerate(v.items):
            yield from parts_of(x, path + (i,))
    elif isinstance(v, VRef):
        yield path, v


def put_part(v, path, new):
    if not path:
        return new
    items = list(force(v).items)
    items[path[0]] = put_part(items[path[0]], path[1:], new)
    return VTuple(items)


def part(v, path):
    for i in path:
        v = force(v)
        v = VUnion([(q, x.items[i]) for q, x in v.alts]) if isinstance(v, VUnion) else v.items[i]
    return force(v)


def is_permutation(ex, st, v, im):
    """facts: the list holds every id of the items once"""
    qs = [(g, seq_of(st, r)) for g, r in alts_of(v)]
    n = pick(qs, lambda q: q.n, iv(-1))
    at = lambda i: pick(qs, lambda q: key_at(q, i), NONEV)  # noqa
    return [("as many ids as items", n == im.n),
            ("ids of items", ForAll([I], lambda i: Implies(And(i >= 0, i < n), im.dom(at(i))))),
            ("no id twice", ForAll([I, I], lambda i, j: Implies(And(i >= 0, i < n, j >= 0, j < n, at(i) == at(j)), i == j))),
            ("every id", ForAll([Val], lambda k: Implies(im.dom(k), Exists([I], lambda i: And(i >= 0, i < n, at(i) == k)))))]


def strip_parts(st, c, sol):
    """solution of the strip: number of placements, top of an item"""
    v = View.__new__(View)
    v.st, v.S, v.O = st, MapView(st, sol), None
    s = lit(STRIP)
    return v.n(s), (lambda k: v.dom(s, k)), (lambda k: v.rect(s, k)[1] + v.rect(s, k)[3]), v


def find_pairs(st, names, c):
    """the variables that hold the retained solution and its values"""
    c.sols, c.objs = [], []
    for xs in (names, list(st.env)):
        for x in xs:
            if x not in st.env:
                continue
            for path, r in parts_of(st.env[x]):
                o = st.content(r) if r.fam in st.heap else None
                if isinstance(o, (Map, Dict)):
                    vals = [u for q, u in alts_of(as_map_of(st, r).val(z3.FreshConst(Val, "k")))]
                    if vals and all(isinstance(u, VRef) and isinstance(st.content(u), (Map, Dict)) for u in vals):
                        c.sols.append((x, path, r))
                    elif vals and all(isinstance(u, (VInt, VReal)) for u in vals):
                        c.objs.append((x, path, r))
        if c.sols and c.objs:
            return


class Nodes(LoopSpec):
    """one node after the other: what is retained is the best seen so far"""

    name = "loop over the nodes"
    func = None
    rotate = auto = True

    def applies(self, ex, node, st, n, elem):
        c = getattr(ex, "ls", None)
        if c is None or c.node is not None or not isinstance(node, ast.While):
            return None
        names = assigned_names(node.body)
        c.seqs = []
        find_pairs(st, names, c)
        for x in names:
            v = force(st.env.get(x, VPoison(x)))
            if isinstance(v, VRef) and v.fam in st.heap and isinstance(st.content(v), Seq) \
                    and all(ex.proves(st, f, 4000) for _, f in is_permutation(ex, st, v, c.g.I0)):
                c.seqs.append(x)
        if len({r.fam for _, _, r in c.sols}) != 1 or len({r.fam for _, _, r in c.objs}) != 1:
            raise Unsupported("local search: the retained solution")
        c.node = node
        return c

    def mark(self, ex, c):
        c.inner = None
        return len(ex.solves)

    def back(self, ex, c, m):
        del ex.solves[m:]
        c.inner = None

    def retained(self, st, c):
        x, p, _ = c.sols[0]
        y, q, _ = c.objs[0]
        return part(st.env[x], p), part(st.env[y], q)

    def havoc(self, ex, c, st):
        s = new_solution(ex, st, c.g.cm, c.g.I0)
        sol, obj = heap0(st, s.fam + ("S",), s.solmap), heap0(st, s.fam + ("O",), s.objmap)
        ex.ghost_of[sol.fam] = (ex.fresh_fn("left", Val, B), ex.fresh_fn("where", Val, Val), ex.fresh_fn("H", Val, I))
        for refs, r in ((c.sols, sol), (c.objs, obj)):
            for x, p, _ in refs:
                st.env[x] = put_part(st.env[x], p, r)
        im = c.g.I0
        for x in c.seqs:
            at, pos = ex.fresh_fn("node.at", I, Val), ex.fresh_fn("node.pos", Val, I)
            # names of the positions: see is_permutation
            st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < im.n), And(
                im.dom(at(i)), tag(at(i)) == TAGS["str"], pos(at(i)) == i)), lambda i: [at(i)]))
            st.assume(ForAll([Val], lambda k: Implies(im.dom(k), And(
                pos(k) >= 0, pos(k) < im.n, at(pos(k)) == k)), lambda k: [pos(k)]))
            q = ex.next_id()
            st.env[x] = heap0(st, ("node", q), Seq("list", n=im.n, get=lambda i, at=at: VStr(at(i))))
        f = st.content(c.me)
        for a in ("_current_potential_points", "solution", "obj_val_per_container"):
            f = f.set(a, VPoison(f"state of the last neighbour {ex.next_id()}"))
        if c.strip:
            f = f.set("_container_height", VInt(ex.fresh("height", I)))
            h = force(f.f["_heights_history"])
            hn, hf = ex.fresh("heights", I), ex.fresh_fn("heights", I, I)
            st.assume(hn >= 0)
            ex.put(st, h, Seq("list", n=hn, get=lambda i: VInt(hf(i))))
        ex.put(st, c.me, f)
        g = ghost(st)
        ghost_set(st, top=VReal(ex.fresh("top", R)), evals=VInt(ex.fresh("evals", I)), expired=VBool(ex.fresh("expired", B)),
                  looked=VBool(ex.fresh("looked", B)))

    def enter_body(self, ex, c, st):
        c.inner = None

    def guesses(self, ex, c, st, x, v, k):
        if isinstance(v, VReal):
            return [("value", v.t == self.view(ex, st, c).value(ex))]
        return []

    def view(self, ex, st, c):
        return View(st, *self.retained(st, c))

    def inv(self, ex, c, st, k):
        out, g = [], ghost(st)
        add = lambda n, f, p: out.append((n, f, p))  # noqa
        sol, obj = self.retained(st, c)
        facts_about(ex, c, st, sol, obj, add)
        for x in c.seqs:
            for nm, f in is_permutation(ex, st, st.env[x], c.g.I0):
                add("the node is a permutation: " + nm, f, ("C03", "C08"))
        add("the time limit has not been seen to have passed", And(g["looked"], Not(g["expired"])), ("C09",))
        return out


def facts_about(ex, c, st, sol, obj, add, g=None):
    """what the retained pair satisfies"""
    v, g = View(st, sol, obj), ghost(st) if g is None else g
    left, where, H = ghosts_of(ex, sol)
    solved(ex, c.g, v, c.g.cm.n, left, where, H, add)
    val = v.value(ex)
    add("the value is at least that of the starting solve", val >= g["init"], ("C08",))
    add("the value is at least that of every acceptable neighbour evaluated", val >= g["top"], ("C08",))
    if c.strip:
        n, placed, top, _ = strip_parts(st, c, sol)
        add("not negative", val >= 0, ("C07", "C08"))
        add("all items are placed if the starting solve places them", Implies(And(c.nomin, g["complete"]), n == c.g.I0.n), ("C10",))
        h = st.content(c.me).f["_container_height"].t
        hh = H(lit(STRIP))
        stack = If(n == 0, iv(0), hh)
        add("the height does not increase", And(h <= c.h0, h >= 1), ("C01", "C10"))
        add("the height is the initial one or that of the accepted stack (or the minimum)",
            Or(h == c.h0, h == If(Or(c.nomin, c.min <= stack), stack, c.min)), ("C10",))
        add("the height is not below the minimum", Or(c.nomin, h >= c.min), ("C10", "C17"))


class Neighbours(LoopSpec):
    """the neighbours of a node: nothing accepted so far"""

    name = "loop over the neighbours"
    func = None
    auto = True

    def applies(self, ex, node, st, n, elem):
        c = getattr(ex, "ls", None)
        if c is None or c.node is None or c.inner is not None or n is None or not isinstance(node, ast.For) \
                or conc(n) is not None:
            return None
        c.inner = node
        ghost_set(st, evals=VInt(0))     # ghost: a new node
        return c

    def mark(self, ex, c):
        return len(ex.solves)

    def back(self, ex, c, m):
        del ex.solves[m:]

    def havoc(self, ex, c, st):
        f = st.content(c.me)
        for a in ("_current_potential_points", "solution", "obj_val_per_container"):
            f = f.set(a, VPoison(f"state of the last neighbour {ex.next_id()}"))
        ex.put(st, c.me, f)
        ghost_set(st, top=VReal(ex.fresh("top", R)), evals=VInt(ex.fresh("evals", I)), expired=VBool(ex.fresh("expired", B)),
                  looked=VBool(ex.fresh("looked", B)))

    def inv(self, ex, c, st, k):
        g, n = ghost(st), c.g.I0.n
        return [("neighbours are counted", g["evals"] == k, ("C09",)),
                ("the limit of neighbours is not reached", Or(k == 0, And(
                    2 * k < n * (n - 1), Implies(c.throttle, k < 2500))), ("C09",)),
                ("the time limit has not been seen to have passed", And(g["looked"], Not(g["expired"])), ("C09",)),
                ("no better neighbour was passed over", Nodes.view(self, ex, st, c).value(ex) >= g["top"], ("C08",))]

    retained = Nodes.retained
    guesses = Nodes.guesses
    view = Nodes.view


def on_time(ex, st, t):
    g, c = ghost(st), ex.ls
    start = If(g["started"], g["start"], t)
    ghost_set(st, start=VReal(start), started=VBool(TRUE),
              looked=VBool(TRUE), expired=VBool(Or(g["expired"], t - start >= z3.ToReal(c.limit))))


def on_solve(ex, st, r):
    c, g = ex.ls, ghost(st)
    v = View(st, r.sol, r.obj)
    ex.ghost_of[r.sol.fam] = (r.left, r.where, r.H)
    val = v.value(ex)
    n = c.g.I0.n
    ok = TRUE
    if c.strip:
        ok = Or(Not(c.nomin), v.n(lit(STRIP)) == n)
    if not r.neighbour:
        done = v.n(lit(STRIP)) == n if c.strip else TRUE
        ghost_set(st, init=VReal(val), top=VReal(val), complete=VBool(done))
        return
    ex.oblige(st, Not(g["expired"]), "no neighbour is evaluated once the time limit was seen to have passed", ("C09",))
    ex.oblige(st, g["looked"], "the clock is read before every further neighbour", ("C09",))
    ex.oblige(st, 2 * g["evals"] < n * (n - 1), "at most n(n-1)/2 neighbours per node", ("C09",))
    ex.oblige(st, Implies(c.throttle, g["evals"] < 2500), "at most 2500 neighbours per node when throttled", ("C09",))
    ghost_set(st, looked=VBool(FALSE), evals=VInt(g["evals"] + 1), top=VReal(If(And(ok, val > g["top"]), val, g["top"])))


class LocalSearch(Contract):
    qual = "LocalSearchMixin.local_search"
    base_props = ("C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10")
    uses = (Solve, CopySolution, CopyValues, ObjValue, SetHeightC)
    loops = (Nodes, Neighbours)
    strip = hyper = False

    def function(self):
        return hp().local_search

    def call_kw(self, c):
        return {"throttle": VBool(c.throttle), "debug": VBool(z3.Bool("debug")), "_hypersearch": VBool(b(self.hyper))}

    def setup(self, ex, st):
        c = Ctx()
        w = mk_world(ex, st, self.strip)
        c.me, c.strip, c.node, c.inner = w.me, self.strip, None, None
        c.limit, c.throttle, c.nomin, c.min, c.h0 = z3.Int("limit"), z3.Bool("throttle"), w.nomin, w.min, w.height
        st.assume(c.limit >= 1)
        rot = z3.Bool("rotation")
        f = st.content(w.me)
        old = heap0(st, ("old heights",), Seq("list", n=iv(0), get=lambda i: VInt(0)))
        for a, v in {"_potential_points_strategy": mk_strategy(st), "_rotation": VBool(rot), "_max_time_in_seconds": VInt(c.limit),
                     "_heights_history": old, "start_time": VReal(z3.Real("started")),
                     "solution": VExt("old solution"), "obj_val_per_container": VExt("old values")}.items():
            f = f.set(a, v)
        ex.put(st, w.me, f)
        W = (lambda k: w.W) if self.strip else w.cW
        L = (lambda k: w.height) if self.strip else w.cL
        c.g = Given(w.cm, W, L, w.im, w.iw, w.il, rot, b(self.strip))
        z, F = VReal(0), VBool(FALSE)
        heap0(st, GHOST, Dict({k: (TRUE, v) for k, v in {
            "expired": F, "looked": VBool(TRUE), "evals": VInt(0), "init": z, "top": z, "complete": F, "started": VBool(b(self.hyper)),
            "start": VReal(z3.Real("started"))}.items()}))
        ex.ls, ex.ghost_of, ex.solves = c, {}, []
        ex.time_hooks, ex.solve_hooks = [on_time], [on_solve]
        c.st0 = st.copy()
        return [w.me], c

    def check(self, ex, st, c, v):
        f = st.content(c.me).f
        facts_about(ex, c, st, f["solution"], f["obj_val_per_container"], lambda n, g, p: ex.oblige(st, g, n, p))
        allowed = [(("owner",), x) for x in ("_current_potential_points", "solution", "obj_val_per_container",
                                             "_heights_history")] + [GHOST, ("old heights",)]
        if self.strip:
            allowed.append((("owner",), "_container_height"))
        ex.frame(c.st0, st, allowed, "changes only the solution" + (" and the height" if self.strip else ""), ("C06", "C10"))


    def apply(self, ex, st, a):
        """a search of its own: see check"""
        me = force(a["self"])
        P = self.base_props
        f = st.content(me).f
        c = Ctx()
        c.me, c.throttle = me, ex.truth(a["throttle"], st)
        c.g = problem_of(ex, st, me, "local_search", P)
        c.strip = is_true(c.g.strip)
        lim = force(f["_max_time_in_seconds"])
        need(ex, st, b(isinstance(lim, VInt)) if not isinstance(lim, VInt) else lim.t >= 1, "local_search (time limit)", P)
        hyper = ex.truth(a["_hypersearch"], st)
        if not is_false(hyper):
            need(ex, st, Implies(hyper, b(isinstance(force(f.get("start_time", VNone)), (VInt, VReal)))),
                 "local_search (start time)", P)
        s = new_solution(ex, st, c.g.cm, c.g.I0)
        sol, obj = heap0(st, s.fam + ("S",), s.solmap), heap0(st, s.fam + ("O",), s.objmap)
        ex.ghost_of[sol.fam] = (ex.fresh_fn("left", Val, B), ex.fresh_fn("where", Val, Val), ex.fresh_fn("H", Val, I))
        if c.strip:
            mh = alts_of(f["_container_min_height"])
            c.nomin = Or(*[q for q, x in mh if x is VNone])
            c.min = pick([(q, x) for q, x in mh if isinstance(x, VInt)], lambda x: x.t, iv(1))
            c.h0 = force(f["_container_height"]).t
            need(ex, st, Or(c.nomin, And(c.min >= 1, c.min <= c.h0)), "local_search (minimum height)", P)
            f = f | {"_container_height": VInt(ex.fresh("height", I))}
            hn, hf = ex.fresh("heights", I), ex.fresh_fn("heights", I, I)
            st.assume(hn >= 0)
            f["_heights_history"] = heap0(st, s.fam + ("heights",), Seq("list", n=hn, get=lambda i: VInt(hf(i))))
        o = Inst(st.content(me).cls, {**f, "solution": sol, "obj_val_per_container": obj,
                                      "_current_potential_points": VPoison("points under debug")})
        ex.put(st, me, o)
        g0 = ex.fresh("starting value", R)
        facts_about(ex, c, st, sol, obj, lambda n, q, p: st.assume(q),
                    {"init": g0, "top": g0, "complete": ex.fresh("complete", B)})
        c.sol, c.obj = sol, obj
        for h in getattr(ex, "local_hooks", []):
            h(ex, st, c)
        return VNone


class LocalSearchStrip(LocalSearch):
    proof_name = "LocalSearchMixin.local_search (strip packing)"
    strip = True


class LocalSearchHyper(LocalSearch):
    proof_name = "LocalSearchMixin.local_search (in hypersearch)"
    hyper = True


class LocalSearchStripHyper(LocalSearch):
    proof_name = "LocalSearchMixin.local_search (strip packing, in hypersearch)"
    strip = hyper = True
