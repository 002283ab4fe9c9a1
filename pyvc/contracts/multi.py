"""Hypersearch with several processes: one worker (C12, C09, C11)."""
import z3

from core import *  # noqa
from contracts.common import *  # noqa
from contracts.common import Contract
from contracts.hyper import STRATS, GetStrategies, HyperSearch, SingleSearch, Strategies, best_facts, effective, hyper_world, is_strategy, mk_strategies, settle
from contracts.local import GHOST, LocalSearch, ghost, ghost_set, ghosts_of
from contracts.manip import OrientItems, SortItems
from contracts.pack import Ctx
from contracts.problem import Versions, given, int_or_none, opt_int, user_writes, valid_settings
from contracts.search import CopySolution, CopyValues, ObjValue, STRIP, hp
from contracts.solve import Solve, StructDeepcopy, View, solved
from contracts.struct import KEYS, StructInit, dim_value, entry_wired
from inv import LoopSpec
from vc import heap0


def worker_class():
    from hyperpack.processes import HyperSearchProcess
    return HyperSearchProcess


# ------------------------------------------------------- shared array, queue
#
# The array is shared by the workers: what a worker reads there may have been
# written by any of them at any time, so every read gives an arbitrary value.
# A worker's own cell is ghost state: no other process writes it (the index of a
# worker is its own).


def mkstr(ex, st, name):
    t = z3.Const(name, Val)
    st.assume(tag(t) == TAGS["str"])
    return t


def m_methods(ex, v, name, st):
    return VBound(None, v, name) if name in ("__getitem__", "__setitem__") else None


def shared_method(ex, me, name, a, kw, st, node):
    c = ex.hs
    if name == "__setitem__" and len(a) == 2 and not kw:
        k, x = force(a[0]), force(a[1])
        ex.oblige(st, ex.eq(k, VInt(c.index), st), "a worker writes only its own cell of the shared array", ("C12",))
        if not isinstance(x, (VInt, VReal)):
            raise Unsupported("value in the shared array")
        ghost_set(st, cell=VReal(to_real(x)))
        return VNone
    if name == "__getitem__" and isinstance(force(a[0]), VInt):
        ex.nondet.add("other processes")
        return VReal(ex.fresh("shared", R))
    return None


def shared_iter(ex, v, st):
    ex.nondet.add("other processes")
    f = ex.fresh_fn("shared", I, R)
    return ex.hs.workers, lambda i: VReal(f(i))


def queue_method(ex, me, name, a, kw, st, node):
    if name != "put" or len(a) != 1 or kw:
        return None
    P, c, g = ("C12",), ex.hs, ghost(st)
    ex.oblige(st, g["puts"] == 0, "a worker delivers its result once", P)
    ghost_set(st, puts=VInt(g["puts"] + 1))
    want = []
    for q, x in alts_of(a[0]):
        s = st.copy()
        s.assume(q)
        if ex.infeasible(s):
            continue
        ok = isinstance(x, VTuple) and len(x.items) == 4
        ex.oblige(s, b(ok), "four values are delivered", P)
        if not ok:
            continue
        val, sol, obj, best = [force(u) for u in x.items]
        if isinstance(val, VInt) and conc(val.t) == -1:
            want.append((q, z3.RealVal(-1)))
            continue
        if c.init is None:
            raise Unsupported("result of a worker")
        settle(ex, c, s, sol)
        best_facts(ex, c, s, sol, obj, best, lambda n, f, p: ex.oblige(s, f, "delivered: " + n, tuple(p) + P))
        value = View(s, sol, obj).value(ex)
        ex.oblige(s, to_real(val) == value if isinstance(val, (VInt, VReal)) else FALSE,
                  "the value delivered is that of the result delivered", P)
        ex.oblige(s, value >= 0, "the value delivered is not negative", P)
        want.append((q, If(ghost(s)["won"], value, z3.RealVal(0))))
    ghost_set(st, want=VReal(pick(want, lambda t: t, z3.RealVal(-2))))
    return VNone


def process_models(ex):
    """what the base class of the workers does"""
    from multiprocessing.process import BaseProcess
    name = BaseProcess.name

    def get(ex, a, kw, st, node):
        return st.content(force(a[0])).f.get("_name", VNone)

    def set_(ex, a, kw, st, node):
        me = force(a[0])
        ex.put(st, me, st.content(me).set("_name", a[1]))
        return VNone
    ex.models[name.fget], ex.models[name.fset] = get, set_


class MayFail:
    """a step of the worker may fail with any exception"""

    def apply(self, ex, st, a):
        ok = ex.fresh("no failure", B)
        ex.guard(st, ok, RuntimeError, "failure")
        if st.dead:
            return VPoison("dead")
        return super().apply(ex, st, a)


class AnySolve(MayFail, Solve):
    pass


class AnyLocal(MayFail, LocalSearch):
    pass


class ChunkLoop(Strategies):
    """the worker's strategies: its cell of the array holds the value of the best
    result, unless that is the starting solve"""

    name = "loop over the chunk"

    def havoc_more(self, ex, c, st):
        ghost_set(st, cell=VReal(ex.fresh("cell", R)))

    def inv(self, ex, c, st, k):
        out = Strategies.inv(self, ex, c, st, k)
        out.append(("the shared cell holds the value of the retained result", cell_ok(ex, c, st, *self.retained(st, c)),
                    ("C12",)))
        return out


def cell_ok(ex, c, st, sol, obj):
    g = ghost(st)
    return g["cell"] == If(g["won"], View(st, sol, obj).value(ex), z3.RealVal(0))


class WorkerRun(Contract):
    """delivers the best result of its strategies, or reports failure"""

    qual = "HyperSearchProcess.run"
    base_props = ("C12", "C09", "C11")
    uses = (AnySolve, AnyLocal, CopySolution, CopyValues, ObjValue)
    loops = (ChunkLoop,)
    strip = False

    def function(self):
        return worker_class().run

    def setup(self, ex, st):
        c = hyper_world(ex, st, self.strip)
        ref, c.n, c.sn, c.sat = mk_strategies(ex, st)
        c.index, c.workers = z3.Int("index"), z3.Int("workers")
        st.assume(And(c.index >= 0, c.index < c.workers))
        c.worker = heap0(st, ("worker",), Inst(worker_class(), {
            "instance": c.me, "shared_array": VExt("shared"), "queue": VExt("queue"), "strategies_chunk": ref,
            "_name": VStr(mkstr(ex, st, "name")), "throttle": VBool(c.throttle), "index": VInt(c.index), "_force_raise_error_index": VNone}))
        process_models(ex)
        ex.ext_models["shared"] = m_methods
        ex.ext_methods.update({"shared": shared_method, "queue": queue_method})
        ex.ext_iters["shared"] = shared_iter
        ghost_set(st, puts=VInt(0), cell=VReal(0), want=VReal(-2))
        c.st0 = st.copy()
        return [c.worker], c

    def check(self, ex, st, c, v):
        P, g = ("C12",), ghost(st)
        ex.oblige(st, g["puts"] == 1, "a result is delivered", P)
        ex.oblige(st, g["cell"] == g["want"], "the shared cell agrees with the result delivered", P)
        allowed = [(("owner",), x) for x in ("_current_potential_points", "solution", "obj_val_per_container",
                                             "_heights_history", "_potential_points_strategy")] + [GHOST]
        if self.strip:
            allowed.append((("owner",), "_container_height"))
        ex.frame(c.st0, st, allowed, "changes only the solution" + (" and the height" if self.strip else ""), P)


class WorkerRunStrip(WorkerRun):
    proof_name = "HyperSearchProcess.run (strip packing)"
    strip = True


# ------------------------------------------------------------ awaiting a result


class Await(LoopSpec):
    """waiting: nothing is given up, the shared cell is untouched"""

    name = "loop of waiting"
    auto = True

    def applies(self, ex, node, st, n, elem):
        c = getattr(ex, "wait", None)
        return c if c is not None and n is None else None

    def havoc(self, ex, c, st):
        ghost_set(st, dead=VBool(ex.fresh("dead", B)))

    def inv(self, ex, c, st, k):
        g = ghost(st)
        return [("no result has been given up", And(Not(g["lost"]), Not(g["taken"]), g["cell"] == c.cell), ("C12",))]


def wait_queue(ex, me, name, a, kw, st, node):
    P = ("C12",)
    if name not in ("get", "get_nowait") or a:
        return None
    g = ghost(st)
    if name == "get":
        t = force(kw.get("timeout", VNone))
        blk = kw.get("block")
        unlimited = t is VNone and (blk is None or not is_false(ex.truth(blk, st)))
        ex.oblige(st, b(not unlimited), "no unlimited wait for a worker that may have terminated", P)
    from queue import Empty
    here = ex.fresh("result is there", B)
    # what is found missing after the worker terminated will never come
    ghost_set(st, lost=VBool(Or(g["lost"], And(g["dead"], Not(here)))), taken=VBool(Or(g["taken"], here)))
    ex.guard(st, here, Empty, "no result yet")
    return VPoison("dead") if st.dead else VExt("delivered")


class GetMetrics(Contract):
    """the result the worker delivered; failure only if it terminated without one"""

    qual = "HyperSearchProcess.get_metrics"
    base_props = ("C12",)
    loops = (Await,)

    def function(self):
        return worker_class().get_metrics

    def setup(self, ex, st):
        c = Ctx()
        c.index, c.workers, c.cell = z3.Int("index"), z3.Int("workers"), z3.Real("cell")
        ex.hs = ex.wait = c
        F = VBool(FALSE)
        heap0(st, GHOST, Dict({k: (TRUE, v) for k, v in {
            "dead": F, "lost": F, "taken": F, "cell": VReal(c.cell)}.items()}))
        c.worker = heap0(st, ("worker",), Inst(worker_class(), {
            "shared_array": VExt("shared"), "queue": VExt("queue"), "index": VInt(c.index), "_name": VStr(mkstr(ex, st, "name"))}))
        ex.ext_models["shared"] = m_methods
        ex.ext_methods.update({"shared": shared_method, "queue": wait_queue})
        ex.ext_iters["shared"] = shared_iter
        from multiprocessing.process import BaseProcess

        def alive(ex, a, kw, st, node):
            ex.nondet.add("other processes")
            up, g = ex.fresh("alive", B), ghost(st)
            st.assume(Implies(g["dead"], Not(up)))
            ghost_set(st, dead=VBool(Not(up)))
            return VBool(up)
        ex.models[BaseProcess.is_alive] = alive
        process_models(ex)
        c.st0 = st.copy()
        return [c.worker], c

    def check(self, ex, st, c, v):
        P, g = ("C12",), ghost(st)
        for q, x in alts_of(v):
            s = st.copy()
            s.assume(q)
            if ex.infeasible(s):
                continue
            if isinstance(x, VExt) and x.kind == "delivered":
                ex.oblige(s, And(g["taken"], g["cell"] == c.cell), "what the worker delivered is returned, its cell is kept", P)
                continue
            ok = isinstance(x, VTuple) and len(x.items) == 4 and isinstance(force(x.items[0]), VInt)
            ex.oblige(s, to_real(force(x.items[0])) == -1 if ok else FALSE, "otherwise failure is returned", P)
            ex.oblige(s, And(g["lost"], Not(g["taken"])), "failure only if the worker terminated without a result", P)
            ex.oblige(s, g["cell"] == -1, "failure is noted in the shared array", P)
        ex.frame(c.st0, st, [GHOST], "changes nothing else", P)


# ------------------------------------------------------------ making a worker


def mk_given(ex, st, cname, name):
    """a dictionary of dimensions, as the structures' deepcopy gives it"""
    k1, k2 = KEYS[cname]
    f1, f2 = z3.Function(name + "." + k1, Val, I), z3.Function(name + "." + k2, Val, I)
    heapfam(st, (name, "dd"), [Val], lambda ix: Dict({k1: (TRUE, VInt(f1(ix[0]))), k2: (TRUE, VInt(f2(ix[0])))}))
    m = mk_map(ex, name, lambda k: VRef((name, "dd"), (k,)))
    assume_map(ex, st, m)
    st.assume(m.n >= 1)
    st.assume(ForAll([Val], lambda k: Implies(m.dom(k), And(tag(k) == TAGS["str"], f1(k) >= 1, f2(k) >= 1)),
                     lambda k: [m.dom(k)]))
    return heap0(st, (name,), m), m, f1, f2


DC, COPIED = z3.Function("deepcopied", Val, Val), z3.Function("is a copy", Val, B)


def user_deepcopy(ex, st0):
    """deep copies of the user's dictionaries"""
    old = ex.models[__import__("copy").deepcopy]
    st0.assume(ForAll([Val], lambda v: Implies(tag(v) != TAGS["dict"], DC(v) == v), lambda v: [DC(v)]))
    st0.assume(ForAll([Val], lambda v: Implies(tag(v) == TAGS["dict"], And(
        tag(DC(v)) == TAGS["dict"], dlen(DC(v)) == dlen(v), COPIED(DC(v)))), lambda v: [DC(v)]))
    for trig in (dget, dhas):
        st0.assume(ForAll([Val, Val], lambda v, k: Implies(tag(v) == TAGS["dict"], And(
            dget(DC(v), k) == DC(dget(v, k)), dhas(DC(v), k) == dhas(v, k))), lambda v, k: [trig(DC(v), k)]))

    def model(ex, a, kw, st, node):
        v = force(a[0])
        return VAny(DC(v.t)) if isinstance(v, VAny) and len(a) == 1 and not kw else old(a, kw, st, node)
    ex.models[__import__("copy").deepcopy] = model


def no_or_positive(v):
    """None or an integer >= 1"""
    return And(*[Implies(q, TRUE if x is VNone else x.t >= 1 if isinstance(x, VInt) else FALSE) for q, x in alts_of(v)])


class WorkerInit(Contract):
    """the worker's instance is a copy of the problem"""

    qual = "HyperSearchProcess.__init__"
    base_props = ("C12", "C01", "C03", "C06", "C07", "C09", "C10")
    uses = (StructInit, Versions)
    strip = False

    def function(self):
        return worker_class().__init__

    def call_kw(self, c):
        return {"strip_pack": VBool(b(self.strip)), "container_min_height": c.mh, "container_height": c.h}

    def setup(self, ex, st):
        c = Ctx()
        c.me = heap0(st, ("worker",), Inst(worker_class(), {}))
        c.items, c.im, c.iw, c.il = mk_given(ex, st, "Items", "items")
        if self.strip:
            c.W = z3.Int("width")
            st.assume(c.W >= 1)
            c.h, c.hnone, c.ht = VInt(z3.Int("height")), FALSE, z3.Int("height")
            st.assume(c.ht >= 1)
            c.cont = heap0(st, ("containers",), Dict({STRIP: (TRUE, heap0(st, ("strip",), Dict({
                "W": (TRUE, VInt(c.W)), "L": (TRUE, VInt(z3.Int("length")))})))}))
        else:
            c.cont, c.cm, c.cW, c.cL = mk_given(ex, st, "Containers", "containers")
            # may have been set, without a meaning
            c.h = opt_int("set height", st)[0]
        c.mh, c.nomin, c.min = opt_int("min", st)
        c.s = z3.Const("settings", Val)
        st.assume(valid_settings(c.s))
        user_deepcopy(ex, st)
        c.args = {"index": VInt(z3.Int("index")), "strategies_chunk": VExt("chunk"), "name": VStr(mkstr(ex, st, "name")),
                  "start_time": VReal(z3.Real("started")), "shared_array": VExt("shared"), "throttle": VBool(z3.Bool("throttle"))}
        process_models(ex)
        from multiprocessing.process import BaseProcess
        import multiprocessing
        ex.models[BaseProcess.__init__] = lambda ex, a, kw, st, node: VNone
        ex.models[multiprocessing.Queue] = lambda ex, a, kw, st, node: VExt("new queue")
        c.st0 = st.copy()
        x = c.args
        return [c.me, x["index"], c.cont, c.items, VAny(c.s), x["strategies_chunk"], x["name"], x["start_time"],
                x["shared_array"], x["throttle"]], c

    def check(self, ex, st, c, v):
        P = ("C12",)
        w = st.content(c.me).f
        for a, y in (("index", "index"), ("strategies_chunk", "strategies_chunk"), ("shared_array", "shared_array"),
                     ("throttle", "throttle"), ("_name", "name")):
            want, got = c.args[y], force(w[a])
            ex.oblige(st, b(isinstance(got, VExt) and got.kind == want.kind) if isinstance(want, VExt) else
                      ex.eq(got, want, st), f"{y} as given", P + (("C09",) if a == "throttle" else ()))
        q = force(w["queue"])
        ex.oblige(st, b(isinstance(q, VExt) and q.kind == "new queue"), "a queue of its own", P)
        inst = force(w["instance"])
        ok = isinstance(inst, VRef) and isinstance(st.content(inst), Inst) and st.content(inst).cls is hp()
        if not ex.oblige(st, b(ok), "an instance of its own", P):
            return
        f = st.content(inst).f
        ex.oblige(st, ex.truth(f["_strip_pack"], st) == b(self.strip), "strip packing as the problem", P)
        self.same(ex, st, inst, f["_items"], "Items", c.im, c.iw, c.il)
        if self.strip:
            data = force(st.content(force(f["_containers"])).f["data"])
            m = as_map_of(st, data)
            ex.oblige(st, And(m.n == 1, m.dom(lit(STRIP)), dim_value(st, data, lit(STRIP), "W") == c.W),
                      "the strip of the problem", P + ("C01",))
        else:
            self.same(ex, st, inst, f["_containers"], "Containers", c.cm, c.cW, c.cL)
        ex.oblige(st, ex.eq(f["_containers_num"], VInt(iv(1) if self.strip else c.cm.n), st), "the number of containers", P)
        if self.strip:
            ex.oblige(st, int_or_none(f["_container_height"], c.hnone, c.ht), "the height of the problem", P + ("C01",))
        else:
            ex.oblige(st, no_or_positive(f["_container_height"]), "no height or a number", P + ("C01",))
        ex.oblige(st, int_or_none(f["_container_min_height"], c.nomin, c.min), "the minimum height of the problem", P + ("C10",))
        ex.oblige(st, ex.truth(f["_rotation"], st) == If(given(c.s, "rotation"), ival(dget(c.s, lit("rotation"))) != 0, TRUE),
                  "rotation as the settings say", P + ("C03", "C07"))
        ex.oblige(st, int_or_none(f["_max_time_in_seconds"], FALSE, If(given(c.s, "max_time_in_seconds"), ival(
            dget(c.s, lit("max_time_in_seconds"))), iv(60))), "the time limit of the settings", P + ("C09",))
        ex.oblige(st, ex.eq(f["start_time"], c.args["start_time"], st), "the start time of the search", P + ("C09",))
        for q, d, k, x in user_writes(st):
            ex.oblige(st, Implies(q, COPIED(d)), "the settings of the problem stay", ("C06", "C12"))
        ex.frame(c.st0, st, [("worker",)], "changes nothing else", ("C06", "C12"))

    def same(self, ex, st, inst, ref, cname, m0, f1, f2):
        P = ("C12",)
        ref = force(ref)
        data = force(st.content(ref).f["data"])
        m = as_map_of(st, data)
        i, k = z3.FreshConst(I, "i"), z3.FreshConst(Val, "k")
        ex.oblige(st, And(m.n == m0.n, Implies(And(i >= 0, i < m.n), m.at(i) == m0.at(i))), f"{cname}: the same ids in order",
                  P + (("C06",) if cname == "Items" else ()))
        s2 = st.copy()
        s2.assume(m0.dom(k))
        ex.oblige(s2, b(m.dom(k)), f"{cname}: every id", P)
        for x, f in zip(KEYS[cname], (f1, f2)):
            ex.oblige(s2, b(dim_value(st, data, k, x) == f(k)), f"{cname}: {x} is the same",
                      P + (("C03",) if cname == "Items" else ("C01",)))
        entry_wired(ex, s2, ref, k, cname, inst)


class WorkerInitStrip(WorkerInit):
    proof_name = "HyperSearchProcess.__init__ (strip packing)"
    strip = True


# --------------------------------------------------- what the workers deliver


class Results:
    """the results of all workers, by the index of the worker; the facts are
    those proved for every worker (contracts of run and get_metrics)"""

    SOL, OBJ, BEST = ("delivered", "sol"), ("delivered", "obj"), ("delivered", "best")

    def __init__(self, ex, st, c):
        self.c = c
        F = lambda n, *s: z3.Function("worker." + n, I, *s)  # noqa
        self.ok, self.won, self.val, self.rep, self.init = F("ok", B), F("won", B), F("value", R), F("cell", R), F("top", R)
        self.pick = F("strategy", I)
        self.fx = [F("sol." + q, Val, Val, I) for q in ("X", "Y", "w", "l")]
        self.at, self.pos, self.dom, self.n = F("sol.at", Val, I, Val), F("sol.pos", Val, Val, I), F("sol.dom", Val, Val, B), F("sol.n", Val, I)
        self.sat, self.spos, self.sdom, self.sn = F("s.at", I, Val), F("s.pos", Val, I), F("s.dom", Val, B), F("s.n", I)
        self.oat, self.opos, self.odom, self.on = F("o.at", I, Val), F("o.pos", Val, I), F("o.dom", Val, B), F("o.n", I)
        self.u = F("u", Val, R)
        self.left, self.where, self.H = F("left", Val, B), F("where", Val, Val), F("H", Val, I)
        self.bn, self.bat = F("best.n", I), F("best.at", I, Val)
        self.top = F("best value", R)
        heapfam(st, self.SOL + ("pl",), [I, Val, Val], lambda x: Seq("list", [VInt(f(*x)) for f in self.fx]))
        heapfam(st, self.SOL + ("in",), [I, Val], lambda x: self.inner(x[0], x[1], self.SOL + ("pl",), (x[0], x[1])))
        heapfam(st, self.SOL, [I], lambda x: self.outer(x[0], self.SOL + ("in",), (x[0],)))
        heapfam(st, self.OBJ, [I], lambda x: self.values(x[0]))
        heapfam(st, self.BEST, [I], lambda x: Seq("list", n=self.bn(x[0]), get=lambda j: VStr(self.bat(x[0], j))))
        for f in ("S", "O"):
            heapfam(st, ("failed", f), [I], lambda x: Dict({}))
        i = z3.FreshConst(I, "i")
        st.assume(ForAll([I], lambda i: And(
            Implies(Not(self.ok(i)), self.rep(i) == -1),
            Implies(self.ok(i), And(self.rep(i) == If(self.won(i), self.val(i), z3.RealVal(0)), self.val(i) >= 0,
                                    self.val(i) >= c.init, self.val(i) >= self.top(i), Or(self.won(i), self.val(i) == c.init)))),
            lambda i: [self.rep(i)]))

    def inner(self, t, k, fam, pre):
        return Map(self.n(t, k), lambda i: self.at(t, k, i), lambda q: self.dom(t, k, q), lambda q: self.pos(t, k, q),
                   lambda q: VRef(fam, pre[:-1] + (k, q)))

    def outer(self, t, fam, pre):
        return Map(self.sn(t), lambda i: self.sat(t, i), lambda k: self.sdom(t, k), lambda k: self.spos(t, k),
                   lambda k: VRef(fam, pre + (k,)))

    def values(self, t):
        return Map(self.on(t), lambda i: self.oat(t, i), lambda k: self.odom(t, k), lambda k: self.opos(t, k),
                   lambda k: VReal(self.u(t, k)))

    def take(self, ex, st, t):
        """the result of worker t: (solution, values), with what is known of it"""
        c = self.c
        name = ("result", t.get_id())
        keep = getattr(ex, "keep", None) or {}
        ex.keep = keep
        keep[t.get_id()] = t
        heapfam(st, name + ("pl",), [Val, Val], lambda x: Seq("list", [VInt(f(t, *x)) for f in self.fx]))
        heapfam(st, name + ("in",), [Val], lambda x: Map(
            self.n(t, x[0]), lambda i: self.at(t, x[0], i), lambda q: self.dom(t, x[0], q), lambda q: self.pos(t, x[0], q),
            lambda q: VRef(name + ("pl",), (x[0], q))))
        sol, obj = heap0(st, name + ("S",), self.outer(t, name + ("in",), ())), heap0(st, name + ("O",), self.values(t))
        ghosts = (lambda k: self.left(t, k), lambda k: self.where(t, k), lambda q: self.H(t, q))
        ex.ghost_of[sol.fam] = ghosts
        v = View(st, sol, obj)
        add = lambda n, f, p: st.assume(Implies(self.ok(t), f))  # noqa
        solved(ex, c.g, v, c.g.cm.n, *ghosts, add)
        add("", self.val(t) == v.value(ex), ())
        if c.strip:
            add("", Implies(And(c.nomin, c.complete), v.n(lit(STRIP)) == c.g.I0.n), ())
        return sol, obj

    def best(self, ex, st, t):
        """the best strategy of worker t: one of its chunk"""
        c = self.c
        j = self.pick(t)
        n, get = c.chunk(t)
        s = get(j)
        st.assume(Implies(And(self.ok(t), self.won(t)), And(
            j >= 0, j < n, self.bn(t) == c.sn(s), ForAll([I], lambda q: Implies(And(q >= 0, q < c.sn(s)), self.bat(t, q) == c.sat(s, q))))))
        return s


def delivered(ex, st, v, fam, what):
    """(index of the worker, reference) of a value that comes from a worker; None
    for other values"""
    mine = [(q, x) for q, x in alts_of(v) if isinstance(x, VRef) and x.fam == fam]
    if not mine:
        return None
    came = Or(*[q for q, _ in mine])
    if not ex.oblige(st, came, f"{what} came from a worker", ("C12",)):
        st.assume(came)  # reported once
    t = pick(mine, lambda r: r.idx[0], iv(0))
    if fam == Results.SOL:
        ex.hs.winner = t
    return t


class CopyResult(CopySolution):
    def apply(self, ex, st, a):
        t = delivered(ex, st, a["solution"], Results.SOL, "the solution")
        return super().apply(ex, st, a if t is None else {**a, "solution": ex.hs.results.take(ex, st, t)[0]})


class CopyResultValues(CopyValues):
    def apply(self, ex, st, a):
        t = delivered(ex, st, a["obj_val_per_container"], Results.OBJ, "the values")
        return super().apply(ex, st, a if t is None else {**a, "obj_val_per_container": ex.hs.results.take(ex, st, t)[1]})


class DeepcopyHere(StructDeepcopy):
    """copies made in a loop over the workers"""

    def apply(self, ex, st, a):
        me = force(a["self"])
        if not ex.ambient or me.idx or force(a["ids_sequence"]) is not VNone:
            return super().apply(ex, st, a)
        m = as_map_of(st, st.content(me).f["data"])
        keys = next((KEYS[c.__name__] for c in st.content(me).cls.__mro__ if c.__name__ in KEYS), None)
        if keys is None:
            raise Unsupported("deepcopy of another structure")
        st0, amb = st.copy(), tuple(ex.ambient)

        def dim(k, key):
            return dim_value(st0, data, k, key)
        data, fam = force(st.content(me).f["data"]), ("copy", me.fam)
        heapfam(st, fam, [x.sort() for x in amb] + [Val], lambda ix: Dict({q: (TRUE, VInt(dim(ix[-1], q))) for q in keys}))
        return ex.alloc(st, Map(m.n, m.at, m.dom, m.pos, lambda k: VRef(fam, amb + (k,))), ("copied", me.fam))


class MakeWorker(WorkerInit):
    """the worker gets the problem, its part of the strategies and a cell"""

    def apply(self, ex, st, a):
        P, c = ("C12",), ex.hs
        me = force(a["self"])
        f, o = st.content(c.me).f, lambda g, n, p=(): ex.oblige(st, g, "a worker is given " + n, P + p)  # noqa
        if len(ex.ambient) != 1:
            raise Unsupported("workers are made outside of a loop")
        k = ex.ambient[0]
        idx = force(a["index"])
        sh = force(a["shared_array"])
        o(b(isinstance(sh, VExt) and sh.kind == "shared" and c.cells is not None), "the shared array")
        if not isinstance(idx, VInt) or c.cells is None:
            raise Unsupported("index of a worker")
        o(And(idx.t == k, idx.t >= 0, idx.t < c.cells), "a cell of its own")
        o(ex.truth(a["strip_pack"], st) == b(c.strip), "the kind of the problem")
        self.given(ex, st, o, a["items"], "items", c.w.im, dict(zip(KEYS["Items"], (c.w.iw, c.w.il))))
        if c.strip:
            m = as_map_of(st, a["containers"])
            o(And(m.n == 1, m.dom(lit(STRIP)), int_field(st, m.val(lit(STRIP)), "W") == c.w.W), "the strip")
        else:
            self.given(ex, st, o, a["containers"], "containers", c.w.cm, dict(zip(KEYS["Containers"], (c.w.cW, c.w.cL))))
        s = force(a["settings"])
        if not isinstance(s, VAny):
            raise Unsupported("settings of a worker")
        o(valid_settings(s.t), "valid settings")
        rot, lim = effective(s.t)
        o(rot == z3.Bool("rotation"), "the rotation setting", ("C03", "C07"))
        o(lim == c.limit, "the time limit", ("C09",))
        o(ex.eq(a["start_time"], f["start_time"], st), "the start time of the search", ("C09",))
        o(ex.truth(a["throttle"], st) == c.throttle, "the throttling asked for", ("C09",))
        o(int_or_none(a["container_min_height"], c.nomin, c.min), "the minimum height", ("C10",))
        h = a["container_height"]
        o(int_or_none(h, FALSE, c.h0) if c.strip else no_or_positive(h), "the height", ("C01",))
        o(b(force(a["_force_raise_error_index"]) is VNone), "no fault to raise")
        q = seq_of(st, force(a["strategies_chunk"]))
        j = z3.FreshConst(I, "j")
        r = force(q.get(j))
        if not (isinstance(r, VRef) and r.fam == STRATS):
            raise Unsupported("strategies of a worker")
        base = {g.get_id() for g in c.st0.pc}
        here = [g for g in st.pc if g.get_id() not in base and not z3.is_quantifier(g)
                and k.get_id() in {x.get_id() for x in consts_of(g)}]
        c.made = (k, me, simp(q.n), j, r.idx[0], here)
        ex.put(st, me, Inst(st.content(me).cls, {
            "index": idx, "_name": a["name"], "queue": VExt("queue"), "shared_array": sh, "strategies_chunk": a["strategies_chunk"],
            "throttle": a["throttle"], "instance": VExt("instance of the worker"), "_force_raise_error_index": VNone,
            "!started": VBool(FALSE), "!collected": VBool(FALSE)}))
        return VNone

    def given(self, ex, st, o, v, what, m0, dims):
        v = force(v)
        if not isinstance(v, VRef):
            raise Unsupported(f"{what} of a worker")
        m = as_map_of(st, v)
        i, k = z3.FreshConst(I, "i"), z3.FreshConst(Val, "k")
        o(And(m.n == m0.n, Implies(And(i >= 0, i < m0.n), m.at(i) == m0.at(i)), b(m.dom(k)) == m0.dom(k)), f"the {what} in order")
        for x, f in dims.items():
            o(Implies(m0.dom(k), int_field(st, m.val(k), x) == f(k)), f"the dimensions of the {what}")


def consts_of(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if not x.num_args():
                out.append(x)
            todo.extend(x.children())
    return out


class Metrics(GetMetrics):
    """what worker number i delivered"""

    def apply(self, ex, st, a):
        c, me = ex.hs, force(a["self"])
        w = st.content(me).f
        r, t = c.results, force(w["index"]).t
        ex.oblige(st, ex.truth(w["!started"], st), "a worker is started before its result is awaited", ("C12",))
        ex.put(st, me, st.content(me).set("!collected", VBool(TRUE)))
        best = merge(r.won(t), VRef(r.BEST, (t,)), VNone)
        return merge(r.ok(t), VTuple((VReal(r.val(t)), VRef(r.SOL, (t,)), VRef(r.OBJ, (t,)), best)),
                     VTuple((VInt(-1), VRef(("failed", "S"), (t,)), VRef(("failed", "O"), (t,)), VNone)))


def parent_models(ex, c):
    import multiprocessing
    from multiprocessing.process import BaseProcess

    def array(ex, a, kw, st, node):
        q = seq_of(st, force(a[1]))
        ex.oblige(st, b(isinstance(force(a[0]), VStr) and force(a[0]).lit == "d"), "the shared array holds floats", ("C12",))
        i = z3.FreshConst(I, "i")
        ex.oblige(st, Implies(And(i >= 0, i < q.n), real_of(q.get(i)) == 0), "the cells start with the least value", ("C12",))
        c.cells = simp(q.n)
        return VExt("shared")

    def start(ex, a, kw, st, node):
        me = force(a[0])
        w = st.content(me)
        ex.oblige(st, Not(ex.truth(w.f["!started"], st)), "a worker is started once", ("C12",))
        ex.put(st, me, w.set("!started", VBool(TRUE)))
        return VNone

    def join(ex, a, kw, st, node):
        w = st.content(force(a[0])).f
        ex.oblige(st, ex.truth(w["!collected"], st), "a worker is joined only after its result was taken", ("C12",))
        return VNone

    def cells(ex, v, st):
        f = ex.fresh_fn("shared", I, R)
        k, me = c.made[:2]

        def at(i):
            w = st0.content(VRef(me.fam, tuple(z3.substitute(x, (k, i)) for x in me.idx))).f
            return VReal(If(ex.truth(w["!collected"], st0), c.results.rep(i), f(i)))
        st0 = st.copy()
        return c.cells, at

    def close(ex, me, name, a, kw, st, node):
        return VNone if name in ("close", "join_thread", "cancel_join_thread") else None
    ex.models.update({multiprocessing.Array: array, BaseProcess.start: start, BaseProcess.join: join})
    ex.ext_iters["shared"] = cells
    ex.ext_methods["queue"] = close
    process_models(ex)


class MultiSearch(SingleSearch):
    """the best result of all workers; failure only if every worker failed"""

    qual = "HyperPack._multi_process_hypersearch"
    base_props = ("C01", "C02", "C03", "C04", "C06", "C07", "C09", "C10", "C11", "C12")
    uses = (DeepcopyHere, MakeWorker, Metrics, CopyResult, CopyResultValues)
    loops = ()

    def function(self):
        return hp()._multi_process_hypersearch

    def setup(self, ex, st):
        c = hyper_world(ex, st, self.strip)
        ex.time_hooks, ex.solve_hooks, ex.local_hooks = [], [], []
        ref, c.n, c.sn, c.sat = mk_strategies(ex, st)
        c.m, s = z3.Int("workers"), z3.Const("settings", Val)
        st.assume(And(c.n >= 1, c.m >= 1, valid_settings(s)))
        rot, lim = effective(s)
        st.assume(And(rot == z3.Bool("rotation"), lim == c.limit))
        ex.put(st, c.me, st.content(c.me).set("_workers_num", VInt(c.m)).set("_settings", VAny(s)))
        c.init, c.complete = z3.Real("starting value"), z3.Bool("complete") if self.strip else TRUE
        c.cells = c.made = c.winner = None
        c.results = Results(ex, st, c)
        parent_models(ex, c)
        c.chunk = lambda t: self.chunk(c, t)
        c.st0 = st.copy()
        return [c.me, ref, VBool(c.throttle), VNone], c

    def chunk(self, c, t):
        k, me, n, j, s, here = c.made
        return z3.substitute(n, (k, t)), lambda p: z3.substitute(s, (k, t), (j, p))

    def check(self, ex, st, c, v):
        P, v, r = ("C12",), force(v), c.results
        ok = isinstance(v, VTuple) and len(v.items) == 3
        if not ex.oblige(st, b(ok), "a triple is returned", P):
            return
        sol, obj, best = v.items
        t = delivered(ex, st, sol, r.SOL, "the solution returned")
        sol = sol if t is None else r.take(ex, st, t)[0]
        t = delivered(ex, st, obj, r.OBJ, "the values returned")
        obj = obj if t is None else r.take(ex, st, t)[1]
        left, where, H = ghosts_of(ex, sol)
        view = View(st, sol, obj)
        solved(ex, c.g, view, c.g.cm.n, left, where, H, lambda n, f, p: ex.oblige(st, f, n, tuple(p) + P))
        val = view.value(ex)
        PP = ("C11", "C12")
        ex.oblige(st, val >= c.init, "the value is at least that of the starting solve", PP)
        j = z3.FreshConst(I, "worker")
        here = And(j >= 0, j < c.cells)
        hint(st, r.rep(j))
        ex.oblige(st, Implies(And(here, r.ok(j)), val >= r.val(j)), "the value is at least that of every worker's result", PP)
        ex.oblige(st, Exists([I], lambda i: And(i >= 0, i < c.cells, r.ok(i))), "a worker succeeded", P)
        # the strategies are divided among the workers
        k, me, n, jj, s, pc = c.made
        x = z3.FreshConst(I, "strategy")
        len0 = c.chunk(iv(0))[0]
        hints = []
        for d in (len0, c.cells):
            q, e = ex.fresh("quotient", I), ex.fresh("remainder", I)
            st.assume(Implies(d >= 1, And(x == q * d + e, e >= 0, e < d, Implies(x >= 0, q >= 0))))
            hints += [(q, e), (e, q)]

        def made(i):
            return And(i >= 0, i < c.cells, *[z3.substitute(g, (k, i)) for g in pc])
        goals = [And(made(i), e >= 0, e < c.chunk(i)[0], c.chunk(i)[1](e) == x) for i, e in (hints[0], hints[3])]
        ex.oblige(st, Implies(And(x >= 0, x < c.n), Or(*goals)), "every strategy is given to a worker", PP)
        i, i2, e, e2 = [z3.FreshConst(I, y) for y in ("i", "i2", "e", "e2")]
        s3 = st.copy()
        for d in (len0, c.cells):
            for y, z in ((i, i2), (i2, i)):
                s3.assume(Implies(And(d >= 1, z >= y + 1), d * z >= d * y + d))
        s3.assume(And(made(i), made(i2), e >= 0, e < c.chunk(i)[0], e2 >= 0, e2 < c.chunk(i2)[0], Or(i != i2, e != e2)))
        ex.oblige(s3, c.chunk(i)[1](e) != c.chunk(i2)[1](e2), "no strategy is given twice", P)
        for q, b_ in alts_of(best):
            s2 = st.copy()
            s2.assume(q)
            if ex.infeasible(s2):
                continue
            if b_ is VNone:
                ex.oblige(s2, val == c.init, "without an improvement no strategy is named", PP)
                continue
            s_ = r.best(ex, s2, c.winner)
            ex.oblige(s2, is_strategy(ex, s2, c, b_, s_), "the best strategy produced the result", PP)
        ex.frame(c.st0, st, [GHOST], "changes nothing", ("C06", "C12"))

    def apply(self, ex, st, a):
        """the best of the workers' results: as with one process; all may fail"""
        P, me, c = self.base_props, force(a["self"]), ex.hs
        q, f = seq_of(st, force(a["strategies"])), st.content(me).f
        s, m = force(f["_settings"]), force(f["_workers_num"])
        need(ex, st, q.n >= 1, f"{self.qual} (strategies)", P)
        need(ex, st, And(valid_settings(s.t), m.t >= 1), f"{self.qual} (settings)", P)
        rot, lim = effective(s.t)
        need(ex, st, And(rot == ex.truth(f["_rotation"], st), ex.eq(f["_max_time_in_seconds"], VInt(lim), st)),
             f"{self.qual} (settings in effect)", P)
        need(ex, st, b(force(a["_force_raise_error_index"]) is VNone), f"{self.qual} (no fault to raise)", P)
        from hyperpack.exceptions import MultiProcessError
        ex.guard(st, ex.fresh("a worker succeeded", B), MultiProcessError, "all workers fail")
        return VPoison("dead") if st.dead else super().apply(ex, st, a)

    def unnamed(self, ex, st):
        return VNone

    def after(self, ex, st, me, f, o):
        """the instance of the search stays as it is"""
        return f

    def check_raise(self, ex, c, o):
        j = z3.FreshConst(I, "worker")
        hint(o.st, c.results.rep(j))
        ex.oblige(o.st, b(o.val.cls.__name__ == "MultiProcessError"), "MultiProcessError is raised", ("C12",))
        ex.oblige(o.st, Implies(And(j >= 0, j < c.cells), Not(c.results.ok(j))), "raises only if every worker failed", ("C12",))


class HyperSearchMulti(HyperSearch):
    """hypersearch with several workers"""

    proof_name = "HyperPack.hypersearch (several workers)"
    uses = (SortItems, OrientItems, MultiSearch, GetStrategies)
    several = True


class HyperSearchMultiStrip(HyperSearchMulti):
    proof_name = "HyperPack.hypersearch (several workers, strip packing)"
    strip = True


class MultiSearchStrip(MultiSearch):
    proof_name = "HyperPack._multi_process_hypersearch (strip packing)"
    strip = True
