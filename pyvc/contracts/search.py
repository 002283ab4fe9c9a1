"""Solutions, their values and the searches over them (C04, C06, C08 - C12, C17, C20)."""
from fractions import Fraction

import z3

from core import *  # noqa
from contracts.common import *  # noqa
from contracts.common import Contract
from contracts.problem import int_or_none, mk_strip, opt_int
from contracts.struct import KEYS, mk_owner, mk_struct
from vc import heap0, heapfam


def hp():
    from hyperpack.heuristics import HyperPack
    return HyperPack


STRIP = "strip-pack-container"


class World:
    """a problem instance: items, containers, possibly a solution"""


def mk_solution(ex, st, name, contdom, items, nested=True):
    """an arbitrary solution: for every container of the problem the placements
    of some items of the problem"""
    s = World()
    fx = [z3.Function(f"{name}.{q}", Val, Val, I) for q in ("X", "Y", "pw", "pl")]
    at, pos = z3.Function(name + ".at", Val, I, Val), z3.Function(name + ".pos", Val, Val, I)
    dom, n = z3.Function(name + ".dom", Val, Val, B), z3.Function(name + ".n", Val, I)
    s.fx, s.at, s.dom, s.n = fx, at, dom, n
    heapfam(st, (name, "pl"), [Val, Val], lambda ix: Seq("list", [VInt(f(ix[0], ix[1])) for f in fx]))
    heapfam(st, (name, "in"), [Val], lambda ix: Map(
        n(ix[0]), lambda i: at(ix[0], i), lambda k: dom(ix[0], k), lambda k: pos(ix[0], k),
        lambda k: VRef((name, "pl"), (ix[0], k))))
    ex.reg_inverse(lambda i: at(z3.Const("c!any", Val), i), lambda k: pos(z3.Const("c!any", Val), k), State())
    # (distinct ids of items: at most as many as there are items)
    st.assume(ForAll([Val], lambda c: And(n(c) >= 0, Implies(contdom(c), n(c) <= items.n)), lambda c: [n(c)]))
    st.assume(ForAll([Val, I], lambda c, i: Implies(And(i >= 0, i < n(c)), And(
        dom(c, at(c, i)), pos(c, at(c, i)) == i)), lambda c, i: [at(c, i)]))
    st.assume(ForAll([Val, Val], lambda c, k: Implies(dom(c, k), And(
        pos(c, k) >= 0, pos(c, k) < n(c), at(c, pos(c, k)) == k, items.dom(k))), lambda c, k: [dom(c, k)]))
    s.top = lambda c, k: fx[1](c, k) + fx[3](c, k)
    st.assume(ForAll([Val, Val], lambda c, k: Implies(dom(c, k), And(
        fx[0](c, k) >= 0, fx[1](c, k) >= 0, fx[2](c, k) >= 1, fx[3](c, k) >= 1)), lambda c, k: [fx[3](c, k)]))
    s.name = name
    return s


def mk_world(ex, st, strip, solved=True):
    """an instance with a solution (solved: True, False or a condition)"""
    w = World()
    w.strip = strip
    mh, none, t = opt_int("min", st)
    w.mh, w.nomin, w.min = mh, none, t
    w.height = z3.Int("height")
    st.assume(w.height >= 1)
    st.assume(Or(none, t <= w.height))
    me = w.me = mk_owner(st, None, _strip_pack=VBool(b(strip)), _container_min_height=mh,
                         _container_height=VInt(w.height) if strip else opt_int("set height", st)[0])
    w.items, w.im, w.iw, w.il = mk_struct(ex, st, "Items", me)
    if strip:
        w.cont, w.W = mk_strip(ex, st, me)
        w.cm = dict_to_map(st.content(force(st.content(w.cont).f["data"])))
        w.cnum = iv(1)
    else:
        w.cont, w.cm, w.cW, w.cL = mk_struct(ex, st, "Containers", me)
        w.cnum = w.cm.n
    w.sol = mk_solution(ex, st, "sol", w.cm.dom, w.im)
    cm = w.cm
    sv = w.solved = b(solved)
    n = cm.n if is_true(sv) else If(sv, cm.n, iv(0))
    w.solmap = Map(n, cm.at, lambda k: And(sv, cm.dom(k)), cm.pos, lambda k: VRef(("sol", "in"), (k,)))
    w.solution = heap0(st, ("sol",), w.solmap)
    w.u = z3.Function("util", Val, R)
    w.objmap = Map(n, cm.at, lambda k: And(sv, cm.dom(k)), cm.pos, lambda k: VReal(w.u(k)))
    w.obj = heap0(st, ("obj",), w.objmap)
    f = st.content(me)
    for a, v in {"_items": w.items, "_containers": w.cont, "_containers_num": VInt(w.cnum),
                 "solution": w.solution, "obj_val_per_container": w.obj}.items():
        f = f.set(a, v)
    ex.put(st, me, f)
    return w


def fresh_dict(st0, ref):
    """the dictionary did not exist before"""
    ref = force(ref)
    return isinstance(ref, VRef) and ref.fam not in st0.heap


def same_placements(ex, st, st0, w, ref, props, what):
    """ref is a copy of the world's solution sharing no mutable object with it"""
    ex.oblige(st, b(fresh_dict(st0, ref)), what + ": a new dictionary", props)
    m = as_map_of(st, ref)
    c, k = z3.FreshConst(Val, "cont"), z3.FreshConst(Val, "item")
    ex.oblige(st, And(m.n == w.cm.n, b(m.dom(c)) == w.cm.dom(c)), what + ": the same containers", props)
    s2 = st.copy()
    s2.assume(w.cm.dom(c))
    if w.strip:
        c = lit(STRIP)
    inner = force(m.val(c))
    if isinstance(inner, VUnion):
        inner = [force(x) for g, x in inner.alts if not isinstance(x, VPoison) and not is_false(z3.simplify(b(g)))][0]
    ex.oblige(s2, b(fresh_dict(st0, inner)), what + ": new dictionaries inside", props)
    mi = as_map_of(s2, inner)
    ex.oblige(s2, b(mi.dom(k)) == w.sol.dom(c, k), what + ": the same items", props)
    s2.assume(w.sol.dom(c, k))
    pl = force(mi.val(k))
    ex.oblige(s2, b(fresh_dict(st0, pl)), what + ": new placements", props)
    q = seq_of(s2, pl)
    ex.oblige(s2, q.n == 4, what + ": four numbers", props)
    for i in range(4):
        x = force(q.get(iv(i)))
        if isinstance(x, VUnion):
            x = [y for _, y in x.alts if not isinstance(y, VPoison)][0]
        ex.oblige(s2, b(isinstance(x, VInt)), what + ": numbers", props)
        if isinstance(x, VInt):
            ex.oblige(s2, x.t == w.sol.fx[i](c, k), what + f": number {i} is the same", props)


class CopyValues(Contract):
    qual = "DeepcopyMixin._copy_objective_val_per_container"
    base_props = ("C08", "C11")
    given = False

    def function(self):
        return hp()._copy_objective_val_per_container

    def setup(self, ex, st):
        w = mk_world(ex, st, False)
        args = [w.me]
        if self.given:
            ex.put(st, w.me, st.content(w.me).set("obj_val_per_container", VExt("own values")))
            args.append(w.obj)
        return args, (w, st.copy())

    def check(self, ex, st, ctx, v):
        w, st0 = ctx
        ex.oblige(st, b(fresh_dict(st0, v)), "a new dictionary", self.base_props)
        m = as_map_of(st, v)
        c, i = z3.FreshConst(Val, "cont"), z3.FreshConst(I, "i")
        ex.oblige(st, And(m.n == w.cm.n, b(m.dom(c)) == w.cm.dom(c)), "the same containers", self.base_props)
        ex.oblige(st, Implies(And(i >= 0, i < m.n), m.at(i) == w.cm.at(i)), "in the same order", self.base_props)
        s2 = st.copy()
        s2.assume(w.cm.dom(c))
        ex.oblige(s2, real_of(m.val(c)) == w.u(c), "the same values", self.base_props)
        ex.frame(st0, st, [], "changes nothing", self.base_props + ("C06",))


    def apply(self, ex, st, a):
        src = force(a["obj_val_per_container"])
        src = force(st.content(force(a["self"])).f["obj_val_per_container"]) if src is VNone else src
        if not isinstance(src, VRef) or ex.ambient:
            raise Unsupported("copy of the values")
        m = as_map_of(st, src)
        for nm, f in map_wf_parts(m):
            need(ex, st, f, "_copy_objective_val_per_container (" + nm + ")", self.base_props)
        fam = ("copied", ex.next_id())
        ex.fresh("id", I)
        return heap0(st, fam, Map(m.n, m.at, m.dom, m.pos, m.val))


class CopyGivenValues(CopyValues):
    proof_name = "DeepcopyMixin._copy_objective_val_per_container (given values)"
    given = True


class CopySolution(Contract):
    qual = "DeepcopyMixin._deepcopy_solution"
    base_props = ("C08", "C11")
    strip = given = False

    def function(self):
        return hp()._deepcopy_solution

    def setup(self, ex, st):
        w = mk_world(ex, st, self.strip)
        args = [w.me]
        if self.given:
            ex.put(st, w.me, st.content(w.me).set("solution", VExt("own solution")))
            args.append(w.solution)
        return args, (w, st.copy())

    def check(self, ex, st, ctx, v):
        w, st0 = ctx
        same_placements(ex, st, st0, w, v, self.base_props, "copy")
        ex.frame(st0, st, [], "changes nothing", self.base_props + ("C06",))


    def apply(self, ex, st, a):
        src = force(a["solution"])
        src = force(st.content(force(a["self"])).f["solution"]) if src is VNone else src
        if not isinstance(src, VRef) or ex.ambient:
            raise Unsupported("copy of the solution")
        m = as_map_of(st, src)
        fam = ("copied", ex.next_id())
        ex.fresh("id", I)
        c, k = ex.fresh("c", Val), ex.fresh("k", Val)
        r = force(m.val(c))
        if not (isinstance(r, VRef) and len(r.idx) == 1 and r.idx[0].eq(c)):
            raise Unsupported("copy of the solution")
        p = force(as_map_of(st, r).val(k))
        if not (isinstance(p, VRef) and len(p.idx) == 2 and p.idx[0].eq(c) and p.idx[1].eq(k)):
            raise Unsupported("copy of the solution")
        q4 = seq_of(st, p)
        if q4.items is None or len(q4.items) != 4:
            raise Unsupported("copy of the solution")
        for nm, f in map_wf_parts(m):
            need(ex, st, f, "_deepcopy_solution (" + nm + ")", self.base_props)
        mi = lambda q: as_map_of(st, m.val(q))  # noqa
        need(ex, st, ForAll([Val], lambda q: Implies(m.dom(q), mi(q).n >= 0)), "_deepcopy_solution (sizes)", self.base_props)
        need(ex, st, ForAll([Val, I], lambda q, i: Implies(And(m.dom(q), i >= 0, i < mi(q).n), And(
            mi(q).dom(mi(q).at(i)), mi(q).pos(mi(q).at(i)) == i))), "_deepcopy_solution (ids)", self.base_props)
        need(ex, st, ForAll([Val, Val], lambda q, k: Implies(And(m.dom(q), mi(q).dom(k)), And(
            mi(q).pos(k) >= 0, mi(q).pos(k) < mi(q).n, mi(q).at(mi(q).pos(k)) == k))),
            "_deepcopy_solution (no other ids)", self.base_props)
        inner, pls = st.heap[r.fam], st.heap[p.fam]
        heapfam(st, fam + ("pl",), [Val, Val], pls.get)

        def in_(ix):
            mi = inner.get(ix)
            return Map(mi.n, mi.at, mi.dom, mi.pos, lambda q: VRef(fam + ("pl",), (ix[0], q)))
        heapfam(st, fam + ("in",), [Val], in_)
        gh = getattr(ex, "ghost_of", {})
        if src.fam in gh:
            gh[fam] = gh[src.fam]
        return heap0(st, fam, Map(m.n, m.at, m.dom, m.pos, lambda q: VRef(fam + ("in",), (q,))))


class CopySolutionStrip(CopySolution):
    proof_name = "DeepcopyMixin._deepcopy_solution (strip packing)"
    strip = True


class CopyGivenSolution(CopySolution):
    proof_name = "DeepcopyMixin._deepcopy_solution (given solution)"
    given = True


class GetSolution(CopySolution):
    qual = "LocalSearchMixin.get_solution"
    base_props = ("C08", "C11")

    def function(self):
        return hp().get_solution

    def check(self, ex, st, ctx, v):
        w, st0 = ctx
        v = force(v)
        ok = isinstance(v, VTuple) and len(v.items) == 2
        ex.oblige(st, b(ok), "a pair is returned", self.base_props)
        if not ok:
            return
        same_placements(ex, st, st0, w, v.items[0], self.base_props, "copy")
        m = as_map_of(st, v.items[1])
        c = z3.FreshConst(Val, "cont")
        s2 = st.copy()
        s2.assume(w.cm.dom(c))
        ex.oblige(s2, And(m.dom(c), real_of(m.val(c)) == w.u(c)), "the values of the same solution", self.base_props)
        ex.oblige(st, b(fresh_dict(st0, v.items[1])), "a new dictionary of values", self.base_props)
        ex.frame(st0, st, [], "changes nothing", self.base_props + ("C06",))


# ------------------------------------------------------------- strip heights


def is_stack_height(w, H, c=None):
    """H is the height of the stack in container c (0: nothing placed)"""
    s = w.sol
    c = lit(STRIP) if c is None else c
    return And(
        ForAll([Val], lambda k: Implies(s.dom(c, k), s.top(c, k) <= H), lambda k: [s.dom(c, k)]),
        Or(And(s.n(c) == 0, H == 0), Exists([Val], lambda k: And(s.dom(c, k), s.top(c, k) == H))))


class GetHeight(Contract):
    """the height of a container: as documented"""

    qual = "Containers._get_height"
    base_props = ("C20", "C21")
    solved = True
    strip = True

    def function(self):
        from hyperpack.structures import Containers
        return Containers._get_height

    def setup(self, ex, st):
        w = mk_world(ex, st, self.strip, self.solved)
        if self.strip:
            return [w.cont, S(STRIP)], (w, st.copy())
        c = z3.Const("cont_id", Val)
        st.assume(w.cm.dom(c))
        return [w.cont, VStr(c)], (w, c, st.copy())

    def check(self, ex, st, ctx, v):
        w, st0 = ctx[0], ctx[-1]
        self.value(ex, st, ctx, v, self.base_props)
        ex.frame(st0, st, [], "changes nothing", self.base_props + ("C06",))

    def value(self, ex, st, ctx, h, props):
        w = ctx[0]
        h = int_term(ex, st, h, "an integer", props)
        if h is None:
            return
        if not self.strip:
            ex.oblige(st, h == w.cL(ctx[1]), "the container's own length", props)
        elif self.solved is False:
            ex.oblige(st, h == 10 * w.W, "10 times the width without a solution", props)
        else:
            H = ex.fresh("H", I)
            s2 = st.copy()
            s2.assume(is_stack_height(w, H))
            hint(s2, w.sol.dom(lit(STRIP), w.sol.at(lit(STRIP), iv(0))))
            want = If(Or(w.nomin, w.min <= H), H, w.min)
            ex.oblige(s2, h == want, "the height of the stack, or the minimum if larger", props)


    def apply(self, ex, st, a):
        me, cid = force(a["self"]), force(a["cont_id"])
        f = st.content(force(st.content(me).f["instance"])).f
        data, what = as_map_of(st, st.content(me).f["data"]), "Containers._get_height "
        need(ex, st, b(isinstance(cid, VStr)) if not isinstance(cid, VStr) else data.dom(cid.t), what + "(container)", self.base_props)
        dims = as_map_of(st, st.content(force(data.val(cid.t))).f["data"])
        if is_false(ex.truth(f["_strip_pack"], st)):
            return VInt(pick([(q, x) for q, x in alts_of(dims.val(lit("L"))) if isinstance(x, VInt)], lambda x: x.t, None))
        sol = as_map_of(st, f["solution"])
        need(ex, st, And(sol.n >= 1, sol.dom(cid.t)), what + "(solution)", self.base_props)
        m = as_map_of(st, sol.val(cid.t))
        for nm, q in map_wf_parts(m):
            need(ex, st, q, what + f"({nm})", self.base_props)
        p = lambda k, i: pick([(q, x) for q, r in alts_of(m.val(k)) for x in [force(seq_of(st, r).get(iv(i)))]  # noqa
                               if isinstance(x, VInt)], lambda x: x.t, None)
        top = lambda k: p(k, 1) + p(k, 3)  # noqa
        H, h = ex.fresh("H", I), ex.fresh("height", I)
        st.assume(ForAll([Val], lambda k: Implies(m.dom(k), top(k) <= H)))
        st.assume(Or(And(m.n == 0, H == 0), Exists([Val], lambda k: And(m.dom(k), top(k) == H))))
        mh = alts_of(f["_container_min_height"])
        nomin = Or(*[q for q, x in mh if x is VNone])
        mn = pick([(q, x) for q, x in mh if isinstance(x, VInt)], lambda x: x.t, iv(1))
        st.assume(h == If(Or(nomin, mn <= H), H, mn))
        return VInt(h)


class GetHeightUnsolved(GetHeight):
    proof_name = "Containers._get_height (no solution)"
    solved = False


class GetHeightBin(GetHeight):
    proof_name = "Containers._get_height (bin packing)"
    strip = False


class SetHeightC(GetHeight):
    qual = "Containers._set_height"
    base_props = ("C10", "C17")

    def function(self):
        from hyperpack.structures import Containers
        return Containers._set_height

    def setup(self, ex, st):
        w = mk_world(ex, st, True, self.solved)
        return [w.cont], (w, st.copy())

    def check(self, ex, st, ctx, v):
        w, st0 = ctx
        self.value(ex, st, ctx, st.content(w.me).f["_container_height"], self.base_props)
        ex.frame(st0, st, [(("owner",), "_container_height")], "changes only the height",
                 self.base_props + ("C06",))


    def apply(self, ex, st, a):
        """the height becomes that of the stack of the current solution"""
        me = force(st.content(force(a["self"])).f["instance"])
        f = st.content(me).f
        if not is_true(ex.truth(f["_strip_pack"], st)):
            raise Unsupported("height of no strip")
        m = as_map_of(st, f["solution"])
        s = lit(STRIP)
        P = self.base_props
        need(ex, st, m.dom(s), "_set_height (a solution)", P)
        mi = as_map_of(st, m.val(s))
        num = lambda k, i: int_term(ex, st, seq_of(st, force(mi.val(k))).get(iv(i)), "numbers", P)  # noqa
        top = lambda k: num(k, 1) + num(k, 3)  # noqa
        for nm, g in map_wf_parts(mi):
            need(ex, st, g, "_set_height (" + nm + ")", P)
        need(ex, st, ForAll([Val], lambda k: Implies(mi.dom(k), And(num(k, 1) >= 0, num(k, 3) >= 1))),
             "_set_height (placements)", P)
        H = ex.fresh("stack", I)
        st.assume(ForAll([Val], lambda k: Implies(mi.dom(k), top(k) <= H), lambda k: [b(mi.dom(k))]))
        st.assume(Or(And(mi.n == 0, H == 0), Exists([Val], lambda k: And(mi.dom(k), top(k) == H))))
        low = f["_container_min_height"]
        new = H
        for q, x in alts_of(low):
            if x is not VNone:
                t = int_term(ex, st, x, "the minimum is a number", P)
                new = If(And(q, t > H), t, new)
        ex.put(st, me, st.content(me).set("_container_height", VInt(new)))
        return VNone


class SetHeightUnsolved(SetHeightC):
    proof_name = "Containers._set_height (no solution)"
    solved = False


# --------------------------------------------------------------- comparisons


class CompareNode(Contract):
    qual = "LocalSearchMixin.compare_node"
    base_props = ("C08", "C10", "C11")
    strip = True

    def function(self):
        return hp().compare_node

    def setup(self, ex, st):
        w = mk_world(ex, st, self.strip)
        x, y = z3.Reals("new_value best_value")
        return [w.me, VReal(x), VReal(y)], (w, x, y, st.copy())

    def check(self, ex, st, ctx, v):
        w, x, y, st0 = ctx
        r = ex.truth(v, st)
        want = x > y
        if self.strip:
            want = And(want, Or(Not(w.nomin), w.sol.n(lit(STRIP)) == w.im.n))
        ex.oblige(st, Implies(r, x > y), "accepted only if better", ("C08", "C11"))
        if self.strip:
            ex.oblige(st, Implies(And(r, w.nomin), w.sol.n(lit(STRIP)) == w.im.n),
                      "without a minimum height accepted only with all items placed", ("C10",))
        ex.oblige(st, Implies(want, r), "accepted if better and complete", ("C08", "C11"))
        ex.frame(st0, st, [], "changes nothing", self.base_props + ("C06",))


class CompareNodeBin(CompareNode):
    proof_name = "LocalSearchMixin.compare_node (bin packing)"
    strip = False


class CheckSolution(CompareNode):
    qual = "HyperPack._check_solution"
    base_props = ("C10", "C11")

    def function(self):
        return hp()._check_solution


class CheckSolutionBin(CheckSolution):
    proof_name = "HyperPack._check_solution (bin packing)"
    strip = False


class ExtraOps(Contract):
    """after a new node: the height follows the stack"""

    qual = "LocalSearchMixin.extra_node_operations"
    base_props = ("C10",)
    strip = True

    def function(self):
        return hp().extra_node_operations

    def setup(self, ex, st):
        w = mk_world(ex, st, self.strip)
        h0, n0 = z3.Function("heights", I, I), z3.Int("heights.n")
        st.assume(n0 >= 0)
        w.hist = heap0(st, ("hist",), Seq("list", n=n0, get=lambda i: VInt(h0(i))))
        ex.put(st, w.me, st.content(w.me).set("_heights_history", w.hist))
        return [w.me], (w, st.copy())

    def check(self, ex, st, ctx, v):
        w, st0 = ctx
        if not self.strip:
            ex.frame(st0, st, [], "changes nothing", ("C06", "C10"))
            return
        GetHeight.value(self, ex, st, ctx, st.content(w.me).f["_container_height"], ("C10",))
        ex.frame(st0, st, [(("owner",), "_container_height"), ("hist",)], "changes only the height",
                 ("C10", "C06", "C17"))

    solved = True


class ExtraOpsBin(ExtraOps):
    proof_name = "LocalSearchMixin.extra_node_operations (bin packing)"
    strip = False


class InitialLength(Contract):
    """the length of a container that solving starts with"""

    qual = "PointGenerationMixin._get_initial_container_length"
    reads = ("_strip_pack", "_container_height")
    base_props = ("C01", "C04", "C05")
    strip = True

    def function(self):
        return hp()._get_initial_container_length

    def setup(self, ex, st):
        w = mk_world(ex, st, self.strip, z3.Bool("solved"))
        c = lit(STRIP) if self.strip else z3.Const("cont_id", Val)
        st.assume(w.cm.dom(c))
        return [w.me, w.cm.val(c)], (w, c, st.copy())

    def check(self, ex, st, ctx, v):
        w, c, st0 = ctx
        v = force(v)
        ex.oblige(st, b(isinstance(v, VInt)), "an integer", self.base_props)
        if isinstance(v, VInt):
            want = w.height if self.strip else w.cL(c)
            ex.oblige(st, v.t == want, "the strip's current height" if self.strip else "the container's own length",
                      self.base_props)
        ex.frame(st0, st, [], "changes nothing", self.base_props + ("C06",))


class InitialLengthBin(InitialLength):
    proof_name = "PointGenerationMixin._get_initial_container_length (bin packing)"
    strip = False


class ObjValue(Contract):
    """the objective: the sum of the values, the last one weighted"""

    qual = "LocalSearchMixin.calculate_obj_value"
    base_props = ("C04", "C08", "C14")

    def function(self):
        return hp().calculate_obj_value

    def setup(self, ex, st):
        w = mk_world(ex, st, False)
        return [w.me], (w, st.copy())

    def check(self, ex, st, ctx, v):
        w, st0 = ctx
        n = w.cm.n
        r, want = real_of(v), objective(ex, w.objmap)
        ex.oblige(st, Implies(n == 1, r == want), "one container: its value", self.base_props)
        ex.oblige(st, Implies(n > 1, r == want), "several: the sum, the last one weighted by 0.7", self.base_props)
        ex.frame(st0, st, [], "changes nothing", self.base_props + ("C06",))

    def apply(self, ex, st, a):
        f = st.content(force(a["self"])).f
        alts = alts_of(f["obj_val_per_container"])
        num = int_term(ex, st, f["_containers_num"], "precondition: the number of containers", self.base_props)
        for q, r in alts:
            m = as_map_of(st, r)
            need(ex, st, Implies(q, And(m.n == num, m.n >= 1)), "calculate_obj_value (a value for each container)",
                 self.base_props)
        return VReal(pick(alts, lambda r: objective(ex, as_map_of(st, r)), None))


def objective(ex, m):
    """sum of the values of the dictionary m, the last one of several times 0.7"""
    i = z3.FreshConst(I, "i")
    nm, f, at = ex.sum_fn(real_of(m.val(m.at(i))), i, True)
    last = real_of(m.val(m.at(m.n - 1)))
    return If(m.n == 1, last, at(m.n - 1) + z3.RealVal(Fraction(0.7)) * last)
