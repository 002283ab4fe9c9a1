"""Solving all containers: copies of the items, the loop over the containers."""
import z3

from core import *  # noqa
from contracts.common import *  # noqa
from contracts.common import Contract
from contracts.pack import (GEOM, Construct, Ctx, apart, inside, key_at, mk_strategy, rect_of)
from contracts.search import STRIP, InitialLength, hp, mk_world, objective
from contracts.struct import KEYS, mk_owner, mk_struct
from inv import LoopSpec
from vc import heap0, heapfam


# ------------------------------------------------------- copies of the structures


def mk_sequence(ex, st, im, name="sequence"):
    """a list of distinct ids of the structure"""
    at, pos, n = z3.Function(name, I, Val), z3.Function(name + ".pos", Val, I), z3.Int(name + ".n")
    st.assume(n >= 0)
    st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < n), And(
        im.dom(at(i)), tag(at(i)) == TAGS["str"], pos(at(i)) == i)), lambda i: [at(i)]))
    ex.reg_inverse(at, pos, State())
    return heap0(st, (name,), Seq("list", n=n, get=lambda i: VStr(at(i)))), n, at, pos


class StructDeepcopy(Contract):
    qual = "AbstractStructureSet.deepcopy"
    reads = ()
    base_props = ("C03", "C05", "C06")
    cname = "Items"
    given = False

    def function(self):
        from hyperpack.structures import AbstractStructureSet
        return AbstractStructureSet.deepcopy

    def setup(self, ex, st):
        me = mk_owner(st, None)
        ref, m, f1, f2 = mk_struct(ex, st, self.cname, me)
        args = [ref]
        n, at = m.n, m.at
        if self.given:
            q, n, at, pos = mk_sequence(ex, st, m)
            args.append(q)
        return args, (m, f1, f2, n, at, st.copy())

    def check(self, ex, st, ctx, v):
        m, f1, f2, n, at, st0 = ctx
        P = self.base_props
        v = force(v)
        ex.oblige(st, b(isinstance(v, VRef) and v.fam not in st0.heap), "a new dictionary", P)
        r = as_map_of(st, v)
        i, k = z3.FreshConst(I, "i"), z3.FreshConst(Val, "k")
        ex.oblige(st, r.n == n, "as many entries as ids", P)
        ex.oblige(st, Implies(And(i >= 0, i < n), And(r.at(i) == at(i), r.dom(at(i)), r.pos(at(i)) == i)),
                  "the ids in their order", P)
        ex.oblige(st, Implies(r.dom(k), And(r.pos(k) >= 0, r.pos(k) < n, at(r.pos(k)) == k)), "no other ids", P)
        s2 = st.copy()
        s2.assume(r.dom(k))
        inner = force(r.val(k))
        ok = isinstance(inner, VRef) and inner.fam not in st0.heap and len(inner.idx) == 1
        ex.oblige(s2, b(ok), "new dictionaries inside", P)
        if ok:
            # one dictionary per id
            k2 = z3.FreshConst(Val, "k2")
            s3 = s2.copy()
            s3.assume(r.dom(k2))
            s3.assume(same_ref(inner, r.val(k2)))
            ex.oblige(s3, k == k2, "different dictionaries for different ids", P)
        d = st.content(inner)
        for key, f in zip(KEYS[self.cname], (f1, f2)):
            p, x = field(s2, inner, key)
            ex.oblige(s2, p, f"dimension {key} is there", P)
            ex.oblige(s2, int_field(s2, inner, key) == f(k), f"dimension {key} is the same", P)
        extra = [q for q in d.e if q not in KEYS[self.cname]] if isinstance(d, Dict) else ["?"]
        ex.oblige(s2, b(not extra), "nothing else inside", P)
        ex.frame(st0, st, [], "changes nothing", P)

    def apply(self, ex, st, a):
        me, seq = force(a["self"]), force(a["ids_sequence"])
        m = as_map_of(st, st.content(me).f["data"])
        keys = next((KEYS[c.__name__] for c in st.content(me).cls.__mro__ if c.__name__ in KEYS), None)
        if keys is None:
            raise Unsupported("deepcopy of another structure")
        st0 = st.copy()
        fam = ("copy", ex.next_id())
        ex.fresh("id", I)
        if ex.ambient:
            raise Unsupported("deepcopy in a summarized loop")

        def dim(k, key):
            d = st0.content(force(m.val(k))).f["data"]
            return int_field(st0, d, key)
        heapfam(st, fam + ("dims",), [Val], lambda ix: Dict({q: (TRUE, VInt(dim(ix[0], q))) for q in keys}))
        val = lambda k: VRef(fam + ("dims",), (k,))  # noqa
        if seq is VNone:
            r = Map(m.n, m.at, m.dom, m.pos, val)
        else:
            if isinstance(seq, VUnion):
                raise Unsupported("sequence or None")
            q = seq_of(st, seq)
            need(ex, st, And(q.n >= 0, ForAll([I], lambda i: Implies(And(i >= 0, i < q.n), m.dom(key_at(q, i))))),
                 "deepcopy (ids of the structure)", self.base_props)
            need(ex, st, ForAll([I, I], lambda i, j: Implies(And(i >= 0, i < q.n, j >= 0, j < q.n,
                 key_at(q, i) == key_at(q, j)), i == j)), "deepcopy (distinct ids)", self.base_props)
            r = mk_map(ex, "copied", val, fresh=True)
            assume_map(ex, st, r)
            st.assume(r.n == q.n)
            st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < r.n), And(
                r.at(i) == key_at(q, i), tag(r.at(i)) == TAGS["str"])), lambda i: [r.at(i)]))
        return heap0(st, fam, r)


class StructDeepcopyGiven(StructDeepcopy):
    proof_name = "AbstractStructureSet.deepcopy (sequence)"
    given = True


class StructDeepcopyC(StructDeepcopy):
    proof_name = "AbstractStructureSet.deepcopy (containers)"
    cname = "Containers"


# --------------------------------------------------------------- solutions


class MapView:
    """a dictionary, or one of several"""

    def __init__(self, st, v):
        self.alts = [(q, as_map_of(st, r)) for q, r in alts_of(v)]
        self.n = pick(self.alts, lambda m: m.n, iv(0))

    def at(self, i):
        return pick(self.alts, lambda m: m.at(i), NONEV)

    def dom(self, k):
        return pick(self.alts, lambda m: b(m.dom(k)), FALSE)

    def pos(self, k):
        return pick(self.alts, lambda m: m.pos(k), iv(0))

    def vals(self, k):
        return [(And(q, p), x) for q, m in self.alts for p, x in alts_of(m.val(k))]


class View:
    """a solution, read off a state: container -> item -> rectangle"""

    def __init__(self, st, sol, obj):
        self.st, self.S, self.O = st, MapView(st, sol), MapView(st, obj)

    def maps(self, c):
        return [(q, as_map_of(self.st, r)) for q, r in self.S.vals(c)]

    def dom(self, c, k):
        return pick(self.maps(c), lambda m: b(m.dom(k)), FALSE)

    def n(self, c):
        return pick(self.maps(c), lambda m: m.n, iv(0))

    def at(self, c, i):
        return pick(self.maps(c), lambda m: m.at(i), NONEV)

    def pos(self, c, k):
        return pick(self.maps(c), lambda m: m.pos(k), iv(0))

    def placed(self, c, k):
        """(cond, placement) of item k"""
        return [(And(q, p), r) for q, m in self.maps(c) for p, r in alts_of(m.val(k))]

    def rect(self, c, k):
        ps = [(q, r) for q, r in self.placed(c, k) if isinstance(r, VRef)]

        def num(i):
            def f(r):
                for p, x in alts_of(seq_of(self.st, r).get(iv(i))):
                    if isinstance(x, VInt):
                        return x.t
                raise Unsupported("placement")
            return pick(ps, f, iv(0))
        return [num(i) for i in range(4)]

    def four(self, c, k):
        return pick([(q, r) for q, r in self.placed(c, k) if isinstance(r, VRef)],
                    lambda r: seq_of(self.st, r).n == 4, TRUE)

    def util(self, c):
        return pick([(q, x) for q, x in self.O.vals(c) if isinstance(x, (VInt, VReal))], to_real, z3.RealVal(0))

    def value(self, ex):
        """the objective value"""
        return pick(self.O.alts, lambda m: objective(ex, m), None)

    def area(self, ex, c, of=None):
        """sum of the areas of the placements in container c (a constant or a
        bound variable)"""
        var = z3.is_const(c) and c.decl().arity() == 0 and c.decl().kind() == z3.Z3_OP_UNINTERPRETED

        def one(m):
            i = z3.FreshConst(I, "ai")
            one_view = View.__new__(View)
            one_view.st = self.st
            one_view.maps = lambda cc: [(TRUE, m)]
            X, Y, w, l = View.rect(one_view, c, m.at(i))
            if var:
                ex.ambient.append(c)
            try:
                nm, f, at = ex.sum_fn(w * l, i, False)
                return z3.ToReal(at(m.n))
            finally:
                if var:
                    ex.ambient.pop()
        if of is not None:
            return z3.RealVal(0) if is_true(simp(of.n == 0)) else one(of)
        return pick([(q, m) for q, m in self.maps(c) if not is_true(simp(m.n == 0))], one, z3.RealVal(0))

    def utilization(self, ex, c, A):
        """the value of container c times the area A is the area of its items"""
        return And(*[Implies(And(q, p), to_real(x) * A == self.area(ex, c, m)) for q, m in self.maps(c)
                     for p, x in self.O.vals(c) if isinstance(x, (VInt, VReal)) and not is_false(simp(And(p, q)))])


class Given:
    """what a solution is a solution of: k containers of cm (widths W, lengths
    L), items I0 with dimensions w, l"""

    def __init__(self, cm, W, L, I0, w, l, rotation, strip):
        self.cm, self.W, self.L, self.I0 = cm, W, L, I0
        self.w, self.l, self.rotation, self.strip = w, l, rotation, strip


def fits(g, c, k):
    w, l, W, L = g.w(k), g.l(k), g.W(c), g.L(c)
    return Or(And(w <= W, l <= L), And(g.rotation, l <= W, w <= L))


def solved(ex, g, v, n, remaining, where, H, add, whole=()):
    """the first n containers of g are solved: v is their solution; remaining(k)
    items are not placed; where(k): the container of a placed item; H(c): the
    height of the stack in c; whole: what has entries for the other containers
    already (solution, values)"""
    cm = g.cm
    done = lambda c: And(cm.dom(c), cm.pos(c) < n)  # noqa
    for nm, m in (("solution", v.S), ("values", v.O)):
        has, size = (lambda c: b(cm.dom(c)), cm.n) if nm in whole else (done, n)
        add(f"{nm}: one entry per container", And(m.n == size, ForAll([Val], lambda c: b(m.dom(c)) == has(c)),
            ForAll([I], lambda i: Implies(And(i >= 0, i < size), m.at(i) == cm.at(i))),
            ForAll([Val], lambda c: Implies(has(c), m.pos(c) == cm.pos(c)))), ("C03", "C04"))
    later = lambda c: And(cm.dom(c), Not(cm.pos(c) < n))  # noqa
    if "solution" in whole:
        add("containers to come are empty", And(
            ForAll([Val], lambda c: Implies(later(c), v.n(c) == 0)),
            ForAll([Val, Val], lambda c, k: Implies(later(c), Not(v.dom(c, k))))), ("C03", "C04"))
    if "values" in whole:
        add("containers to come have utilization 0", ForAll([Val], lambda c: Implies(later(c), v.util(c) == 0)), ("C04",))
    add("placed ids are enumerated", ForAll([Val, I], lambda c, i: Implies(
        And(done(c), i >= 0, i < v.n(c)), And(v.dom(c, v.at(c, i)), v.pos(c, v.at(c, i)) == i))), ("C03", "C04"))
    add("placed ids are reachable", ForAll([Val, Val], lambda c, k: Implies(And(done(c), v.dom(c, k)), And(
        v.pos(c, k) >= 0, v.pos(c, k) < v.n(c), v.at(c, v.pos(c, k)) == k))), ("C03", "C04"))
    add("sizes", ForAll([Val], lambda c: Implies(done(c), v.n(c) >= 0)), ("C03", "C04"))
    add("placed items are items of the problem", ForAll([Val, Val], lambda c, k: Implies(
        And(done(c), v.dom(c, k)), And(g.I0.dom(k), Not(remaining(k))))), ("C03",))
    add("each item in at most one container", ForAll([Val, Val], lambda c, k: Implies(
        And(done(c), v.dom(c, k)), where(k) == c)), ("C03",))
    add("items not remaining are placed", ForAll([Val], lambda k: Implies(
        And(g.I0.dom(k), Not(remaining(k))), And(done(where(k)), v.dom(where(k), k)))), ("C03", "C07"))
    add("each placement has four numbers", ForAll([Val, Val], lambda c, k: Implies(
        And(done(c), v.dom(c, k)), v.four(c, k))), ("C01", "C03"))
    add("each placement lies inside its container", ForAll([Val, Val], lambda c, k: Implies(
        And(done(c), v.dom(c, k)), inside(v.rect(c, k), g.W(c), g.L(c)))), ("C01",))

    def own(c, k):
        X, Y, pw, pl = v.rect(c, k)
        return Or(And(pw == g.w(k), pl == g.l(k)), And(g.rotation, pw == g.l(k), pl == g.w(k)))
    add("each placement has the item's own dimensions", ForAll([Val, Val], lambda c, k: Implies(
        And(done(c), v.dom(c, k)), own(c, k))), ("C03",))
    add("no two placements share a cell", ForAll([Val, Val, Val], lambda c, j, k: Implies(And(
        done(c), v.dom(c, j), v.dom(c, k), Not(j == k)), apart(v.rect(c, j), v.rect(c, k)))), ("C02",))
    add("utilization is placed area over container area", ForAll([Val], lambda c: Implies(
        And(done(c), Not(g.strip)), v.utilization(ex, c, z3.ToReal(g.W(c)) * z3.ToReal(g.L(c))))), ("C04",))
    add("utilization of the strip is placed area over stack area", ForAll([Val], lambda c: Implies(
        And(done(c), g.strip), And(H(c) >= 1, v.utilization(ex, c, z3.ToReal(g.W(c)) * z3.ToReal(H(c)))))),
        ("C04",))
    add("height of the stack", ForAll([Val, Val], lambda c, k: Implies(And(done(c), g.strip, v.dom(c, k)),
        v.rect(c, k)[1] + v.rect(c, k)[3] <= H(c))), ("C04",))
    add("an item reaches the height of the stack", ForAll([Val], lambda c: Implies(
        And(done(c), g.strip), Or(v.n(c) == 0, Exists([Val], lambda k: And(
            v.dom(c, k), v.rect(c, k)[1] + v.rect(c, k)[3] == H(c)))))), ("C04",))
    add("empty containers have utilization 0", ForAll([Val], lambda c: Implies(
        And(done(c), v.n(c) == 0), v.util(c) == 0)), ("C04",))
    add("utilizations are not negative", ForAll([Val], lambda c: Implies(done(c), v.util(c) >= 0)), ("C04", "C08"))
    add("a container stays empty only if no item left for it fits", ForAll([Val, Val], lambda c, k: Implies(
        And(done(c), v.n(c) == 0, g.I0.dom(k), Or(remaining(k), cm.pos(where(k)) > cm.pos(c))),
        Not(fits(g, c, k)))), ("C07",))


class ContainersLoop(LoopSpec):
    name = "loop over the containers"
    func = "PointGenerationMixin._solve"

    def applies(self, ex, node, st, n, elem):
        if n is None or conc(n) is not None or ex.fr.get("name") != self.func:
            return None
        c = ex.solve_ctx
        if not simp(n).eq(simp(c.g.cm.n)):
            return None
        empty, whole, items = [], [], None
        for nm, v in st.env.items():
            v = force(v)
            if isinstance(v, VRef) and v.fam in st.heap and v.fam not in c.st0.heap and not nm.startswith("."):
                o = st.content(v)
                if isinstance(o, Dict) and not o.e:
                    empty.append(v)
                elif isinstance(o, Map) and (simp(o.n).eq(simp(n)) or ex.proves(st, o.n == n)):
                    empty.append(v)
                    whole.append(v)
                elif isinstance(o, Map):
                    items = v
        if items is None or len(empty) != 2:
            return None
        c.items = items
        c.copy = as_map_of(st, items)
        # which of the two new dictionaries holds the solution: look at one iteration
        c.sol = c.obj = None
        probe = st.copy()
        i = ex.fresh("probe", I)
        probe.assume(And(i >= 0, i < n, i == 0))
        nob = len(ex.obligations)
        ex.last_construct = None
        with ex.catching():
            ex.assign(node.target, elem(i), probe)
            outs = ex.run_block(node.body, probe)
        del ex.obligations[nob:]
        if ex.last_construct is None:
            return None  # only prepares something
        for o in outs:
            for v in empty:
                m = as_map_of(o.st, v)
                for q, x in alts_of(m.val(c.g.cm.at(i))):
                    if isinstance(x, VRef):
                        c.sol = v
                    elif isinstance(x, (VInt, VReal)):
                        c.obj = v
        if c.sol is None or c.obj is None or c.sol is c.obj:
            raise Unsupported("loop over the containers: results")
        c.whole = [nm for nm, v in (("solution", c.sol), ("values", c.obj)) if any(v is x for x in whole)]
        c.where = ex.fresh_fn("where0", Val, Val)
        c.H = ex.fresh_fn("H0", Val, I)
        return c

    def havoc(self, ex, c, st):
        cm = c.g.cm
        m = as_map_of(st, c.items)
        mi = mk_map(ex, "left", m.val, fresh=True)
        ex.put(st, c.items, mi)
        assume_map(ex, st, mi)
        k0 = ex.fresh("k", Val)
        fam = force(m.val(k0)).fam
        tm = st.heap[fam]
        pres = ex.fresh_fn("pres", Val, B)
        X, Y, rot = ex.fresh_fn("X", Val, I), ex.fresh_fn("Y", Val, I), ex.fresh_fn("rot", Val, B)
        st.heap[fam] = Tmpl(lambda idx: Dict({
            "w": tm.get(idx).e["w"], "l": tm.get(idx).e["l"],
            "Xo": (pres(idx[0]), VInt(X(idx[0]))), "Yo": (pres(idx[0]), VInt(Y(idx[0]))),
            "rotated": (pres(idx[0]), VBool(rot(idx[0])))}), 1)
        w = new_solution(ex, st, cm)
        done = ex.fresh("done", I)
        st.heap[c.sol.fam] = st.heap[c.sol.fam].put((), w.solmap)
        st.heap[c.obj.fam] = st.heap[c.obj.fam].put((), w.objmap)
        c.where = c.head_where = ex.fresh_fn("where", Val, Val)
        c.H = c.head_H = ex.fresh_fn("H", Val, I)
        ex.put(st, c.me, st.content(c.me).set("_current_potential_points", VPoison("points under debug")))
        ex.last_construct = None

    def inv(self, ex, c, st, k):
        out = []
        add = lambda n, f, p: out.append((n, f, p))  # noqa
        Im = as_map_of(st, c.items)
        for nm, f in map_wf_parts(Im):
            add("items left: " + nm, f, ("C03", "C07"))
        g = c.g
        add("items left are items of the problem", ForAll([Val], lambda x: Implies(Im.dom(x), And(
            g.I0.dom(x), same_ref(Im.val(x), c.copy.val(x))))), ("C03",))
        add("items left are as given", ForAll([Val], lambda x: Implies(Im.dom(x), And(
            int_field(st, c.copy.val(x), "w") == g.w(x), int_field(st, c.copy.val(x), "l") == g.l(x),
            *[Not(field(st, c.copy.val(x), f)[0]) for f in ("Xo", "Yo", "rotated")]))), ("C03",))
        solved(ex, g, View(st, c.sol, c.obj), k, Im.dom, c.where, c.H, add, c.whole)
        return out

    def after_body(self, ex, c, head, st, k):
        cid = c.g.cm.at(k - 1)
        left, old, H = as_map_of(head, c.items), c.head_where, c.head_H
        con = ex.last_construct
        c.where = lambda x: If(left.dom(x), cid, old(x))
        c.H = lambda x: If(x == cid, con.H if con is not None else iv(1), H(x))

    def on_exit(self, ex, c, st, k):
        c.where, c.H = c.head_where, c.head_H


class Sol:
    pass


def pigeonhole(st, n, at, pos, im, c):
    """distinct items of a finite set are not more than its elements: a fact of
    arithmetic (a one-to-one map between two initial segments of the integers)"""
    st.assume(Implies(ForAll([I], lambda i: Implies(And(i >= 0, i < n(c)), And(im.dom(at(c, i)), pos(c, at(c, i)) == i))),
                      n(c) <= im.n))


def new_solution(ex, st, cm, im=None):
    """an arbitrary solution for the containers of cm, with new objects"""
    s = Sol()
    name = ex.next_id()
    fx = [ex.fresh_fn("sol." + q, Val, Val, I) for q in ("X", "Y", "w", "l")]
    at, pos = ex.fresh_fn("sol.at", Val, I, Val), ex.fresh_fn("sol.pos", Val, Val, I)
    dom, num = ex.fresh_fn("sol.dom", Val, Val, B), ex.fresh_fn("sol.n", Val, I)
    if im is not None and conc(cm.n) == 1:
        pigeonhole(st, num, at, pos, im, simp(cm.at(iv(0))))
    fam = ("sol", name)
    heapfam(st, fam + ("pl",), [Val, Val], lambda ix: Seq("list", [VInt(f(ix[0], ix[1])) for f in fx]))
    heapfam(st, fam + ("in",), [Val], lambda ix: Map(
        num(ix[0]), lambda i: at(ix[0], i), lambda k: dom(ix[0], k), lambda k: pos(ix[0], k),
        lambda k: VRef(fam + ("pl",), (ix[0], k))))
    sat, spos, sdom = ex.fresh_fn("s.at", I, Val), ex.fresh_fn("s.pos", Val, I), ex.fresh_fn("s.dom", Val, B)
    u, sn = ex.fresh_fn("s.u", Val, R), ex.fresh("s.n", I)
    s.solmap = Map(sn, sat, sdom, spos, lambda k: VRef(fam + ("in",), (k,)))
    oat, opos, odom, on = (ex.fresh_fn("o.at", I, Val), ex.fresh_fn("o.pos", Val, I), ex.fresh_fn("o.dom", Val, B),
                           ex.fresh("o.n", I))
    s.objmap = Map(on, oat, odom, opos, lambda k: VReal(u(k)))
    s.fam = fam
    return s


def problem_of(ex, st, me, name, P):
    """what a solving operation called in state st solves; its precondition"""
    f = st.content(me).f
    strip = conc(ex.truth(f["_strip_pack"], st))
    if strip is None:
        raise Unsupported("strip packing or not")
    cm = as_map_of(st, st.content(force(f["_containers"])).f["data"])
    im = as_map_of(st, st.content(force(f["_items"])).f["data"])
    st0 = st.copy()

    def dim(m, k, key):
        return int_field(st0, st0.content(force(m.val(k))).f["data"], key)
    if strip:
        c0 = lit(STRIP)
        W = lambda c: dim(cm, c0, "W")  # noqa
        h = int_term(ex, st, f["_container_height"], "precondition: the height is a number", P)
        need(ex, st, h >= 1, f"{name} (height)", P)
        need(ex, st, cm.n == 1, f"{name} (one container)", P)
        L = lambda c: h  # noqa
    else:
        W, L = (lambda c: dim(cm, c, "W")), (lambda c: dim(cm, c, "L"))
    w, l = (lambda k: dim(im, k, "w")), (lambda k: dim(im, k, "l"))
    for nm, m in (("containers", cm), ("items", im)):
        for what, g in map_wf_parts(m):
            need(ex, st, g, f"{name} ({nm}: {what})", P)
    need(ex, st, ForAll([Val], lambda k: Implies(im.dom(k), And(w(k) >= 1, l(k) >= 1, tag(k) == TAGS["str"]))),
         f"{name} (dimensions of the items)", P)
    need(ex, st, ForAll([Val], lambda k: Implies(cm.dom(k), And(W(k) >= 1, L(k) >= 1))),
         f"{name} (dimensions of the containers)", P)
    for q, x in alts_of(f["_potential_points_strategy"]):
        xs = x.items if isinstance(x, VTuple) else None
        n = iv(len(xs)) if xs is not None else seq_of(st, x).n
        at = (lambda i, x=x: key_at(seq_of(st, x), i)) if xs is None else None
        need(ex, st, Implies(q, And(*[Or(*[u.t == lit(y) for y in NAMES]) for u in map(force, xs)]) if xs is not None else
             ForAll([I], lambda i: Implies(And(i >= 0, i < n), Or(*[at(i) == lit(y) for y in NAMES])))),
             f"{name} (strategy)", P)
    return Given(cm, W, L, im, w, l, ex.truth(f["_rotation"], st), b(strip))


class Solve(Contract):
    """all containers, one after the other"""

    qual = "PointGenerationMixin._solve"
    reads = ("_items", "_containers", "_potential_points_strategy", "_rotation", "_strip_pack", "_container_height")
    base_props = GEOM
    uses = (StructDeepcopy, Construct)
    loops = (ContainersLoop,)
    strip = given = False

    def function(self):
        return hp()._solve

    def call_kw(self, c):
        return {"debug": VBool(z3.Bool("debug"))}

    def setup(self, ex, st):
        c = Ctx()
        w = mk_world(ex, st, self.strip, z3.Bool("solved"))
        c.me = w.me
        f = st.content(w.me)
        rot = z3.Bool("rotation")
        f = f.set("_potential_points_strategy", mk_strategy(st)).set("_rotation", VBool(rot))
        ex.put(st, w.me, f)
        args = [w.me]
        I0 = w.im
        if self.given:
            q, n, at, pos = mk_sequence(ex, st, w.im)
            args.append(q)
            I0 = Map(n, at, lambda k: And(pos(k) >= 0, pos(k) < n, at(pos(k)) == k), pos, w.im.val)
        W = (lambda k: w.W) if self.strip else w.cW
        L = (lambda k: w.height) if self.strip else w.cL
        c.g = Given(w.cm, W, L, I0, w.iw, w.il, rot, b(self.strip))
        c.copy = None
        ex.solve_ctx = c
        c.st0 = st.copy()
        return args, c

    def check(self, ex, st, c, v):
        v = force(v)
        if not (isinstance(v, VTuple) and len(v.items) == 2):
            ex.oblige(st, FALSE, "a pair is returned", self.base_props)
            return
        sol, obj = [force(x) for x in v.items]
        ex.oblige(st, b(sol.fam not in c.st0.heap and obj.fam not in c.st0.heap), "new dictionaries",
                  ("C05", "C06", "C08"))
        if self.strip:
            con = ex.last_construct
            c.items, c.where = con.items, lambda k: lit(STRIP)
            c.H = lambda q: If(c.g.I0.n == 0, iv(1), con.H)
        left = as_map_of(st, c.items)
        solved(ex, c.g, View(st, sol, obj), c.g.cm.n, left.dom, c.where, c.H,
               lambda n, f, p: ex.oblige(st, f, n, p))
        ex.frame(c.st0, st, [(("owner",), "_current_potential_points")], "changes nothing of the problem",
                 ("C05", "C06"))

    def apply(self, ex, st, a):
        me, seq = force(a["self"]), force(a["sequence"])
        P = self.base_props
        if isinstance(seq, VUnion):
            raise Unsupported("sequence or None")
        g = problem_of(ex, st, me, "_solve", P)
        cm, im, strip, W, L, w, l, rotation = g.cm, g.I0, g.strip, g.W, g.L, g.w, g.l, g.rotation
        I0 = im
        if seq is not VNone:
            q = seq_of(st, seq)
            need(ex, st, And(q.n >= 0, ForAll([I], lambda i: Implies(And(i >= 0, i < q.n), im.dom(key_at(q, i))))),
                 "_solve (ids of items)", P)
            need(ex, st, ForAll([I, I], lambda i, j: Implies(And(i >= 0, i < q.n, j >= 0, j < q.n,
                 key_at(q, i) == key_at(q, j)), i == j)), "_solve (distinct ids)", P)
            if not permutation_of(ex, st, q, im):
                I0 = mk_map(ex, "given", im.val, fresh=True)
                assume_map(ex, st, I0)
                st.assume(I0.n == q.n)
                st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < q.n), I0.at(i) == key_at(q, i))))
        s = new_solution(ex, st, cm, I0)
        sol, obj = heap0(st, s.fam + ("S",), s.solmap), heap0(st, s.fam + ("O",), s.objmap)
        g = Given(cm, W, L, I0, w, l, rotation, b(strip))
        left, where, H = ex.fresh_fn("left", Val, B), ex.fresh_fn("where", Val, Val), ex.fresh_fn("H", Val, I)
        solved(ex, g, View(st, sol, obj), cm.n, left, where, H, lambda n_, f_, p_: st.assume(f_))
        ex.put(st, me, st.content(me).set("_current_potential_points", VPoison("points under debug")))
        r = Sol()
        r.g, r.left, r.where, r.H, r.sol, r.obj = g, left, where, H, sol, obj
        r.neighbour = seq is not VNone
        ex.solves = getattr(ex, "solves", []) + [r]
        for h in getattr(ex, "solve_hooks", []):
            h(ex, st, r)
        return VTuple((sol, obj))


def permutation_of(ex, st, q, im):
    """the sequence lists all items"""
    return ex.proves(st, And(q.n == im.n, ForAll([Val], lambda k: Implies(im.dom(k), Exists([I], lambda i: And(
        i >= 0, i < q.n, key_at(q, i) == k))))), 3000)


class SolveSequence(Solve):
    proof_name = "PointGenerationMixin._solve (sequence)"
    given = True


class SolveStrip(Solve):
    proof_name = "PointGenerationMixin._solve (strip packing)"
    strip = True


class SolveStripSequence(Solve):
    proof_name = "PointGenerationMixin._solve (strip packing, sequence)"
    strip = given = True


# ------------------------------------------------------------ the solve method


class SolveMethod(Contract):
    """solve publishes what _solve returns"""

    qual = "PointGenerationSolver.solve"
    base_props = ("C01", "C02", "C03", "C04", "C07")
    uses = (Solve,)
    strip = given = False
    reads = Solve.reads

    def function(self):
        return hp().solve

    call_kw = Solve.call_kw
    setup = Solve.setup

    def check(self, ex, st, c, v):
        f = st.content(c.me).f
        sol, obj = f["solution"], f["obj_val_per_container"]
        r = ex.solves[-1]
        ex.oblige(st, b(len(ex.solves) == 1), "solves once", ("C05",))
        solved(ex, c.g, View(st, sol, obj), c.g.cm.n, r.left, r.where, r.H,
               lambda n, f, p: ex.oblige(st, f, n, p))
        ex.frame(c.st0, st, [(("owner",), x) for x in (
            "_current_potential_points", "solution", "obj_val_per_container")], "changes only the solution",
            ("C05", "C06"))


class SolveMethodSequence(SolveMethod):
    proof_name = "PointGenerationSolver.solve (sequence)"
    given = True


class SolveMethodStrip(SolveMethod):
    proof_name = "PointGenerationSolver.solve (strip packing)"
    strip = True


class SolveMethodStripSequence(SolveMethod):
    proof_name = "PointGenerationSolver.solve (strip packing, sequence)"
    strip = given = True
