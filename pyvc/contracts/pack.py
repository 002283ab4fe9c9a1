"""Packing core: fitting, point generation, construction of one container."""
import z3

from core import *  # noqa
from contracts.common import *  # noqa
from contracts.common import Contract
from inv import LoopSpec
from loops import assigned_names
from vc import heap0, heapfam

GEOM = ("C01", "C02", "C03", "C04", "C07")


def mixin():
    from hyperpack.mixins import PointGenerationMixin
    return PointGenerationMixin


class CheckFitting(Contract):
    qual = "PointGenerationMixin._check_fitting"
    reads = ()
    base_props = ("C01", "C02", "C07")

    def function(self):
        return mixin()._check_fitting

    def setup(self, ex, st):
        W, L, X, Y, w, l = [z3.Int(n) for n in ("W", "L", "Xo", "Yo", "w", "l")]
        g, cell = mk_grid(st, W, L)
        me = heap0(st, ("self",), Inst(mixin(), {}))
        for f in (W >= 1, L >= 1, X >= 0, Y >= 0, X < W, Y < L, w >= 1, l >= 1):
            st.assume(f)
        return [me] + [VInt(x) for x in (W, L, X, Y, w, l)] + [g], (W, L, X, Y, w, l, g, cell, st.copy())

    def check(self, ex, st, ctx, v):
        W, L, X, Y, w, l, g, cell, st0 = ctx
        r = ex.truth(v, st)
        ex.oblige(st, Implies(r, And(X + w <= W, Y + l <= L)), "accepted only inside the container", ("C01",))
        ex.oblige(st, Implies(r, is_free(cell, W, L, X, Y, w, l)), "accepted only if every covered cell is free",
                  ("C02",))
        ex.oblige(st, Implies(is_free(cell, W, L, X, Y, w, l), r), "accepted whenever it is inside and free",
                  ("C07",))
        ex.frame(st0, st, [], "changes nothing", ("C02", "C06"))

    def apply(self, ex, st, a):
        W, L, X, Y, w, l = [to_int(force(a[n])) for n in ("W", "L", "Xo", "Yo", "w", "l")]
        g = force(a["container_coords"])
        need(ex, st, And(X >= 0, Y >= 0, X < W, Y < L, w >= 1, l >= 1, W >= 1, L >= 1), "_check_fitting (ranges)",
             self.base_props)
        need(ex, st, grid_shape(st, g, W, L), "_check_fitting (grid)", self.base_props)
        cell = cells(st, g)
        r = ex.fresh("fits", B)
        f = is_free(cell, W, L, X, Y, w, l)
        st.assume(Implies(r, f))
        st.assume(Implies(Not(r), Not(f)))
        return VBool(r)


class GeneratePoints(Contract):
    qual = "PointGenerationMixin._generate_points"
    reads = ()
    base_props = ("C01", "C02", "C03")

    def function(self):
        return mixin()._generate_points

    def setup(self, ex, st):
        W, L, X, Y, w, l = [z3.Int(n) for n in ("W", "L", "Xo", "Yo", "w", "l")]
        for f in (W >= 1, L >= 1, w >= 1, l >= 1, X >= 0, Y >= 0, X + w <= W, Y + l <= L):
            st.assume(f)
        g, cell = mk_grid(st, W, L)
        pp = mk_points(st, W, L)
        me = heap0(st, ("self",), Inst(mixin(), {}))
        args = [me, g, VInt(W), VInt(L), pp] + [VInt(x) for x in (X, Y, w, l)] + [VBool(z3.Bool("debug"))]
        return args, (W, L, pp, st.copy())

    def check(self, ex, st, ctx, v):
        W, L, pp, st0 = ctx
        for nm, r in deques(st, pp).items():
            d = seq_of(st, force(r))
            i = z3.FreshConst(I, "i")
            ex.oblige(st, Implies(And(i >= 0, i < d.n), point_in(d.get(i), W, L)),
                      f"every point of class {nm} lies in the container", ("C01",))
            ex.oblige(st, keeps_prefix(seq_of(st0, force(r)), d), f"points of class {nm} are queued behind the older ones", ("C16",))
        ex.frame(st0, st, [("dq", n) for n in NAMES], "changes only the points", ("C02", "C03", "C06"))

    def apply(self, ex, st, a):
        W, L = to_int(force(a["container_width"])), to_int(force(a["container_length"]))
        X, Y, w, l = [to_int(force(a[n])) for n in ("Xo", "Yo", "w", "l")]
        g, pp = force(a["container_coords"]), force(a["potential_points"])
        need(ex, st, And(W >= 1, L >= 1, w >= 1, l >= 1, X >= 0, Y >= 0, X + w <= W, Y + l <= L),
             "_generate_points (placed rectangle)", self.base_props)
        need(ex, st, grid_shape(st, g, W, L), "_generate_points (grid)", self.base_props)
        need(ex, st, points_in(st, pp, W, L), "_generate_points (points)", self.base_props)
        if sorted(deques(st, pp)) != sorted(NAMES):
            raise Unsupported("point classes")
        untouched(ex, st, pp, "new points are queued")
        havoc_points(ex, st, pp)
        st.assume(points_in(st, pp, W, L))
        handed_out(ex, st, pp)
        return VNone


def same_point(p, q):
    """two points (pairs of numbers) are equal"""
    out = []
    for c, x in alts_of(p):
        for d, y in alts_of(q):
            ok = isinstance(x, VTuple) and isinstance(y, VTuple) and len(x.items) == len(y.items) == 2
            out.append(Implies(And(c, d), And(*[to_int(force(u)) == to_int(force(v)) for u, v in zip(x.items, y.items)])
                               if ok else b(x is VNone and y is VNone)))
    return And(*out)


def keeps_prefix(old, new):
    i = z3.FreshConst(I, "i")
    return And(new.n >= old.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < old.n), b(same_point(new.get(i), old.get(i))))))


def mk_strategy(st):
    strat, sn = z3.Function("strat", I, Val), z3.Int("strat.n")
    st.assume(sn >= 0)
    st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < sn), Or(*[strat(i) == lit(x) for x in NAMES])),
                     lambda i: [strat(i)]))
    return heap0(st, ("strategy",), Seq("tuple", n=sn, get=lambda i: VStr(strat(i))))


SERVED = VRef(("served",), ())


def watch_points(st, pp, point):
    """ghost: the point handed out last, and the queues as the point functions left them"""
    heap0(st, SERVED.fam, Dict({"point": (TRUE, point), "count": (TRUE, VInt(0))}))
    for n, r in deques(st, pp).items():
        heap0(st, ("queue", n), seq_of(st, force(r)))


def queues_kept(st, pp):
    out = []
    for n, r in deques(st, pp).items():
        a, d = seq_of(st, force(r)), seq_of(st, VRef(("queue", n), ()))
        if a is not d:
            out += [a.n == d.n, keeps_prefix(d, a)]
    return And(*out)


def handed_out(ex, st, pp, point=None, fresh=False):
    """a point function has run: nothing else may have touched the queues"""
    if SERVED.fam not in st.heap:
        return
    for n, r in deques(st, pp).items():
        ex.put(st, VRef(("queue", n), ()), seq_of(st, force(r)))
    if point is not None:
        n = to_int(st.content(SERVED).e["count"][1])
        ex.put(st, SERVED, Dict({"point": (TRUE, point), "count": (TRUE, VInt(ex.fresh("handouts", I) if fresh else simp(n + 1)))}))


def untouched(ex, st, pp, where):
    if SERVED.fam in st.heap:
        ex.oblige(st, queues_kept(st, pp), f"only the point functions change the queues of points (before {where})", ("C16",))


class CurrentPoint(Contract):
    qual = "PointGenerationMixin._get_current_point"
    reads = ("_potential_points_strategy",)
    base_props = ("C01", "C02", "C03", "C07")

    def function(self):
        return mixin()._get_current_point

    def setup(self, ex, st):
        W, L = z3.Ints("W L")
        pp = mk_points(st, W, L)
        me = heap0(st, ("self",), Inst(mixin(), {"_potential_points_strategy": mk_strategy(st)}))
        return [me, pp], (W, L, pp, st.copy())

    def check(self, ex, st, ctx, v):
        W, L, pp, st0 = ctx
        v = force(v)
        ok = isinstance(v, VTuple) and len(v.items) == 2
        ex.oblige(st, b(ok), "a pair is returned", self.base_props)
        if not ok:
            return
        p = force(v.items[0])
        alts = p.alts if isinstance(p, VUnion) else [(TRUE, p)]
        for c, x in alts:
            if x is not VNone:
                ex.oblige(st, Implies(c, point_in(x, W, L)), "the point lies in the container", ("C01",))
        for nm, r in deques(st, pp).items():
            d = seq_of(st, force(r))
            i = z3.FreshConst(I, "i")
            ex.oblige(st, Implies(And(i >= 0, i < d.n), point_in(d.get(i), W, L)),
                      f"remaining points of class {nm} lie in the container", ("C01",))
        ex.frame(st0, st, [("dq", n) for n in NAMES], "changes only the points", ("C02", "C03", "C06"))
        self.oldest(ex, st, st0, pp, v)

    def oldest(self, ex, st, st0, pp, v):
        """the oldest point of the first class with points is taken off its queue"""
        strat = seq_of(st0, force(st0.content(VRef(("self",), ())).f["_potential_points_strategy"]))
        old = {n: seq_of(st0, force(r)) for n, r in deques(st0, pp).items()}
        new = {n: seq_of(st, force(r)) for n, r in deques(st, pp).items()}
        i = z3.FreshConst(I, "i")
        has = lambda x: Or(*[And(x == lit(n), q.n > 0) for n, q in old.items()])  # noqa
        first = And(i >= 0, i < strat.n, has(key_at(strat, i)), ForAll([I], lambda j: Implies(
            And(j >= 0, j < i), Not(has(key_at(strat, j)))), lambda j: [key_at(strat, j)]))
        point, cls = v.items
        no = And(*[Not(q) for q, x in alts_of(point) if x is not VNone])
        for n in NAMES:
            here = And(first, key_at(strat, i) == lit(n))
            o, w = old[n], new[n]
            ex.oblige(st, Implies(here, And(Not(no), same_point(point, o.get(iv(0))))),
                      f"class {n} first: its oldest point is taken", ("C16",))
            ex.oblige(st, Implies(here, And(w.n == o.n - 1, ForAll([I], lambda j: Implies(
                And(j >= 0, j < w.n), same_point(w.get(j), o.get(j + 1)))))), f"class {n} first: the others stay queued", ("C16",))
            ex.oblige(st, Implies(And(first, key_at(strat, i) != lit(n)), And(w.n == o.n, ForAll([I], lambda j: Implies(
                And(j >= 0, j < w.n), same_point(w.get(j), o.get(j)))))), f"class {n} not first: it is unchanged", ("C16",))
        ex.oblige(st, Implies(no, ForAll([I], lambda j: Implies(And(j >= 0, j < strat.n), Not(has(key_at(strat, j)))))),
                  "no point only if all classes are empty", ("C16",))

    def apply(self, ex, st, a):
        pp = force(a["potential_points"])
        if sorted(deques(st, pp)) != sorted(NAMES):
            raise Unsupported("point classes")
        # the bounds are those for which the caller holds the invariant
        W, L = ex.point_bounds
        need(ex, st, points_in(st, pp, W, L), "_get_current_point (points)", self.base_props)
        untouched(ex, st, pp, "the next point is taken")
        havoc_points(ex, st, pp)
        st.assume(points_in(st, pp, W, L))
        none = ex.fresh("nopoint", B)
        x, y = ex.fresh("ptx", I), ex.fresh("pty", I)
        st.assume(Implies(Not(none), And(x >= 0, x < W, y >= 0, y < L)))
        cls = ex.fresh("ptclass", Val)
        point = merge(none, VNone, VTuple((VInt(x), VInt(y))))
        handed_out(ex, st, pp, point)
        return VTuple((point, merge(none, VNone, VStr(cls))))


# ------------------------------------------------------- one container


class Placed:
    """the rectangles of the items placed so far, read off a state"""

    def __init__(self, st, items0, C):
        self.st, self.items0, self.C = st, items0, C

    def ref(self, k):
        return self.items0.val(k)

    def geo(self, k):
        st, r = self.st, self.ref(k)
        X, Y = int_field(st, r, "Xo"), int_field(st, r, "Yo")
        w, l = int_field(st, r, "w"), int_field(st, r, "l")
        if X is None or Y is None:
            X = Y = iv(0)
        rot = bool_of(field(st, r, "rotated")[1])
        return X, Y, If(rot, l, w), If(rot, w, l), rot


def in_rect(g, y, x):
    X, Y, w, l = g[:4]
    return And(x >= X, x < X + w, y >= Y, y < Y + l)


def is_point(v):
    v = force(v) if v is not None else VNone
    return isinstance(v, VTuple) and len(v.items) == 2 and all(isinstance(force(x), VInt) for x in v.items)


def pick_name(names, usual):
    return names[0] if len(names) == 1 else usual if usual in names else None


class ConstructLoop(LoopSpec):
    name = "placement loop"
    auto = True
    func = "PointGenerationMixin._construct_solution"

    def applies(self, ex, node, st, n, elem):
        if n is not None or getattr(ex.con_ctx, "looped", None) not in (None, node):
            return None         # some other loop
        c = ex.con_ctx
        env = st.env
        # the grid: a list of arrays
        c.grid = c.C = None
        for nm, v in env.items():
            v = force(v)
            if not isinstance(v, VRef) or v.fam not in st.heap or v.same(c.items) or v.same(c.ids) or v.same(c.pp):
                continue
            o = st.content(v)
            if isinstance(o, Seq) and o.items is None:
                e = force(o.get(iv(0)))
                if isinstance(e, VRef) and isinstance(st.content(e), Seq):
                    c.grid = v
            elif isinstance(o, (Dict, Map)) and not (isinstance(o, Dict) and o.e):
                c.C = v
        if c.grid is None or c.C is None:
            raise Unsupported("placement loop: no grid or no result dictionary")
        names = assigned_names(node.body)
        nums = [x for x in names if isinstance(force(env.get(x, VNone)), (VInt, VReal)) and not isinstance(force(env[x]), VBool)]
        pts = [x for x in names if is_point(env.get(x))]
        c.obj = pick_name(nums, "obj_value")
        c.point = pick_name(pts, "current_point")
        c.classes = [x for x in names if isinstance(force(env.get(x, VNone)), VStr)]
        if c.obj is None or c.point is None:
            raise Unsupported("placement loop: variables")
        c.own = ex.fresh_fn("own0", I, I, Val)
        c.looped = node
        return c

    def havoc(self, ex, c, st):
        # grid
        cell = ex.fresh_fn("cell", I, I, I)
        g = seq_of(st, c.grid)
        rows = force(g.get(iv(0)))
        W = seq_of(st, rows).n
        kind = seq_of(st, rows).kind
        c.rowfam = rows.fam
        i0 = ex.fresh("r", I)
        r = force(g.get(i0))
        if not (len(r.idx) >= 1 and r.idx[-1].eq(i0)):
            raise Unsupported("grid rows")
        st.heap[rows.fam] = Tmpl(lambda idx: Seq(kind, n=c.W, get=lambda j: VInt(cell(idx[-1], j))),
                                 len(rows.idx))
        # points
        havoc_points(ex, st, c.pp)
        # dictionaries
        old = as_map_of(st, c.items)
        vals = old.val
        mi = mk_map(ex, "I", vals, fresh=True)
        assume_map(ex, st, mi)
        ex.put(st, c.items, mi)
        mc = mk_map(ex, "P", c.items0.val, fresh=True)
        assume_map(ex, st, mc)
        mc.lin = None
        st.heap[c.C.fam] = st.heap[c.C.fam].put(c.C.idx, mc)
        at, n = ex.fresh_fn("ids", I, Val), ex.fresh("ids.n", I)
        ex.put(st, c.ids, Seq("list", n=n, get=lambda i: VStr(at(i))))
        # the small dictionaries of the items
        X, Y, rot = ex.fresh_fn("X", Val, I), ex.fresh_fn("Y", Val, I), ex.fresh_fn("rot", Val, B)
        pres = mc.dom
        w, l = c.w, c.l
        st.heap[c.item_fam] = Tmpl(lambda idx: Dict({
            "w": (TRUE, VInt(w(idx[0]))), "l": (TRUE, VInt(l(idx[0]))),
            "Xo": (pres(idx[0]), VInt(X(idx[0]))), "Yo": (pres(idx[0]), VInt(Y(idx[0]))),
            "rotated": (pres(idx[0]), VBool(rot(idx[0])))}), 1)
        # variables
        st.env[c.obj] = VReal(ex.fresh("obj", R))
        none = ex.fresh("nopoint", B)
        px, py = ex.fresh("px", I), ex.fresh("py", I)
        st.env[c.point] = merge(none, VNone, VTuple((VInt(px), VInt(py))))
        handed_out(ex, st, c.pp, merge(none, VNone, VTuple((VInt(ex.fresh("sx", I)), VInt(ex.fresh("sy", I))))), fresh=True)
        for x in c.classes:
            st.env[x] = merge(none, VNone, VStr(ex.fresh("pclass", Val)))
        me = st.content(c.me)
        ex.put(st, c.me, me.set("_current_potential_points", VPoison("points under debug")))
        c.own = c.head_own = ex.fresh_fn("own", I, I, Val)

    def guesses(self, ex, c, st, x, v, k):
        Cm = as_map_of(st, c.C)
        out = [("placed", to_int(v) == Cm.n), ("left", to_int(v) == as_map_of(st, c.items).n)] if isinstance(v, VInt) else []
        return out + [("area", to_real(v) == area_sum(ex, Cm, Placed(st, c.items0, Cm)))]

    def after_body(self, ex, c, head, st, k):
        ch, ce = as_map_of(head, c.C), as_map_of(st, c.C)
        cell = cells(head, c.grid)
        own, new = c.head_own, ce.at(ch.n)
        c.own = lambda y, x: If(cell(y, x) != 0, own(y, x), new)
        # the invariant reads the rectangles off the dictionaries handed in
        v = force(ce.val(new))
        if any(isinstance(x, VRef) and x.fam != c.item_fam for _, x in (v.alts if isinstance(v, VUnion) else [(TRUE, v)])):
            raise Unsupported("placement loop: a placed item gets a new dictionary")
        if SERVED.fam in st.heap:
            n0, n1 = [to_int(s.content(SERVED).e["count"][1]) for s in (head, st)]
            ex.oblige(st, n1 <= n0 + 1, "no point handed out is passed over", ("C16",))
        ex.oblige(st, And(ce.n >= ch.n, ce.n <= ch.n + 1), "at most one item is placed at a point", ("C16",))
        g = Placed(st, c.items0, ce).geo(new)
        ex.oblige(st, Implies(ce.n > ch.n, same_point(VTuple((VInt(g[0]), VInt(g[1]))), head.env[c.point])),
                  "an item is placed at the point handed out", ("C16",))

    def on_exit(self, ex, c, st, k):
        c.own = c.head_own

    def inv(self, ex, c, st, k):
        W, L, w, l = c.W, c.L, c.w, c.l
        Im, Cm, I0 = as_map_of(st, c.items), as_map_of(st, c.C), c.items0
        ids = seq_of(st, c.ids)
        cell = cells(st, c.grid)
        P = Placed(st, I0, Cm)
        own = c.own
        out = []
        add = lambda n, f, p=GEOM: out.append((n, f, p))  # noqa
        add("the grid keeps its shape", grid_shape(st, c.grid, W, L), ("C01", "C02"))
        add("all points lie in the container", points_in(st, c.pp, W, L), ("C01",))
        cp = force(st.env[c.point])
        alts = cp.alts if isinstance(cp, VUnion) else [(TRUE, cp)]
        add("the current point lies in the container", And(*[
            Implies(q, point_in(x, W, L)) for q, x in alts if x is not VNone]), ("C01",))
        if SERVED.fam in st.heap:
            add("the current point is the one handed out last", same_point(
                st.env[c.point], st.content(SERVED).e["point"][1]), ("C16",))
            add("only the point functions change the queues of points", queues_kept(st, c.pp), ("C16",))
        for nm, f in map_wf_parts(Im):
            add("remaining items: " + nm, f, ("C03", "C07"))
        for nm, f in map_wf_parts(Cm):
            add("placed items: " + nm, f, ("C03", "C04"))
        add("remaining ids list the remaining items", And(ids.n == Im.n, ForAll([I], lambda i: Implies(
            And(i >= 0, i < Im.n), key_at(ids, i) == Im.at(i)))), ("C03", "C07"))
        add("every item is either remaining or placed", ForAll([Val], lambda x: And(
            Implies(Im.dom(x), And(I0.dom(x), Not(Cm.dom(x)))),
            Implies(Cm.dom(x), I0.dom(x)),
            Implies(I0.dom(x), Or(Im.dom(x), Cm.dom(x))))), ("C03",))
        add("items keep their dictionaries", ForAll([Val], lambda x: And(
            Implies(Im.dom(x), same_ref(Im.val(x), I0.val(x))),
            Implies(Cm.dom(x), same_ref(Cm.val(x), I0.val(x))))), ("C03",))
        add("items keep their dimensions", ForAll([Val], lambda x: Implies(I0.dom(x), And(
            int_field(st, I0.val(x), "w") == w(x), int_field(st, I0.val(x), "l") == l(x)))), ("C03",))
        add("placed items have a position", ForAll([Val], lambda x: Implies(Cm.dom(x), And(*[
            field(st, I0.val(x), f)[0] for f in ("Xo", "Yo", "rotated")]))), ("C01",))
        add("remaining items have no position", ForAll([Val], lambda x: Implies(Im.dom(x), And(*[
            Not(field(st, I0.val(x), f)[0]) for f in ("Xo", "Yo", "rotated")]))), ("C03",))
        add("placed items are inside the container", ForAll([Val], lambda x: Implies(
            Cm.dom(x), inside(P.geo(x), W, L))), ("C01",))
        add("items are rotated only if allowed", ForAll([Val], lambda x: Implies(
            And(Cm.dom(x), P.geo(x)[4]), c.rotation)), ("C03",))
        add("cells of a placed item are taken", ForAllP([Val, I, I], lambda x, yy, xx: Implies(
            And(Cm.dom(x), in_rect(P.geo(x), yy, xx)), And(cell(yy, xx) != 0, own(yy, xx) == x)),
            lambda x, yy, xx: cell(yy, xx), lambda x, yy, xx: Cm.dom(x)), ("C02", "C04"))
        add("taken cells belong to a placed item", ForAllP([I, I], lambda yy, xx: Implies(
            And(yy >= 0, yy < L, xx >= 0, xx < W, cell(yy, xx) != 0),
            And(Cm.dom(own(yy, xx)), in_rect(P.geo(own(yy, xx)), yy, xx))),
            lambda yy, xx: cell(yy, xx)), ("C02", "C04", "C07"))
        s = area_sum(ex, Cm, P)
        obj = real_of(st.env[c.obj])
        add("objective value is the utilization", If(c.strip, obj == 0, obj == DIV(s, z3.ToReal(W * L))),
            ("C04", "C07"))
        add("objective value is not negative", obj >= 0, ("C04", "C08"))
        add("nothing placed: first point or nothing fits", Implies(Cm.n == 0, And(obj == 0, Or(
            And(*[And(q, origin(x)) if x is not VNone else Not(q) for q, x in alts]),
            ForAll([I], lambda i: Implies(And(i >= 0, i < Im.n), Not(fits_empty(c, Im.at(i)))))))), ("C07",))
        return out


def key_at(seq, i):
    v = force(seq.get(i))
    if isinstance(v, VPoison):
        return NONEV
    return to_val(v)


def origin(p):
    p = force(p)
    return And(to_int(force(p.items[0])) == 0, to_int(force(p.items[1])) == 0)


def apart(p, q):
    """two rectangles without a common cell"""
    return Or(p[0] + p[2] <= q[0], q[0] + q[2] <= p[0], p[1] + p[3] <= q[1], q[1] + q[3] <= p[1])


def inside(g, W, L):
    X, Y, w, l = g[:4]
    return And(X >= 0, Y >= 0, w >= 1, l >= 1, X + w <= W, Y + l <= L)


def fits_empty(c, x):
    w, l = c.w(x), c.l(x)
    return Or(And(w <= c.W, l <= c.L), And(c.rotation, l <= c.W, w <= c.L))


def area_sum(ex, Cm, P):
    i = z3.FreshConst(I, "ai")
    g = P.geo(Cm.at(i))
    nm, f, at = ex.sum_fn(g[2] * g[3], i, False)
    return z3.ToReal(at(Cm.n))


class Ctx:
    pass


class Construct(Contract):
    qual = "PointGenerationMixin._construct_solution"
    reads = ("_potential_points_strategy", "_rotation")
    base_props = GEOM
    uses = (CheckFitting, GeneratePoints, CurrentPoint)
    loops = (ConstructLoop,)

    def function(self):
        return mixin()._construct_solution

    def call_kw(self, c):
        return {"debug": VBool(z3.Bool("debug"))}

    def setup(self, ex, st):
        c = Ctx()
        c.W, c.L = symint(st, "W", 1), symint(st, "L", 1)
        c.strip, c.rotation = z3.Bool("strip"), z3.Bool("rotation")
        c.w, c.l = z3.Function("w", Val, I), z3.Function("l", Val, I)
        c.item_fam = ("item",)
        heapfam(st, c.item_fam, [Val], lambda idx: Dict({
            "w": (TRUE, VInt(c.w(idx[0]))), "l": (TRUE, VInt(c.l(idx[0])))}))
        m = mk_map(ex, "items", lambda k: VRef(c.item_fam, (k,)))
        assume_map(ex, st, m)
        st.assume(ForAll([Val], lambda k: Implies(m.dom(k), And(c.w(k) >= 1, c.l(k) >= 1)), lambda k: [m.dom(k)]))
        c.items0 = m
        c.items = heap0(st, ("items",), m)
        c.ids = heap0(st, ("ids",), Seq("list", n=m.n, get=lambda i: VStr(m.at(i))))
        c.pp = mk_points(st, c.W, c.L)
        c.me = heap0(st, ("self",), Inst(hyperpack_class(), {
            "_potential_points_strategy": mk_strategy(st), "_rotation": VBool(c.rotation)}))
        ex.con_ctx = c
        watch_points(st, c.pp, VTuple((VInt(0), VInt(0))))
        ex.point_bounds = (c.W, c.L)
        c.st0 = st.copy()
        return [c.me, c.items, c.ids, VInt(c.L), VInt(c.W), VBool(c.strip), c.pp,
                VTuple((VInt(0), VInt(0))), S("O")], c

    def check(self, ex, st, c, v):
        v = force(v)
        if not (isinstance(v, VTuple) and len(v.items) == 3):
            ex.oblige(st, FALSE, "three results", GEOM)
            return
        items, util, sol = [force(x) for x in v.items]
        ex.oblige(st, b(isinstance(items, VRef) and items.same(c.items)), "the remaining items are returned", ("C03",))
        Im, Sm = as_map_of(st, items), as_map_of(st, sol)
        for x in solution_facts(ex, st, c, Im, Sm, util, c.strip):
            ex.oblige(x[3] if len(x) > 3 else st, x[1], x[0], x[2])
        ex.frame(c.st0, st, [("items",), ("ids",), c.item_fam, (("self",), "_current_potential_points"), SERVED.fam]
                 + [(q, n) for n in NAMES for q in ("dq", "queue")], "changes only its arguments", ("C05", "C06"))

    def apply(self, ex, st, a):
        """precondition checked, everything the function may change forgotten,
        its guarantees assumed"""
        c = Ctx()
        me, items, ids = force(a["self"]), force(a["items"]), force(a["items_ids"])
        c.W = int_term(ex, st, a["container_width"], "precondition: the width is a number", GEOM)
        c.L = int_term(ex, st, a["container_length"], "precondition: the length is a number", GEOM)
        c.strip = ex.truth(a["strip_pack"], st)
        f = st.content(me).f
        c.rotation = ex.truth(f["_rotation"], st)
        pp, strat = force(a["initial_potential_points"]), seq_of(st, force(f["_potential_points_strategy"]))
        point = force(a["initial_point"])
        if c.W is None or c.L is None or not isinstance(point, VTuple) or sorted(deques(st, pp)) != sorted(NAMES):
            raise Unsupported("arguments of _construct_solution")
        for nm, v in (("init_obj_value", 0), ("max_obj_value", 1)):
            x = force(a[nm])
            need(ex, st, b(isinstance(x, VInt)) and x.t == v, nm, GEOM)
        need(ex, st, And(c.W >= 1, c.L >= 1), "_construct_solution (container)", GEOM)
        need(ex, st, origin(point), "_construct_solution (first point)", GEOM)
        need(ex, st, points_in(st, pp, c.W, c.L), "_construct_solution (points)", GEOM)
        need(ex, st, ForAll([I], lambda i: Implies(And(i >= 0, i < strat.n), Or(*[
            key_at(strat, i) == lit(x) for x in NAMES]))), "_construct_solution (strategy)", GEOM)
        m = as_map_of(st, items)
        c.items0 = m
        q = seq_of(st, ids)
        for nm, g in map_wf_parts(m):
            need(ex, st, g, f"_construct_solution (items: {nm})", GEOM)
        need(ex, st, And(q.n == m.n, ForAll([I], lambda i: Implies(
            And(i >= 0, i < m.n), key_at(q, i) == m.at(i)))), "_construct_solution (ids)", GEOM)
        k0 = ex.fresh("k", Val)
        r0 = force(m.val(k0))
        if not (isinstance(r0, VRef) and len(r0.idx) == 1 and r0.idx[0].eq(k0)):
            raise Unsupported("items of _construct_solution")
        fam = r0.fam
        st0 = st.copy()
        c.w, c.l = (lambda k: int_field(st0, m.val(k), "w")), (lambda k: int_field(st0, m.val(k), "l"))
        need(ex, st, ForAll([Val], lambda k: Implies(m.dom(k), And(
            field(st, m.val(k), "w")[0], field(st, m.val(k), "l")[0], c.w(k) >= 1, c.l(k) >= 1,
            *[Not(field(st, m.val(k), x)[0]) for x in ("Xo", "Yo", "rotated")]))), "_construct_solution (dimensions)", GEOM)
        # what it changes
        havoc_points(ex, st, pp)
        mi = mk_map(ex, "rest", m.val, fresh=True)
        assume_map(ex, st, mi)
        ex.put(st, items, mi)
        at, n = ex.fresh_fn("ids", I, Val), ex.fresh("ids.n", I)
        ex.put(st, ids, Seq("list", n=n, get=lambda i: VStr(at(i))))
        pres = ex.fresh_fn("pres", Val, B)
        X, Y, rot = ex.fresh_fn("X", Val, I), ex.fresh_fn("Y", Val, I), ex.fresh_fn("rot", Val, B)
        tm = st0.heap[fam]
        st.heap[fam] = Tmpl(lambda idx: Dict({
            "w": tm.get(idx).e["w"], "l": tm.get(idx).e["l"],
            "Xo": (pres(idx[0]), VInt(X(idx[0]))), "Yo": (pres(idx[0]), VInt(Y(idx[0]))),
            "rotated": (pres(idx[0]), VBool(rot(idx[0])))}), 1)
        ex.put(st, me, st.content(me).set("_current_potential_points", VPoison("points under debug")))
        # what it returns
        res = new_placements(ex, st, "placed")
        util = VReal(ex.fresh("util", R))
        c.own, c.H, c.items = None, ex.fresh("stack", I), items
        for x in solution_facts(ex, st, c, mi, as_map_of(st, res), util, c.strip, checking=False):
            st.assume(x[1])
        ex.last_construct = c
        return VTuple((items, util, res))


def new_placements(ex, st, name):
    """a new dictionary of placements of four numbers each"""
    fx = [ex.fresh_fn(name + "." + q, Val, I) for q in ("X", "Y", "w", "l")]
    fam = ("new", name, ex.next_id())
    ex.fresh("id", I)
    amb = tuple(ex.ambient)
    if amb:
        raise Unsupported("placements inside a summarized loop")
    heapfam(st, fam + ("pl",), [Val], lambda ix: Seq("list", [VInt(f(ix[0])) for f in fx]))
    m = mk_map(ex, name, lambda k: VRef(fam + ("pl",), (k,)), fresh=True)
    assume_map(ex, st, m)
    return heap0(st, fam, m)


def placement(st, Sm, k):
    """the four numbers stored for item k"""
    r = force(Sm.val(k))
    q = seq_of(st, r)
    out = []
    for i in range(4):
        v = force(q.get(iv(i)))
        if isinstance(v, VUnion):
            good = [(c, x) for c, x in v.alts if isinstance(x, VInt)]
            t = good[-1][1].t
            for c, x in reversed(good[:-1]):
                t = If(c, x.t, t)
            out.append(t)
        elif isinstance(v, VInt):
            out.append(v.t)
        else:
            raise Unsupported("placement")
    return out, q.n


def hyperpack_class():
    from hyperpack.heuristics import HyperPack
    return HyperPack


def rect_of(st, Sm, k):
    (X, Y, w, l), n = placement(st, Sm, k)
    return X, Y, w, l


def top_of(st, Sm, k):
    X, Y, w, l = rect_of(st, Sm, k)
    return Y + l


def height_is(st, Sm, H, wit):
    """H is the height of the stack of placed items, that of item wit (1 if
    nothing is placed)"""
    return And(
        ForAll([I], lambda i: Implies(And(i >= 0, i < Sm.n), top_of(st, Sm, Sm.at(i)) <= H)),
        If(Sm.n == 0, H == 1, And(Sm.dom(wit), top_of(st, Sm, wit) == H)))


def div_terms(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == "DIV":
                out.append(x)
            todo.extend(x.children())
    return out


def solution_sum(ex, st, Sm):
    i = z3.FreshConst(I, "si")
    X, Y, w, l = rect_of(st, Sm, Sm.at(i))
    nm, f, at = ex.sum_fn(w * l, i, False)
    return z3.ToReal(at(Sm.n))


def solution_facts(ex, st, c, Im, Sm, util, strip, checking=True):
    """what _construct_solution guarantees: (name, formula, properties)"""
    W, L, w, l, I0 = c.W, c.L, c.w, c.l, c.items0
    out = []
    add = lambda n, f, p: out.append((n, f, p))  # noqa
    for nm, f in map_wf_parts(Sm):
        add("result: " + nm, f, ("C03", "C04"))
    for nm, f in map_wf_parts(Im):
        add("remaining: " + nm, f, ("C03", "C07"))
    add("each placed item is an item given, and no longer remaining", ForAll([Val], lambda k: Implies(
        Sm.dom(k), And(I0.dom(k), Not(Im.dom(k))))), ("C03",))
    add("remaining items are items given", ForAll([Val], lambda k: Implies(Im.dom(k), And(
        I0.dom(k), same_ref(Im.val(k), I0.val(k))))), ("C03",))
    add("remaining items are as before", ForAll([Val], lambda k: Implies(Im.dom(k), And(
        int_field(st, I0.val(k), "w") == w(k), int_field(st, I0.val(k), "l") == l(k),
        *[Not(field(st, I0.val(k), f)[0]) for f in ("Xo", "Yo", "rotated")]))), ("C03",))
    add("each item given is placed or remains", ForAll([Val], lambda k: Implies(
        I0.dom(k), Or(Im.dom(k), Sm.dom(k)))), ("C03", "C07"))
    add("each placement has four numbers", ForAll([Val], lambda k: Implies(
        Sm.dom(k), placement(st, Sm, k)[1] == 4)), ("C01", "C03"))
    add("each placement lies inside the container", ForAll([Val], lambda k: Implies(
        Sm.dom(k), inside(rect_of(st, Sm, k), W, L))), ("C01",))

    def own_dims(k):
        X, Y, pw, pl = rect_of(st, Sm, k)
        return Or(And(pw == w(k), pl == l(k)), And(c.rotation, pw == l(k), pl == w(k)))
    add("each placement has the item's own dimensions", ForAll([Val], lambda k: Implies(
        Sm.dom(k), own_dims(k))), ("C03",))

    if checking:
        # two placements that are not apart share this cell
        j, k = ex.fresh("item_a", Val), ex.fresh("item_b", Val)
        rj, rk = rect_of(st, Sm, j), rect_of(st, Sm, k)
        st2 = st.copy()
        st2.assume(And(Sm.dom(j), Sm.dom(k), Not(j == k)))
        y, x = ex.fresh("cell_y", I), ex.fresh("cell_x", I)
        shared = And(in_rect(rj, y, x), in_rect(rk, y, x))
        st2.assume(And(y == If(rj[1] > rk[1], rj[1], rk[1]), x == If(rj[0] > rk[0], rj[0], rk[0])))
        out.append(("placements that share no cell are apart", Or(shared, apart(rj, rk)), ("C02",), st2))
        st2 = st2.copy()
        st2.assume(shared)
        if c.own is not None:
            ex.lemma(st2, cells(st, c.grid)(y, x) != 0)
            ex.lemma(st2, c.own(y, x) == j)
            ex.lemma(st2, c.own(y, x) == k)
        out.append(("no two placements share a cell", FALSE, ("C02",), st2))
    else:
        add("no two placements share a cell", ForAll([Val, Val], lambda j, k: Implies(
            And(Sm.dom(j), Sm.dom(k), Not(j == k)), apart(rect_of(st, Sm, j), rect_of(st, Sm, k)))), ("C02",))
    s = solution_sum(ex, st, Sm)
    u = real_of(util)
    add("utilization is not negative", u >= 0, ("C04", "C08"))
    add("utilization is placed area over container area",
        Implies(Not(strip), u * (z3.ToReal(W) * z3.ToReal(L)) == s), ("C04",))
    if checking:
        H, t = ex.fresh("stack_height", I), ex.fresh("topmost", Val)
        st2 = st.copy()
        st2.assume(strip)
        st2.assume(height_is(st, Sm, H, t))
        if c.own is not None:
            ex.lemma(st2, Implies(Sm.n > 0, cells(st, c.grid)(H - 1, rect_of(st, Sm, t)[0]) != 0))
        for q in div_terms(u):
            ex.lemma(st2, q.arg(1) == z3.ToReal(W) * z3.ToReal(H))
        out.append(("strip utilization is placed area over stack area",
                    u * (z3.ToReal(W) * z3.ToReal(H)) == s, ("C04",), st2))
    else:
        H = c.H
        add("stack height", Implies(strip, height_is(st, Sm, H, ex.fresh("topmost", Val))), ("C04",))
        add("strip utilization", Implies(strip, u * (z3.ToReal(W) * z3.ToReal(H)) == s), ("C04",))
    add("nothing is placed only if no item fits", Implies(Sm.n == 0, ForAll([Val], lambda k: Implies(
        Im.dom(k), Not(fits_empty(c, k))))), ("C07",))
    return out
