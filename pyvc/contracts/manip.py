"""Items manipulation and generated data (C06, C14, C18, C19, C22)."""
import z3

from core import *  # noqa
from contracts.common import *  # noqa
from contracts.common import Contract
from contracts.solve import StructDeepcopy
from contracts.struct import KEYS, StructInit, dim_value, entry_wired, is_empty, mk_owner, mk_struct
from vc import heap0, heapfam


def hp():
    from hyperpack.heuristics import HyperPack
    return HyperPack


def directed(rot, o):
    return And(rot, o == lit("wide")), And(rot, o == lit("long"))


def turned(rot, o, w, l):
    """the dimensions after orienting"""
    wide, long_ = directed(rot, o)
    swap = lambda k: Or(And(wide, l(k) > w(k)), And(long_, l(k) < w(k)))  # noqa
    return (lambda k: If(swap(k), l(k), w(k))), (lambda k: If(swap(k), w(k), l(k))), swap


class ItemsView:
    """the items of an instance, read off a state"""

    def __init__(self, st, me):
        self.ref = force(st.content(me).f["_items"])
        if not isinstance(self.ref, VRef):
            raise Unsupported("items")
        self.data = force(st.content(self.ref).f["data"])
        self.m = as_map_of(st, self.data)
        snap = st.copy()
        self.w = lambda k: dim_value(snap, self.data, k, "w")
        self.l = lambda k: dim_value(snap, self.data, k, "l")

    def need_wf(self, ex, st, name, P):
        for what, g in map_wf_parts(self.m):
            need(ex, st, g, f"{name} (items: {what})", P)
        need(ex, st, ForAll([Val], lambda k: Implies(self.m.dom(k), And(
            self.w(k) >= 1, self.l(k) >= 1, tag(k) == TAGS["str"]))), f"{name} (dimensions of the items)", P)


def new_items(ex, st, me, its, name, w, l, same=False):
    """a structure with new entries, whose dimensions are w and l; its ids are
    the same in the same order, or arbitrary"""
    from hyperpack.structures import Dimensions
    fam = (name, ex.next_id())
    ex.fresh("id", I)
    heapfam(st, fam + ("dd",), [Val], lambda ix: Dict({"w": (TRUE, VInt(w(ix[0]))), "l": (TRUE, VInt(l(ix[0])))}))
    pk = ex.alloc(st, SetC([S(k) for k in KEYS["Items"]]), ("proper keys",))
    heapfam(st, fam + ("dim",), [Val], lambda ix: Inst(Dimensions, {
        "instance": me, "proper_keys": pk, "data": VRef(fam + ("dd",), ix)}))
    val = lambda k: VRef(fam + ("dim",), (k,))  # noqa
    if same:
        m = Map(its.m.n, its.m.at, its.m.dom, its.m.pos, val)
    else:
        m = mk_map(ex, name, val, fresh=True)
        assume_map(ex, st, m)
    data = heap0(st, fam + ("data",), m)
    return heap0(st, fam, Inst(st.content(its.ref).cls, {"instance": me, "data": data})), m


class OrientItems(Contract):
    qual = "ItemsManipulationMixin.orient_items"
    base_props = ("C18",)

    def function(self):
        return hp().orient_items

    def setup(self, ex, st):
        me = mk_owner(st, None, _rotation=VBool(z3.Bool("rotation")))
        items, m, w, l = mk_struct(ex, st, "Items", me)
        ex.put(st, me, st.content(me).set("_items", items))
        o = z3.Const("orientation", Val)
        return [me, VAny(o)], (me, items, m, w, l, o, st.copy())

    def check(self, ex, st, ctx, v):
        me, items, m, w, l, o, st0 = ctx
        wide, long_ = directed(z3.Bool("rotation"), o)
        for c, its in alts_of(st.content(me).f["_items"]):
            s = st.copy()
            s.assume(c)
            if s.dead:
                continue
            ex.oblige(s, b(isinstance(its, VRef)), "the items are a structure", ("C18",))
            if not isinstance(its, VRef):
                continue
            data = force(s.content(its).f["data"])
            m2 = as_map_of(s, data)
            ex.oblige(s, And(m2.n == m.n, ForAll([I], lambda i: Implies(And(i >= 0, i < m.n), m2.at(i) == m.at(i)))),
                      "ids and order stay", ("C18",))
            x, i = z3.FreshConst(Val, "x"), z3.FreshConst(I, "i")
            if its.fam != items.fam:
                ex.oblige(s, Implies(And(i >= 0, i < m2.n), And(m2.dom(m2.at(i)), m2.pos(m2.at(i)) == i)),
                          "each id once", ("C18",))
                ex.oblige(s, Implies(m2.dom(x), And(m.dom(x), m2.pos(x) == m.pos(x))), "no new ids", ("C18",))
            s2 = s.copy()
            s2.assume(m.dom(x))
            ex.oblige(s2, m2.dom(x), "every item stays", ("C18",))
            w2, l2 = dim_value(s, data, x, "w"), dim_value(s, data, x, "l")
            swap = Or(And(wide, l(x) > w(x)), And(long_, l(x) < w(x)))
            ex.oblige(s2, w2 == If(swap, l(x), w(x)), "width is as directed", ("C18",))
            ex.oblige(s2, l2 == If(swap, w(x), l(x)), "length is as directed", ("C18",))
            entry_wired(ex, s2, its, x, "Items", me)
        changed = Exists([Val], lambda k: And(m.dom(k), Or(And(wide, l(k) > w(k)), And(long_, l(k) < w(k)))))
        ex.oblige(st, Implies(changed, is_empty(st, me)), "the solution is reset if something changed", ("C14",))
        ex.frame(st0, st, [("items", "dd"), (("owner",), "_items"), (("owner",), "solution"), (("owner",), "obj_val_per_container")],
                 "changes nothing else", ("C18", "C14", "C06"))

    def apply(self, ex, st, a):
        me, o = force(a["self"]), to_val(a["orientation"])
        its = ItemsView(st, me)
        its.need_wf(ex, st, "orient_items", self.base_props)
        rot = ex.truth(st.content(me).f["_rotation"], st)
        w2, l2, swap = turned(rot, o, its.w, its.l)
        k = ex.fresh("k", Val)
        r = force(its.m.val(k))
        dd = force(st.content(r).f["data"]) if isinstance(r, VRef) else None
        if not (isinstance(dd, VRef) and len(dd.idx) == 1 and dd.idx[0].eq(k)) or ex.ambient:
            raise Unsupported("items to orient")
        # ghost: whether the items are oriented in place
        place = ex.fresh("in place", B)
        st.heap[dd.fam] = Tmpl(lambda ix: Dict({
            "w": (TRUE, VInt(If(place, w2(ix[0]), its.w(ix[0])))), "l": (TRUE, VInt(If(place, l2(ix[0]), its.l(ix[0]))))}), 1)
        ref, m = new_items(ex, st, me, its, "oriented items", w2, l2, same=True)
        changed = ex.fresh("oriented", B)
        st.assume(changed == Exists([Val], lambda k: And(its.m.dom(k), swap(k))))
        c = st.content(me).set("_items", ref)
        for x in ("solution", "obj_val_per_container"):
            c = c.set(x, merge(changed, ex.alloc(st, Dict({}), ("reset", x)), c.f.get(x, VPoison(x))))
        ex.put(st, me, c)
        return VNone


CRITERIA = {
    "area": lambda w, l: z3.ToReal(w * l),
    "perimeter": lambda w, l: z3.ToReal(w * 2 + l * 2),
    "longest_side_ratio": lambda w, l: z3.ToReal(If(w > l, w, l)) / z3.ToReal(If(w > l, l, w)),
}


class SortItems(Contract):
    qual = "ItemsManipulationMixin.sort_items"
    base_props = ("C19",)
    uses = (StructInit, StructDeepcopy)

    def function(self):
        return hp().sort_items

    def setup(self, ex, st):
        me = mk_owner(st, None)
        items, m, w, l = mk_struct(ex, st, "Items", me)
        ex.put(st, me, st.content(me).set("_items", items))
        by, rev, none = z3.Const("by", Val), z3.Bool("reverse"), z3.Bool("none")
        return [me, merge(none, VNone, VTuple((VAny(by), VBool(rev))))], (me, items, m, w, l, by, rev, none, st.copy())

    def check(self, ex, st, ctx, v):
        me, items, m, w, l, by, rev, none, st0 = ctx
        P = ("C19",)
        for c, its in alts_of(st.content(me).f["_items"]):
            s = st.copy()
            s.assume(c)
            ex.oblige(s, b(isinstance(its, VRef)), "the items are a structure", P)
            data = force(s.content(its).f["data"])
            m2 = as_map_of(s, data)
            x = z3.FreshConst(Val, "x")
            i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
            ex.oblige(s, m2.n == m.n, "as many items", P)
            ex.oblige(s, Implies(m2.dom(x), m.dom(x)), "no new ids", P)
            # ghost: where the sorting put the id
            for perm, inv, n in getattr(ex, "perms", []):
                hint(s, inv(m.pos(x)))
            ex.oblige(s, Implies(m.dom(x), m2.dom(x)), "the same ids", P)
            ex.oblige(s, Implies(And(i >= 0, i < m2.n), And(m.dom(m2.at(i)), m2.pos(m2.at(i)) == i)), "each id once", P)
            s2 = s.copy()
            s2.assume(m2.dom(x))
            ex.oblige(s2, And(m2.pos(x) >= 0, m2.pos(x) < m2.n, m2.at(m2.pos(x)) == x), "every id in the order", P)
            for q, f in (("w", w), ("l", l)):
                ex.oblige(s2, dim_value(s2, data, x, q) == f(x), f"the {q} is the same", P)
            entry_wired(ex, s2, its, x, "Items", me)
            s3 = s.copy()
            s3.assume(Not(none))
            s3.assume(And(i >= 0, i < j, j < m2.n))
            p, q = m2.at(i), m2.at(j)
            for name, f in CRITERIA.items():
                a, c2 = f(w(p), l(p)), f(w(q), l(q))
                ex.oblige(s3, Implies(by == lit(name), If(rev, a >= c2, a <= c2)), f"ordered by {name}", P)
            ex.oblige(s3, Or(*[by == lit(n) for n in CRITERIA]), "only known criteria", P)
            ex.oblige(s, Or(none, is_empty(s, me), Implies(And(i >= 0, i < m2.n), m2.at(i) == m.at(i))),
                      "the solution is reset if the order changed", ("C14",))
            ex.oblige(s, Implies(none, And(b(ex.is_(its, items, s)), m2.at(i) == m.at(i))), "None changes nothing", P)
        s = st.copy()
        s.assume(none)
        ex.frame(st0, s, [], "None changes nothing", ("C19", "C14"))
        ex.frame(st0, st, [(("owner",), "_items"), (("owner",), "solution"), (("owner",), "obj_val_per_container")],
                 "changes nothing else", ("C19", "C14", "C06"))

    def check_raise(self, ex, ctx, o):
        me, items, m, w, l, by, rev, none, st0 = ctx
        P = ("C19",)
        ex.oblige(o.st, And(Not(none), *[by != lit(n) for n in CRITERIA]), "rejected only if unknown", P)
        ex.oblige(o.st, b(o.val.cls is NotImplementedError), "NotImplementedError is raised", P)
        ex.frame(st0, o.st, [], "rejection changes nothing", P)

    def apply(self, ex, st, a):
        me = force(a["self"])
        by = force(a["sorting_by"])
        its = ItemsView(st, me)
        its.need_wf(ex, st, "sort_items", self.base_props)
        if ex.ambient:
            raise Unsupported("sorting in a summarized loop")
        none, known, crit, rev = FALSE, TRUE, NONEV, FALSE
        for q, x in alts_of(by):
            if x is VNone:
                none = q
            elif isinstance(x, VTuple) and len(x.items) == 2 and isinstance(force(x.items[1]), VBool):
                crit, rev = to_val(x.items[0]), force(x.items[1]).t
            else:
                raise Unsupported("sorting directive")
        ex.guard(st, Or(none, *[crit == lit(n) for n in CRITERIA]), NotImplementedError, "criterion")
        if st.dead:
            return VNone
        ref, m = new_items(ex, st, me, its, "sorted items", its.w, its.l)
        st.assume(m.n == its.m.n)
        st.assume(ForAll([Val], lambda k: b(m.dom(k)) == b(its.m.dom(k)), lambda k: [b(m.dom(k))]))
        st.assume(Implies(none, ForAll([I], lambda i: Implies(And(i >= 0, i < m.n), m.at(i) == its.m.at(i)),
                                       lambda i: [m.at(i)])))
        for name, f in CRITERIA.items():
            st.assume(Implies(And(Not(none), crit == lit(name)), in_order(m, its.w, its.l, f, rev)))
        c = st.content(me)
        # ghost: with None the same object stays; nothing tells it from a copy
        c = c.set("_items", ref)
        kept = ex.fresh("kept", B)
        st.assume(Implies(none, kept))
        st.assume(Implies(kept, ForAll([I], lambda i: Implies(And(i >= 0, i < m.n), m.at(i) == its.m.at(i)),
                                       lambda i: [m.at(i)])))
        for x in ("solution", "obj_val_per_container"):
            c = c.set(x, merge(kept, c.f.get(x, VPoison(x)), ex.alloc(st, Dict({}), ("reset", x))))
        ex.put(st, me, c)
        return VNone


def in_order(m, w, l, f, rev):
    val = lambda i: f(w(m.at(i)), l(m.at(i)))  # noqa
    return ForAll([I, I], lambda i, j: Implies(And(i >= 0, i < j, j < m.n), If(rev, val(i) >= val(j), val(i) <= val(j))),
                  lambda i, j: [z3.MultiPattern(m.at(i), m.at(j))])
