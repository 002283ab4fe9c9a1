"""Structures: dimensions, items, containers (C13, C14)."""
import z3

from core import *  # noqa
from contracts.common import *  # noqa
from contracts.common import Contract
from inv import LoopSpec
from vc import heap0, heapfam

P13 = ("C13",)
P14 = ("C14",)


def classes():
    from hyperpack import structures
    return structures


def hyperpack_class():
    from hyperpack.heuristics import HyperPack
    return HyperPack


def posint(v):
    return And(Or(tag(v) == TAGS["int"], tag(v) == TAGS["bool"]), ival(v) >= 1)


def valid_dims(d, keys):
    """a dictionary with exactly these two keys and positive integer values"""
    k1, k2 = [lit(k) for k in keys]
    return And(tag(d) == TAGS["dict"], dlen(d) == 2, dhas(d, k1), dhas(d, k2),
               posint(dget(d, k1)), posint(dget(d, k2)))


KEYS = {"Items": ("w", "l"), "Containers": ("W", "L")}


def mk_owner(st, cls, **fields):
    """the problem instance; its data as far as the structures use them"""
    f = {"_strip_pack": VBool(z3.Bool("strip")), "_containers_num": VInt(z3.Int("cnum")),
         "solution": VExt("old solution"), "obj_val_per_container": VExt("old values")}
    f.update(fields)
    f[OPEN] = VNone
    return heap0(st, ("owner",), Inst(hyperpack_class(), f))


def mk_struct(ex, st, cname, me, name=None, wf=True):
    """an arbitrary well-formed Items / Containers object"""
    S_ = classes()
    name = name or cname.lower()
    cls = getattr(S_, cname)
    k1, k2 = KEYS[cname]
    f1, f2 = z3.Function(name + "." + k1, Val, I), z3.Function(name + "." + k2, Val, I)
    pk = heap0(st, (name, "keys"), SetC([S(k1), S(k2)]))
    heapfam(st, (name, "dd"), [Val], lambda idx: Dict({k1: (TRUE, VInt(f1(idx[0]))), k2: (TRUE, VInt(f2(idx[0])))}))
    heapfam(st, (name, "dim"), [Val], lambda idx: Inst(S_.Dimensions, {
        "instance": me, "proper_keys": pk, "data": VRef((name, "dd"), idx)}))
    m = mk_map(ex, name, lambda k: VRef((name, "dim"), (k,)))
    assume_map(ex, st, m)
    st.assume(m.n >= 1)
    st.assume(ForAll([Val], lambda k: Implies(m.dom(k), And(tag(k) == TAGS["str"], f1(k) >= 1, f2(k) >= 1)),
                     lambda k: [m.dom(k)]))
    data = heap0(st, (name, "data"), m)
    ref = heap0(st, (name,), Inst(cls, {"instance": me, "data": data}))
    return ref, m, f1, f2


def value_of(st, ref, key):
    """(present, Val) of a key of a dimensions' data dictionary"""
    m = as_map_of(st, ref)
    v = force(m.val(lit(key)))
    if isinstance(v, VUnion):
        alts = [(c, x) for c, x in v.alts if not isinstance(x, VPoison)]
        v = VUnion(alts) if len(alts) > 1 else alts[0][1]
    return m.dom(lit(key)), (NONEV if isinstance(v, VPoison) else to_val(v))


def no_key(o, k):
    """the key cannot be hashed"""
    return And(b(o.val.cls is TypeError), Not(hashable(k if z3.is_expr(k) else to_val(k))))


class DimensionsInit(Contract):
    qual = "Dimensions.__init__"
    base_props = P13
    cname = "Items"

    def function(self):
        return classes().Dimensions.__init__

    def setup(self, ex, st):
        d = z3.Const("dims", Val)
        owner = mk_owner(st, None)
        inst = merge(z3.Bool("standalone"), VNone, owner)
        struct = heap0(st, ("struct",), Inst(getattr(classes(), self.cname), {"instance": inst}))
        me = heap0(st, ("self",), Inst(classes().Dimensions, {}))
        return [me, VAny(d), struct, inst], (d, me, owner, st.copy())

    def check(self, ex, st, ctx, v):
        d, me, owner, st0 = ctx
        keys = KEYS[self.cname]
        # ghost: the first three keys, for the cardinality of a set of two keys
        for i in range(3):
            hint(st, dkey(d, i))
        for q in keys:
            hint(st, dhas(d, lit(q)))
        ex.oblige(st, valid_dims(d, keys), "accepted only if valid", P13)
        f = st.content(me).f
        data = force(f["data"])
        if not ex.oblige(st, b(isinstance(data, VRef)), "the values are held in a dictionary of the structure's own", P13):
            return
        m = as_map_of(st, data)
        ex.oblige(st, And(m.n == 2, ForAll([Val], lambda k: m.dom(k) == Or(*[k == lit(x) for x in keys]))),
                  "exactly the two keys are stored", P13)
        for k in keys:
            p, t = value_of(st, data, k)
            ex.oblige(st, And(p, t == dget(d, lit(k))), f"the value of {k} is stored", P13)
        pk = st.content(force(f["proper_keys"]))
        ex.oblige(st, ForAll([Val], lambda k: pk.has(k) == Or(*[k == lit(x) for x in keys])), "proper keys", P13)
        standalone = z3.Bool("standalone")
        ex.oblige(st, Or(standalone, b(is_empty(st, owner))), "the solution is reset", P14)
        ex.frame(st0, st, [("self",), (("owner",), "solution"), (("owner",), "obj_val_per_container")],
                 "changes nothing else", ("C13", "C14"))

    def check_raise(self, ex, ctx, o):
        d, me, owner, st0 = ctx
        ex.oblige(o.st, Not(valid_dims(d, KEYS[self.cname])), "rejected only if invalid", P13)
        ex.oblige(o.st, b(o.val.cls.__name__ == "DimensionsError"), "DimensionsError is raised", P13)
        ex.frame(st0, o.st, [("self",), (("owner",), "solution"), (("owner",), "obj_val_per_container")],
                 "rejection changes nothing", P13)

    def apply(self, ex, st, a):
        me, d, struct, inst = [force(a[k]) for k in ("self", "dimensions", "structure_type", "instance")]
        if not (isinstance(struct, VRef) and isinstance(st.content(struct), Inst)
                and st.content(struct).cls.__name__ in KEYS):
            raise Unsupported("structure of the dimensions")
        keys = KEYS[st.content(struct).cls.__name__]
        c = st.content(d) if isinstance(d, VRef) else None
        if isinstance(d, VAny):
            ok = valid_dims(d.t, keys)
            vals = [VInt(ival(dget(d.t, lit(k)))) for k in keys]
        elif isinstance(c, Dict) and set(c.e) == set(keys) and all(
                is_true(p) and isinstance(force(x), (VInt, VAny)) for p, x in c.e.values()):
            vals = [force(c.e[k][1]) for k in keys]
            ok = And(*[posint(x.t) if isinstance(x, VAny) else x.t >= 1 for x in vals])
            vals = [VInt(ival(x.t)) if isinstance(x, VAny) else x for x in vals]
        else:
            raise Unsupported(f"dimensions {d!r}")
        exc = __import__("hyperpack.exceptions").exceptions.DimensionsError
        ex.guard(st, ok, exc, "dimensions")
        if st.dead:
            return VNone
        pk = ex.alloc(st, SetC([S(k) for k in keys]), ("proper keys",))
        data = ex.alloc(st, Dict({k: (TRUE, v) for k, v in zip(keys, vals)}), ("dim data",))
        ex.put(st, me, Inst(st.content(me).cls, {"instance": inst, "proper_keys": pk, "data": data}))
        reset_owner(ex, st, inst)
        return VNone


def is_empty(st, owner):
    out = []
    for k in ("solution", "obj_val_per_container"):
        v = force(st.content(owner).f[k])
        alts = v.alts if isinstance(v, VUnion) else [(TRUE, v)]
        for c, x in alts:
            if isinstance(x, VRef):
                m = as_map_of(st, x)
                out.append(Implies(c, m.n == 0))
            else:
                out.append(Not(c))
    return And(*out)


def reset_owner(ex, st, inst):
    for c, x in (inst.alts if isinstance(inst, VUnion) else [(TRUE, inst)]):
        x = force(x)
        if isinstance(x, VRef):
            o = st.content(x)
            for k in ("solution", "obj_val_per_container"):
                e = ex.alloc(st, Dict({}), ("reset", k))
                o = o.set(k, merge(c, e, o.f.get(k, VPoison(k))))
            ex.put(st, x, o)


class DimensionsInitC(DimensionsInit):
    proof_name = "Dimensions.__init__ (containers)"
    cname = "Containers"


# ------------------------------------------------------------- structure sets


def valid_struct(d, keys):
    """a non-empty dictionary of valid dimensions with string keys"""
    return And(tag(d) == TAGS["dict"], dlen(d) >= 1, ForAll([I], lambda i: Implies(And(i >= 0, i < dlen(d)), And(
        tag(dkey(d, i)) == TAGS["str"], valid_dims(dget(d, dkey(d, i)), keys)))))


def dim_value(st, ref, k, x):
    """value of dimension x of entry k"""
    return ent_value(st, force(as_map_of(st, ref).val(k)), x)


def ent_value(st, r, x):
    if isinstance(r, VUnion):
        alts = [(c, y) for c, y in r.alts if not isinstance(y, VPoison)]
        t = ent_value(st, force(alts[-1][1]), x)
        for c, y in reversed(alts[:-1]):
            t = If(c, ent_value(st, force(y), x), t)
        return t
    if not isinstance(r, VRef):
        return z3.FreshConst(I, "no dimensions")
    return int_field(st, force(st.content(r).f["data"]), x)


class StructInit(Contract):
    qual = "AbstractStructureSet.__init__"
    base_props = P13
    uses = (DimensionsInit,)
    cname = "Items"

    def function(self):
        return classes().AbstractStructureSet.__init__

    def setup(self, ex, st):
        d = z3.Const("structure", Val)
        owner = mk_owner(st, None)
        inst = merge(z3.Bool("standalone"), VNone, owner)
        me = heap0(st, ("self",), Inst(getattr(classes(), self.cname), {}))
        return [me, VAny(d), inst], (d, me, owner, st.copy())

    def check(self, ex, st, ctx, v):
        d, me, owner, st0 = ctx
        keys = KEYS[self.cname]
        ex.oblige(st, valid_struct(d, keys), "accepted only if valid", P13)
        if not ex.oblige(st, b(isinstance(force(st.content(me).f["data"]), VRef)), "the entries are held in a dictionary of the structure's own", P13):
            return
        m = as_map_of(st, force(st.content(me).f["data"]))
        i = z3.FreshConst(I, "i")
        ex.oblige(st, m.n == dlen(d), "as many entries as given", P13)
        ex.oblige(st, Implies(And(i >= 0, i < m.n), m.at(i) == dkey(d, i)), "the given ids in the given order", P13)
        for nm, f in map_wf_parts(m):
            ex.oblige(st, f, nm, P13)
        s2 = st.copy()
        s2.assume(And(i >= 0, i < m.n))
        for x in keys:
            t = dim_value(st, force(st.content(me).f["data"]), m.at(i), x)
            ex.oblige(s2, b(t == ival(dget(dget(d, dkey(d, i)), lit(x)))), f"the given {x} is stored", P13)
            ex.oblige(s2, b(t >= 1), f"{x} is positive", P13)
        entry_wired(ex, s2, me, m.at(i), self.cname, st.content(me).f["instance"])
        ex.oblige(st, Or(z3.Bool("standalone"), b(is_empty(st, owner))), "the solution is reset", P14)
        ex.frame(st0, st, [("self",), (("owner",), "solution"), (("owner",), "obj_val_per_container")],
                 "changes nothing else", ("C13", "C14"))

    def matches(self, ex, st, a):
        d = force(a["structure"])
        return (isinstance(d, VAny) or isinstance(d, VRef) and isinstance(st.content(d), Map)) and not ex.ambient

    def apply(self, ex, st, a):
        me, d, inst = [force(a[k]) for k in ("self", "structure", "instance")]
        cls = st.content(me).cls
        if isinstance(d, VRef):
            return self.apply_map(ex, st, me, st.content(d), inst, cls)
        d = d.t
        keys = KEYS[cls.__name__]
        ex.guard(st, valid_struct(d, keys), cls.ERROR_CLASS, "structure")
        if st.dead:
            return VNone
        pk = ex.alloc(st, SetC([S(k) for k in keys]), ("proper keys",))
        f1 = ("dim data", ex.fresh_n)
        f2 = ("dim", ex.fresh_n)
        ex.fresh_n += 1
        heapfam(st, f1, [Val], lambda idx: Dict({
            k: (TRUE, VInt(ival(dget(dget(d, idx[0]), lit(k))))) for k in keys}))
        heapfam(st, f2, [Val], lambda idx: Inst(classes().Dimensions, {
            "instance": inst, "proper_keys": pk, "data": VRef(f1, idx)}))
        data = ex.alloc(st, Map(dlen(d), lambda i: dkey(d, i), lambda k: dhas(d, k), lambda k: dpos(d, k),
                                lambda k: VRef(f2, (k,))), ("struct data",))
        ex.put(st, me, Inst(cls, {"instance": inst, "data": data}))
        reset_owner(ex, st, inst)
        return VNone

    def apply_map(self, ex, st, me, d, inst, cls):
        """the same for a dictionary of dictionaries made by the program"""
        keys = KEYS[cls.__name__]
        k0 = z3.FreshConst(Val, "k")
        for c, x in alts_of(d.val(k0)):
            y = st.content(x) if isinstance(x, VRef) else None
            if not (isinstance(y, Dict) and set(y.e) == set(keys) and all(is_true(p) for p, _ in y.e.values())):
                raise Unsupported(f"structure with the entries {y!r}")
        snap = st.copy()

        def dim(k, q):
            return int_field(snap, force(d.val(k)), q)
        ex.guard(st, And(d.n >= 1, ForAll([Val], lambda k: Implies(d.dom(k), And(
            tag(k) == TAGS["str"], *[dim(k, q) >= 1 for q in keys])))), cls.ERROR_CLASS, "structure")
        if st.dead:
            return VNone
        pk = ex.alloc(st, SetC([S(k) for k in keys]), ("proper keys",))
        f1, f2 = ("dim data", ex.fresh_n), ("dim", ex.fresh_n)
        ex.fresh_n += 1
        heapfam(st, f1, [Val], lambda idx: Dict({k: (TRUE, VInt(dim(idx[0], k))) for k in keys}))
        heapfam(st, f2, [Val], lambda idx: Inst(classes().Dimensions, {
            "instance": inst, "proper_keys": pk, "data": VRef(f1, idx)}))
        data = ex.alloc(st, Map(d.n, d.at, d.dom, d.pos, lambda k: VRef(f2, (k,))), ("struct data",))
        ex.put(st, me, Inst(cls, {"instance": inst, "data": data}))
        reset_owner(ex, st, inst)
        return VNone

    def check_raise(self, ex, ctx, o):
        d, me, owner, st0 = ctx
        ex.oblige(o.st, Not(valid_struct(d, KEYS[self.cname])), "rejected only if invalid", P13)
        ex.oblige(o.st, b(o.val.cls.__name__ in ("DimensionsError", self.cname + "Error")), "proper error", P13)
        ex.frame(st0, o.st, [("self",), (("owner",), "solution"), (("owner",), "obj_val_per_container")],
                 "rejection changes nothing", P13)


class StructInitC(StructInit):
    proof_name = "AbstractStructureSet.__init__ (containers)"
    cname = "Containers"


def entry_wired(ex, st, me, k, cname, inst):
    """the entry is a Dimensions object that knows its keys and its instance"""
    m = as_map_of(st, force(st.content(me).f["data"]))
    r = force(m.val(k))
    for c, x in (r.alts if isinstance(r, VUnion) else [(TRUE, r)]):
        if isinstance(x, VPoison):
            ex.oblige(st, Not(c), "every entry has a value", P13)
            continue
        o = st.content(x) if isinstance(x, VRef) else None
        ok = isinstance(o, Inst) and o.cls is classes().Dimensions
        ex.oblige(st, Implies(c, b(ok)), "entries are Dimensions", P13)
        if not ok:
            continue
        ex.oblige(st, Implies(c, b(ex.is_(o.f["instance"], inst, st))), "entries know the instance", ("C13", "C14"))
        pk = st.content(force(o.f["proper_keys"]))
        ex.oblige(st, Implies(c, ForAll([Val], lambda k: pk.has(k) == Or(*[k == lit(q) for q in KEYS[cname]]))),
                  "entries know their keys", P13)


class SetEntry(Contract):
    qual = "AbstractStructureSet.__setitem__"
    base_props = P13
    uses = (DimensionsInit,)
    cname = "Items"

    def function(self):
        return classes().AbstractStructureSet.__setitem__

    def setup(self, ex, st):
        owner = mk_owner(st, None)
        me, m, f1, f2 = mk_struct(ex, st, self.cname, owner)
        k, d = z3.Consts("new_id new_dims", Val)
        return [me, VAny(k), VAny(d)], (me, owner, m, f1, f2, k, d, st.copy())

    def valid(self, ctx):
        me, owner, m, f1, f2, k, d, st0 = ctx
        ok = And(tag(k) == TAGS["str"], valid_dims(d, KEYS[self.cname]))
        return And(ok, Not(z3.Bool("strip"))) if self.cname == "Containers" else ok

    def check(self, ex, st, ctx, v):
        me, owner, m, f1, f2, k, d, st0 = ctx
        keys = KEYS[self.cname]
        ex.oblige(st, self.valid(ctx), "accepted only if valid", P13 + (("C17",) if self.cname == "Containers" else ()))
        data = force(st.content(me).f["data"])
        m2 = as_map_of(st, data)
        ex.oblige(st, And(m2.n == m.n + If(m.dom(k), iv(0), iv(1)), ForAll([Val], lambda x: m2.dom(x) == Or(m.dom(x), x == k))),
                  "exactly this entry is added or replaced", P13)
        for nm, f in map_wf_parts(m2):
            ex.oblige(st, f, nm, P13)
        ex.oblige(st, ForAll([I], lambda i: Implies(And(i >= 0, i < m.n), m2.at(i) == m.at(i))),
                  "the order of the entries stays", P13)
        x = z3.FreshConst(Val, "x")
        s2 = st.copy()
        s2.assume(m2.dom(x))
        for q, f in zip(keys, (f1, f2)):
            t = dim_value(st, data, x, q)
            ex.oblige(s2, b(t == If(x == k, ival(dget(d, lit(q))), f(x))), f"the {q} given, the others unchanged", P13)
            ex.oblige(s2, b(t >= 1), f"{q} is positive", P13)
        entry_wired(ex, s2, me, x, self.cname, owner)
        ex.oblige(st, is_empty(st, owner), "the solution is reset", P14)
        if self.cname == "Containers":
            ex.oblige(st, ex.eq(st.content(owner).f["_containers_num"], VInt(m2.n), st),
                      "the number of containers is up to date", P14)
        self.frames(ex, st0, st)

    def frames(self, ex, st0, st):
        n = self.cname.lower()
        ex.frame(st0, st, [(n, "data"), (n, "dim"), (n, "dd"), (("owner",), "solution"),
                           (("owner",), "obj_val_per_container"), (("owner",), "_containers_num")],
                 "changes nothing else", ("C13", "C14"))

    def check_raise(self, ex, ctx, o):
        me, owner, m, f1, f2, k, d, st0 = ctx
        ex.oblige(o.st, Not(self.valid(ctx)), "rejected only if invalid", P13)
        ex.oblige(o.st, Or(b(o.val.cls.__name__ in ("DimensionsError", self.cname + "Error")), no_key(o, k)), "proper error", P13)
        ex.frame(st0, o.st, [(("owner",), "solution"), (("owner",), "obj_val_per_container")],
                 "rejection changes nothing", P13)


class SetEntryC(SetEntry):
    proof_name = "AbstractStructureSet.__setitem__ (containers)"
    cname = "Containers"


class DelEntry(Contract):
    qual = "AbstractStructureSet.__delitem__"
    base_props = P13
    cname = "Items"

    def function(self):
        return classes().AbstractStructureSet.__delitem__

    def setup(self, ex, st):
        owner = mk_owner(st, None)
        me, m, f1, f2 = mk_struct(ex, st, self.cname, owner)
        if self.cname == "Containers":
            st.assume(Implies(z3.Bool("strip"), m.n == 1))
        k = z3.Const("id", Val)
        return [me, VAny(k)], (me, owner, m, k, st.copy())

    def check(self, ex, st, ctx, v):
        me, owner, m, k, st0 = ctx
        ex.oblige(st, And(m.n > 1, m.dom(k)), "only an entry that is not the last one is deleted", P13)
        if self.cname == "Containers":
            ex.oblige(st, Not(z3.Bool("strip")), "the strip is never deleted", ("C17",))
        data = force(st.content(me).f["data"])
        m2 = as_map_of(st, data)
        ex.oblige(st, And(m2.n == m.n - 1, ForAll([Val], lambda x: m2.dom(x) == And(m.dom(x), x != k))),
                  "exactly this entry is deleted", P13)
        for nm, f in map_wf_parts(m2):
            ex.oblige(st, f, nm, P13)
        ex.oblige(st, ForAll([Val, Val], lambda x, y: Implies(And(m2.dom(x), m2.dom(y), m.pos(x) < m.pos(y)),
                                                              m2.pos(x) < m2.pos(y))), "the order stays", P13)
        x = z3.FreshConst(Val, "x")
        ex.oblige(st, Implies(m2.dom(x), same_ref(m2.val(x), m.val(x))), "the other entries stay", P13)
        ex.oblige(st, is_empty(st, owner), "the solution is reset", P14)
        if self.cname == "Containers":
            ex.oblige(st, ex.eq(st.content(owner).f["_containers_num"], VInt(m2.n), st),
                      "the number of containers is up to date", P14)
        n = self.cname.lower()
        ex.frame(st0, st, [(n, "data"), (("owner",), "solution"),
                           (("owner",), "obj_val_per_container"), (("owner",), "_containers_num")],
                 "changes nothing else", ("C13", "C14"))

    def check_raise(self, ex, ctx, o):
        me, owner, m, k, st0 = ctx
        ex.oblige(o.st, Not(And(m.n > 1, m.dom(k))), "rejected only if unknown or last", P13)
        nm = o.val.cls.__name__
        ex.oblige(o.st, Or(b(nm in ("KeyError", self.cname + "Error")), no_key(o, k)), "proper error", P13)
        ex.oblige(o.st, Implies(b(nm == "KeyError"), Not(m.dom(k))), "KeyError only for an unknown id", P13)
        ex.frame(st0, o.st, [(("owner",), "solution"), (("owner",), "obj_val_per_container")],
                 "rejection changes nothing", P13)


class DelEntryC(DelEntry):
    proof_name = "AbstractStructureSet.__delitem__ (containers)"
    cname = "Containers"


class SetDimension(Contract):
    qual = "Dimensions.__setitem__"
    base_props = P13
    cname = "Items"

    def function(self):
        return classes().Dimensions.__setitem__

    def setup(self, ex, st):
        owner = mk_owner(st, None)
        S_ = classes()
        k1, k2 = KEYS[self.cname]
        v1, v2 = z3.Ints("first second")
        st.assume(And(v1 >= 1, v2 >= 1))
        pk = heap0(st, ("keys",), SetC([S(k1), S(k2)]))
        data = heap0(st, ("dd",), Dict({k1: (TRUE, VInt(v1)), k2: (TRUE, VInt(v2))}))
        me = heap0(st, ("self",), Inst(S_.Dimensions, {"instance": owner, "proper_keys": pk, "data": data}))
        k, x = z3.Consts("dimension new_value", Val)
        return [me, VAny(k), VAny(x)], (me, owner, v1, v2, k, x, st.copy())

    def valid(self, ctx):
        me, owner, v1, v2, k, x, st0 = ctx
        ok = And(Or(*[k == lit(q) for q in KEYS[self.cname]]), posint(x))
        return And(ok, Not(z3.Bool("strip"))) if self.cname == "Containers" else ok

    def check(self, ex, st, ctx, v):
        me, owner, v1, v2, k, x, st0 = ctx
        ex.oblige(st, self.valid(ctx), "accepted only if valid", P13 + (("C17",) if self.cname == "Containers" else ()))
        data = force(st.content(me).f["data"])
        m = as_map_of(st, data)
        keys = KEYS[self.cname]
        ex.oblige(st, And(m.n == 2, ForAll([Val], lambda y: m.dom(y) == Or(*[y == lit(q) for q in keys]))),
                  "still exactly the two keys", P13)
        for q, old in zip(keys, (v1, v2)):
            new = If(k == lit(q), ival(x), old)
            u = force(m.val(lit(q)))
            for c, y in (u.alts if isinstance(u, VUnion) else [(TRUE, u)]):
                t = ival(y.t) if isinstance(y, VAny) else y.t if isinstance(y, VInt) else None
                ex.oblige(st, Implies(c, FALSE if t is None else And(t == new, t >= 1)),
                          f"{q} has the new or its old value", P13)
        ex.oblige(st, is_empty(st, owner), "the solution is reset", P14)
        ex.frame(st0, st, [("dd",), (("self",), "data"), (("owner",), "solution"), (("owner",), "obj_val_per_container")],
                 "changes nothing else", ("C13", "C14"))

    def check_raise(self, ex, ctx, o):
        me, owner, v1, v2, k, x, st0 = ctx
        ex.oblige(o.st, Not(self.valid(ctx)), "rejected only if invalid", P13)
        ex.oblige(o.st, Or(b(o.val.cls.__name__ in ("DimensionsError", "ContainersError")), no_key(o, k)), "proper error", P13)
        ex.frame(st0, o.st, [(("owner",), "solution"), (("owner",), "obj_val_per_container")],
                 "rejection changes nothing", P13)


class SetDimensionC(SetDimension):
    proof_name = "Dimensions.__setitem__ (containers)"
    cname = "Containers"


class DelDimension(Contract):
    qual = "Dimensions.__delitem__"
    base_props = P13

    def function(self):
        return classes().Dimensions.__delitem__

    def setup(self, ex, st):
        args, ctx = SetDimension.setup(self, ex, st)
        return args[:2], ctx

    cname = "Items"

    def check(self, ex, st, ctx, v):
        ex.oblige(st, FALSE, "a dimension is never deleted", P13)

    def check_raise(self, ex, ctx, o):
        ex.oblige(o.st, b(o.val.cls.__name__ == "DimensionsError"), "DimensionsError is raised", P13)
        ex.frame(ctx[-1], o.st, [], "changes nothing", P13)


# ------------------------------------------ what the structures inherit


class PopEntry(DelEntry):
    """pop of an entry: the same as deleting it, and the entry is returned"""

    qual = "AbstractStructureSet.pop"

    def function(self):
        return getattr(classes(), self.cname).pop

    def check(self, ex, st, ctx, v):
        me, owner, m, k, st0 = ctx
        DelEntry.check(self, ex, st, ctx, v)
        ex.oblige(st, same_ref(v, m.val(k)), "the deleted entry is returned", P13)


class PopEntryC(PopEntry):
    proof_name = "AbstractStructureSet.pop (containers)"
    cname = "Containers"


class PopItem(DelEntry):
    """popitem deletes an arbitrary entry, never the last one"""

    qual = "AbstractStructureSet.popitem"

    def function(self):
        return getattr(classes(), self.cname).popitem

    def setup(self, ex, st):
        args, ctx = DelEntry.setup(self, ex, st)
        return args[:1], ctx

    def check(self, ex, st, ctx, v):
        me, owner, m, k, st0 = ctx
        r = force(v)
        if not ex.oblige(st, b(isinstance(r, VTuple) and len(r.items) == 2), "an id and its entry are returned", P13):
            return
        k = force(r.items[0])
        DelEntry.check(self, ex, st, (me, owner, m, k.t, st0), v)
        ex.oblige(st, same_ref(r.items[1], m.val(k.t)), "the deleted entry is returned", P13)

    def check_raise(self, ex, ctx, o):
        me, owner, m, k, st0 = ctx
        ex.oblige(o.st, m.n == 1, "rejected only if it is the last one", P13)
        ex.oblige(o.st, b(o.val.cls.__name__ == self.cname + "Error"), "proper error", P13)
        ex.frame(st0, o.st, [(("owner",), "solution"), (("owner",), "obj_val_per_container")],
                 "rejection changes nothing", P13)


class PopItemC(PopItem):
    proof_name = "AbstractStructureSet.popitem (containers)"
    cname = "Containers"


class SetDefault(SetEntry):
    """setdefault of a new id is an assignment; of a known one a lookup"""

    qual = "AbstractStructureSet.setdefault"

    def function(self):
        return getattr(classes(), self.cname).setdefault

    def setup(self, ex, st):
        args, ctx = SetEntry.setup(self, ex, st)
        if self.cname == "Containers":
            st.assume(Implies(z3.Bool("strip"), ctx[2].n == 1))
        return args, ctx

    def check(self, ex, st, ctx, v):
        me, owner, m, f1, f2, k, d, st0 = ctx
        old, new = st.copy(), st.copy()
        old.assume(m.dom(k))
        new.assume(Not(m.dom(k)))
        if not ex.infeasible(new, TRUE):
            SetEntry.check(self, ex, new, ctx, v)
        data = force(old.content(me).f["data"])
        m2 = as_map_of(old, data)
        ex.oblige(old, And(m2.n == m.n, ForAll([Val], lambda x: m2.dom(x) == m.dom(x))), "a known id: same entries", P13)
        x = z3.FreshConst(Val, "x")
        ex.oblige(old, Implies(m.dom(x), same_ref(m2.val(x), m.val(x))), "a known id: the entries stay", P13)

    def check_raise(self, ex, ctx, o):
        me, owner, m, f1, f2, k, d, st0 = ctx
        ex.oblige(o.st, Not(m.dom(k)), "a known id is never rejected", P13)
        SetEntry.check_raise(self, ex, ctx, o)


class SetDefaultC(SetDefault):
    proof_name = "AbstractStructureSet.setdefault (containers)"
    cname = "Containers"


class PopDimension(DelDimension):
    qual = "Dimensions.pop"

    def function(self):
        return classes().Dimensions.pop

    def check_raise(self, ex, ctx, o):
        k = ctx[5 - 1]
        nm = o.val.cls.__name__
        ex.oblige(o.st, Or(b(nm in ("DimensionsError", "KeyError")), no_key(o, k)), "proper error", P13)
        ex.frame(ctx[-1], o.st, [], "changes nothing", P13)


class PopItemDimension(DelDimension):
    qual = "Dimensions.popitem"

    def function(self):
        return classes().Dimensions.popitem

    def setup(self, ex, st):
        args, ctx = SetDimension.setup(self, ex, st)
        return args[:1], ctx


class ClearDimension(PopItemDimension):
    qual = "Dimensions.clear"

    def function(self):
        return classes().Dimensions.clear


class UpdateLoop(LoopSpec):
    """after k assignments: the given values for the first k ids, the rest as before"""

    name = "loop of the update"
    func = "MutableMapping.update"

    def applies(self, ex, node, st, n, elem):
        c = getattr(ex, "upd", None)
        return c if c is not None and n is not None and n.eq(dlen(c.d)) else None

    def havoc(self, ex, c, st):
        ex.fresh_n += 1
        tag_ = ("updated", ex.fresh_n)
        S_ = classes()
        k1, k2 = KEYS[c.cname]
        c.g = [ex.fresh_fn("dim " + q, Val, I) for q in (k1, k2)]
        g1, g2 = c.g
        heapfam(st, tag_ + ("keys",), [Val], lambda idx: SetC([S(k1), S(k2)]))
        heapfam(st, tag_ + ("dd",), [Val], lambda idx: Dict({k1: (TRUE, VInt(g1(idx[0]))), k2: (TRUE, VInt(g2(idx[0])))}))
        heapfam(st, tag_ + ("dim",), [Val], lambda idx: Inst(S_.Dimensions, {
            "instance": c.owner, "proper_keys": VRef(tag_ + ("keys",), idx), "data": VRef(tag_ + ("dd",), idx)}))
        m = mk_map(ex, "updated", lambda k: VRef(tag_ + ("dim",), (k,)), fresh=True)
        assume_map(ex, st, m)
        ex.put(st, c.data, m)
        o = st.content(c.owner)
        for a in ("solution", "obj_val_per_container"):
            o = o.set(a, merge(ex.fresh("reset", B), ex.alloc(st, Dict({}), ("reset", a)), o.f[a]))
        if c.cname == "Containers":
            o = o.set("_containers_num", VInt(ex.fresh("cnum", I)))
        ex.put(st, c.owner, o)

    def inv(self, ex, c, st, k):
        data = self.data(c, st)
        m = as_map_of(st, data)
        d = c.d
        new = lambda x: And(dhas(d, x), dpos(d, x) < k)  # noqa
        out = [("entries", f, P13) for nm, f in map_wf_parts(m)]
        out += [("the entries are the old and the given ones", And(m.n >= 1, ForAll([Val], lambda x: m.dom(x) == Or(
            c.m.dom(x), new(x)))), P13),
            ("the solution is reset", Implies(k > 0, b(is_empty(st, c.owner))), P14)]
        if c.cname == "Containers":
            out.append(("the number of containers is up to date", ex.eq(st.content(c.owner).f["_containers_num"], VInt(m.n), st), P14))
            out.append(("the strip is never changed", Implies(k > 0, Not(z3.Bool("strip"))), ("C17",)))
        out.append(("ids are text", ForAll([Val], lambda x: Implies(m.dom(x), tag(x) == TAGS["str"]), lambda x: [m.dom(x)]), P13))
        for q, f in zip(KEYS[c.cname], c.f):
            out.append((f"the {q} given, the others unchanged", ForAll([Val], lambda x: Implies(m.dom(x), And(
                dim_value(st, data, x, q) == If(new(x), ival(dget(dget(d, x), lit(q))), f(x)),
                dim_value(st, data, x, q) >= 1))), P13))
        return out

    def data(self, c, st):
        return force(st.content(c.me).f["data"])

    def after_body(self, ex, c, head, st, k):
        x = z3.FreshConst(Val, "x")
        s2 = st.copy()
        s2.assume(as_map_of(st, self.data(c, st)).dom(x))
        entry_wired(ex, s2, c.me, x, c.cname, c.owner)


class UpdateEntries(Contract):
    """update, |= : every entry as if it were assigned alone; at every moment valid"""

    qual = "AbstractStructureSet.update"
    base_props = P13
    loops = (UpdateLoop,)
    uses = (DimensionsInit,)
    cname = "Items"
    attr = "update"

    def function(self):
        return getattr(getattr(classes(), self.cname), self.attr)

    def setup(self, ex, st):
        c = type("Ctx", (), {})()
        c.cname = self.cname
        c.owner = mk_owner(st, None)
        c.me, c.m, *c.f = mk_struct(ex, st, self.cname, c.owner)
        st.assume(z3.Int("cnum") == c.m.n)
        c.data = force(st.content(c.me).f["data"])
        c.d = z3.Const("given", Val)
        st.assume(tag(c.d) == TAGS["dict"])
        c.st0 = st.copy()
        ex.upd = c
        return [c.me, VAny(c.d)], c

    def check(self, ex, st, c, v):
        for nm, f, props in UpdateLoop().inv(ex, c, st, dlen(c.d)):
            ex.oblige(st, f, nm, props)
        x = z3.FreshConst(Val, "x")
        s2 = st.copy()
        s2.assume(as_map_of(st, force(st.content(c.me).f["data"])).dom(x))
        entry_wired(ex, s2, c.me, x, c.cname, c.owner)
        if self.attr == "__ior__":
            ex.oblige(st, b(ex.is_(v, c.me, st)), "the structure itself is returned", P13)
        self.frames(ex, c, st)

    def frames(self, ex, c, st):
        n = self.cname.lower()
        ex.frame(c.st0, st, [(n, "data"), (n, "dim"), (n, "dd"), (("owner",), "solution"),
                             (("owner",), "obj_val_per_container"), (("owner",), "_containers_num")],
                 "changes nothing else", ("C13", "C14"))

    def check_raise(self, ex, c, o):
        st = o.st
        ex.oblige(st, b(o.val.cls.__name__ in ("DimensionsError", self.cname + "Error")), "proper error", P13)
        data = force(st.content(c.me).f["data"])
        m = as_map_of(st, data)
        for nm, f in map_wf_parts(m):
            ex.oblige(st, f, "after a rejection: " + nm, P13)
        ex.oblige(st, m.n >= 1, "after a rejection: at least one entry", P13)
        x = z3.FreshConst(Val, "x")
        s2 = st.copy()
        s2.assume(m.dom(x))
        ex.oblige(s2, tag(x) == TAGS["str"], "after a rejection: ids are text", P13)
        for q in KEYS[self.cname]:
            ex.oblige(s2, b(dim_value(st, data, x, q) >= 1), f"after a rejection: {q} is positive", P13)
        entry_wired(ex, s2, c.me, x, c.cname, c.owner)
        ex.oblige(st, Not(And(*[ForAll([Val], lambda x: Implies(dhas(c.d, x), And(
            tag(x) == TAGS["str"], valid_dims(dget(c.d, x), KEYS[self.cname])))), Not(b(self.cname == "Containers" and z3.Bool("strip")))])),
            "rejected only if an entry is invalid", P13)


class UpdateEntriesC(UpdateEntries):
    proof_name = "AbstractStructureSet.update (containers)"
    cname = "Containers"


class MergeEntries(UpdateEntries):
    qual = "AbstractStructureSet.__ior__"
    attr = "__ior__"


class MergeEntriesC(MergeEntries):
    proof_name = "AbstractStructureSet.__ior__ (containers)"
    cname = "Containers"


class UpdateDimsLoop(UpdateLoop):
    name = "loop of the update of dimensions"

    def applies(self, ex, node, st, n, elem):
        c = getattr(ex, "upd", None)
        return c if c is not None and n is not None and n.eq(dlen(c.d)) else None

    def havoc(self, ex, c, st):
        ex.put(st, c.data, Dict({q: (TRUE, VInt(ex.fresh("new " + q, I))) for q in KEYS[c.cname]}))
        o = st.content(c.owner)
        for a in ("solution", "obj_val_per_container"):
            o = o.set(a, merge(ex.fresh("reset", B), ex.alloc(st, Dict({}), ("reset", a)), o.f[a]))
        ex.put(st, c.owner, o)

    def inv(self, ex, c, st, k):
        data = force(st.content(c.me).f["data"])
        m = as_map_of(st, data)
        d, keys = c.d, KEYS[c.cname]
        new = lambda x: And(dhas(d, x), dpos(d, x) < k)  # noqa
        out = [("still exactly the two keys", And(m.n == 2, ForAll([Val], lambda y: m.dom(y) == Or(*[
                   y == lit(q) for q in keys]))), P13),
               ("the solution is reset", Implies(k > 0, b(is_empty(st, c.owner))), P14)]
        if c.cname == "Containers":
            out.append(("the strip is never changed", Implies(k > 0, Not(z3.Bool("strip"))), ("C17",)))
        for q, old in zip(keys, c.old):
            t = self.value(st, data, q)
            out.append((f"{q} is the given one or unchanged", And(
                t == If(new(lit(q)), ival(dget(d, lit(q))), old), t >= 1), P13))
        return out

    def value(self, st, data, q):
        u = force(as_map_of(st, data).val(lit(q)))
        out = None
        for c, y in reversed(u.alts if isinstance(u, VUnion) else [(TRUE, u)]):
            if isinstance(y, (VAny, VInt)):
                t = ival(y.t) if isinstance(y, VAny) else y.t
                out = t if out is None else If(c, t, out)
        return iv(0) if out is None else out

    def after_body(self, ex, c, head, st, k):
        pass


class UpdateDimensions(Contract):
    """update of the dimensions of one entry: as if each were assigned alone"""

    qual = "Dimensions.update"
    base_props = P13
    loops = (UpdateDimsLoop,)
    cname = "Items"
    attr = "update"

    def function(self):
        return getattr(classes().Dimensions, self.attr)

    def setup(self, ex, st):
        args, ctx = SetDimension.setup(self, ex, st)
        c = type("Ctx", (), {})()
        c.me, c.owner, v1, v2, c.st0 = ctx[0], ctx[1], ctx[2], ctx[3], ctx[-1]
        c.old, c.cname = (v1, v2), self.cname
        c.data = force(st.content(c.me).f["data"])
        c.d = z3.Const("given", Val)
        st.assume(tag(c.d) == TAGS["dict"])
        ex.upd = c
        return [c.me, VAny(c.d)], c

    def check(self, ex, st, c, v):
        for nm, f, props in UpdateDimsLoop().inv(ex, c, st, dlen(c.d)):
            ex.oblige(st, f, nm, props)
        if self.attr == "__ior__":
            ex.oblige(st, b(ex.is_(v, c.me, st)), "the dimensions themselves are returned", P13)
        self.frames(ex, c, st)

    def frames(self, ex, c, st):
        ex.frame(c.st0, st, [("dd",), (("self",), "data"), (("owner",), "solution"), (("owner",), "obj_val_per_container")],
                 "changes nothing else", ("C13", "C14"))

    def check_raise(self, ex, c, o):
        st = o.st
        ex.oblige(st, b(o.val.cls.__name__ in ("DimensionsError", "ContainersError")), "proper error", P13)
        data = force(st.content(c.me).f["data"])
        m = as_map_of(st, data)
        keys = KEYS[self.cname]
        ex.oblige(st, And(m.n == 2, ForAll([Val], lambda y: m.dom(y) == Or(*[y == lit(q) for q in keys]))),
                  "after a rejection: exactly the two keys", P13)
        for q in keys:
            ex.oblige(st, b(UpdateDimsLoop().value(st, data, q) >= 1), f"after a rejection: {q} is positive", P13)
        ex.oblige(st, Not(And(ForAll([Val], lambda x: Implies(dhas(c.d, x), And(
            Or(*[x == lit(q) for q in keys]), posint(dget(c.d, x))))),
            Not(b(self.cname == "Containers" and z3.Bool("strip"))))), "rejected only if a value is invalid", P13)


class UpdateDimensionsC(UpdateDimensions):
    proof_name = "Dimensions.update (containers)"
    cname = "Containers"


class MergeDimensions(UpdateDimensions):
    qual = "Dimensions.__ior__"
    attr = "__ior__"


class MergeDimensionsC(MergeDimensions):
    proof_name = "Dimensions.__ior__ (containers)"
    cname = "Containers"
