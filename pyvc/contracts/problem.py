"""Problem definition: structures of an instance, heights, settings, strategy
(C13, C14, C15, C16, C17)."""
import z3

from core import *  # noqa
from contracts.common import *  # noqa
from contracts.common import Contract
from contracts.struct import (KEYS, StructInit, dim_value, entry_wired, is_empty, mk_owner, mk_struct, posint,
                              valid_struct)
from vc import heap0, heapfam


def base():
    from hyperpack.heuristics import BasePackingProblem
    return BasePackingProblem


def exc(name):
    from hyperpack import exceptions
    return getattr(exceptions, name)


def opt_int(name, st, lo=1):
    """None or an integer >= lo: (value, is None, term)"""
    none, t = z3.Bool(name + " is None"), z3.Int(name)
    st.assume(Or(none, t >= lo))
    return merge(none, VNone, VInt(t)), none, t


def int_or_none(v, none, t):
    """the value v is None exactly if none, and t otherwise"""
    v = force(v)
    out = []
    for c, x in (v.alts if isinstance(v, VUnion) else [(TRUE, v)]):
        if x is VNone:
            out.append(Implies(c, none))
        elif isinstance(x, VInt):
            out.append(Implies(c, And(Not(none), x.t == t)))
        elif isinstance(x, VAny):
            out.append(Implies(c, And(Not(none), posint(x.t), ival(x.t) == t)))
        else:
            out.append(Not(c))
    return And(*out)


class SetStructure(Contract):
    """assignment of a whole structure to the instance"""

    base_props = ("C13",)
    uses = (StructInit,)
    cname = None

    def function(self):
        return getattr(base(), self.cname.lower()).fset

    def setup(self, ex, st):
        me = mk_owner(st, None)
        old, m, f1, f2 = mk_struct(ex, st, self.cname, me)
        o = st.content(me).set("_" + self.cname.lower(), old)
        ex.put(st, me, o)
        d = z3.Const("value", Val)
        return [me, VAny(d)], (me, d, st.copy())

    def valid(self, d):
        ok = valid_struct(d, KEYS[self.cname])
        return And(ok, Not(z3.Bool("strip"))) if self.cname == "Containers" else ok

    def check(self, ex, st, ctx, v):
        me, d, st0 = ctx
        n = self.cname.lower()
        ex.oblige(st, self.valid(d), "accepted only if valid", ("C13", "C17"))
        new = force(st.content(me).f["_" + n])
        data = force(st.content(new).f["data"])
        m = as_map_of(st, data)
        i = z3.FreshConst(I, "i")
        ex.oblige(st, And(m.n == dlen(d), Implies(And(i >= 0, i < m.n), m.at(i) == dkey(d, i))),
                  "the given ids in the given order", ("C13",))
        s2 = st.copy()
        s2.assume(And(i >= 0, i < m.n))
        for x in KEYS[self.cname]:
            t = dim_value(st, data, m.at(i), x)
            ex.oblige(s2, b(t == ival(dget(dget(d, dkey(d, i)), lit(x)))), f"the given {x} is stored", ("C13",))
            ex.oblige(s2, b(t >= 1), f"{x} is positive", ("C13",))
        entry_wired(ex, s2, new, m.at(i), self.cname, me)
        ex.oblige(st, is_empty(st, me), "the solution is reset", ("C14",))
        if self.cname == "Containers":
            ex.oblige(st, ex.eq(st.content(me).f["_containers_num"], VInt(m.n), st),
                      "the number of containers is up to date", ("C14",))
        ex.frame(st0, st, [(("owner",), "solution"), (("owner",), "obj_val_per_container"),
                           (("owner",), "_containers_num"), (("owner",), "_" + n)],
                 "changes nothing else", ("C13", "C14"))

    def check_raise(self, ex, ctx, o):
        me, d, st0 = ctx
        ex.oblige(o.st, Not(self.valid(d)), "rejected only if invalid", ("C13", "C17"))
        ex.oblige(o.st, b(o.val.cls.__name__ in ("DimensionsError", self.cname + "Error")), "proper error", ("C13",))
        ex.frame(st0, o.st, [(("owner",), "solution"), (("owner",), "obj_val_per_container")],
                 "rejection changes nothing", ("C13", "C17"))


class SetItems(SetStructure):
    qual = "BasePackingProblem.items (setter)"
    cname = "Items"


class SetContainers(SetStructure):
    qual = "BasePackingProblem.containers (setter)"
    cname = "Containers"


class Deleter(Contract):
    """deleting an attribute always fails and changes nothing"""

    attr, error, props = None, None, ()

    def function(self):
        return getattr(base(), self.attr).fdel

    def setup(self, ex, st):
        me = mk_owner(st, None, _container_height=VExt("h"), _container_min_height=VExt("mh"),
                      _items=VExt("items"), _containers=VExt("containers"))
        return [me], (me, st.copy())

    def check(self, ex, st, ctx, v):
        ex.oblige(st, FALSE, "never succeeds", self.props)

    def check_raise(self, ex, ctx, o):
        ex.oblige(o.st, b(o.val.cls.__name__ == self.error), "proper error", self.props)
        ex.frame(ctx[-1], o.st, [], "changes nothing", self.props)


class DelItems(Deleter):
    qual = "BasePackingProblem.items (deleter)"
    attr, error, props = "items", "ItemsError", ("C13",)


class DelContainers(Deleter):
    qual = "BasePackingProblem.containers (deleter)"
    attr, error, props = "containers", "ContainersError", ("C13", "C17")


class DelHeight(Deleter):
    qual = "BasePackingProblem.container_height (deleter)"
    attr, error, props = "container_height", "DimensionsError", ("C17",)


class DelMinHeight(Deleter):
    qual = "BasePackingProblem.container_min_height (deleter)"
    attr, error, props = "container_min_height", "DimensionsError", ("C17",)


# ------------------------------------------------------------------ heights


class SetHeight(Contract):
    qual = "BasePackingProblem.container_height (setter)"
    base_props = ("C17",)

    def function(self):
        return base().container_height.fset

    def setup(self, ex, st):
        mh, none, t = opt_int("min", st)
        h = z3.Int("h")
        st.assume(h >= 1)
        me = mk_owner(st, None, _container_height=VInt(h), _container_min_height=mh)
        x = z3.Const("value", Val)
        return [me, VAny(x)], (me, x, none, t, h, st.copy())

    def valid(self, ctx):
        me, x, none, t, h, st0 = ctx
        return And(posint(x), Or(none, t <= ival(x)))

    attr, other = "_container_height", "_container_min_height"

    def check(self, ex, st, ctx, v):
        me, x, none, t, h, st0 = ctx
        ex.oblige(st, self.valid(ctx), "accepted only if a positive integer not in conflict", ("C17",))
        ex.oblige(st, int_or_none(st.content(me).f[self.attr], FALSE, ival(x)), "the value is set", ("C17",))
        ex.frame(st0, st, [(("owner",), self.attr)], "changes nothing else", ("C17",))

    def check_raise(self, ex, ctx, o):
        ex.oblige(o.st, Not(self.valid(ctx)), "rejected only if invalid", ("C17",))
        ex.oblige(o.st, b(o.val.cls.__name__ in ("DimensionsError", "ContainersError")), "proper error", ("C17",))
        ex.frame(ctx[-1], o.st, [], "rejection changes nothing", ("C17",))


class SetMinHeight(SetHeight):
    qual = "BasePackingProblem.container_min_height (setter)"
    attr, other = "_container_min_height", "_container_height"

    def function(self):
        return base().container_min_height.fset

    def valid(self, ctx):
        me, x, none, t, h, st0 = ctx
        return And(posint(x), ival(x) <= h)


def mk_strip(ex, st, me):
    """the strip container of the instance; its width"""
    S_ = __import__("hyperpack.structures", fromlist=["x"])
    W = z3.Int("strip W")
    st.assume(W >= 1)
    key = base().STRIP_PACK_CONT_ID
    pk = heap0(st, ("strip", "keys"), SetC([S("W"), S("L")]))
    dd = heap0(st, ("strip", "dd"), Dict({"W": (TRUE, VInt(W)), "L": (TRUE, VInt(base().STRIP_PACK_INIT_HEIGHT))}))
    dim = heap0(st, ("strip", "dim"), Inst(S_.Dimensions, {"instance": me, "proper_keys": pk, "data": dd}))
    data = heap0(st, ("strip", "data"), Dict({key: (TRUE, dim)}))
    return heap0(st, ("strip",), Inst(S_.Containers, {"instance": me, "data": data})), W


class ResetHeight(Contract):
    qual = "BasePackingProblem.reset_container_height"
    base_props = ("C17",)

    def function(self):
        return base().reset_container_height

    def setup(self, ex, st):
        mh, none, t = opt_int("min", st)
        h = z3.Int("h")
        me = mk_owner(st, None, _container_height=VInt(h), _container_min_height=mh)
        strip, W = mk_strip(ex, st, me)
        ex.put(st, me, st.content(me).set("_containers", strip).set("_strip_pack", VBool(TRUE)))
        return [me], (me, W, st.copy())

    def check(self, ex, st, ctx, v):
        me, W, st0 = ctx
        f = st.content(me).f
        ex.oblige(st, int_or_none(f["_container_height"], FALSE, 10 * W), "height is 10 times the width", ("C17",))
        ex.oblige(st, int_or_none(f["_container_min_height"], TRUE, iv(0)), "there is no minimum", ("C17",))
        ex.frame(st0, st, [(("owner",), "_container_height"), (("owner",), "_container_min_height")],
                 "changes nothing else", ("C17",))


class ResetHeightBin(Contract):
    qual = "BasePackingProblem.reset_container_height (bin packing)"
    base_props = ("C17",)

    def function(self):
        return base().reset_container_height

    def setup(self, ex, st):
        me = mk_owner(st, None, _container_height=opt_int("height", st)[0], _container_min_height=opt_int("min", st)[0])
        ex.put(st, me, st.content(me).set("_strip_pack", VBool(FALSE)))
        return [me], (me, st.copy())

    def check(self, ex, st, ctx, v):
        ex.frame(ctx[-1], st, [], "changes nothing", ("C17",))


class BaseInit(Contract):
    """construction of a problem"""

    qual = "BasePackingProblem.__init__"
    base_props = ("C13", "C17")
    uses = (StructInit,)
    has_containers = has_strip = False

    def function(self):
        return base().__init__

    def setup(self, ex, st):
        c, i, w = z3.Consts("containers items strip_width", Val)
        me = heap0(st, ("owner",), Inst(mk_cls(), {}))
        return [me, VAny(c), VAny(i)], (me, c, i, w, st.copy())

    kwonly = True

    def valid(self, ctx):
        me, c, i, w, st0 = ctx
        strip = tag(w) != TAGS["none"]
        return And(valid_struct(i, KEYS["Items"]), Implies(strip, And(posint(w), tag(c) == TAGS["none"])),
                   Implies(Not(strip), valid_struct(c, KEYS["Containers"])))

    def call_kw(self, ctx):
        return {"strip_pack_width": VAny(ctx[3])}

    def check(self, ex, st, ctx, v):
        me, c, i, w, st0 = ctx
        strip = tag(w) != TAGS["none"]
        f = st.content(me).f
        ex.oblige(st, BaseInit.valid(self, ctx), "accepted only if valid", ("C13", "C17"))
        ex.oblige(st, ex.truth(f["_strip_pack"], st) == strip, "strip packing exactly when a width is given", ("C17",))
        ex.oblige(st, int_or_none(f["_container_min_height"], TRUE, iv(0)), "no minimum height", ("C17",))
        ex.oblige(st, int_or_none(f["_container_height"], Not(strip), 10 * ival(w)),
                  "the strip's height is 10 times its width", ("C17",))
        self.struct(ex, st, me, f["_items"], i, "Items", TRUE)
        s2 = st.copy()
        s2.assume(Not(strip))
        if not ex.infeasible(s2, TRUE):
            self.struct(ex, s2, me, f["_containers"], c, "Containers", Not(strip))
        s3 = st.copy()
        s3.assume(strip)
        if ex.infeasible(s3, TRUE):
            return
        cont = self.pick(ex, s3, f["_containers"])
        data = self.pick(ex, s3, s3.content(cont).f["data"])
        m = as_map_of(s3, data)
        key = lit(base().STRIP_PACK_CONT_ID)
        ex.oblige(s3, And(m.n == 1, m.dom(key)), "the strip is the only container", ("C17", "C13"))
        ex.oblige(s3, b(dim_value(s3, data, key, "W") == ival(w)), "the strip has the given width", ("C17", "C13"))
        ex.oblige(s3, b(dim_value(s3, data, key, "L") >= 1), "the strip's length is positive", ("C13",))
        entry_wired(ex, s3, cont, key, "Containers", me)

    def pick(self, ex, st, v):
        v = force(v)
        if isinstance(v, VUnion):
            ok = [(c, x) for c, x in v.alts if not ex.infeasible(st, c)]
            if len(ok) != 1:
                raise Unsupported("containers")
            v = ok[0][1]
        return v

    def struct(self, ex, st, me, ref, d, cname, cond):
        ref = self.pick(ex, st, ref)
        data = self.pick(ex, st, st.content(ref).f["data"])
        m = as_map_of(st, data)
        k = z3.FreshConst(I, "i")
        ex.oblige(st, And(m.n == dlen(d), Implies(And(k >= 0, k < m.n), m.at(k) == dkey(d, k))),
                  f"{cname}: the given ids in the given order", ("C13",))
        s2 = st.copy()
        s2.assume(And(k >= 0, k < m.n))
        for x in KEYS[cname]:
            ex.oblige(s2, b(dim_value(st, data, m.at(k), x) == ival(dget(dget(d, dkey(d, k)), lit(x)))),
                      f"{cname}: the given {x} is stored", ("C13",))
        entry_wired(ex, s2, ref, m.at(k), cname, me)

    def check_raise(self, ex, ctx, o):
        ex.oblige(o.st, Not(BaseInit.valid(self, ctx)), "rejected only if invalid", ("C13", "C17"))
        ex.oblige(o.st, b(o.val.cls.__name__ in ("DimensionsError", "ContainersError", "ItemsError")),
                  "proper error", ("C13", "C17"))


def mk_cls():
    from hyperpack.heuristics import HyperPack
    return HyperPack


# ------------------------------------------------------------------ strategy


class SetStrategy(Contract):
    qual = "PointGenerationSolver.potential_points_strategy (setter)"
    base_props = ("C16",)

    def function(self):
        from hyperpack.heuristics import PointGenerationSolver
        return PointGenerationSolver.potential_points_strategy.fset

    def setup(self, ex, st):
        x = z3.Const("value", Val)
        me = mk_owner(st, None, _potential_points_strategy=VExt("old strategy"))
        return [me, VAny(x)], (me, x, st.copy())

    def valid(self, x):
        return And(tag(x) == TAGS["tuple"], ForAll([I], lambda i: Implies(And(i >= 0, i < dlen(x)), Or(
            *[dkey(x, i) == lit(n) for n in NAMES]))), ForAll([I, I], lambda i, j: Implies(
                And(i >= 0, i < j, j < dlen(x)), dkey(x, i) != dkey(x, j))))

    def check(self, ex, st, ctx, v):
        me, x, st0 = ctx
        ex.oblige(st, self.valid(x), "accepted only if a tuple of distinct known names", ("C16",))
        s = force(st.content(me).f["_potential_points_strategy"])
        ex.oblige(st, b(isinstance(s, VAny)) if not isinstance(s, VAny) else s.t == x, "the strategy is set", ("C16",))
        ex.frame(st0, st, [(("owner",), "_potential_points_strategy")], "changes nothing else", ("C16",))

    def check_raise(self, ex, ctx, o):
        me, x, st0 = ctx
        ex.oblige(o.st, Not(self.valid(x)), "rejected only if invalid", ("C16",))
        ex.oblige(o.st, b(o.val.cls.__name__ == "PotentialPointsError"), "PotentialPointsError is raised", ("C16",))
        ex.frame(st0, o.st, [], "the previous strategy stays", ("C16",))


# ------------------------------------------------------------------ settings

REGEX = "match:[a-zA-Z0-9_-]{1,45}$:32"


LEAST = {"plotly": (5, 14, 0), "kaleido": (0, 2, 1)}  # as documented
FLAGS = ("_plotly_installed", "_plotly_ver_ok", "_kaleido_installed", "_kaleido_ver_ok")


def number(t, i):
    """the number at the start of the i-th part of a version"""
    g = z3.Function(r"re.group:\d*", Val, Val)(z3.Function("split.at:.", Val, I, Val)(t, iv(i)))
    return If(truthyV(g), z3.Function("int!of", Val, I)(g), iv(0))


def at_least(t, least):
    out = TRUE
    for i, k in reversed(list(enumerate(least))):
        out = Or(number(t, i) > k, And(number(t, i) == k, out))
    return out


class Versions(Contract):
    """what is installed is arbitrary; a version counts only from the documented
    one on, and all later ones of the same major (plotly) or minor (kaleido)
    line count"""

    qual = "SolutionFigureMixin._check_plotly_kaleido_versions"
    base_props = ("C15", "C21")

    def apply(self, ex, st, a):
        me = force(a["self"])
        for n in FLAGS:
            ex.put(st, me, st.content(me).set(n, VBool(z3.Bool(n))))
        return VNone

    def function(self):
        from hyperpack.mixins import SolutionFigureMixin
        return SolutionFigureMixin._check_plotly_kaleido_versions

    def setup(self, ex, st):
        import hyperpack.heuristics as h
        me = heap0(st, ("owner",), Inst(h.HyperPack, {"_settings": VExt("old"), **{n: VExt("old") for n in FLAGS}}))
        for n in LEAST:
            t = z3.Const(n + " version", Val)
            st.assume(tag(t) == TAGS["str"])

            def load(s, n=n):
                ex.guard(s, z3.Bool(f"_{n}_installed"), ImportError, n)
                return VPoison("dead") if s.dead else VExt(n)
            ex.modules[n] = load
            ex.ext_models[n] = lambda e, v, a, s, t=t: VStr(t) if a == "__version__" else None
        ex.assumptions.add("importing plotly or kaleido succeeds or raises ImportError, and each has a text __version__")
        return [me], (me, st.copy())

    def check(self, ex, st, ctx, v):
        me, st0 = ctx
        f = st.content(me).f
        for n, least in LEAST.items():
            there, t = z3.Bool(f"_{n}_installed"), z3.Const(n + " version", Val)
            full = z3.Function("split.n:.", Val, I)(t) >= 3
            ok = ex.truth(f[f"_{n}_ver_ok"], st)
            ex.oblige(st, ex.truth(f[f"_{n}_installed"], st) == there, f"{n} is found exactly when installed", ("C15", "C21"))
            ex.oblige(st, Implies(And(ok, full), And(there, at_least(t, least))), f"{n} is recent enough", ("C15", "C21"))
            line = And(*[number(t, i) == k for i, k in enumerate(least[:1 if n == "plotly" else 2])])
            ex.oblige(st, Implies(And(there, full, at_least(t, least), line), ok), f"a recent {n} counts", ("C15", "C21"))
        ex.frame(st0, st, [(("owner",), n) for n in FLAGS], "changes nothing else", ("C15", "C21"))

    def check_raise(self, ex, ctx, o):
        ex.oblige(o.st, FALSE, "never raises", ("C15", "C21"))


def given(d, k):
    """key present with a value that is not None"""
    return And(dhas(d, lit(k)), tag(dget(d, lit(k))) != TAGS["none"])


def isbool(v):
    return tag(v) == TAGS["bool"]


def valid_export(e):
    v = lambda k: dget(e, lit(k))  # noqa
    path = lambda n: z3.Function("path." + n, Val, B)(v("path"))  # noqa
    image = v("type") == lit("image")
    formats = [v("format") == lit(x) for x in ("pdf", "png", "jpeg", "webp", "svg")]
    return And(
        tag(e) == TAGS["dict"], dhas(e, lit("type")), Or(v("type") == lit("html"), image),
        dhas(e, lit("path")), tag(v("path")) == TAGS["str"], path("exists"), path("is_dir"),
        Implies(image, And(dhas(e, lit("format")), Or(*formats))),
        Implies(given(e, "file_name"), And(tag(v("file_name")) == TAGS["str"],
                                           z3.Function("re." + REGEX, Val, B)(v("file_name")))),
        Implies(image, And(z3.Bool("_kaleido_installed"), z3.Bool("_kaleido_ver_ok"),
                           Implies(given(e, "width"), posint(v("width"))),
                           Implies(given(e, "height"), posint(v("height"))))))


def valid_figure(f):
    return And(tag(f) == TAGS["dict"], Implies(dlen(f) > 0, And(
        z3.Bool("_plotly_installed"), z3.Bool("_plotly_ver_ok"),
        Implies(dhas(f, lit("export")), valid_export(dget(f, lit("export")))),
        Implies(dhas(f, lit("show")), isbool(dget(f, lit("show")))))))


def valid_settings(s, figure=True, search=True):
    v = lambda k: dget(s, lit(k))  # noqa
    out = [tag(s) == TAGS["dict"], Implies(given(s, "rotation"), isbool(v("rotation")))]
    if search:
        out += [Implies(dhas(s, lit("max_time_in_seconds")), posint(v("max_time_in_seconds"))),
                Implies(given(s, "workers_num"), posint(v("workers_num")))]
    if figure:
        out.append(Implies(dhas(s, lit("figure")), valid_figure(v("figure"))))
    return And(*out)


class SetSettings(Contract):
    qual = "PointGenerationSolver.settings (setter)"
    base_props = ("C15",)
    uses = (Versions,)
    clsname, figure, search = "HyperPack", True, True

    def cls(self):
        import hyperpack.heuristics as h
        return getattr(h, self.clsname)

    def function(self):
        return self.cls().settings.fset

    def setup(self, ex, st):
        s = z3.Const("settings", Val)
        me = heap0(st, ("owner",), Inst(self.cls(), {
            "_settings": VExt("old"), "_rotation": VExt("old"), "_max_time_in_seconds": VExt("old"),
            "_workers_num": VExt("old")}))
        if self.figure:
            ex.assumptions.add("the settings, its figure and its export dictionary are three objects")
            for k in ("figure",):
                st.assume(dget(s, lit(k)) != s)
                st.assume(dget(dget(s, lit(k)), lit("export")) != s)
                st.assume(dget(dget(s, lit(k)), lit("export")) != dget(s, lit(k)))
        return [me, VAny(s)], (me, s, st.copy())

    def valid(self, s):
        return valid_settings(s, self.figure, self.search)

    def check(self, ex, st, ctx, v):
        me, s, st0 = ctx
        ex.oblige(st, self.valid(s), "accepted only if valid", ("C15",))
        f = st.content(me).f
        ex.oblige(st, ex.eq(f["_settings"], VAny(s), st), "the settings are stored", ("C15",))
        ex.oblige(st, self.holds(ex, st, f["_rotation"], lambda x: ex.truth(x, st) == If(
            given(s, "rotation"), ival(dget(s, lit("rotation"))) != 0, TRUE)), "rotation takes effect", ("C15",))
        if self.search:
            for a, k, d in (("_max_time_in_seconds", "max_time_in_seconds", 60), ("_workers_num", "workers_num", 1)):
                ex.oblige(st, int_or_none(f[a], FALSE, If(given(s, k), ival(dget(s, lit(k))), iv(d))),
                          f"{k} takes effect", ("C15",))
        allowed = [(("owner",), x) for x in ("_settings", "_rotation", "_plotly_installed", "_plotly_ver_ok",
                                             "_kaleido_installed", "_kaleido_ver_ok")]
        if self.search:
            allowed += [(("owner",), "_max_time_in_seconds"), (("owner",), "_workers_num")]
        ex.frame(st0, st, allowed, "changes nothing else", ("C15",))
        # the only change of the user's dictionaries is the default file name
        exp = dget(dget(s, lit("figure")), lit("export"))
        for c, d, k, x in user_writes(st):
            ex.oblige(st, Implies(c, And(d == exp, k == lit("file_name"), x == lit("PlotlyGraph"),
                                         Not(given(exp, "file_name")))), "only a missing file name is filled in",
                      ("C15",))
        if self.figure:
            e = And(dhas(s, lit("figure")), dlen(dget(s, lit("figure"))) > 0,
                    dhas(dget(s, lit("figure")), lit("export")))
            fn = uget(st, exp, lit("file_name"))
            ex.oblige(st, Implies(e, And(uhas(st, exp, lit("file_name")), fn == If(
                given(exp, "file_name"), dget(exp, lit("file_name")), lit("PlotlyGraph")))),
                "the export has a file name", ("C15",))

    def holds(self, ex, st, v, p):
        v = force(v)
        return And(*[Implies(c, FALSE if isinstance(x, (VExt, VPoison)) else p(x)) for c, x in (
            v.alts if isinstance(v, VUnion) else [(TRUE, v)])])

    def check_raise(self, ex, ctx, o):
        me, s, st0 = ctx
        ex.oblige(o.st, Not(self.valid(s)), "rejected only if invalid", ("C15",))
        ex.oblige(o.st, b(o.val.cls.__name__ == "SettingsError"), "SettingsError is raised", ("C15",))


class SetSettingsPGP(SetSettings):
    qual = "PointGenerationSolver.settings (setter, PointGenPack)"
    clsname, search = "PointGenPack", False


class SetSettingsPGS(SetSettings):
    qual = "PointGenerationSolver.settings (setter, PointGenerationSolver)"
    clsname, search, figure = "PointGenerationSolver", False, False


# ------------------------------------------------------------- the whole thing


class NewPack(BaseInit):
    """construction of an instance: the problem, its settings, the defaults"""

    qual = "HyperPack.__init__"
    base_props = ("C13", "C14", "C15", "C16", "C17")
    uses = (StructInit, Versions)
    clsname, figure, search = "HyperPack", True, True
    holds = SetSettings.holds

    def cls(self):
        import hyperpack.heuristics as h
        return getattr(h, self.clsname)

    def function(self):
        return self.cls().__init__

    def setup(self, ex, st):
        c, i, w, s = z3.Consts("containers items strip_width settings", Val)
        me = heap0(st, ("owner",), Inst(self.cls(), {}))
        if self.figure:
            fig = dget(s, lit("figure"))
            exp = dget(fig, lit("export"))
            st.assume(And(fig != s, exp != s, exp != fig))
            ex.assumptions.add("the settings, its figure and its export dictionary are three objects")
        return self.given(st, me, c, i, s, w), (me, c, i, w, st.copy(), s)

    def given(self, st, me, c, i, s, w):
        return [me, VAny(c), VAny(i), VAny(s)]

    def ok_settings(self, s):
        return Or(Not(truthyV(s)), valid_settings(s, self.figure, self.search))

    def valid(self, ctx):
        return And(BaseInit.valid(self, ctx[:5]), self.ok_settings(ctx[5]))

    def check(self, ex, st, ctx, v):
        me, c, i, w, st0, s = ctx
        f = st.content(me).f
        ex.oblige(st, self.ok_settings(s), "the settings are accepted only if valid", ("C15",))
        BaseInit.check(self, ex, st, ctx[:5], v)
        self.effects(ex, st, f, s)
        strip = tag(w) != TAGS["none"]
        ex.oblige(st, ex.eq(f["_containers_num"], VInt(If(strip, iv(1), dlen(c))), st),
                  "the number of containers is up to date", ("C14", "C01"))
        ex.oblige(st, self.no_solution(ex, st, f), "there is no solution", ("C14",))
        self.strategy(ex, st, f)
        for q, d, k, x in user_writes(st):
            ex.oblige(st, Implies(q, And(d == dget(dget(s, lit("figure")), lit("export")), k == lit("file_name"),
                                         x == lit("PlotlyGraph"))), "only a missing file name is filled in",
                      ("C13", "C15"))
        ex.frame(st0, st, [("owner",)], "changes nothing else", ("C13", "C15"))

    def effects(self, ex, st, f, s):
        on = lambda k: And(truthyV(s), given(s, k))  # noqa
        ex.oblige(st, self.holds(ex, st, f["_rotation"], lambda x: ex.truth(x, st) == If(
            on("rotation"), ival(dget(s, lit("rotation"))) != 0, TRUE)), "rotation takes effect", ("C15", "C07"))
        if self.search:
            for a, k, d in (("_max_time_in_seconds", "max_time_in_seconds", 60), ("_workers_num", "workers_num", 1)):
                ex.oblige(st, int_or_none(f[a], FALSE, If(on(k), ival(dget(s, lit(k))), iv(d))),
                          f"{k} takes effect", ("C15",) + (("C09",) if k.startswith("max") else ()))

    def no_solution(self, ex, st, f):
        v = force(f["solution"])
        return And(*[Implies(q, as_map_of(st, x).n == 0 if isinstance(x, VRef) else FALSE)
                     for q, x in (v.alts if isinstance(v, VUnion) else [(TRUE, v)])])

    def strategy(self, ex, st, f):
        s = force(f["_potential_points_strategy"])
        want = self.cls().DEFAULT_POTENTIAL_POINTS_STRATEGY
        ok = isinstance(s, VTuple) and len(s.items) == len(want) and len(set(want)) == len(want) and set(want) == set(NAMES)
        ex.oblige(st, b(ok) if not ok else And(*[ex.eq(x, S(n), st) for x, n in zip(s.items, want)]),
                  "the strategy is the default one, every known name once", ("C16",))

    def check_raise(self, ex, ctx, o):
        me, c, i, w, st0, s = ctx
        name = o.val.cls.__name__
        if name == "SettingsError":
            ex.oblige(o.st, Not(self.ok_settings(s)), "settings rejected only if invalid", ("C15",))
        else:
            BaseInit.check_raise(self, ex, ctx[:5], o)


class NewPackPGP(NewPack):
    qual = "PointGenPack.__init__"
    clsname, search = "PointGenPack", False


class NewPackPGS(NewPack):
    qual = "PointGenerationSolver.__init__"
    clsname, search, figure = "PointGenerationSolver", False, False


class NewPackDefaults(NewPack):
    """the same with nothing but containers and items given"""

    qual = "HyperPack.__init__ (defaults)"

    def call_kw(self, ctx):
        return {}

    def given(self, st, me, c, i, s, w):
        st.assume(And(tag(s) == TAGS["none"], tag(w) == TAGS["none"]))
        return [me, VAny(c), VAny(i)]


class NewPackStrip(NewPack):
    """the same with nothing but items and the width of a strip given"""

    qual = "HyperPack.__init__ (strip packing, defaults)"

    def call_kw(self, ctx):
        return {"items": VAny(ctx[2]), "strip_pack_width": VAny(ctx[3])}

    def given(self, st, me, c, i, s, w):
        st.assume(And(tag(s) == TAGS["none"], tag(c) == TAGS["none"]))
        return [me]


class DelSettings(Deleter):
    qual = "PointGenerationSolver.settings (deleter)"
    attr, error, props = "settings", "SettingsError", ("C15",)

    def function(self):
        return getattr(mk_cls(), self.attr).fdel

    def setup(self, ex, st):
        me = heap0(st, ("owner",), Inst(mk_cls(), {
            n: VExt(n) for n in ("_settings", "_rotation", "_max_time_in_seconds", "_workers_num", "_potential_points_strategy")}))
        return [me], (me, st.copy())


class DelStrategy(DelSettings):
    qual = "PointGenerationSolver.potential_points_strategy (deleter)"
    attr, error, props = "potential_points_strategy", "PotentialPointsError", ("C16",)


class Inherited(Contract):
    """PointGenPack runs the very functions the contracts of HyperPack are about"""

    qual = "PointGenPack (inherited methods)"
    base_props = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C13", "C14", "C16", "C17", "C20", "C21")
    lookup = True
    # (contracts of its own, or calls that only run at construction)
    own = ("_validate_settings",)

    def check(self, ex, st, c, v):
        import inspect
        from hyperpack import heuristics
        mine, theirs = heuristics.PointGenPack, heuristics.HyperPack
        for n in sorted(dir(mine)):
            if n in self.own or hasattr(object, n) and n != "__init__" or n in ("__module__", "__doc__", "__dict__", "__weakref__"):
                continue
            x, y = inspect.getattr_static(mine, n), inspect.getattr_static(theirs, n, None)
            if x is not y and n != "__init__":
                raise Unsupported(f"PointGenPack has its own {n}")
        ex.oblige(st, TRUE, "the methods and constants of PointGenPack are those of HyperPack", self.base_props)
