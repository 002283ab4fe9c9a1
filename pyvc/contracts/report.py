"""What is said about a solution: the log (C20) and the figures (C21)."""
import ast

import z3

from core import *  # noqa
from contracts.common import *  # noqa
from contracts.common import Contract
from contracts.local import GHOST, ghost, ghost_set
from contracts.pack import Ctx, key_at
from contracts.search import STRIP, GetHeight, hp, is_stack_height, mk_world
from contracts.problem import given, valid_settings
from contracts.solve import View
from inv import LoopSpec
from vc import heap0


def values_in(texts):
    """the values formatted in pieces of text, in order: (value, format)"""
    out = []
    for x in texts:
        x = force(x)
        if not isinstance(x, VStr):
            raise Unsupported("a piece of the log that is not text")
        if x.lit is not None:
            continue
        out += [p for p in x.parts if not isinstance(p, str)] if x.parts is not None else [(x, "")]
    return out


def text_lists(st):
    """variables that hold a list of text"""
    for x, v in st.env.items():
        v = force(v)
        if isinstance(v, VRef) and v.fam in st.heap:
            c = st.content(v)
            if isinstance(c, Seq) and c.kind == "list" and c.items is not None and c.items \
                    and all(isinstance(force(y), VStr) for y in c.items):
                yield x, v, c


class LogLoop(LoopSpec):
    """each container adds its own entries to the log"""

    name = "loop over the containers"
    auto = True

    def on_exit(self, ex, c, st, k):
        ex.oblige(st, k == c.w.cm.n, "every container has its entries", ("C20",))
        ghost_set(st, done=VBool(TRUE))

    def applies(self, ex, node, st, n, elem):
        c = getattr(ex, "log", None)
        if c is None or c.node is not None or n is None or conc(n) is not None or not isinstance(node, ast.For):
            return None
        used = {x.id for s in node.body for x in ast.walk(s) if isinstance(x, ast.Name)}
        lists = [x for x in text_lists(st) if x[0] in used]
        if len({v.fam for _, v, _ in lists}) != 1 or not simp(n).eq(simp(c.w.cm.n)):
            return None
        c.node, c.ref, c.head = node, lists[0][1], lists[0][2]
        return c

    def havoc(self, ex, c, st):
        f = ex.fresh_fn("entry", I, Val)
        c.root = Seq("list", n=ex.fresh("entries", I), get=lambda i: VStr(f(i)))
        ex.put(st, c.ref, c.root)

    def inv(self, ex, c, st, k):
        return []

    def mark(self, ex, c):
        return None

    def after_body(self, ex, c, head, st, k):
        log = st.content(c.ref)
        added = added_to(ex, st, log, c.root)
        c.rounds = True
        container_entries(ex, st, c, VStr(c.w.cm.at(k - 1)), values_in(added))


class Unsettled(Unsupported):
    pass


def added_to(ex, st, log, root):
    """what was appended since"""
    if log is root:
        return []
    if not isinstance(log, Seq) or log.root() is not root:
        raise Unsupported("the log is not only extended")
    out = []
    for e in log.entries():
        if e[0] != "app":
            raise Unsupported("the log is not only extended")
        if ex.proves(st, e[1]):
            out.append(e[2])
        elif not ex.proves(st, Not(e[1])):
            raise Unsettled("entries that depend on a condition")
    return out


def percent_format(f):
    return len(f) >= 3 and f[0] == "." and f[-1] == "f" and f[1:-1].isdigit() and int(f[1:-1]) >= 3


def numbers(v):
    return [(q, x) for q, x in alts_of(v)]


def is_num(ex, st, v, fmt, t, name, props, real=False):
    """the formatted value v is the number t"""
    alts = numbers(v)
    ok = all(isinstance(x, (VInt, VReal) if real else (VInt,)) for _, x in alts)
    ok = ok and (percent_format(fmt) if real else fmt in ("", "d"))
    ex.oblige(st, b(ok), name + " (form)", props)
    if ok:
        for q, x in alts:
            ex.oblige(st, Implies(q, to_real(x) == t) if real else Implies(q, x.t == t), name, props)


def container_entries(ex, st, c, cid, vals):
    P, w = ("C20",), c.w
    v = View(st, w.solution, w.obj)
    k = cid.t
    W = w.W if c.strip else w.cW(k)
    H = ex.fresh("H", I)
    if c.strip:
        st.assume(is_stack_height(w, H))
        hint(st, w.sol.dom(lit(STRIP), w.sol.at(lit(STRIP), iv(0))))
        L = If(Or(w.nomin, w.min <= H), H, w.min)
    else:
        L = w.cL(k)
    ex.oblige(st, b(len(vals) == 4), "an entry of a container: id, dimensions, utilization" + (", height" if c.strip else ""), P)
    if len(vals) != 4:
        return
    if not c.strip:
        (x, f0), vals = vals[0], vals[1:]
        x = force(x)
        ex.oblige(st, And(b(isinstance(x, VStr) and f0 in ("", "s")), x.t == k if isinstance(x, VStr) else FALSE),
                  "an entry of a container: its id", P)
    (y, f1), (z, f2), (u, f3) = vals[:3]
    is_num(ex, st, y, f1, W, "an entry of a container: its width", P)
    is_num(ex, st, z, f2, L, "an entry of a container: its height" if c.strip else "an entry of a container: its length", P)
    if not c.strip:
        x = ex.fresh("cont", Val)
        st.assume(x == k)
    area = v.area(ex, k if c.strip else x)
    A = z3.ToReal(W) * z3.ToReal(L)
    alts = numbers(u)
    ok = all(isinstance(q, (VInt, VReal)) for _, q in alts) and percent_format(f3)
    ex.oblige(st, b(ok), "an entry of a container: a percentage", P)
    if ok:
        for q, r in alts:
            ex.oblige(st, Implies(And(q, L >= 1), to_real(r) * A == 100 * area), "an entry of a container: covered area", P)
            ex.oblige(st, Implies(And(q, L < 1), to_real(r) == 0), "an entry of a container: nothing covered without height", P)
    if c.strip:
        is_num(ex, st, vals[3][0], vals[3][1], H, "an entry of the strip: height of the stack", P)


def coherent(ex, st, w):
    """the values belong to the solution (C04)"""
    v = View(st, w.solution, w.obj)
    if w.strip:
        s, H = lit(STRIP), z3.Int("stack")
        st.assume(is_stack_height(w, H))
        st.assume(w.u(s) * (z3.ToReal(w.W) * z3.ToReal(H)) == v.area(ex, s))
        st.assume(Implies(w.sol.n(s) == 0, w.u(s) == 0))
    else:
        st.assume(ForAll([Val], lambda k: Implies(w.cm.dom(k), w.u(k) * (z3.ToReal(w.cW(k)) * z3.ToReal(w.cL(k))) == v.area(ex, k)),
                         lambda k: [w.u(k)]))


class LogSolution(Contract):
    qual = "HyperPack.log_solution"
    base_props = ("C20",)
    uses = (GetHeight,)
    loops = (LogLoop,)
    strip = False
    solved = True

    def function(self):
        return hp().log_solution

    def setup(self, ex, st):
        c = Ctx()
        c.w = mk_world(ex, st, self.strip, self.solved)
        c.node, c.strip, c.rounds = None, self.strip, False
        ex.log = c
        heap0(st, GHOST, Dict({"done": (TRUE, VBool(FALSE))}))
        if self.solved:
            coherent(ex, st, c.w)
        c.st0 = st.copy()
        return [c.w.me], c

    def check(self, ex, st, c, v):
        P, w = self.base_props, c.w
        ex.frame(c.st0, st, [GHOST], "changes nothing", P + ("C06",))
        v = force(v)
        if not self.solved:
            ex.oblige(st, b(v is VNone), "without a solution nothing is returned", P)
            return
        ex.oblige(st, b(isinstance(v, VStr)), "a text is returned", P)
        if not isinstance(v, VStr):
            return
        if v.parts is not None:
            vals = values_in([v])
            n = 4 if self.strip else 0
            ex.oblige(st, b(not self.strip or any(STRIP in p for p in v.parts if isinstance(p, str))), "the id of the container", P)
            ex.oblige(st, b(len(vals) == n + 2), "the log: one entry for the items, one per container, one for the remaining items", P)
            if len(vals) != n + 2:
                return
            container_entries(ex, st.copy(), c, S(STRIP), vals[1:1 + n])
            rest = [vals[0], vals[-1]]
        else:
            js = [(t, s, q) for t, s, q in ex.joins if t.t.eq(v.t)]
            ok = len(js) == 1 and c.node is not None and c.rounds
            if not ok or not isinstance(js[0][2], Seq) or js[0][2].root() is not c.root:
                raise Unsupported("the text of the log")
            ex.oblige(st, ghost(st)["done"], "the log has entries for every container", P)
            rest = values_in(list(c.head.items) + added_to(ex, st, js[0][2], c.root))
            ex.oblige(st, b(len(rest) == 2), "the log: one entry for the items, one for the remaining items", P)
            if len(rest) != 2:
                return
        (p, f), (r, f2) = rest
        i = z3.FreshConst(I, "i")
        nm, fn, at = ex.sum_fn(w.sol.n(w.cm.at(i)), i, False)
        total = w.sol.n(lit(STRIP)) if self.strip else at(w.cm.n)
        alts = numbers(p)
        ok = all(isinstance(q, (VInt, VReal)) for _, q in alts) and percent_format(f)
        ex.oblige(st, b(ok), "percentage of items placed (form)", P)
        if ok:
            for q, x in alts:
                ex.oblige(st, Implies(q, to_real(x) * z3.ToReal(w.im.n) == 100 * z3.ToReal(total)), "percentage of items placed", P)
        r = force(r)
        ex.oblige(st, b(isinstance(r, VRef) and not f2), "the remaining items are listed", P)
        if not isinstance(r, VRef):
            return
        s = seq_of(st, r)
        k, j = z3.FreshConst(Val, "k"), z3.FreshConst(I, "j")
        cm = w.cm
        placed = (lambda x: w.sol.dom(lit(STRIP), x)) if self.strip else (
            lambda x: Exists([Val], lambda q: And(cm.dom(q), w.sol.dom(q, x))))
        ex.oblige(st, Implies(And(j >= 0, j < s.n), And(w.im.dom(key_at(s, j)), Not(placed(key_at(s, j))))),
                  "only items that are not placed are listed as remaining", P)
        ex.oblige(st, Implies(And(w.im.dom(k), Not(placed(k))), Exists([I], lambda j: And(j >= 0, j < s.n, key_at(s, j) == k))),
                  "all items that are not placed are listed as remaining", P)


class LogSolutionStrip(LogSolution):
    proof_name = "HyperPack.log_solution (strip packing)"
    strip = True


class LogUnsolved(LogSolution):
    proof_name = "HyperPack.log_solution (no solution)"
    solved = False


# ----------------------------------------------------------------- figures


def figures(st):
    """the figures that exist: (reference, what was done to it)"""
    import stubs.plotly
    for fam, t in list(st.heap.items()):
        if t.arity == 0:
            x = t.get(())
            if isinstance(x, Inst) and x.cls is stubs.plotly.Figure:
                yield VRef(fam, ()), force(x.f["calls"])


class ItemsOfFigure(LoopSpec):
    """each item of the container becomes one rectangle"""

    name = "loop over the items of a container"
    auto = True

    def applies(self, ex, node, st, n, elem):
        c = getattr(ex, "figure", None)
        if c is None or n is None or not isinstance(node, ast.For) or c.node is node or c.inner is not None:
            return None
        figs = list(figures(st))
        if len(figs) != 1 or not any(isinstance(x, VRef) and x.same(figs[0][0]) for x in map(force, st.env.values())):
            return None
        if conc(n) is not None:
            return None
        c.inner = c2 = Ctx()
        c2.node, c2.out, c2.ref, c2.n = node, c, figs[0][1], c.w.sol.n(c.cid(st))
        c2.cid, c2.pre = c.cid(st), st.content(figs[0][1])
        return c2

    def mark(self, ex, c):
        return None

    def havoc(self, ex, c, st):
        n, f = ex.fresh("calls", I), ex.fresh_fn("call", I, Val)
        c.root = Seq("list", n=n, get=lambda i: VAny(f(i)))
        ex.put(st, c.ref, c.root)

    def inv(self, ex, c, st, k):
        return []

    def after_body(self, ex, c, head, st, k):
        P, w = ("C21",), c.out.w
        shapes = calls_of(ex, st, c.ref, c.root)
        traces = [s for s in shapes if s[0] == "trace"]
        shapes = [s for s in shapes if s[0] != "trace"]
        ex.oblige(st, b([s[0] for s in shapes] == ["shape"]), "one rectangle for each item", P)
        if [s[0] for s in shapes] != ["shape"]:
            return
        item = w.sol.at(c.cid, k - 1)
        X, Y, pw, pl = [f(c.cid, item) for f in w.sol.fx]
        rectangle(ex, st, shapes[0], (X, Y, X + pw, Y + pl), item, "an item's rectangle", P)
        for _, x, y in traces:
            corners(ex, st, x, X, X + pw, "an item's corners: across", P)
            corners(ex, st, y, Y, Y + pl, "an item's corners: along", P)

    def on_exit(self, ex, c, st, k):
        ex.oblige(st, k == c.n, "every item of the container is shown", ("C21",))
        ghost_set(st, items=VBool(TRUE))


OPERATIONS = ("layout", "shape", "show", "html", "image", "trace", "xrange", "yrange")


def corners(ex, st, v, lo, hi, name, props):
    """the coordinates of a trace: from one side of the item to the other"""
    v = the_one(ex, st, v)
    c = st.content(v) if isinstance(v, VRef) else v
    if not isinstance(c, (Seq, VTuple)) or c.items is None:
        raise Unsupported("coordinates of a trace")
    xs = [to_int(the_one(ex, st, x)) for x in c.items]
    ex.oblige(st, And(*[And(x >= lo, x <= hi) for x in xs], Or(*[x == lo for x in xs]), Or(*[x == hi for x in xs])), name, props)


def number(ex, st, v):
    v = the_one(ex, st, v)
    if not isinstance(v, (VInt, VReal)):
        raise Unsupported("range of an axis")
    return to_real(v)


def axes_show(ex, st, calls, W, L, props):
    """what is outside of an axis' range is not drawn"""
    for op, size in (("xrange", W), ("yrange", L)):
        for x in [x for x in calls if x[0] == op][-1:]:
            ex.oblige(st, And(number(ex, st, x[1]) <= 0, number(ex, st, x[2]) >= z3.ToReal(size)),
                      f"the container is inside of the figure's {op}", props)


def the_one(ex, st, v):
    """the alternative that holds here"""
    v = force(v)
    if isinstance(v, VUnion):
        good = [x for q, x in v.alts if not ex.proves(st, Not(q))]
        return force(good[0]) if len(good) == 1 else v
    return v


def calls_of(ex, st, ref, root):
    """what was done to a figure since: tuples (operation, values)"""
    out = []
    for v in added_to(ex, st, st.content(ref), root):
        v = the_one(ex, st, v)
        if not isinstance(v, VTuple):
            raise Unsupported("an operation on a figure")
        name = the_one(ex, st, v.items[0])
        names = [name.lit] if name.lit is not None else [x for x in OPERATIONS if ex.proves(st, name.t == lit(x))]
        if len(names) != 1:
            raise Unsupported("an operation on a figure")
        if names[0] != "layout":
            out.append((names[0], *[the_one(ex, st, x) for x in v.items[1:]]))
    return out


def rectangle(ex, st, call, want, item, name, props):
    _, kind, x0, y0, x1, y1, label, rest = call
    kind, label, rest = force(kind), force(label), force(rest)
    if not (isinstance(rest, VInt) and conc(rest.t) == 0):
        raise Unsupported("a shape with further properties")
    ex.oblige(st, b(isinstance(kind, VStr) and kind.lit == "rect"), name + ": a rectangle", props)
    for what, v, t in zip(("left", "bottom", "right", "top"), (x0, y0, x1, y1), want):
        x = int_term(ex, st, v, name + ": an integer", props)
        if x is not None:
            ex.oblige(st, x == t, f"{name}: {what}", props)
    if item is None:
        ex.oblige(st, b(label is VNone), name + ": no label", props)
    else:
        ex.oblige(st, And(b(isinstance(label, VStr)), label.t == item if isinstance(label, VStr) else FALSE),
                  name + ": labelled with the id", props)


def container_figure(ex, st, c, cid):
    """the figure of container cid: its outline, its items, then shown and exported as asked"""
    P, w = ("C21",), c.w
    figs = list(figures(st))
    ex.oblige(st, b(len(figs) == 1), "one figure for each container", P)
    if len(figs) != 1:
        return
    if c.inner is None:
        raise Unsupported("the items of a figure")
    ref = figs[0][1]
    ex.oblige(st, ghost(st)["items"], "the items of the container are shown", P)
    if c.strip:
        H = ex.fresh("H", I)
        st.assume(is_stack_height(w, H))
        hint(st, w.sol.dom(lit(STRIP), w.sol.at(lit(STRIP), iv(0))))
        W, L = w.W, If(Or(w.nomin, w.min <= H), H, w.min)
    else:
        W, L = w.cW(cid), w.cL(cid)
    pre = [x for x in calls_list(c.inner.pre) if x[0] != "layout"]
    for what, cond, want in c.asked():
        s = st.copy()
        s.assume(cond)
        if ex.infeasible(s):
            continue
        try:
            post = calls_of(ex, s, ref, c.inner.root)
        except Unsettled:
            ex.oblige(s, FALSE, f"the figure has an outline and is finished before it is {what}", P)
            continue
        allc = [x for x in pre + post if x[0] not in ("xrange", "yrange", "trace")]
        names = [x[0] for x in allc]
        ok = sorted(names) == sorted(["shape"] + want) and names[0] == "shape"
        ex.oblige(s, b(ok), f"the figure has an outline and is finished before it is {what}", P)
        if not ok:
            continue
        axes_show(ex, s, pre + post, W, L, P)
        rectangle(ex, s, allc[0], (iv(0), iv(0), W, L), None, "the outline", P)
        for x in allc[1:]:
            if x[0] in ("html", "image"):
                exported(ex, s, c, cid, x, P)


def calls_list(content):
    if content.items is None:
        raise Unsupported("operations on a figure")
    out = []
    for v in content.items:
        v = force(v)
        out.append((force(v.items[0]).lit, *v.items[1:]))
    return out


def exported(ex, st, c, cid, call, props):
    """the file: <path>/<file name>__<id>.<format>"""
    p = force(call[1])
    e = c.export
    ok = isinstance(p, VExt) and p.kind == "path" and len(p.data) == 2
    ex.oblige(st, b(ok), "exported to a file", props)
    if not ok:
        return
    d, f = force(p.data[0]), force(p.data[1])
    ex.oblige(st, to_val(d) == dget(e, lit("path")), "exported into the folder asked for", props)
    vals = values_in([f])
    fixed = [x for x in f.parts if isinstance(x, str)] if isinstance(f, VStr) and f.parts else []
    own = [to_val(x) for x, _ in vals]
    want = [dget(e, lit("file_name"))] + ([] if c.strip else [cid]) + ([dget(e, lit("format"))] if call[0] == "image" else [])
    ex.oblige(st, b(len(own) == len(want)), "name of the file", props)
    if len(own) == len(want):
        ex.oblige(st, And(*[x == y for x, y in zip(own, want)]), "name of the file", props)
    tail = ("__" + STRIP if c.strip else "__", "." if call[0] == "image" else ".html")
    ex.oblige(st, b("".join(fixed) == "".join(tail)), "name of the file: fixed parts", props)


class FigureLoop(LoopSpec):
    name = "loop over the containers"
    auto = True

    def applies(self, ex, node, st, n, elem):
        c = getattr(ex, "figure", None)
        if c is None or c.node is not None or n is None or conc(n) is not None or not isinstance(node, ast.For) \
                or c.strip or not ex.proves(st, n == c.w.cm.n):
            return None
        c.node, c.k = node, None
        return c

    def mark(self, ex, c):
        c.inner = None

    def back(self, ex, c, m):
        c.inner = None

    def havoc(self, ex, c, st):
        ghost_set(st, items=VBool(ex.fresh("items", B)))

    def inv(self, ex, c, st, k):
        c.k = k if c.k is None or k is not None else c.k
        return []

    def enter_body(self, ex, c, st):
        ghost_set(st, items=VBool(FALSE))
        c.here = c.w.cm.at(ex.last_it)

    def after_body(self, ex, c, head, st, k):
        container_figure(ex, st, c, c.w.cm.at(k - 1))

    def on_exit(self, ex, c, st, k):
        ex.oblige(st, k == c.w.cm.n, "every container has its figure", ("C21",))
        ghost_set(st, done=VBool(TRUE))


class CreateFigure(Contract):
    qual = "HyperPack.create_figure"
    base_props = ("C21",)
    uses = (GetHeight,)
    loops = (FigureLoop, ItemsOfFigure)
    strip = False
    solved = True

    def function(self):
        return hp().create_figure

    def setup(self, ex, st):
        import stubs.plotly as p
        ex.modules = {"plotly": p, "plotly.io": p.io}
        ex.inline_modules = set(ex.inline_modules) | {p.__name__}
        c = Ctx()
        c.w = mk_world(ex, st, self.strip, self.solved)
        c.node, c.inner, c.strip = None, None, self.strip
        s = z3.Const("settings", Val)
        f = st.content(c.w.me)
        c.usable = {x: z3.Bool(x) for x in ("_plotly_installed", "_plotly_ver_ok")}
        f = f.set("_settings", VAny(s))
        for x, t in c.usable.items():
            f = f.set(x, VBool(t))
        ex.put(st, c.w.me, f)
        fig = dget(s, lit("figure"))
        c.export = dget(fig, lit("export"))
        st.assume(valid_settings(s))
        has = And(dhas(s, lit("figure")), dhas(fig, lit("export")))
        st.assume(Implies(has, And(dlen(fig) > 0, dlen(c.export) > 0, given(c.export, "file_name"))))
        c.show_arg = z3.Bool("show")
        show = Or(c.show_arg, And(dhas(s, lit("figure")), dhas(fig, lit("show")), ival(dget(fig, lit("show"))) != 0))
        html = dget(c.export, lit("type")) == lit("html")
        c.asked = lambda: [
            ("shown", And(show, Not(has)), ["show"]),
            ("exported as html", And(Not(show), has, html), ["html"]),
            ("exported as an image", And(Not(show), has, Not(html)), ["image"]),
            ("shown and exported as html", And(show, has, html), ["show", "html"]),
            ("shown and exported as an image", And(show, has, Not(html)), ["show", "image"])]
        c.any = Or(show, has)
        c.cid = lambda st: lit(STRIP) if self.strip else c.here
        ex.figure = c
        heap0(st, GHOST, Dict({"done": (TRUE, VBool(FALSE)), "items": (TRUE, VBool(FALSE))}))
        c.st0 = st.copy()
        return [c.w.me, VBool(c.show_arg)], c

    def check(self, ex, st, c, v):
        P = self.base_props
        ex.frame(c.st0, st, [GHOST], "changes nothing", P + ("C06",))
        ex.oblige(st, b(force(v) is VNone), "nothing is returned", P)
        if not self.solved:
            ex.oblige(st, b(not list(figures(st))), "no figure without a solution", P)
            return
        if self.strip:
            s = st.copy()
            s.assume(c.any)
            container_figure(ex, s, c, lit(STRIP))
        else:
            ex.oblige(st, Implies(c.any, ghost(st)["done"]), "the figures are made", P)
        quiet = st.copy()
        quiet.assume(Not(c.any))
        ex.oblige(quiet, Not(ghost(st)["items" if self.strip else "done"]), "no figure unless showing or exporting is asked for", P)

    def check_raise(self, ex, c, o):
        bad = Not(And(*c.usable.values()))
        from hyperpack.exceptions import SettingsError
        ex.oblige(o.st, And(bad, b(o.val.cls is SettingsError and self.solved)), "raises only without a usable plotly", self.base_props)


class CreateFigureStrip(CreateFigure):
    proof_name = "HyperPack.create_figure (strip packing)"
    strip = True


class CreateFigureUnsolved(CreateFigure):
    proof_name = "HyperPack.create_figure (no solution)"
    solved = False
