"""Generated problem data (C22)."""
import z3

from core import *  # noqa
from contracts.common import *  # noqa
from contracts.common import Contract
from contracts.pack import Ctx
from evalx import Optional

PARAMS = {"containers_num": 1, "containers_length": 50, "containers_width": 50, "items_num": 30, "items_length": 3, "items_width": 5}


class Generate(Contract):
    """for all positive whole parameters, each given or not"""

    qual = "generate_problem_data"
    base_props = ("C22",)

    def function(self):
        from hyperpack.utils import generate_problem_data
        return generate_problem_data

    def setup(self, ex, st):
        c = Ctx()
        c.p, c.kw = {}, {}
        import hyperpack.utils as u
        default = {"containers_num": u.DEFAULT_CONTAINERS_NUM, "containers_length": u.DEFAULT_MEAN_CONTAINER_LENGTH,
                   "containers_width": u.DEFAULT_MEAN_CONTAINER_WIDTH, "items_num": u.DEFAULT_ITEMS_NUM,
                   "items_length": u.DEFAULT_MEAN_ITEM_LENGTH, "items_width": u.DEFAULT_MEAN_ITEM_WIDTH}
        for n in PARAMS:
            given, x = z3.Bool(n + " given"), symint(st, n, 1)
            c.p[n] = If(given, x, iv(default[n]))
            c.kw[n] = Optional(given, VInt(x))
        return [], c

    def call_kw(self, c):
        return dict(c.kw)

    def check(self, ex, st, c, v):
        P = self.base_props
        v = force(v)
        d = st.content(v) if isinstance(v, VRef) else None
        ok = isinstance(d, Dict) and set(d.e) == {"containers", "items"} and all(is_true(q) for q, x in d.e.values())
        ex.oblige(st, b(ok), "containers and items are returned", P)
        if not ok:
            return
        p = c.p
        num = {"containers": p["containers_num"], "items": p["containers_num"] * p["items_num"]}
        for what, dims, share, least in (("containers", ("W", "L"), "0.1000000001", 0), ("items", ("w", "l"), "0.6000000001", 1)):
            r = force(d.e[what][1])
            m = as_map_of(st, r)
            x = ex.fresh("some " + what, Val)
            ex.oblige(st, m.n == num[what], f"as many {what} as asked for", P)
            for nm, f in map_wf_parts(m):
                ex.oblige(st, f, f"{what}: {nm}", P)
            ex.oblige(st, Implies(m.dom(x), tag(x) == TAGS["str"]), f"{what}: ids are strings", P)
            for k, mean in zip(dims, (p[what + "_width"], p[what + "_length"])):
                has, u = field(st, m.val(x), k)
                u = force(u)
                ex.oblige(st, Implies(m.dom(x), And(has, b(isinstance(u, VInt)))), f"{what}: {k} is a whole number", P)
                if not isinstance(u, VInt):
                    continue
                ex.oblige(st, Implies(m.dom(x), u.t >= 1), f"{what}: {k} is positive", P)
                dev = z3.ToReal(mean) * z3.RealVal(share) + z3.RealVal("0.5")
                dev = If(dev > least, dev, z3.RealVal(least))
                off = z3.ToReal(u.t - mean)
                ex.oblige(st, Implies(m.dom(x), And(off <= dev, -off <= dev)), f"{what}: {k} is close to the average", P)
            e = st.content(force(m.val(x)))
            ex.oblige(st, b(isinstance(e, Dict) and set(e.e) == set(dims)), f"{what}: no other keys", P)
