"""Shared vocabulary of the contracts: symbolic worlds and accessors."""
import z3

import exec as E
from core import *  # noqa
from vc import heap0, heapfam

NAMES = ["A", "B", "C", "D", "A_", "B_", "A__", "B__", "E", "F"]
NOPROPS = ()


class Contract(E.Contract):
    """One function under contract.

    setup(ex, st) -> (args, ctx)     symbolic pre-state with the precondition
    check(ex, st, ctx, v)            obligations about the normal return
    check_raise(ex, ctx, o)          obligations about an exceptional return
    apply(ex, st, a)                 modular use at call sites
    """

    qual = None
    uses = ()
    loops = ()
    base_props = ()
    timeout = 10000
    # footprint: the fields of the instance the result may depend on (None: not claimed)
    reads = None

    def call_kw(self, ctx):
        return {}

    def function(self):
        raise NotImplementedError

    def setup(self, ex, st):
        raise NotImplementedError

    def check(self, ex, st, ctx, v):
        raise NotImplementedError

    def check_raise(self, ex, ctx, o):
        ex.oblige(o.st, FALSE, f"no {o.val.cls.__name__}"
                  + (f" ({o.val.args[0].lit})" if o.val.args and isinstance(o.val.args[0], VStr) else ""),
                  self.base_props, "safety")


def need(ex, st, f, name, props=()):
    if not ex.oblige(st, f, f"precondition of {name}", props, "pre"):
        st.assume(f)  # reported once


def symint(st, name, lo=None):
    t = z3.Int(name)
    if lo is not None:
        st.assume(t >= lo)
    return t


# --------------------------------------------------------------- grid


def mk_grid(st, W, L, cell=None, key="grid"):
    cell = cell or z3.Function("cell", I, I, I)
    g = heap0(st, (key,), Seq("list", n=L, get=lambda i: VRef((key, "row"), (i,))))
    heapfam(st, (key, "row"), [I], lambda idx: Seq("array", n=W, get=lambda j: VInt(cell(idx[0], j))))
    return g, cell


def seq_of(st, ref, what="list"):
    if not isinstance(ref, VRef):
        raise Unsupported(f"{what} expected")
    c = st.content(ref)
    if not isinstance(c, Seq):
        raise Unsupported(f"{what} expected")
    return c


def cells(st, grid):
    g = seq_of(st, grid)

    def cell(y, x):
        r = g.get(y)
        v = force(seq_of(st, force(r)).get(x))
        if isinstance(v, VUnion) or not isinstance(v, VInt):
            raise Unsupported("cell of the grid")
        return v.t

    return cell


def grid_shape(st, grid, W, L):
    g = seq_of(st, grid)
    return And(g.n == L, ForAll([I], lambda y: Implies(And(y >= 0, y < L), seq_of(st, force(g.get(y))).n == W)))


def is_free(cell, W, L, X, Y, w, l):
    return And(X + w <= W, Y + l <= L, ForAll([I, I], lambda y, x: Implies(
        And(y >= Y, y < Y + l, x >= X, x < X + w), cell(y, x) == 0)))


# --------------------------------------------------------------- points


def point_in(p, W, L):
    p = force(p)
    if isinstance(p, VUnion):
        return And(*[Implies(c, point_in(x, W, L)) for c, x in p.alts])
    if isinstance(p, VPoison):
        return TRUE
    if not (isinstance(p, VTuple) and len(p.items) == 2):
        return FALSE
    x, y = [force(q) for q in p.items]
    out = []
    for v, hi in ((x, W), (y, L)):
        if isinstance(v, VUnion):
            out += [Implies(c, And(u.t >= 0, u.t < hi) if isinstance(u, VInt) else FALSE) for c, u in v.alts]
        elif isinstance(v, VInt):
            out += [v.t >= 0, v.t < hi]
        else:
            return FALSE
    return And(*out)


def deques(st, pp):
    c = st.content(pp)
    if not isinstance(c, Dict):
        raise Unsupported("potential points")
    return {k: v for k, (p, v) in c.e.items() if isinstance(force(v), VRef)}


def points_in(st, pp, W, L):
    out = []
    for k, r in deques(st, pp).items():
        d = seq_of(st, force(r))
        i = z3.FreshConst(I, "pi")
        f = point_in(d.get(i), W, L)
        out.append(d.n >= 0)
        out.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < d.n), b(f))))
    return And(*out)


def havoc_points(ex, st, pp):
    for k, r in deques(st, pp).items():
        r = force(r)
        px, py = ex.fresh_fn("px", I, I), ex.fresh_fn("py", I, I)
        n = ex.fresh("pn", I)
        old = seq_of(st, r)
        ex.put(st, r, Seq(old.kind, n=n, get=lambda i, px=px, py=py: VTuple((VInt(px(i)), VInt(py(i))))))


def mk_points(st, W, L, empty=False):
    px, py = z3.Function("px", I, I, I), z3.Function("py", I, I, I)
    pn = z3.Function("pn", I, I)
    ent = {"O": (TRUE, VTuple((VInt(0), VInt(0))))}
    for c, nm in enumerate(NAMES):
        if empty:
            q = Seq("deque", [])
        else:
            st.assume(pn(c) >= 0)
            q = Seq("deque", n=pn(c), get=lambda i, c=c: VTuple((VInt(px(c, i)), VInt(py(c, i)))))
        ent[nm] = (TRUE, heap0(st, ("dq", nm), q))
    pp = heap0(st, ("pp",), Dict(ent))
    st.assume(points_in(st, pp, W, L))
    return pp


# --------------------------------------------------------------- maps


def map_wf(m, keys_str=True):
    """at/pos are a bijection between [0, n) and the domain"""
    return And(
        m.n >= 0,
        ForAll([I], lambda i: Implies(And(i >= 0, i < m.n), And(m.dom(m.at(i)), m.pos(m.at(i)) == i))),
        ForAll([Val], lambda k: Implies(m.dom(k), And(m.pos(k) >= 0, m.pos(k) < m.n, m.at(m.pos(k)) == k))),
    )


def map_wf_parts(m):
    return [
        ("size", m.n >= 0),
        ("keys enumerated", ForAll([I], lambda i: Implies(
            And(i >= 0, i < m.n), And(m.dom(m.at(i)), m.pos(m.at(i)) == i)))),
        ("keys reachable", ForAll([Val], lambda k: Implies(
            m.dom(k), And(m.pos(k) >= 0, m.pos(k) < m.n, m.at(m.pos(k)) == k)))),
    ]


def mk_map(ex, name, val, strkeys=True, fresh=False):
    """an arbitrary well-formed dictionary"""
    if fresh:
        at, pos = ex.fresh_fn(name + ".at", I, Val), ex.fresh_fn(name + ".pos", Val, I)
        dom, n = ex.fresh_fn(name + ".dom", Val, B), ex.fresh(name + ".n", I)
    else:
        at, pos = z3.Function(name + ".at", I, Val), z3.Function(name + ".pos", Val, I)
        dom, n = z3.Function(name + ".dom", Val, B), z3.Int(name + ".n")
    return Map(n, at, dom, pos, val, None, strkeys)


def assume_map(ex, st, m):
    """well-formedness, with useful patterns (only for maps of named functions)"""
    st.assume(m.n >= 0)
    st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < m.n), And(m.dom(m.at(i)), m.pos(m.at(i)) == i)),
                     lambda i: [m.at(i)]))
    st.assume(ForAll([Val], lambda k: Implies(m.dom(k), And(m.pos(k) >= 0, m.pos(k) < m.n, m.at(m.pos(k)) == k)),
                     lambda k: [m.dom(k)]))
    # outside the range the position functions are arbitrary names
    ex.reg_inverse(m.at, m.pos, st)


def as_map_of(st, v):
    v = force(v)
    if not isinstance(v, VRef):
        raise Unsupported("dictionary expected")
    c = st.content(v)
    if isinstance(c, Dict):
        return dict_to_map(c)
    if not isinstance(c, Map):
        raise Unsupported("dictionary expected")
    return c


def field(st, ref, name):
    """(present, value) of a key of a small dictionary"""
    ref = force(ref)
    if isinstance(ref, VUnion):
        p, v = field(st, ref.alts[-1][1], name)
        for c, r in reversed(ref.alts[:-1]):
            q, u = field(st, r, name)
            p = b(If(c, q, p)) if not p.eq(q) else p
            v = merge(c, u, v)
        return p, v
    if not isinstance(ref, VRef):
        return FALSE, VPoison(name)
    c = st.content(ref)
    if not isinstance(c, Dict):
        raise Unsupported("small dictionary expected")
    return c.e.get(name, (FALSE, VPoison(name)))


def int_field(st, ref, name):
    p, v = field(st, ref, name)
    v = force(v)
    if isinstance(v, VInt):
        return v.t
    if isinstance(v, VAny):
        return ival(v.t)
    if isinstance(v, VUnion):
        good = [(c, x) for c, x in v.alts if isinstance(x, VInt)]
        if good:
            t = good[-1][1].t
            for c, x in reversed(good[:-1]):
                t = If(c, x.t, t)
            return t
    if isinstance(v, VPoison):
        return None
    raise Unsupported(f"integer expected in {name}: {v!r}")


def bool_of(v):
    v = force(v)
    if isinstance(v, VBool):
        return v.t
    if isinstance(v, VInt):
        return v.t != 0
    if isinstance(v, VUnion):
        return Or(*[And(c, bool_of(x)) for c, x in v.alts if not isinstance(x, VPoison)])
    if v is VNone:
        return FALSE
    if isinstance(v, VPoison):
        return FALSE
    raise Unsupported("truth value expected")


def real_of(v):
    v = force(v)
    if isinstance(v, VUnion):
        t = None
        for c, x in v.alts:
            if isinstance(x, VPoison):
                continue
            r = to_real(x)
            t = r if t is None else If(c, r, t)
        if t is None:
            raise Unsupported("number expected")
        return t
    return to_real(v)


def same_ref(x, y):
    x, y = force(x), force(y)
    if isinstance(x, VUnion):
        return And(*[Implies(c, same_ref(v, y)) for c, v in x.alts if not isinstance(v, VPoison)])
    if not isinstance(x, VRef) or not isinstance(y, VRef) or x.fam != y.fam:
        return FALSE
    return And(*[p == q for p, q in zip(x.idx, y.idx)])


def hint(st, t):
    """ghost: names a term for the instantiation of quantified facts"""
    st.assume(z3.Function("ghost!" + t.sort().name(), t.sort(), B)(t))


def int_term(ex, st, v, name, props):
    """the integer v; an obligation that it is one"""
    v = force(v)
    alts = v.alts if isinstance(v, VUnion) else [(TRUE, v)]
    good = [(c, x) for c, x in alts if isinstance(x, VInt)]
    bad = [c for c, x in alts if not isinstance(x, VInt)]
    if bad:
        ex.oblige(st, Not(Or(*bad)), name, props)
    if not good:
        return None
    t = good[-1][1].t
    for c, x in reversed(good[:-1]):
        t = If(c, x.t, t)
    return t


def alts_of(v):
    v = force(v)
    return [(c, x) for c, x in v.alts if not isinstance(x, VPoison) and not is_false(c)] \
        if isinstance(v, VUnion) else ([] if isinstance(v, VPoison) else [(TRUE, v)])


def pick(alts, f, default):
    """the value of f at the alternative that holds"""
    if not alts:
        return default
    t = f(alts[-1][1])
    for c, x in reversed(alts[:-1]):
        t = If(c, f(x), t)
    return t
