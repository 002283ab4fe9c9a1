"""Values, heap contents and states of the symbolic executor.

All symbolic terms are z3 terms.  Every Python value that is used as a
dictionary key or that is completely unknown is a term of the uninterpreted
sort Val; type tags, integer values and so on are uninterpreted functions of it.
"""
import itertools
from fractions import Fraction

import z3

Val = z3.DeclareSort("Val")
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()

TAGS = {n: i for i, n in enumerate(
    ["none", "bool", "int", "float", "str", "dict", "list", "tuple", "set", "other"])}

tag = z3.Function("tag", Val, I)
ival = z3.Function("ival", Val, I)      # of bool and int values
rval = z3.Function("rval", Val, R)
eqv = z3.Function("==?", Val, Val, B)    # == of values of which too little is known
mkint = z3.Function("mkint", I, Val)
mkbool = z3.Function("mkbool", B, Val)
mkreal = z3.Function("mkreal", R, Val)
NONEV = z3.Const("None!", Val)
truthyV = z3.Function("truthy", Val, B)
# arbitrary dictionaries / sequences coming from the user
dlen = z3.Function("dlen", Val, I)
dkey = z3.Function("dkey", Val, I, Val)       # i-th key / element
dpos = z3.Function("dpos", Val, Val, I)
dhas = z3.Function("dhas", Val, Val, B)
dget = z3.Function("dget", Val, Val, Val)
# a / b as an uninterpreted quotient with its defining fact, see Exec.div
DIV = z3.Function("DIV", R, R, R)
ROUND = z3.Function("ROUND", R, I)


class Unsupported(Exception):
    """the code uses something outside the subset the engine understands"""


class FirstDiffers(Unsupported):
    """a variable has a value of another kind before the first iteration of a loop"""


class PoisonRead(Exception):
    def __init__(self, name):
        self.name = name


# ------------------------------------------------------------------ z3 helpers

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def b(x):
    return x if isinstance(x, z3.BoolRef) or z3.is_expr(x) else z3.BoolVal(bool(x))


def is_true(t):
    return t is True or (z3.is_expr(t) and z3.is_true(t))


def is_false(t):
    return t is False or (z3.is_expr(t) and z3.is_false(t))


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        x = b(x)
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return FALSE
        out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        x = b(x)
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return TRUE
        out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    x = b(x)
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, c):
    a, c = b(a), b(c)
    if z3.is_true(a) or z3.is_true(c):
        return c
    if z3.is_false(a):
        return TRUE
    if z3.is_false(c):
        return Not(a)
    return z3.Implies(a, c)


def Iff(a, c):
    a, c = b(a), b(c)
    if z3.is_true(a):
        return c
    if z3.is_true(c):
        return a
    if z3.is_false(a):
        return Not(c)
    if z3.is_false(c):
        return Not(a)
    return a == c


def iv(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def If(c, x, y):
    c = b(c)
    if z3.is_true(c):
        return x
    if z3.is_false(c):
        return y
    if x.eq(y):
        return x
    return z3.If(c, x, y)


def Eq(x, y):
    if x.eq(y):
        return TRUE
    if z3.is_int_value(x) and z3.is_int_value(y):
        return b(x.as_long() == y.as_long())
    return x == y


def simp(t):
    return z3.simplify(t)


def conc(t):
    """Python int/bool of a constant term, else None"""
    if isinstance(t, (int, bool)):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return None


_ctr = itertools.count()


def qvars(*sorts):
    n = next(_ctr)
    return [z3.Const(f"q{n}_{i}", s) for i, s in enumerate(sorts)]


FORBIDDEN = (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_IFF,
             z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_DISTINCT)


def forbidden(t):
    """z3 accepts no connectives in triggers"""
    if not z3.is_app(t):
        return False
    return t.decl().kind() in FORBIDDEN or any(forbidden(c) for c in t.children())


def ForAll(sorts, f, patterns=None):
    vs = qvars(*sorts)
    body = f(*vs)
    body = b(body)
    if z3.is_true(body):
        return TRUE
    if patterns is not None:
        ps = [p for p in patterns(*vs) if not forbidden(p)]
        try:
            return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)
        except z3.Z3Exception:
            pass        # not usable as triggers: z3 chooses its own
    return z3.ForAll(vs, body)


def pat_ok(t):
    """usable as a trigger: uninterpreted application of variables and constants"""
    if z3.is_var(t) or not z3.is_app(t):
        return True
    if t.num_args() and t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return False
    return all(pat_ok(c) for c in t.children())


def ForAllP(sorts, f, *pats):
    """with the given multi-pattern where it is legal"""
    vs = qvars(*sorts)
    body = b(f(*vs))
    if z3.is_true(body):
        return TRUE
    ps = [p(*vs) for p in pats]
    if all(p.num_args() and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and pat_ok(p) for p in ps):
        try:
            return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*ps) if len(ps) > 1 else ps[0]])
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


def Exists(sorts, f):
    vs = qvars(*sorts)
    body = b(f(*vs))
    if z3.is_false(body) or z3.is_true(body):
        return body
    return z3.Exists(vs, body)


_lits = {}


def lit(s):
    """the Val term of a literal string"""
    if s not in _lits:
        _lits[s] = z3.Const("str!" + s, Val)
    return _lits[s]


def literal_axioms():
    ts = list(_lits.values())
    out = [tag(t) == TAGS["str"] for t in ts]
    out += [truthyV(t) == (s != "") for s, t in _lits.items()]
    if len(ts) > 1:
        out.append(z3.Distinct(*ts))
    return out


# ------------------------------------------------------------------ values


class V:
    __slots__ = ()

    def subst(self, pairs):
        return self

    def same(self, o):
        return self is o or (type(self) is type(o) and self._same(o))

    def _same(self, o):
        return False

    def __repr__(self):
        return type(self).__name__


def sub(t, pairs):
    return z3.substitute(t, *pairs) if pairs and z3.is_expr(t) else t


class _T(V):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _same(self, o):
        return self.t.eq(o.t)

    def subst(self, pairs):
        return type(self)(sub(self.t, pairs))

    def __repr__(self):
        return f"{type(self).__name__}({str(self.t)[:40]})" if not self.t.num_args() else type(self).__name__


class VInt(_T):
    __slots__ = ()

    def __init__(self, t):
        self.t = iv(t)


class VBool(_T):
    __slots__ = ()

    def __init__(self, t):
        self.t = b(t)


class VReal(_T):
    __slots__ = ()

    def __init__(self, t):
        if isinstance(t, float):
            fr = Fraction(t)
            t = z3.RealVal(f"{fr.numerator}/{fr.denominator}")
        elif isinstance(t, (int, Fraction)):
            t = z3.RealVal(str(t))
        self.t = t


class VInf(V):
    """float('inf') / -inf"""

    __slots__ = ("neg",)

    def __init__(self, neg=False):
        self.neg = neg

    def _same(self, o):
        return self.neg == o.neg


class VStr(_T):
    """a string; lit is its text when it is a literal"""

    __slots__ = ("lit", "parts")

    def __init__(self, t, lit_=None, parts=None):
        self.t, self.lit, self.parts = t, lit_, parts

    def subst(self, pairs):
        if self.lit is not None:
            return self
        return VStr(sub(self.t, pairs), None, None if self.parts is None else tuple(
            p if isinstance(p, str) else (p[0].subst(pairs), p[1]) for p in self.parts))


def S(text):
    return VStr(lit(text), text)


class VAny(_T):
    """completely unknown Python value"""

    __slots__ = ()


class _VNone(V):
    __slots__ = ()

    def _same(self, o):
        return True

    def __repr__(self):
        return "None"


VNone = _VNone()


class VTuple(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def _same(self, o):
        return len(self.items) == len(o.items) and all(
            x.same(y) for x, y in zip(self.items, o.items))

    def subst(self, pairs):
        return VTuple(x.subst(pairs) for x in self.items)

    def __repr__(self):
        return f"T{self.items}"


class VRef(V):
    __slots__ = ("fam", "idx")

    def __init__(self, fam, idx=()):
        self.fam, self.idx = fam, tuple(idx)

    def _same(self, o):
        return self.fam == o.fam and len(self.idx) == len(o.idx) and all(
            x.eq(y) for x, y in zip(self.idx, o.idx))

    def subst(self, pairs):
        return VRef(self.fam, tuple(sub(t, pairs) for t in self.idx)) if self.idx else self

    def __repr__(self):
        return f"Ref({self.fam}{list(self.idx) or ''})"


class VUnion(V):
    """alternatives [(cond, value)]; the conditions cover all cases in force"""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def _same(self, o):
        return len(self.alts) == len(o.alts) and all(
            c.eq(d) and x.same(y) for (c, x), (d, y) in zip(self.alts, o.alts))

    def subst(self, pairs):
        return VUnion((sub(c, pairs), v.subst(pairs)) for c, v in self.alts)

    def __repr__(self):
        return f"U{[(v) for c, v in self.alts]}"


class VPy(V):
    """a Python object of the program itself: function, class, module, logger"""

    __slots__ = ("obj",)

    def __init__(self, obj):
        self.obj = obj

    def _same(self, o):
        return self.obj is o.obj

    def __repr__(self):
        return f"Py({getattr(self.obj, '__name__', self.obj)!r})"


class VBound(V):
    __slots__ = ("fn", "me", "name")

    def __init__(self, fn, me, name=None):
        self.fn, self.me, self.name = fn, me, name

    def _same(self, o):
        return self.fn is o.fn and self.name == o.name and self.me.same(o.me)

    def subst(self, pairs):
        return VBound(self.fn, self.me.subst(pairs), self.name)

    def __repr__(self):
        return f"Bound({self.name or getattr(self.fn, '__qualname__', self.fn)})"


class VLambda(V):
    """nested function or lambda with its defining environment"""

    __slots__ = ("node", "env", "glob", "name", "defaults")

    def __init__(self, node, env, glob, name, defaults=None):
        self.node, self.env, self.glob, self.name = node, env, glob, name
        self.defaults = defaults or {}


class VExc(V):
    __slots__ = ("cls", "args")

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)

    def _same(self, o):
        return self.cls is o.cls

    def __repr__(self):
        return f"Exc({self.cls.__name__})"


class VExt(V):
    """value of an external, uninterpreted computation (figures, paths, ...)"""

    __slots__ = ("kind", "data", "use")

    def __init__(self, kind, data=(), use=None):
        self.kind, self.data = kind, tuple(data)
        self.use = use  # of an iterator: [indices of the loops around its creation, consumed]

    def _same(self, o):
        return self.kind == o.kind and len(self.data) == len(o.data) and all(
            x.same(y) if isinstance(x, V) else x == y for x, y in zip(self.data, o.data))

    def subst(self, pairs):
        return VExt(self.kind, tuple(x.subst(pairs) if isinstance(x, V) else x for x in self.data), self.use)

    def __repr__(self):
        return f"Ext({self.kind})"


class VPoison(V):
    """unbound or dead variable"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def _same(self, o):
        return True

    def __repr__(self):
        return f"Poison({self.name})"


class VThunk(V):
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def subst(self, pairs):
        return VThunk(lambda: self.fn().subst(pairs))


# ------------------------------------------------------------------ conversions


def to_val(v):
    """Val term of a value used as key / element of an unknown structure"""
    if isinstance(v, (VStr, VAny)):
        return v.t
    if isinstance(v, VBool):
        return mkbool(v.t)
    if isinstance(v, VInt):
        return mkint(v.t)
    if isinstance(v, VReal):
        return mkreal(v.t)
    if v is VNone:
        return NONEV
    if isinstance(v, VUnion):
        t = to_val(v.alts[-1][1])
        for c, x in reversed(v.alts[:-1]):
            t = If(c, to_val(x), t)
        return t
    raise Unsupported(f"value {v!r} as key")


BASE_AXIOMS = [
    tag(NONEV) == TAGS["none"],
    ForAll([I], lambda x: And(tag(mkint(x)) == TAGS["int"], ival(mkint(x)) == x), lambda x: [mkint(x)]),
    ForAll([B], lambda x: And(tag(mkbool(x)) == TAGS["bool"], ival(mkbool(x)) == z3.If(x, iv(1), iv(0))),
           lambda x: [mkbool(x)]),
    ForAll([R], lambda x: And(tag(mkreal(x)) == TAGS["float"], rval(mkreal(x)) == x), lambda x: [mkreal(x)]),
    ForAll([Val], lambda v: And(tag(v) >= 0, tag(v) <= TAGS["other"]), lambda v: [tag(v)]),
    ForAll([Val], lambda v: Implies(tag(v) == TAGS["bool"], And(ival(v) >= 0, ival(v) <= 1)),
           lambda v: [ival(v)]),
    ForAll([Val], lambda v: Implies(tag(v) == TAGS["none"], v == NONEV), lambda v: [tag(v)]),
    ForAll([Val], lambda v: And(
        Implies(tag(v) == TAGS["none"], Not(truthyV(v))),
        Implies(Or(tag(v) == TAGS["int"], tag(v) == TAGS["bool"]), truthyV(v) == (ival(v) != 0)),
        Implies(tag(v) == TAGS["float"], truthyV(v) == (rval(v) != 0)),
        Implies(Or(tag(v) == TAGS["dict"], tag(v) == TAGS["list"], tag(v) == TAGS["tuple"],
                   tag(v) == TAGS["set"]), truthyV(v) == (dlen(v) > 0)),
    ), lambda v: [truthyV(v)]),
    # unknown dictionaries: distinct keys in insertion order
    ForAll([Val], lambda d: dlen(d) >= 0, lambda d: [dlen(d)]),
    ForAll([Val, I], lambda d, i: Implies(And(i >= 0, i < dlen(d), tag(d) == TAGS["dict"]), And(
        dhas(d, dkey(d, i)), dpos(d, dkey(d, i)) == i)), lambda d, i: [dkey(d, i)]),
    # dpos is the position of the first occurrence
    ForAll([Val, I], lambda d, i: Implies(And(i >= 0, i < dlen(d)), And(
        dpos(d, dkey(d, i)) >= 0, dpos(d, dkey(d, i)) <= i, dkey(d, dpos(d, dkey(d, i))) == dkey(d, i))),
        lambda d, i: [dpos(d, dkey(d, i))]),
    ForAll([Val, Val], lambda d, k: Implies(And(dhas(d, k), tag(d) == TAGS["dict"]), And(
        dpos(d, k) >= 0, dpos(d, k) < dlen(d), dkey(d, dpos(d, k)) == k)), lambda d, k: [dhas(d, k)]),
]


# ------------------------------------------------------------------ merging


def merge(c, x, y):
    """value of (x if c else y)"""
    if x is y or x.same(y):
        return x
    if is_true(c):
        return x
    if is_false(c):
        return y
    tx, ty = type(x), type(y)
    if VThunk in (tx, ty):
        return VThunk(lambda: merge(c, force(x), force(y)))
    if tx is ty:
        if tx in (VInt, VBool, VReal, VAny):
            return tx(If(c, x.t, y.t))
        if tx is VStr:
            return VStr(If(c, x.t, y.t))
        if tx is VTuple and len(x.items) == len(y.items):
            return VTuple(merge(c, a, d) for a, d in zip(x.items, y.items))
        if tx is VRef and x.fam == y.fam and len(x.idx) == len(y.idx):
            return VRef(x.fam, tuple(If(c, a, d) for a, d in zip(x.idx, y.idx)))
    if {tx, ty} == {VInt, VReal} and False:
        return VReal(If(c, to_real(x), to_real(y)))
    if {tx, ty} == {VAny, VStr}:
        return VAny(If(c, x.t, y.t))
    alts = []
    for cond, v in ((c, x), (Not(c), y)):
        if isinstance(v, VUnion):
            alts += [(And(cond, d), w) for d, w in v.alts]
        else:
            alts.append((cond, v))
    # join alternatives of equal shape
    out = []
    for cond, v in alts:
        for n, (d, w) in enumerate(out):
            if _joinable(v, w):
                out[n] = (Or(d, cond), merge(d, w, v))
                break
        else:
            out.append((cond, v))
    if len(out) == 1:
        return out[0][1]
    return VUnion(out)


def _joinable(x, y):
    if x.same(y):
        return True
    if type(x) is not type(y):
        return False
    if isinstance(x, (VInt, VBool, VReal, VAny, VStr)):
        return True
    if isinstance(x, VTuple):
        return len(x.items) == len(y.items) and all(_joinable(a, d) for a, d in zip(x.items, y.items))
    if isinstance(x, VRef):
        return x.fam == y.fam and len(x.idx) == len(y.idx)
    return False


def force(v):
    while isinstance(v, VThunk):
        v = v.fn()
    return v


def to_real(v):
    if isinstance(v, VReal):
        return v.t
    if isinstance(v, VInt):
        return z3.ToReal(v.t)
    if isinstance(v, VBool):
        return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"{v!r} as a number")


def to_int(v):
    if isinstance(v, VInt):
        return v.t
    if isinstance(v, VBool):
        return z3.If(v.t, iv(1), iv(0))
    raise Unsupported(f"{v!r} as an int")


# ------------------------------------------------------------------ contents


class Content:
    def subst(self, pairs):
        raise NotImplementedError


class Seq(Content):
    """list, array, deque or (unbounded) tuple.

    items: concrete list of values, or n / get(i) symbolically.  lin describes
    how it came from an earlier content: (root, [entries]) with entries
    ('app', cond, value) or ('upd', pred(i), value(i)).
    """

    def __init__(self, kind, items=None, n=None, get=None, lin=None):
        self.kind = kind
        self.items = items
        if items is not None:
            self.n = iv(len(items))
            self.get = self._get_items
        else:
            self.n = iv(n)
            self.get = get
        self.lin = lin

    def _get_items(self, i):
        c = conc(i)
        if c is not None:
            if 0 <= c < len(self.items):
                return self.items[c]
            return VPoison("index")
        if not self.items:
            return VPoison("index")
        v = self.items[-1]
        for j in range(len(self.items) - 2, -1, -1):
            v = merge(Eq(i, iv(j)), self.items[j], v)
        return v

    def root(self):
        return self.lin[0] if self.lin else self

    def entries(self):
        return self.lin[1] if self.lin else []

    def append(self, v):
        lin = (self.root(), self.entries() + [("app", TRUE, v)])
        if self.items is not None:
            return Seq(self.kind, self.items + [v], lin=lin)
        n, get = self.n, self.get
        return Seq(self.kind, n=n + 1, get=lambda i: merge(Eq(i, n), v, get(i)), lin=lin)

    def write(self, pred, val):
        """every index i with pred(i) gets val(i)"""
        lin = (self.root(), self.entries() + [("upd", pred, val)])
        if self.items is not None:
            items = [merge(simp(b(pred(iv(i)))), val(iv(i)), x) for i, x in enumerate(self.items)]
            return Seq(self.kind, items, lin=lin)
        get = self.get
        return Seq(self.kind, n=self.n, get=lambda i: merge(pred(i), val(i), get(i)), lin=lin)

    def subst(self, pairs):
        if not pairs:
            return self
        if self.items is not None:
            return Seq(self.kind, [x.subst(pairs) for x in self.items])
        n, get = self.n, self.get
        vs = [p[0] for p in pairs]

        def g(i):
            if any(_occurs(v, i) for v in vs):
                j = z3.FreshConst(I, "s")
                return get(j).subst(list(pairs)).subst([(j, i)])
            return get(i).subst(pairs)

        return Seq(self.kind, n=sub(n, pairs), get=g)


def _occurs(v, t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.eq(v):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
    return False


def under(f, pairs, sorts):
    """the closure f with pairs substituted in its result, safely"""
    vs = [p[0] for p in pairs]

    def g(*args):
        if any(_occurs(v, a) for v in vs for a in args):
            js = [z3.FreshConst(s, "s") for s in sorts]
            r = f(*js)
            r = r.subst(list(pairs)) if isinstance(r, (V, Content)) else sub(r, pairs)
            back = list(zip(js, args))
            return r.subst(back) if isinstance(r, (V, Content)) else sub(r, back)
        r = f(*args)
        return r.subst(pairs) if isinstance(r, (V, Content)) else sub(r, pairs)

    return g


def keyval(k):
    return VAny(k)


class Map(Content):
    """dictionary with symbolic keys (terms of sort Val), insertion ordered"""

    def __init__(self, n, at, dom, pos, val, lin=None, strkeys=True, kind="dict"):
        self.n, self.at, self.dom, self.pos, self.val = iv(n), at, dom, pos, val
        self.lin, self.strkeys, self.kind = lin, strkeys, kind

    def root(self):
        return self.lin[0] if self.lin else self

    def entries(self):
        return self.lin[1] if self.lin else []

    def key(self, i):
        t = self.at(i)
        return VStr(t) if self.strkeys else VAny(t)

    def set(self, k, v, kv=None):
        lin = (self.root(), self.entries() + [("set", TRUE, k, v)])
        had = simp(self.dom(k))
        n, at, dom, pos, val = self.n, self.at, self.dom, self.pos, self.val
        strkeys = self.strkeys and (kv is None or isinstance(kv, VStr))
        nval = lambda x: merge(Eq(x, k), v, val(x))  # noqa
        if is_true(had):
            return Map(n, at, dom, pos, nval, lin, strkeys)
        return Map(
            If(had, n, n + 1),
            lambda i: If(And(Not(had), Eq(i, n)), k, at(i)),
            lambda x: Or(dom(x), Eq(x, k)),
            lambda x: If(And(Not(had), Eq(x, k)), n, pos(x)),
            nval, lin, strkeys,
        )

    def delete(self, k):
        lin = (self.root(), self.entries() + [("del", TRUE, k)])
        n, at, dom, pos, val = self.n, self.at, self.dom, self.pos, self.val
        p = pos(k)
        return Map(
            n - 1,
            lambda i: at(If(i < p, i, i + 1)),
            lambda x: And(dom(x), Not(Eq(x, k))),
            lambda x: If(pos(x) > p, pos(x) - 1, pos(x)),
            val, lin, self.strkeys,
        )

    def subst(self, pairs):
        if not pairs:
            return self
        return Map(
            sub(self.n, pairs), under(self.at, pairs, [I]), under(self.dom, pairs, [Val]),
            under(self.pos, pairs, [Val]), under(self.val, pairs, [Val]), None, self.strkeys)


def empty_map():
    return Map(0, lambda i: NONEV, lambda k: FALSE, lambda k: iv(0), lambda k: VPoison("key"))


class Dict(Content):
    """dictionary with known keys: {python key: (present, value)}"""

    def __init__(self, entries=None):
        self.e = dict(entries or {})

    def subst(self, pairs):
        return Dict({k: (sub(p, pairs), v.subst(pairs)) for k, (p, v) in self.e.items()})

    def set(self, k, v):
        e = dict(self.e)
        e[k] = (TRUE, v)
        return Dict(e)


def dict_to_map(d):
    """the same dictionary with symbolic keys; one object per dictionary, so that
    merges find the common ancestor"""
    if getattr(d, "as_map", None) is not None:
        return d.as_map
    m = empty_map()
    ok = all(isinstance(k, str) and is_true(p) for k, (p, v) in d.e.items())
    if not ok:
        raise Unsupported("dictionary with mixed keys")
    for k, (p, v) in d.e.items():
        m = m.set(lit(k), v, S(k))
    m.lin = None
    d.as_map = m
    return m


class SetC(Content):
    """set: concrete python strings (items) or predicate over Val"""

    def __init__(self, items=None, has=None, n=None, lin=None):
        self.items = items          # list of V or None
        self._has, self.n, self.lin = has, n, lin

    def root(self):
        return self.lin[0] if self.lin else self

    def entries(self):
        return self.lin[1] if self.lin else []

    def has(self, t):
        if self.items is not None:
            return Or(*[Eq(to_val(x), t) for x in self.items])
        return self._has(t)

    def add(self, v):
        t = to_val(v)
        lin = (self.root(), self.entries() + [("add", TRUE, t)])
        if self.items is not None:
            if any(x.same(v) for x in self.items):
                return self
            if all(isinstance(x, VStr) and x.lit is not None for x in self.items + [v]):
                return SetC(self.items + [v], lin=lin)
        has = self.has
        return SetC(None, lambda x: Or(has(x), Eq(x, t)), lin=lin)

    def subst(self, pairs):
        if self.items is not None:
            return SetC([x.subst(pairs) for x in self.items])
        return SetC(None, under(self._has, pairs, [Val]))


class Inst(Content):
    def __init__(self, cls, fields):
        self.cls, self.f = cls, fields

    def set(self, k, v):
        f = dict(self.f)
        f[k] = v
        return Inst(self.cls, f)

    def subst(self, pairs):
        return Inst(self.cls, {k: v.subst(pairs) for k, v in self.f.items()})


OPEN = "?more attributes"  # an instance that has attributes its description leaves out


# the attributes a problem instance is made of
STATE = frozenset("""_container_height _container_min_height _containers _containers_num _current_potential_points
    _force_raise_error_index _heights_history _items _kaleido_installed _kaleido_ver_ok _max_time_in_seconds
    _plotly_installed _plotly_ver_ok _potential_points_strategy _rotation _settings _strip_pack _workers_num
    best_strategy data index instance items name obj_val_per_container proper_keys queue shared_array solution
    start_time strategies_chunk throttle""".split())


class UserWrites(Content):
    """assignments to dictionaries of the user: (condition, dictionary, key, value)"""

    def __init__(self, entries=()):
        self.entries = list(entries)

    def subst(self, pairs):
        return UserWrites(tuple(sub(t, pairs) for t in e) for e in self.entries)


USER = ("user",)


def user_writes(st):
    t = st.heap.get(USER)
    return t.get(()).entries if t is not None else []


def uget(st, d, k):
    """value of key k of the user's dictionary d in state st"""
    t = dget(d, k)
    for c, e, j, v in user_writes(st):
        t = If(And(c, Eq(d, e), Eq(k, j)), v, t)
    return t


def uhas(st, d, k):
    t = dhas(d, k)
    for c, e, j, v in user_writes(st):
        t = Or(And(c, Eq(d, e), Eq(k, j)), t)
    return t


hash_ok = z3.Function("hash!ok", Val, B)


def user_value(t):
    """a value given by the user, or one inside it"""
    t = simp(t)
    if z3.is_const(t):
        return not t.decl().name().startswith("lit") and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" not in t.decl().name()
    return z3.is_app(t) and t.decl().name() in ("dkey", "dget") and user_value(t.arg(0))


def hashable(t):
    """keys and elements of dictionaries and sets always are"""
    unknown = [tag(t) == TAGS[n] for n in ("tuple", "other")]
    plain = And(*[tag(t) != TAGS[n] for n in ("dict", "list", "set")], Or(Not(Or(*unknown)), hash_ok(t)))
    if z3.is_app(t) and t.decl().name() == "dkey":
        return Or(*[tag(t.arg(0)) == TAGS[n] for n in ("dict", "set")], plain)
    return plain


def no_user_writes(st):
    if user_writes(st):
        raise Unsupported("a dictionary of the user that was changed")


def uset(st, d, k, v):
    st.heap[USER] = Tmpl(lambda i, es=user_writes(st) + [(TRUE, d, k, v)]: UserWrites(es), 0)


def merge_content(c, x, y):
    if x is y or is_true(c):
        return x
    if is_false(c):
        return y
    if isinstance(x, UserWrites) and isinstance(y, UserWrites):
        n = 0
        while n < min(len(x.entries), len(y.entries)) and x.entries[n] is y.entries[n]:
            n += 1
        return UserWrites(x.entries[:n] + [(And(c, e[0]),) + e[1:] for e in x.entries[n:]]
                          + [(And(Not(c), e[0]),) + e[1:] for e in y.entries[n:]])
    if isinstance(x, Inst) and isinstance(y, Inst) and x.cls is y.cls:
        f = {}
        for k in list(x.f) + [k for k in y.f if k not in x.f]:
            f[k] = merge(c, x.f.get(k, VPoison(k)), y.f.get(k, VPoison(k)))
        return Inst(x.cls, f)
    if isinstance(x, Dict) and isinstance(y, Dict):
        e = {}
        for k in list(x.e) + [k for k in y.e if k not in x.e]:
            px, vx = x.e.get(k, (FALSE, None))
            py, vy = y.e.get(k, (FALSE, None))
            if vx is None:
                e[k] = (And(Not(c), py), vy)
            elif vy is None:
                e[k] = (And(c, px), vx)
            else:
                e[k] = (If(c, px, py), merge(c, vx, vy))
        return Dict(e)
    if isinstance(x, (Map, Dict)) and isinstance(y, (Map, Dict)):
        x = dict_to_map(x) if isinstance(x, Dict) else x
        y = dict_to_map(y) if isinstance(y, Dict) else y
        return Map(
            If(c, x.n, y.n), lambda i: If(c, x.at(i), y.at(i)),
            lambda k: b(If(c, b(x.dom(k)), b(y.dom(k)))), lambda k: If(c, x.pos(k), y.pos(k)),
            lambda k: merge(c, x.val(k), y.val(k)), _merge_lin(c, x, y), x.strkeys and y.strkeys)
    if isinstance(x, Seq) and isinstance(y, Seq):
        lin = _merge_lin(c, x, y)
        if x.items is not None and y.items is not None and len(x.items) == len(y.items):
            return Seq(x.kind, [merge(c, a, d) for a, d in zip(x.items, y.items)], lin=lin)
        return Seq(x.kind, n=If(c, x.n, y.n), get=lambda i: merge(c, x.get(i), y.get(i)), lin=lin)
    if isinstance(x, SetC) and isinstance(y, SetC):
        return SetC(None, lambda t: b(If(c, b(x.has(t)), b(y.has(t)))), lin=_merge_lin(c, x, y))
    raise Unsupported(f"merging {type(x).__name__} with {type(y).__name__}")


def _merge_lin(c, x, y):
    """lineage of a merge of two descendants of one content"""
    r = x.root()
    if r is not y.root():
        return None
    ex, ey = x.entries(), y.entries()
    out = []
    n = 0
    while n < len(ex) and n < len(ey) and ex[n] is ey[n]:
        out.append(ex[n])
        n += 1
    ex, ey = ex[n:], ey[n:]
    if ex and ey:
        if len(ex) == len(ey) and all(
            p[0] == q[0] == "app" and is_true(p[1]) and is_true(q[1]) for p, q in zip(ex, ey)
        ):
            return r, out + [("app", TRUE, merge(c, p[2], q[2])) for p, q in zip(ex, ey)]
    for cond, es in ((c, ex), (Not(c), ey)):
        for e in es:
            if e[0] == "upd":
                out.append(("upd", (lambda p, cond: lambda i: And(cond, p(i)))(e[1], cond), e[2]))
            else:
                out.append((e[0], And(cond, e[1])) + tuple(e[2:]))
    return r, out


# heap templates ---------------------------------------------------------


class Tmpl:
    """contents of a family of objects: get(idx) -> Content"""

    def __init__(self, get, arity, lin=None):
        self._get, self.arity, self.lin = get, arity, lin
        self.memo = {}

    def get(self, idx):
        key = tuple(t.get_id() for t in idx)
        hit = self.memo.get(key)
        if hit is None:
            hit = self._get(tuple(idx))
            self.memo[key] = (hit, idx)
            return hit
        return hit[0]

    def root(self):
        return self.lin[0] if self.lin else self

    def entries(self):
        return self.lin[1] if self.lin else []

    def put(self, idx, content, keep=True):
        old = self
        idx = tuple(idx)
        if self.arity == 0:
            return Tmpl(lambda i: content, 0, (self.root(), self.entries() + [((), content)]))

        def get(i):
            cond = And(*[Eq(x, y) for x, y in zip(i, idx)])
            if is_true(cond):
                return content
            if is_false(cond):
                return old.get(i)
            return merge_content(cond, content, old.get(i))

        return Tmpl(get, self.arity, (self.root(), self.entries() + [(idx, content)]))


def merge_tmpl(c, x, y):
    if x is y:
        return x
    lin = None
    r = x.root()
    if r is y.root():
        ex, ey = x.entries(), y.entries()
        n = 0
        while n < len(ex) and n < len(ey) and ex[n] is ey[n]:
            n += 1
        idxs = []
        for idx, _ in ex[n:] + ey[n:]:
            if not any(len(i) == len(idx) and all(a.eq(d) for a, d in zip(i, idx)) for i in idxs):
                idxs.append(idx)
        # the common prefix stays as it is: loops find what is new by its length
        lin = (r, ex[:n])
    t = Tmpl(lambda i: merge_content(c, x.get(i), y.get(i)), x.arity, lin)
    if lin is not None:
        t.lin = (r, lin[1] + ([(i, t.get(i)) for i in idxs] if len(idxs) <= 1 else [(i, _Lazy(t, i)) for i in idxs]))
    return t


FAMSORTS = {}


class _Lazy:
    def __init__(self, t, i):
        self.t, self.i = t, i


# ------------------------------------------------------------------ states


class State:
    def __init__(self):
        self.pc = []
        self.env = {}
        self.heap = {}
        self.dead = False

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.dead = self.dead
        return s

    def assume(self, f):
        f = b(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            self.dead = True
        self.pc.append(f)

    def take(self, o):
        self.pc, self.env, self.heap, self.dead = o.pc, o.env, o.heap, o.dead

    def content(self, ref):
        try:
            t = self.heap[ref.fam]
        except KeyError:
            raise Unsupported(f"dangling {ref!r}")
        return t.get(ref.idx)


def merge_states(base_len, c1, s1, s2):
    """one state for: s1 (reached under c1) or s2 (reached under not c1)"""
    if s1.dead:
        return s2
    if s2.dead:
        return s1
    out = State()
    out.pc = list(s1.pc[:base_len])
    nc = Not(c1)
    for f in s1.pc[base_len:]:
        if not f.eq(c1):
            out.pc.append(Implies(c1, f))
    for f in s2.pc[base_len:]:
        if not f.eq(nc):
            out.pc.append(Implies(nc, f))
    keys = list(s1.env) + [k for k in s2.env if k not in s1.env]
    for k in keys:
        x, y = s1.env.get(k), s2.env.get(k)
        if x is y:
            out.env[k] = x
        else:
            out.env[k] = merge(c1, x if x is not None else VPoison(k), y if y is not None else VPoison(k))
    for k in list(s1.heap) + [k for k in s2.heap if k not in s1.heap]:
        x, y = s1.heap.get(k), s2.heap.get(k)
        if k == USER and x is not y:
            none = Tmpl(lambda i: UserWrites(), 0)
            out.heap[k] = merge_tmpl(c1, x or none, y or none)
        elif x is y or y is None:
            out.heap[k] = x
        elif x is None:
            out.heap[k] = y
        else:
            out.heap[k] = merge_tmpl(c1, x, y)
    return out


def concat(x, y):
    if x.items is not None and y.items is not None:
        return Seq(x.kind, x.items + y.items)
    return Seq(x.kind, n=x.n + y.n, get=lambda i: merge(i < x.n, x.get(i), y.get(i - x.n)))
