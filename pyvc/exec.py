"""Forward symbolic execution of the real function bodies."""
import ast
import builtins
import collections
import collections.abc
import contextlib
import copy as copymod
import inspect
import time
import itertools
import logging
import math
import types

import z3

import core
import front
import smt
from core import *  # noqa

LIMIT_FORK = 24


from evalx import EvalMixin
from loops import LoopMixin
from models import ModelMixin
from stmts import Outcome, StmtMixin


class Obligation:
    def __init__(self, name, props, ok, detail, dt, func, kind, smt2=None):
        self.name, self.props, self.ok, self.detail, self.dt = name, props, ok, detail, dt
        self.func, self.kind, self.smt2, self.again = func, kind, smt2, None


class Contract:
    """base class of function contracts, see contracts/*.py"""

    qualname = None
    props = ()
    lookup = False      # about the classes, not about a function

    def matches(self, ex, st, args):
        return True

    def apply(self, ex, st, args):
        """use at a call site: assert requires, havoc, assume ensures"""
        raise NotImplementedError


class Exec(EvalMixin, StmtMixin, LoopMixin, ModelMixin):
    def __init__(self, contracts=None, hooks=None):
        self.contracts = contracts or {}
        self.obligations = []
        self.failing = 0
        self.raises = None
        self.ambient = []
        self.path = ()
        self.stack = []
        self.loop_hooks = []
        self.field_reads = set()  # (family, field) read of instances
        self.nondet = set()       # sources of chance: clock, random numbers, files, order of sets
        self.global_init = {}
        self.globals_read = set()
        self.externals = []
        self.inlined = set()
        self.used_contracts = set()
        self.funcs = set()
        self.assumptions = set()
        self.props = ()
        self.fresh_n = 0
        self.synth = {}
        self.direct = set()       # generator expressions and lambdas used up by the call they are given to
        self.vacuous = []
        self.second = {}  # thorough tier: answers of cvc5 on the discharged obligations
        self.arrangements = []
        self.modules = {}        # imported modules: their stand-ins
        self.joins = []          # (text, separator, list) of joins of unknown pieces
        self.vac = {}  # (scan) obligation -> every instance has contradictory hypotheses
        self.iter_src = []
        self.inverses = {}
        self.writes = []
        self.fr = {"glob": {}, "name": "?"}
        self.inline_modules = {"collections", "_collections_abc", "collections.abc"}
        self.ext_models, self.ext_methods, self.ext_iters = {}, {}, {}
        self.loop_name, self.loop_c = (0, 0), 0
        self.init_models()
        self.global_objs = {}
        self.current = "?"
        self.proof_timeout = 8000
        self.extern = {}
        self.mode_check = False
        self.fact_memo = {}
        self.sum_memo = {}

    # -------------------------------------------------------------- basics

    def fresh(self, name, sort):
        n = f"{name}!{self.fresh_n}"
        self.fresh_n += 1
        if not self.ambient:
            return z3.Const(n, sort)
        f = z3.Function(n, *[a.sort() for a in self.ambient], sort)
        return f(*self.ambient)

    def fresh_fn(self, name, *sorts):
        """fresh function symbol; carries the ambient loop indices as arguments"""
        n = f"{name}!{self.fresh_n}"
        self.fresh_n += 1
        amb = list(self.ambient)
        if not sorts[:-1] and not amb:
            c = z3.Const(n, sorts[-1])
            return lambda: c
        f = z3.Function(n, *[a.sort() for a in amb], *sorts)
        return lambda *xs: f(*amb, *xs)

    def alloc(self, st, content, site=None):
        fam = ("a",) + self.path + (site,)
        arity = len(self.ambient)
        idx = tuple(self.ambient)
        if arity == 0:
            base = fam
            n = 0
            while fam in st.heap:
                n += 1
                fam = base + (n,)
            st.heap[fam] = Tmpl(lambda i: content, 0)
            return VRef(fam)
        base, n = fam, 0
        # the same site twice in one iteration (unrolled code) gets its own family
        while fam in st.heap and (st.heap[fam].arity != arity or self._put_here(st.heap[fam], idx)):
            n += 1
            fam = base + (n,)
        old = st.heap.get(fam)
        FAMSORTS[fam] = [x.sort() for x in idx]
        if old is None:
            def none(i):
                raise Unsupported("object of another iteration")

            t = Tmpl(none, arity)
            t2 = Tmpl(None, arity, (t, [(idx, content)]))

            def get(i, idx=idx, content=content):
                if all(x.eq(y) for x, y in zip(i, idx)):
                    return content
                return content.subst([(x, y) for x, y in zip(idx, i)])

            t2._get = get
            t2.fresh_here = idx
            st.heap[fam] = t2
        else:
            t2 = old.put(idx, content)
            t2.fresh_here = idx
            st.heap[fam] = t2
        return VRef(fam, idx)

    def _put_here(self, t, idx):
        fh = getattr(t, "fresh_here", None)
        if fh is not None and all(x.eq(y) for x, y in zip(fh, idx)):
            return True
        return any(all(x.eq(y) for x, y in zip(i, idx)) for i, _ in t.entries())

    def put(self, st, ref, content):
        st.heap[ref.fam] = st.heap[ref.fam].put(ref.idx, content)

    def proves(self, st, goal, timeout=None):
        goal = b(goal)
        if is_true(goal):
            return True
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        for f in st.pc[-60:]:
            if f.eq(goal):
                return True
        key = (tuple(f.get_id() for f in st.pc), goal.get_id())
        hit = self.fact_memo.get(key)
        if hit is not None:
            return hit[0]
        r, _, _ = smt.check(st.pc, goal, timeout or 1500)
        self.fact_memo[key] = (r == "unsat", list(st.pc), goal)
        return r == "unsat"

    def infeasible(self, st, extra=TRUE, timeout=400):
        if st.dead:
            return True
        return self.proves(st, Not(extra), timeout)

    def oblige(self, st, goal, name, props=None, kind="post"):
        """a proof obligation of the current function"""
        goal = b(goal)
        props = tuple(props if props is not None else self.props)
        if st.dead:
            ok, det, dt = True, "unreachable", 0.0
        else:
            # little time for the rest of a function in which much has failed
            ok, det, dt = smt.prove(st.pc, goal, self.proof_timeout if self.failing < 90 else 1500)
            self.failing += 0 if ok else dt
            if ok and smt.THOROUGH and det not in ("trivial", "simplified"):
                self.cross(st, goal)
        text = None
        if not ok:
            try:
                text = smt.smt2(st.pc, goal)
            except Exception:  # noqa
                text = None
        if ok and smt.HYPS and not st.dead:
            # development aid: obligations whose hypotheses contradict each other
            pc, g = smt.open_goal(st.pc, goal)
            vac = smt.check(pc, FALSE, 1500)[0] == "unsat"
            self.vac[name] = self.vac.get(name, True) and vac and not is_false(z3.simplify(b(g)))
        self.obligations.append(Obligation(name, props, ok, det, dt, self.current, kind, text))
        if not ok and not is_false(z3.simplify(goal)):
            self.obligations[-1].again = list(st.pc), goal
        return ok

    def try_again(self, seconds=60):
        """further attempts at the obligations z3 did not discharge"""
        end = time.time() + seconds
        for o in self.obligations:
            if not o.ok and time.time() < end and o.again is not None:
                t0 = time.time()
                ok, how = smt.retry(*o.again, self.proof_timeout, min(end, t0 + 25))
                o.dt += time.time() - t0
                if ok:
                    o.ok, o.detail = True, how + " (second attempt)"

    def cross(self, st, goal):
        """a second opinion on a discharged obligation"""
        for p, g in smt.leaves(st.pc, goal):
            if is_true(z3.simplify(b(g))) or sum(self.second.values()) > 400:
                continue
            r = smt.cvc5_check(p, g, 3000)
            self.second[r[:7]] = self.second.get(r[:7], 0) + 1

    def lemma(self, st, f, timeout=3000):
        """an intermediate step: assumed if it can be proved"""
        if st.dead:
            return False
        ok, _, _ = smt.prove(st.pc, f, timeout)
        if ok:
            st.assume(f)
        return ok

    def vacuity(self, st, where, timeout=3000):
        """contradictory assumptions would prove everything: look for them"""
        if st.dead:
            return
        r, _, dt = smt.check(st.pc, FALSE, timeout)
        if r != "unsat":
            r, _, dt = smt.check(st.pc, FALSE, timeout, mbqi=True)
        self.vacuous.append((where, r == "unsat"))

    def frame(self, st0, st, allowed, name, props):
        """only objects of the allowed families (or new ones) have changed;
        allowed: families, or (family, field)"""
        bad = []
        whole = {a for a in allowed}
        for fam, t0 in st0.heap.items():
            t = st.heap.get(fam)
            if t is t0 or fam in whole:
                continue
            if self.changed_content(st, fam, t0, t, whole):
                bad.append(fam)
        for fam, t0 in self.global_init.items():
            t = st.heap.get(fam)
            if fam not in st0.heap and t is not None and t is not t0 and self.changed_content(st, fam, t0, t, whole):
                bad.append(("module level object", type(self.global_objs[fam]).__name__))
        self.oblige(st, b(not bad), name + (f" (changed: {bad})" if bad else ""), props, "frame")

    def changed_content(self, st, fam, t0, t, allowed):
        js = tuple(self.fresh("fr", s) for s in (FAMSORTS.get(fam) or [x.sort() for x in (t.entries() or [((), 0)])[0][0]]))
        c0, c1 = t0.get(js), t.get(js)
        if c0 is c1:
            return False
        if isinstance(c0, Inst) and isinstance(c1, Inst):
            for k in list(c0.f) + [k for k in c1.f if k not in c0.f]:
                if (fam, k) in allowed:
                    continue
                if k not in c0.f and OPEN in c0.f and k not in STATE:
                    raise Unsupported(f"new attribute {k}")
                if k not in c0.f or k not in c1.f:
                    return True
                if not force(c0.f[k]).same(force(c1.f[k])):
                    e = self.v_eq_term(c0.f[k], c1.f[k])
                    if e is None or not self.proves(st, e, self.proof_timeout):
                        return True
            return False
        try:
            e = self.c_eq_term(c0, c1)
        except Exception:  # noqa
            return True
        return e is None or not self.proves(st, e, self.proof_timeout)

    # -------------------------------------------------------------- raising

    @contextlib.contextmanager
    def catching(self):
        saved, self.raises = self.raises, []
        try:
            yield self.raises
        finally:
            self.raises = saved

    def do_raise(self, st, exc):
        s = st.copy()
        if not s.dead:
            self.raises.append(Outcome("raise", s, exc))
        st.dead = True
        st.pc.append(FALSE)

    def guard(self, st, ok, cls, what=""):
        """implicit run-time check: raises cls unless ok"""
        if st.dead:
            return
        ok = b(ok)
        if is_true(ok) or is_true(simp(ok)):
            return
        if self.proves(st, ok):
            st.assume(ok)
            return
        s = st.copy()
        s.assume(Not(ok))
        self.raises.append(Outcome("raise", s, VExc(cls, (S(what),))))
        st.assume(ok)

    # -------------------------------------------------------------- forking

    def fork(self, st, cond, f1, f2):
        """runs f1 under cond, f2 otherwise; returns the merged value; st is
        replaced by the merged state"""
        cond = b(cond)
        c = conc(cond)
        if c is None and not st.dead:
            if self.infeasible(st, Not(cond)):
                c = True
            elif self.infeasible(st, cond):
                c = False
        if c is True:
            st.assume(cond)
            return f1(st)
        if c is False:
            st.assume(Not(cond))
            return f2(st)
        base = len(st.pc)
        s1, s2 = st.copy(), st.copy()
        s1.assume(cond)
        s2.assume(Not(cond))
        v1 = f1(s1)
        v2 = f2(s2)
        m = merge_states(base, cond, s1, s2)
        if s1.dead and not s2.dead:
            st.take(s2)
            return v2
        if s2.dead and not s1.dead:
            st.take(s1)
            return v1
        if s1.dead and s2.dead:
            st.take(s1)
            return VPoison("dead")
        st.take(m)
        return merge(cond, v1, v2)

    def distribute(self, st, v, f):
        """f(state, alternative) for every alternative of a union"""
        v = force(v)
        if isinstance(v, VThunk):
            v = force(v)
        if not isinstance(v, VUnion):
            return f(st, v)
        alts = [(c, x) for c, x in v.alts if not is_false(c)]
        return self._dist(st, alts, f)

    def _dist(self, st, alts, f):
        if len(alts) == 1:
            return f(st, alts[0][1])
        c, x = alts[0]
        return self.fork(st, c, lambda s: f(s, x), lambda s: self._dist(s, alts[1:], f))

    def merge_many(self, base_len, states):
        """[(state, value)] reached by exclusive paths -> one"""
        states = [(s, v) for s, v in states if not s.dead]
        if not states:
            return None
        while len(states) > 1:
            (s1, v1), (s2, v2) = states[0], states[1]
            n = base_len
            m = min(len(s1.pc), len(s2.pc))
            while n < m and s1.pc[n].eq(s2.pc[n]):
                n += 1
            # a literal condition and its negation separate the two
            if n < len(s1.pc) and n < len(s2.pc) and Not(s1.pc[n]).eq(s2.pc[n]) and not _quantified(s1.pc[n]):
                g = s1.pc[n]
            else:
                g = self.fresh("sel", B)
            st = merge_states(n, g, s1, s2)
            v = None
            if v1 is not None or v2 is not None:
                v = merge(g, v1 if v1 is not None else VNone, v2 if v2 is not None else VNone)
            states = [(st, v)] + states[2:]
        return states[0]

    # -------------------------------------------------------------- names

    def read_name(self, name, st, fr):
        if name in st.env:
            v = st.env[name]
            return self.unpoison(st, v, name)
        if name in fr.get("own", ()):
            self.do_raise(st, VExc(UnboundLocalError))
            return VPoison(name)
        if fr.get("closure_env") is not None and name in fr["closure_env"]:
            return force(fr["closure_env"][name])
        fn = fr.get("fn")
        if fn is not None:
            try:
                return self.lift(front.closure_var(fn, name), st)
            except KeyError:
                pass
        g = fr["glob"]
        if name in g and name in fr.get("locals", ()) and not fr.get("closure_env"):
            raise Unsupported(f"{name} may be a local or a global variable")
        if name in g:
            return self.lift(g[name], st, name)
        if hasattr(builtins, name):
            return VPy(getattr(builtins, name))
        if name in fr.get("locals", ()):
            self.do_raise(st, VExc(UnboundLocalError))
            return VPoison(name)
        self.do_raise(st, VExc(NameError))
        return VPoison(name)

    def unpoison(self, st, v, name):
        if isinstance(v, VThunk):
            v = force(v)
        if isinstance(v, VPoison):
            raise PoisonRead(v.name)
        if isinstance(v, VUnion) and any(isinstance(x, VPoison) for c, x in v.alts):
            bad = Or(*[c for c, x in v.alts if isinstance(x, VPoison)])
            names = [x.name for c, x in v.alts if isinstance(x, VPoison)]
            if any(n.startswith("loop:") for n in names):
                if not self.proves(st, Not(bad)):
                    raise PoisonRead([n for n in names if n.startswith("loop:")][0])
            self.guard(st, Not(bad), UnboundLocalError, name)
            good = [(c, x) for c, x in v.alts if not isinstance(x, VPoison)]
            if len(good) == 1:
                return good[0][1]
            return VUnion(good)
        return v

    def lift(self, obj, st=None, name=None):
        """symbolic value of a constant Python object"""
        if obj is None:
            return VNone
        if isinstance(obj, bool):
            return VBool(obj)
        if isinstance(obj, int):
            return VInt(obj)
        if isinstance(obj, float):
            if math.isinf(obj):
                return VInf(obj < 0)
            return VReal(obj)
        if isinstance(obj, str):
            return S(obj)
        if isinstance(obj, tuple) and not hasattr(obj, "_fields"):
            if len(obj) > 100:
                return VExt("bigtuple", (id(obj), len(obj), all(isinstance(x, str) for x in obj)))
            return VTuple(self.lift(x, st) for x in obj)
        if isinstance(obj, (dict, list, collections.deque, set)) and st is not None:
            return self.global_obj(obj, st)
        return VPy(obj)

    def global_obj(self, obj, st):
        fam = ("g", id(obj))
        self.globals_read.add((type(obj).__name__, id(obj)))
        if fam not in st.heap:
            self.global_objs[fam] = obj
            if isinstance(obj, dict):
                c = Dict({k: (TRUE, self.lift(v, st)) for k, v in obj.items()})
            elif isinstance(obj, set):
                c = SetC([self.lift(x, st) for x in obj])
            else:
                c = Seq("list" if isinstance(obj, list) else "deque", [self.lift(x, st) for x in obj])
            st.heap[fam] = self.global_init.setdefault(fam, Tmpl(lambda i, c=c: c, 0))
        return VRef(fam)

    # -------------------------------------------------------------- truth

    def truth(self, v, st):
        v = force(v)
        if isinstance(v, VBool):
            return v.t
        if isinstance(v, VInt):
            return simp(v.t != 0) if z3.is_int_value(v.t) else v.t != 0
        if isinstance(v, VReal):
            return v.t != 0
        if isinstance(v, VInf):
            return TRUE
        if v is VNone:
            return FALSE
        if isinstance(v, VStr):
            if v.lit is not None:
                return b(v.lit != "")
            if v.parts and any(isinstance(p, str) and p for p in v.parts):
                return TRUE
            return truthyV(v.t)
        if isinstance(v, VAny):
            return Or(truthyV(v.t), *[And(c, Eq(d, v.t)) for c, d, k, x in user_writes(st)])
        if isinstance(v, VTuple):
            return b(len(v.items) > 0)
        if isinstance(v, VUnion):
            return Or(*[And(c, self.truth(self.unpoison(st, x, "?"), st)) for c, x in v.alts])
        if isinstance(v, VRef):
            c = st.content(v)
            if isinstance(c, (Seq, Map)):
                return simp(c.n > 0)
            if isinstance(c, Dict):
                return Or(*[p for p, _ in c.e.values()])
            if isinstance(c, SetC):
                if c.items is not None:
                    return b(len(c.items) > 0)
                return Exists([Val], lambda t: c.has(t))
            if isinstance(c, Inst):
                if "__bool__" in dir(c.cls) or "__len__" in dir(c.cls):
                    n = self.call_method(v, "__len__", [], {}, st)
                    return n.t != 0
                return TRUE
        if isinstance(v, (VPy, VBound, VLambda, VExc)):
            return TRUE
        if isinstance(v, VExt):
            if v.kind == "match":
                return TRUE
            if v.kind in ("opaque", "path", "fig", "module"):
                return TRUE
        raise Unsupported(f"truth of {v!r}")

    def named(self, st, t):
        """a quantified truth value gets a name, so that it can be used in terms"""
        if not _quantified(t):
            return t
        g = self.fresh("cond", B)
        st.assume(z3.Implies(g, t))
        st.assume(z3.Implies(Not(g), Not(t)))
        return g

    # -------------------------------------------------------------- equality

    def eq(self, x, y, st):
        """term for x == y"""
        x, y = force(x), force(y)
        if isinstance(x, VUnion):
            return Or(*[And(c, self.eq(self.unpoison(st, v, "?"), y, st)) for c, v in x.alts])
        if isinstance(y, VUnion):
            return Or(*[And(c, self.eq(x, self.unpoison(st, v, "?"), st)) for c, v in y.alts])
        num = (VInt, VBool, VReal)
        if isinstance(x, VBool) and isinstance(y, VBool):
            return Iff(x.t, y.t)
        if isinstance(x, num) and isinstance(y, num):
            if isinstance(x, VReal) or isinstance(y, VReal):
                return Eq(to_real(x), to_real(y))
            return Eq(to_int(x), to_int(y))
        if isinstance(x, VInf) or isinstance(y, VInf):
            if isinstance(x, VAny) or isinstance(y, VAny):
                raise Unsupported("unknown value == infinity")
            return b(isinstance(x, VInf) and isinstance(y, VInf) and x.neg == y.neg)
        for p, q in ((x, y), (y, x)):
            if isinstance(p, VRef) and isinstance(st.content(p), Inst):
                c = st.content(p)
                if issubclass(c.cls, collections.UserDict):
                    if self.static_attr(c.cls, "__eq__") is not inspect.getattr_static(collections.UserDict, "__eq__"):
                        raise Unsupported(f"{c.cls.__name__}.__eq__")
                    return self.eq(c.f.get("data"), q, st)
                self.hooked(c.cls, "__eq__", "__ne__")
        if x is VNone or y is VNone:
            o = y if x is VNone else x
            if isinstance(o, VAny):
                return tag(o.t) == TAGS["none"]
            return b(o is VNone)
        if isinstance(x, VStr) and isinstance(y, VStr):
            if x.lit is not None and y.lit is not None:
                return b(x.lit == y.lit)
            return Eq(x.t, y.t)
        if isinstance(x, VAny) or isinstance(y, VAny):
            a, o = (x, y) if isinstance(x, VAny) else (y, x)
            if isinstance(o, VStr):
                return Eq(a.t, o.t)
            num = lambda t: Or(tag(t) == TAGS["int"], tag(t) == TAGS["bool"])  # noqa
            if isinstance(o, VAny):
                if a.t.eq(o.t):
                    return TRUE
                plain = lambda t: Or(tag(t) == TAGS["str"], tag(t) == TAGS["none"])  # noqa
                return If(And(plain(a.t), plain(o.t)), Eq(a.t, o.t), If(
                    And(num(a.t), num(o.t)), ival(a.t) == ival(o.t), Or(Eq(a.t, o.t), eqv(a.t, o.t))))
            if isinstance(o, (VInt, VBool)):
                return Or(And(num(a.t), ival(a.t) == to_int(o)), And(tag(a.t) == TAGS["float"], rval(a.t) == to_real(o)),
                          And(tag(a.t) == TAGS["other"], eqv(a.t, mkint(to_int(o)))))
            raise Unsupported(f"== of unknown value and {o!r}")
        if isinstance(x, VTuple) and isinstance(y, VTuple):
            if len(x.items) != len(y.items):
                return FALSE
            return And(*[self.eq(p, q, st) for p, q in zip(x.items, y.items)])
        for p, q in ((x, y), (y, x)):
            if isinstance(p, VTuple) and isinstance(q, VRef):
                c = st.content(q)
                if not isinstance(c, Seq) or c.kind != "tuple":
                    return FALSE
                return And(c.n == len(p.items), *[Implies(c.n == len(p.items), self.eq(z, c.get(iv(i)), st))
                                                  for i, z in enumerate(p.items)])
        if isinstance(x, VExt) != isinstance(y, VExt) and self.is_set(x, st) and self.is_set(y, st):
            p, q = [st.content(self.mk_set(v, st, None) if isinstance(v, VExt) else v) for v in (x, y)]
            return ForAll([Val], lambda t: Iff(p.has(t), q.has(t)))
        if isinstance(x, VRef) and isinstance(y, VRef):
            if x.same(y):
                return TRUE
            cx, cy = st.content(x), st.content(y)
            if isinstance(cx, SetC) and isinstance(cy, SetC):
                if cx.items is not None and cy.items is not None and all(
                    isinstance(i, VStr) and i.lit is not None for i in cx.items + cy.items
                ):
                    return b({i.lit for i in cx.items} == {i.lit for i in cy.items})
                return ForAll([Val], lambda t: Iff(cx.has(t), cy.has(t)))
            if isinstance(cx, Seq) and isinstance(cy, Seq):
                if cx.kind != cy.kind:
                    if {cx.kind, cy.kind} <= {"list", "tuple", "deque", "array"}:
                        return FALSE
                    raise Unsupported(f"{cx.kind} == {cy.kind}")
                if cx.items is not None and cy.items is not None:
                    if len(cx.items) != len(cy.items):
                        return FALSE
                    return And(*[self.eq(p, q, st) for p, q in zip(cx.items, cy.items)])
                return And(cx.n == cy.n, ForAll([I], lambda i: Implies(
                    And(i >= 0, i < cx.n), self.eq(cx.get(i), cy.get(i), st))))
            if isinstance(cx, (Dict, Map)) and isinstance(cy, (Dict, Map)):
                for p, q in ((cx, cy), (cy, cx)):
                    if isinstance(p, Dict) and not p.e:
                        return Not(self.truth(y if p is cx else x, st))
                mx, my = as_map(cx), as_map(cy)
                return ForAll([Val], lambda k: And(
                    Iff(mx.dom(k), my.dom(k)),
                    Implies(mx.dom(k), self.eq(mx.val(k), my.val(k), st))))
            if isinstance(cx, Inst) and isinstance(cy, Inst):
                if len(x.idx) == len(y.idx) and x.fam == y.fam:
                    return And(*[Eq(p, q) for p, q in zip(x.idx, y.idx)])
                return FALSE
            return FALSE
        if isinstance(x, VPy) and isinstance(y, VPy):
            return b(x.obj == y.obj)
        if isinstance(x, VExt) or isinstance(y, VExt):
            if x.same(y):
                return TRUE
            raise Unsupported(f"{x!r} == {y!r}")
        plain = (VInt, VBool, VReal, VStr, VTuple, VRef)
        if isinstance(x, plain) and isinstance(y, plain):
            return FALSE  # of different kinds
        raise Unsupported(f"{x!r} == {y!r}")

    def is_(self, x, y, st):
        x, y = force(x), force(y)
        if isinstance(x, VUnion):
            return Or(*[And(c, self.is_(self.unpoison(st, v, "?"), y, st)) for c, v in x.alts])
        if isinstance(y, VUnion):
            return self.is_(y, x, st)
        if x is VNone or y is VNone:
            o = y if x is VNone else x
            if isinstance(o, VAny):
                return tag(o.t) == TAGS["none"]
            return b(o is VNone)
        if isinstance(x, VBool) and isinstance(y, VBool):
            return Iff(x.t, y.t)
        if isinstance(x, VRef) and isinstance(y, VRef):
            if x.fam != y.fam or len(x.idx) != len(y.idx):
                return FALSE
            return And(*[Eq(p, q) for p, q in zip(x.idx, y.idx)])
        if isinstance(x, VPy) and isinstance(y, VPy):
            return b(x.obj is y.obj)
        if isinstance(x, VAny) and isinstance(y, VBool):
            return And(tag(x.t) == TAGS["bool"], Iff(ival(x.t) != 0, y.t))
        if type(x) is not type(y) and not isinstance(x, (VAny, VPoison)) and not isinstance(y, (VAny, VPoison)):
            return FALSE
        raise Unsupported(f"is between {x!r} and {y!r}")

    # -------------------------------------------------------------- arithmetic

    def div(self, a, c, st):
        """a / c as a real"""
        x, y = to_real(a), to_real(c)
        self.guard(st, y != 0, ZeroDivisionError, "division by zero")
        cy = simp(y)
        if z3.is_rational_value(cy):
            return VReal(x / cy)
        q = DIV(x, y)
        st.assume(z3.Implies(y != 0, q * y == x))
        # sign of a quotient of non negative numbers
        st.assume(z3.Implies(And(y > 0, x >= 0), q >= 0))
        st.assume(z3.Implies(And(y > 0, x > 0), q > 0))
        return VReal(q)

    def binop(self, op, a, c, st, node=None):
        a, c = force(a), force(c)
        if isinstance(a, VUnion):
            return self.distribute(st, a, lambda s, v: self.binop(op, self.unpoison(s, v, "?"), c, s))
        if isinstance(c, VUnion):
            return self.distribute(st, c, lambda s, v: self.binop(op, a, self.unpoison(s, v, "?"), s))
        num = (VInt, VBool, VReal)
        if isinstance(a, VAny) or isinstance(c, VAny):
            if isinstance(op, (ast.Mult, ast.Mod)) and not (self.is_num(a, st) and self.is_num(c, st)):
                raise Unsupported("* or % of values of unknown type")
            a, c = self.any_nums(a, c, st)
            if isinstance(a, VUnion) or isinstance(c, VUnion):
                return self.binop(op, a, c, st, node)
        if isinstance(a, num) and isinstance(c, num):
            if isinstance(op, ast.Div):
                return self.div(a, c, st)
            real = isinstance(a, VReal) or isinstance(c, VReal)
            if isinstance(op, ast.Pow):
                x, y = conc(to_int(a)) if not real else None, conc(to_int(c)) if not real else None
                if x is not None and y is not None and y >= 0:
                    return VInt(x ** y)
                raise Unsupported("**")
            x, y = (to_real(a), to_real(c)) if real else (to_int(a), to_int(c))
            mk = VReal if real else VInt
            if isinstance(op, ast.Add):
                return mk(_lin(x + y))
            if isinstance(op, ast.Sub):
                return mk(_lin(x - y))
            if isinstance(op, ast.Mult):
                return mk(x * y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and not real:
                self.guard(st, y != 0, ZeroDivisionError)
                cy = conc(y)
                if cy is None or cy <= 0:
                    if not self.proves(st, y > 0):
                        raise Unsupported("// or % by a non positive number")
                return VInt(x / y) if isinstance(op, ast.FloorDiv) else VInt(x % y)
        if isinstance(op, ast.Add):
            if isinstance(a, VTuple) and isinstance(c, VTuple):
                return VTuple(a.items + c.items)
            if isinstance(a, VStr) and isinstance(c, VStr):
                return self.fstring([a, c], st)
            if isinstance(a, (VRef, VTuple)) and isinstance(c, (VRef, VTuple)):
                x, y = [Seq("tuple", list(z.items)) if isinstance(z, VTuple) else st.content(z) for z in (a, c)]
                if isinstance(x, Seq) and isinstance(y, Seq) and x.kind == y.kind:
                    return self.alloc(st, concat(x, y), self.site(node))
        if isinstance(op, ast.Mult):
            for p, q in ((a, c), (c, a)):
                if isinstance(p, VRef) and isinstance(q, (VInt, VBool)):
                    x = st.content(p)
                    if isinstance(x, Seq) and x.items is not None and len(x.items) == 1:
                        v, n = x.items[0], to_int(q)
                        k = conc(n)
                        if k is not None and k <= 64:
                            return self.alloc(st, Seq(x.kind, [v] * max(k, 0)), self.site(node))
                        return self.alloc(st, Seq(x.kind, n=If(n > 0, n, iv(0)), get=lambda i: v), self.site(node))
                if isinstance(p, VTuple) and isinstance(q, VInt) and conc(q.t) is not None:
                    return VTuple(p.items * conc(q.t))
        if isinstance(op, ast.BitOr) and isinstance(a, VPy) and isinstance(c, VPy):
            return VPy(a.obj | c.obj)
        if isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)) and isinstance(a, VRef) and isinstance(c, VRef):
            x, y = st.content(a), st.content(c)
            if isinstance(x, SetC) and isinstance(y, SetC):
                f = {ast.BitOr: lambda t: Or(x.has(t), y.has(t)), ast.Sub: lambda t: And(x.has(t), Not(y.has(t))),
                     ast.BitAnd: lambda t: And(x.has(t), y.has(t))}[type(op)]
                return self.alloc(st, SetC(None, f), self.site(node))
        if isinstance(op, ast.Div) and isinstance(a, VExt) and a.kind == "path":
            return VExt("path", a.data + (c,))
        raise Unsupported(f"{type(op).__name__} of {a!r} and {c!r}")

    def is_num(self, v, st):
        return isinstance(v, (VInt, VBool, VReal, VInf)) or isinstance(v, VAny) and self.proves(
            st, Or(*[tag(v.t) == TAGS[n] for n in ("int", "bool", "float")]))

    def any_nums(self, a, c, st):
        """operands of which one is a value of the user; what is no number is
        taken to be an error only where no other meaning exists"""
        if not (self.is_num(a, st) or self.is_num(c, st) or a is VNone or c is VNone):
            raise Unsupported("operator on values of unknown type")
        return self.any_num(a, st, True), self.any_num(c, st, True)

    def any_num(self, v, st, exact=False):
        """the number a value of the user is (else TypeError); exact: an
        integer stays one where it may also be a float"""
        if not isinstance(v, VAny):
            return v
        isint = Or(tag(v.t) == TAGS["int"], tag(v.t) == TAGS["bool"])
        isfloat = tag(v.t) == TAGS["float"]
        self.guard(st, Or(isint, isfloat), TypeError, "number expected")
        if st.dead or self.proves(st, isint):
            return VInt(ival(v.t))
        if self.proves(st, isfloat):
            return VReal(rval(v.t))
        if exact:
            return VUnion([(isint, VInt(ival(v.t))), (Not(isint), VReal(rval(v.t)))])
        return VReal(z3.If(isint, z3.ToReal(ival(v.t)), rval(v.t)))

    def compare(self, op, x, y, st):
        x, y = force(x), force(y)
        if isinstance(op, ast.Eq):
            return self.eq(x, y, st)
        if isinstance(op, ast.NotEq):
            return Not(self.eq(x, y, st))
        if isinstance(op, ast.Is):
            return self.is_(x, y, st)
        if isinstance(op, ast.IsNot):
            return Not(self.is_(x, y, st))
        if isinstance(op, (ast.In, ast.NotIn)):
            t = self.contains(y, x, st)
            return t if isinstance(op, ast.In) else Not(t)
        if isinstance(x, VUnion):
            v = self.distribute(st, x, lambda s, v: VBool(self.compare(op, self.unpoison(s, v, "?"), y, s)))
            return v.t if isinstance(v, VBool) else TRUE
        if isinstance(y, VUnion):
            v = self.distribute(st, y, lambda s, v: VBool(self.compare(op, x, self.unpoison(s, v, "?"), s)))
            return v.t if isinstance(v, VBool) else TRUE
        if isinstance(x, VAny) or isinstance(y, VAny):
            if not (self.is_num(x, st) or self.is_num(y, st) or x is VNone or y is VNone):
                raise Unsupported("comparison of values of unknown type")
            x, y = self.any_num(x, st), self.any_num(y, st)
        if isinstance(x, VInf) or isinstance(y, VInf):
            if isinstance(x, VInf) and isinstance(y, VInf):
                p, q = (0 if x.neg else 1), (0 if y.neg else 1)
            elif isinstance(x, VInf):
                p, q = (-1 if x.neg else 1), 0
            else:
                p, q = 0, (-1 if y.neg else 1)
            return b({ast.Lt: p < q, ast.LtE: p <= q, ast.Gt: p > q, ast.GtE: p >= q}[type(op)])
        num = (VInt, VBool, VReal)
        if isinstance(x, num) and isinstance(y, num):
            if isinstance(x, VReal) or isinstance(y, VReal):
                p, q = to_real(x), to_real(y)
            else:
                p, q = to_int(x), to_int(y)
            return simp_cmp({ast.Lt: p < q, ast.LtE: p <= q, ast.Gt: p > q, ast.GtE: p >= q}[type(op)])
        if isinstance(x, VTuple) and isinstance(y, VTuple):
            return self.lex(op, list(x.items), list(y.items), st)
        xs, ys = self.sequence_of(x, st), self.sequence_of(y, st)
        if xs is not None and ys is not None and (xs.kind == "tuple") == (ys.kind == "tuple"):
            return self.lex_seq(op, xs, ys, st)
        if isinstance(x, VStr) and isinstance(y, VStr):
            if x.lit is not None and y.lit is not None:
                p, q = x.lit, y.lit
                return b({ast.Lt: p < q, ast.LtE: p <= q, ast.Gt: p > q, ast.GtE: p >= q}[type(op)])
            lt = z3.Function("str<", Val, Val, B)
            p, q = x.t, y.t
            return {ast.Lt: lt(p, q), ast.LtE: Or(lt(p, q), p == q), ast.Gt: lt(q, p), ast.GtE: Or(lt(q, p), p == q)}[type(op)]
        if self.is_set(x, st) and self.is_set(y, st):
            p, q = [st.content(self.mk_set(v, st, None) if isinstance(v, VExt) else v) for v in (x, y)]
            if isinstance(op, (ast.Gt, ast.GtE)):
                p, q = q, p
            sub = self.named(st, ForAll([Val], lambda t: Implies(p.has(t), q.has(t))))
            if isinstance(op, (ast.LtE, ast.GtE)):
                return sub
            return And(sub, Not(self.named(st, ForAll([Val], lambda t: Implies(q.has(t), p.has(t))))))
        if x is VNone or y is VNone or (isinstance(x, VStr) != isinstance(y, VStr)):
            self.do_raise(st, VExc(TypeError))
            return FALSE
        raise Unsupported(f"comparison of {x!r} and {y!r}")

    def is_set(self, v, st):
        return isinstance(v, VExt) and v.kind == "keys" or isinstance(v, VRef) and isinstance(st.content(v), SetC)

    def lex(self, op, xs, ys, st):
        strict = isinstance(op, (ast.Lt, ast.Gt))
        lt = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
        if not xs or not ys:
            if isinstance(lt, ast.Lt):
                return b(len(xs) < len(ys) or (not strict and len(xs) == len(ys)))
            return b(len(xs) > len(ys) or (not strict and len(xs) == len(ys)))
        return Or(self.compare(lt, xs[0], ys[0], st),
                  And(self.eq(xs[0], ys[0], st), self.lex(op, xs[1:], ys[1:], st)))

    def sequence_of(self, x, st):
        if isinstance(x, VTuple):
            return Seq("tuple", list(x.items))
        c = st.content(x) if isinstance(x, VRef) else None
        return c if isinstance(c, Seq) and c.kind in ("tuple", "list") else None

    def lex_seq(self, op, xs, ys, st):
        """order of sequences, of which one is known element by element"""
        if isinstance(op, (ast.Gt, ast.GtE)):
            return self.lex_seq(ast.Lt() if isinstance(op, ast.Gt) else ast.LtE(), ys, xs, st)
        m = len(xs.items) if xs.items is not None else len(ys.items) if ys.items is not None else None
        if m is None:
            raise Unsupported("comparison of sequences")

        def go(i):
            end = ys.n > i if isinstance(op, ast.Lt) else ys.n >= i  # xs is over
            if i == m:
                return If(xs.n <= i, end, FALSE)
            s = st.copy()
            s.assume(And(xs.n > i, ys.n > i))
            if s.dead:
                return If(xs.n <= i, end, FALSE)
            p, q = xs.get(iv(i)), ys.get(iv(i))
            return If(xs.n <= i, end, If(ys.n <= i, FALSE, Or(
                self.compare(ast.Lt(), p, q, s), And(self.eq(p, q, s), go(i + 1)))))
        return go(0)

    def contains(self, cont, x, st):
        cont, x = force(cont), force(x)
        if isinstance(cont, VUnion):
            v = self.distribute(st, cont, lambda s, v: VBool(self.contains(self.unpoison(s, v, "?"), x, s)))
            return v.t if isinstance(v, VBool) else TRUE
        if isinstance(cont, VTuple):
            return Or(*[self.eq(x, y, st) for y in cont.items])
        if isinstance(cont, VStr) and cont.lit is not None and isinstance(x, VStr) and x.lit is not None:
            return b(x.lit in cont.lit)
        if isinstance(cont, VStr) and isinstance(x, VUnion):
            v = self.distribute(st, x, lambda s, v: VBool(self.contains(cont, self.unpoison(s, v, "?"), s)))
            return v.t if isinstance(v, VBool) else TRUE
        if isinstance(cont, VStr) and (x is VNone or isinstance(x, (VInt, VBool, VReal, VTuple))):
            self.do_raise(st, VExc(TypeError))
            return FALSE
        if isinstance(cont, VStr) and cont.lit is not None and isinstance(x, (VStr, VAny)) and len(cont.lit) <= 40:
            # part of a known text: one of its parts
            self.guard(st, tag(to_val(x)) == TAGS["str"], TypeError)
            return Or(*[to_val(x) == lit(y) for y in sorted({cont.lit[i:j] for i in range(len(cont.lit) + 1)
                                                             for j in range(i, len(cont.lit) + 1)})])
        if isinstance(cont, VRef):
            c = st.content(cont)
            if isinstance(c, Inst):
                r = self.call_method(cont, "__contains__", [x], {}, st)
                return self.truth(r, st)
            if isinstance(c, (Map, Dict, SetC)):
                self.plain_key(x, st)
            if isinstance(c, Map):
                return c.dom(to_val(x))
            if isinstance(c, Dict):
                if isinstance(x, VStr) and x.lit is not None:
                    return c.e[x.lit][0] if x.lit in c.e else FALSE
                t = to_val(x)
                return Or(*[And(p, Eq(t, lit(k))) for k, (p, v) in c.e.items() if isinstance(k, str)])
            if isinstance(c, SetC):
                return c.has(to_val(x))
            if isinstance(c, Seq):
                if c.items is not None:
                    return Or(*[self.eq(x, y, st) for y in c.items])
                t = Exists([I], lambda i: And(i >= 0, i < c.n, self.eq(c.get(i), x, st)))
                return self.named(st, t)
        if isinstance(cont, VAny):
            self.guard(st, Or(*[tag(cont.t) == TAGS[n] for n in ("dict", "list", "tuple", "set", "str")]), TypeError)
            if not st.dead and self.proves(st, tag(cont.t) == TAGS["dict"]):
                self.plain_key(x, st)
                return uhas(st, cont.t, to_val(x))
            t = Exists([I], lambda i: And(i >= 0, i < dlen(cont.t), dkey(cont.t, i) == to_val(x)))
            return self.named(st, t)
        if isinstance(cont, VExt) and cont.kind in ("keys", "dictkeys"):
            return self.contains(cont.data[0], x, st)
        if isinstance(cont, VExt) and cont.kind == "genexp":
            raise Unsupported("in generator")
        if isinstance(cont, VExt) and cont.kind == "range":
            a, c, step = cont.data
            if isinstance(x, VInt) and conc(step.t) == 1:
                return And(x.t >= a.t, x.t < c.t)
        raise Unsupported(f"in {cont!r}")

    def site(self, node):
        return (getattr(node, "lineno", 0), getattr(node, "col_offset", 0)) if node is not None else 0

    # -------------------------------------------------------------- strings

    def fstring(self, parts, st):
        """concatenation of pieces: literal text or (value, format spec)"""
        flat = []
        for p in parts:
            if isinstance(p, VStr):
                if p.lit is not None:
                    p = p.lit
                elif p.parts is not None:
                    flat.extend(p.parts)
                    continue
                else:
                    p = (p, "")
            if isinstance(p, tuple) and isinstance(p[0], VStr) and p[0].lit is not None and not p[1]:
                p = p[0].lit
            if isinstance(p, tuple) and isinstance(p[0], VInt) and conc(p[0].t) is not None and not p[1]:
                p = str(conc(p[0].t))
            if isinstance(p, str) and flat and isinstance(flat[-1], str):
                flat[-1] += p
            else:
                flat.append(p)
        if all(isinstance(p, str) for p in flat):
            return S("".join(flat))
        if len(flat) == 1 and isinstance(flat[0], tuple) and isinstance(flat[0][0], VStr) and not flat[0][1]:
            return flat[0][0]
        tmpl = "".join(p if isinstance(p, str) else "{" + p[1] + "}" for p in flat)
        try:
            args = [to_val(p[0]) for p in flat if not isinstance(p, str)]
            f = z3.Function("fmt!" + tmpl, *[Val] * len(args), Val)
            t = f(*args)
            st.assume(tag(t) == TAGS["str"])
            if len(args) == 1:
                # formatting one string or integer with fixed text around is injective
                p = [p for p in flat if not isinstance(p, str)][0]
                if isinstance(p[0], (VStr, VInt)) and not p[1]:
                    inv = z3.Function("unfmt!" + tmpl, Val, Val)
                    st.assume(inv(t) == args[0])
        except Unsupported:
            t = self.fresh("text", Val)
            st.assume(tag(t) == TAGS["str"])
        return VStr(t, None, tuple(flat))


def _quantified(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
    return False


def _lin(t):
    return z3.simplify(t)


def simp_cmp(t):
    s = z3.simplify(t)
    return s if z3.is_true(s) or z3.is_false(s) else t


def as_map(c):
    return dict_to_map(c) if isinstance(c, Dict) else c
