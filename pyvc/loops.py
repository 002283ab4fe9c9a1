"""Loops: unrolling, inferred closed forms (verified by re-execution) and
user supplied invariants."""
import ast

import z3

import smt
from core import *  # noqa
from core import _occurs, _Lazy
from stmts import Outcome

UNROLL = 16
ROUNDS = 9


class Cell:
    """a local variable or an instance / dictionary field carried by a loop"""

    def __init__(self, key, entry):
        self.key, self.entry = key, entry
        self.mode = "poison"        # poison | sym | closed
        self.sym = None
        self.closed = None          # kk -> V
        self.want = None
        self.facts = []             # what is known of a closed form

    @property
    def pname(self):
        return "loop:" + repr(self.key)


def assigned_names(stmts):
    out = []
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name and n.name not in out:
                out.append(n.name)
            elif isinstance(n, ast.FunctionDef) and n.name not in out:
                out.append(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    nm = (a.asname or a.name).split(".")[0]
                    if nm not in out:
                        out.append(nm)
    return out


def occurs(v, t):
    return z3.is_expr(t) and _occurs(v, t)


def v_occurs(k, v):
    """does term k occur in value v (conservative)"""
    v = force(v)
    if isinstance(v, (VInt, VBool, VReal, VAny, VStr)):
        return occurs(k, v.t)
    if isinstance(v, VTuple):
        return any(v_occurs(k, x) for x in v.items)
    if isinstance(v, VRef):
        return any(occurs(k, t) for t in v.idx)
    if isinstance(v, VUnion):
        return any(occurs(k, c) or v_occurs(k, x) for c, x in v.alts)
    return False


def strip(c):
    """the same content without lineage"""
    if isinstance(c, Seq):
        if c.lin is None:
            return c
        return Seq(c.kind, c.items) if c.items is not None else Seq(c.kind, n=c.n, get=c.get)
    if isinstance(c, Map):
        return c if c.lin is None else Map(c.n, c.at, c.dom, c.pos, c.val, None, c.strkeys)
    if isinstance(c, SetC):
        return c if c.lin is None else SetC(c.items, c._has, c.n)
    return c


class LoopMixin:
    # ------------------------------------------------------------ iteration

    def iterate(self, v, st):
        """(number of elements, element at index) of an iterable"""
        v = force(v)
        if isinstance(v, VExt) and v.kind in self.ext_iters:
            return self.ext_iters[v.kind](self, v, st)
        if isinstance(v, VTuple):
            s = Seq("tuple", list(v.items))
            return s.n, s.get
        if isinstance(v, VRef):
            c = st.content(v)
            if isinstance(c, Seq):
                return c.n, c.get
            if isinstance(c, Dict):
                if getattr(c, "open", False):
                    raise Unsupported("iteration over an open dictionary")
                if all(is_true(p) for p, _ in c.e.values()):
                    s = Seq("list", [self.lift(k, st) for k in c.e])
                    return s.n, s.get
                return self.iterate_optional(c, st)
            if isinstance(c, Map):
                return c.n, c.key
            if isinstance(c, SetC):
                if c.items is not None and all(isinstance(x, VStr) and x.lit is not None for x in c.items):
                    if len(c.items) <= 1:
                        s = Seq("list", list(c.items))
                        return s.n, s.get
                return self.enum_set(c, st)
            if isinstance(c, Inst):
                return self.iterate_inst(v, c, st)
        if isinstance(v, VAny):
            t = v.t
            isd = [tag(t) == TAGS[x] for x in ("dict", "list", "tuple", "set", "str", "other")]
            self.guard(st, Or(*isd), TypeError, "not iterable")
            if st.dead:
                return iv(0), lambda i: VNone
            if not self.proves(st, Or(*isd[:5])):
                f = z3.Function("iterable!", Val, B)
                self.guard(st, Implies(tag(t) == TAGS["other"], f(t)), TypeError, "not iterable")
            no_user_writes(st)
            return dlen(t), lambda i: VAny(dkey(t, i))
        if isinstance(v, VExt):
            h = getattr(self, "iter_" + v.kind, None)
            if h is not None:
                self.use_up(v)
                return h(v, st)
        if v is VNone or isinstance(v, (VInt, VBool, VReal)):
            self.do_raise(st, VExc(TypeError))
            return iv(0), lambda i: VNone
        raise Unsupported(f"iteration over {v!r}")

    def iterator(self, kind, data):
        """a value that can be consumed once"""
        return VExt(kind, data, [[x.get_id() for x in self.ambient], False])

    def use_up(self, v):
        if v.use is None:
            return
        if v.use[1] or v.use[0] != [x.get_id() for x in self.ambient]:
            raise Unsupported("an iterator may be consumed again")
        v.use[1] = True

    def iterate_optional(self, c, st):
        """a dictionary with known but optional keys"""
        m = dict_to_map_optional(c)
        return m.n, m.key

    def iterate_inst(self, v, c, st):
        import types
        f = self.static_attr(c.cls, "__iter__")
        if isinstance(f, types.FunctionType):
            r = self.call_method(v, "__iter__", [], {}, st)
            if st.dead:
                return iv(0), lambda i: VNone
            return self.iterate(r, st)
        raise Unsupported(f"iteration over {c.cls.__name__}")

    def iter_iter(self, v, st):
        return self.iterate(v.data[0], st)

    iter_generator = iter_iter

    def iter_keys(self, v, st):
        return self.iterate(v.data[0], st)

    def iter_items(self, v, st):
        d = v.data[0]
        if isinstance(d, VAny):
            n, el = self.iterate(d, st)
            return n, lambda i: VTuple((VAny(dkey(d.t, i)), VAny(dget(d.t, dkey(d.t, i)))))
        c = st.content(d)
        if isinstance(c, Dict):
            n, el = self.iterate(d, st)
            s = Seq("list", [VTuple((self.lift(k, st), x)) for k, (p, x) in c.e.items()])
            return s.n, s.get
        return c.n, lambda i: VTuple((c.key(i), c.val(c.at(i))))

    def iter_values(self, v, st):
        d = v.data[0]
        if isinstance(d, VAny):
            n, el = self.iterate(d, st)
            return n, lambda i: VAny(dget(d.t, dkey(d.t, i)))
        c = st.content(d)
        if isinstance(c, Dict):
            n, el = self.iterate(d, st)
            s = Seq("list", [x for k, (p, x) in c.e.items()])
            return s.n, s.get
        return c.n, lambda i: c.val(c.at(i))

    def iter_range(self, v, st):
        a, c, step = [to_int(x) for x in v.data]
        s = conc(step)
        if s is None:
            return self.range_by(a, c, step, st)
        if s == 0:
            raise Unsupported("range step")
        if s == 1:
            n = c - a
        elif s == -1:
            n = a - c
        elif s > 0:
            n = (c - a + (s - 1)) / s
        else:
            n = (a - c + (-s - 1)) / (-s)
        n = simp(n)
        if conc(n) is None:
            if not self.proves(st, n >= 0):
                n = z3.If(n > 0, n, iv(0))
        else:
            n = iv(max(0, conc(n)))
        return n, lambda i: VInt(simp(a + s * i))

    def range_by(self, a, c, step, st):
        """a range with a step that is not known; an uninterpreted function gives
        its elements, to keep the products out of sight"""
        self.guard(st, step != 0, ValueError, "range step")
        if st.dead:
            return iv(0), lambda i: VNone
        if not self.proves(st, step > 0):
            raise Unsupported("range step")
        n, el = self.fresh("range", I), self.fresh_fn("range.at", I, I)
        if self.ambient:
            raise Unsupported("range step in a loop")
        st.assume(And(n >= 0, (n == 0) == (c <= a), Implies(n > 0, And((n - 1) * step < c - a, c - a <= n * step)),
                      Implies(n > 0, el(iv(0)) == a)))
        st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < n), And(el(i) == a + step * i, el(i) >= a, el(i) < c)),
                         lambda i: [el(i)]))
        return n, lambda i: VInt(el(i))

    def iter_enumerate(self, v, st):
        n, el = self.iterate(v.data[0], st)
        start = to_int(v.data[1])
        return n, lambda i: VTuple((VInt(simp(start + i)), el(i)))

    def iter_zip(self, v, st):
        its = [self.iterate(x, st) for x in v.data]
        n = its[0][0]
        for m, _ in its[1:]:
            n = If(n <= m, n, m)
        return simp(n), lambda i: VTuple(el(i) for _, el in its)

    def iter_reversed(self, v, st):
        n, el = self.iterate(v.data[0], st)
        return n, lambda i: el(simp(n - 1 - i))

    def enum_set(self, c, st):
        """some enumeration of a set without repetitions"""
        self.nondet.add("the order of a set")
        at = self.fresh_fn("elem", I, Val)
        pos = self.fresh_fn("epos", Val, I)
        n = self.fresh("card", I)
        self.reg_inverse(at, pos, st)
        st.assume(n >= 0)
        if c.items is not None:
            st.assume(n <= len(c.items))
            if all(isinstance(x, VStr) and x.lit is not None for x in c.items) and len({x.lit for x in c.items}) == len(c.items):
                n = iv(len(c.items))
        st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < n), c.has(at(i))), lambda i: [at(i)]))
        st.assume(ForAll([Val], lambda x: Implies(c.has(x), And(pos(x) >= 0, pos(x) < n, at(pos(x)) == x)),
                         lambda x: [pos(x)]))
        if getattr(c, "made_of", None) is not None:
            # as many as there are places in the sequence, unless two are equal
            m, get = c.made_of
            i1, i2 = self.fresh("twin", I), self.fresh("twin", I)
            st.assume(n <= m)
            st.assume(Implies(n == m, ForAll([I, I], lambda i, j: Implies(
                And(i >= 0, i < j, j < m), to_val(get(i)) != to_val(get(j))))))
            st.assume(Or(n == m, And(i1 >= 0, i1 < i2, i2 < m, to_val(get(i1)) == to_val(get(i2)))))
        strs = c.items is not None and all(isinstance(x, VStr) for x in c.items) or getattr(c, "strs", False)
        return n, (lambda i: VStr(at(i))) if strs else (lambda i: VAny(at(i)))

    def reg_inverse(self, at, pos, st):
        """pos(at(i)) = i for every i (positions out of range are unconstrained names)"""
        t = at(iv(0))
        self.inverses[t.decl().name()] = (t.children()[:-1], pos)
        st.assume(ForAll([I], lambda i: pos(at(i)) == i, lambda i: [at(i)]))

    # ------------------------------------------------------------ driver

    def loop(self, node, st, n, elem, target, body, orelse):
        src, self.iter_src = self.iter_src, []
        if n is None:
            src = []
        for h in self.loop_hooks:
            r = h(self, node, st, n, elem, target, body, orelse, src)
            if r is not None:
                return r
        cn = conc(n) if n is not None else None
        if cn is not None and cn <= UNROLL:
            return self.unroll(node, st, cn, elem, target, body, orelse, src)
        start = st.copy()
        try:
            return self.summarize(node, st, n, elem, target, body, orelse, src)
        except FirstDiffers:
            if n is None:
                raise
        return self.first_apart(node, start, n, elem, target, body, orelse, src)

    def first_apart(self, node, st, n, elem, target, body, orelse, src):
        """the first iteration on its own, then the others"""
        none, some = st.copy(), st.copy()
        none.assume(n <= 0)
        some.assume(n > 0)
        outs = []
        if not self.infeasible(st, n <= 0):
            outs += self.run_block(orelse, none) if orelse else [Outcome("next", none)]
        saved = self.path
        self.path = saved + (("it", self.site(node), 0),)
        try:
            if target is not None:
                self.assign(target, elem(iv(0)), some)
            b4 = some.copy() if src else None
            res = self.run_block(body, some)
        finally:
            self.path = saved
        nxt = []
        for o in res:
            if o.st.dead:
                continue
            if o.kind in ("next", "continue"):
                if src:
                    self.check_sources(src, b4, o.st)
                nxt.append(o.st)
            elif o.kind == "break":
                outs.append(Outcome("next", o.st))
            else:
                outs.append(o)
        if nxt:
            cur = nxt[0] if len(nxt) == 1 else self.merge_many(0, [(s, None) for s in nxt])[0]
            outs += self.summarize(node, cur, simp(n - 1), lambda i: elem(simp(i + 1)), target, body, orelse, src)
        return self.join(outs)

    def unroll(self, node, st, n, elem, target, body, orelse, src=()):
        outs, cur = [], st
        saved = self.path
        for i in range(n):
            self.path = saved + (("it", self.site(node), i),)
            if target is not None:
                self.assign(target, elem(iv(i)), cur)
            b4 = cur.copy() if src else None
            res = self.run_block(body, cur)
            nxt = []
            for o in res:
                if o.st.dead:
                    continue
                if o.kind in ("next", "continue"):
                    if src and i < n - 1:
                        self.check_sources(src, b4, o.st)
                    nxt.append(o.st)
                elif o.kind == "break":
                    outs.append(Outcome("next", o.st))
                else:
                    outs.append(o)
            if not nxt:
                self.path = saved
                return self.join(outs)
            cur = nxt[0] if len(nxt) == 1 else self.merge_many(0, [(s, None) for s in nxt])[0]
        self.path = saved
        outs += self.run_block(orelse, cur) if orelse else [Outcome("next", cur)]
        return self.join(outs)

    def join(self, outs):
        """one 'next' outcome"""
        nxt = [o for o in outs if o.kind == "next" and not o.st.dead]
        rest = [o for o in outs if o.kind != "next" and not o.st.dead]
        if len(nxt) > 1:
            s, _ = self.merge_many(0, [(o.st, None) for o in nxt])
            nxt = [Outcome("next", s)]
        return nxt + rest

    # --------------------------------------------------- inferred summaries

    def summarize(self, node, st0, n, elem, target, body, orelse, src=()):
        if n is not None:
            if is_true(simp(n <= 0)) or self.infeasible(st0, n > 0):
                return self.run_block(orelse, st0) if orelse else [Outcome("next", st0)]
        k = self.fresh_index()
        mark = self.fresh_n
        names = assigned_names(body) + (assigned_names([ast.Assign([target], ast.Constant(0))]) if target is not None else [])
        names = list(dict.fromkeys(names))
        cells = {}
        for x in names:
            cells[("env", x)] = Cell(("env", x), st0.env.get(x, VPoison(x)))
        objs = {}         # (fam, idx) -> kk -> content
        fams = {}         # fam -> kk -> Tmpl      (indexed writes)
        news = {}         # fam -> Tmpl (k occurs)
        prev = None
        site = ("loop",) + self.site(node)
        for rnd in range(ROUNDS):
            self.fresh_n = mark
            self.loop_name = (mark, rnd)
            self.loop_c = 0
            try:
                run = self.body_run(st0, k, n, elem, target, body, cells, objs, fams, news, site)
            except PoisonRead as e:
                c = [c for c in cells.values() if c.pname == e.name]
                if not c:
                    raise
                v0 = force(c[0].entry)
                if isinstance(v0, VPoison) and v0.name.startswith("loop:"):
                    raise PoisonRead(v0.name)  # carried by the loop around this one, too
                c[0].mode = "sym" if c[0].mode == "poison" else c[0].mode
                if v0 is VNone and n is not None:
                    raise FirstDiffers(f"carried variable {c[0].key}")
                if v0 is VNone or not isinstance(force(c[0].entry), (VInt, VBool, VReal, VTuple)):
                    raise Unsupported(f"carried variable {c[0].key}")
                prev = None
                continue
            E, base2, S = run["E"], run["base"], run["S"]
            if E is None:
                # the body never completes an iteration
                return self.finish(node, st0, run, k, n, cells, {}, {}, {}, [], orelse, elem, target, never=True)
            self.loop_name, self.loop_c = (mark, rnd), 0
            for fam in [f for f in E.heap if f[0] == "g" and f not in st0.heap]:
                st0.heap[fam] = E.heap[fam].root()
                S.heap[fam] = E.heap[fam].root()
            eff = self.effects(S, E, k, cells, news)
            eff["cond"] = E.pc[base2:]
            changed = self.update_guess(st0, S, E, k, eff, cells, objs, fams, news, prev, n, base2)
            if not changed:
                self.check_sources(src, S, E)
                facts = E.pc[base2:]
                return self.finish(node, st0, run, k, n, cells, objs, fams, news, facts, orelse, elem, target)
            prev = eff
        raise Unsupported("loop summary does not converge")

    def loop_fn(self, name, *sorts):
        """function of a closed form: named after the loop, deterministic"""
        nm = f"{name}!L{self.loop_name[0]}r{self.loop_name[1]}_{self.loop_c}"
        self.loop_c += 1
        amb = list(self.ambient)
        f = z3.Function(nm, *[a.sort() for a in amb], *sorts)
        return nm, f, (lambda *xs: f(*amb, *xs))

    def register_sum(self, rec):
        if rec.name in smt.SUMS:
            self.fact_memo.clear()
        smt.SUMS[rec.name] = rec

    def fresh_index(self):
        n = self.fresh_n
        self.fresh_n += 1
        return z3.Const(f"k!{n}", I)

    def next_id(self):
        return self.fresh_n

    def body_run(self, st0, k, n, elem, target, body, cells, objs, fams, news, site):
        S = st0.copy()
        S.env = dict(st0.env)
        S.assume(k >= 0)
        if n is not None:
            S.assume(k < n)
        for f in self.guess_facts(cells, objs):
            S.assume(f)
        self.install(S, k, cells, objs, fams, news, k)
        outer, self.raises = self.raises, []
        saved_path = self.path
        depth, fr = len(self.ambient), self.fr
        self.ambient = self.ambient + [k]
        self.path = self.path + (site,)
        nstack = len(self.stack)
        S0 = S.copy()
        try:
            if target is not None:
                self.assign(target, elem(k), S)
            base2 = len(S.pc)
            nex = [Outcome("next", S)] if not S.dead else []
            outs = self.run_block(body, S)
        finally:
            mine, self.raises = self.raises, outer
            self.ambient = self.ambient[:depth]
            self.path = saved_path
            self.fr = fr
            del self.stack[nstack:]
        nxt = [o.st for o in outs if o.kind in ("next", "continue") and not o.st.dead]
        nxt = [s for s in nxt if not self.quick_dead(s)]
        other = [o for o in outs if o.kind not in ("next", "continue") and not o.st.dead]
        E = None
        base2 = len(S0.pc)
        if nxt:
            self.ambient = self.ambient + [k]
            try:
                E = nxt[0] if len(nxt) == 1 else self.merge_many(base2, [(s, None) for s in nxt])[0]
            finally:
                self.ambient = self.ambient[:depth]
        return {"E": E, "S": S0, "outs": other, "raises": mine, "base": base2}

    def guess_facts(self, cells, objs):
        return [f for o in list(objs.values()) for f in o["facts"]] + [
            f for c in cells.values() if c.mode == "closed" for f in c.facts]

    def quick_dead(self, s):
        return any(z3.is_false(f) for f in s.pc)

    def install(self, S, kk, cells, objs, fams, news, kconst):
        """turn S (a copy of the entry state) into the state before iteration kk"""
        for fam, f in fams.items():
            S.heap[fam] = f(kk)
        for fam, t in news.items():
            S.heap[fam] = t
        for (fam, idx), o in objs.items():
            S.heap[fam] = fresh_put(S.heap[fam], idx, o["f"](kk))
        for c in cells.values():
            v = self.cell_value(c, kk)
            self.set_cell(S, c, v)

    def cell_value(self, c, kk):
        if c.mode == "poison":
            return VPoison(c.pname)
        if c.mode == "sym":
            if c.sym is None or c.want is not None:
                c.sym = self.sym_like(c.want if c.want is not None else force(c.entry), c)
                c.want = None
            return c.sym
        return c.closed(kk)

    def sym_like(self, v, c):
        nm = "X!" + "_".join(str(x) for x in c.key) + f"!{self.fresh_n}"
        if isinstance(v, VBool):
            return VBool(z3.Const(nm, B))
        if isinstance(v, VInt):
            return VInt(z3.Const(nm, I))
        if isinstance(v, VReal):
            return VReal(z3.Const(nm, R))
        if isinstance(v, VTuple):
            out = []
            for i, x in enumerate(v.items):
                x = force(x)
                out.append({VBool: VBool, VInt: VInt, VReal: VReal}[type(x)](
                    z3.Const(f"{nm}_{i}", {VBool: B, VInt: I, VReal: R}[type(x)])))
            return VTuple(out)
        raise Unsupported(f"carried value {v!r}")

    def set_cell(self, S, c, v):
        if c.key[0] == "env":
            S.env[c.key[1]] = v
            return
        _, fam, idx, name = c.key
        o = S.heap[fam].get(idx)
        if isinstance(o, Inst):
            S.heap[fam] = fresh_put(S.heap[fam], idx, o.set(name, v))
        else:
            S.heap[fam] = fresh_put(S.heap[fam], idx, o.set(name, v))

    def get_cell(self, S, c):
        if c.key[0] == "env":
            return S.env.get(c.key[1], VPoison(c.key[1]))
        _, fam, idx, name = c.key
        o = S.heap[fam].get(idx)
        if isinstance(o, Inst):
            return o.f.get(name, VPoison(name))
        return o.e[name][1]

    # effects of one iteration -------------------------------------------

    def effects(self, S, E, k, cells, news):
        eff = {"objs": {}, "idx": {}, "new": {}, "fields": {}}
        for fam, t in E.heap.items():
            s = S.heap.get(fam)
            if s is t:
                continue
            if s is None or fam in news:
                eff["new"][fam] = t
                continue
            if t.root() is not s.root():
                raise Unsupported("lost lineage of an object family")
            if len(t.entries()) < len(s.entries()) or any(
                    x is not y for x, y in zip(s.entries(), t.entries())):
                raise Unsupported("lost lineage of an object family")
            done = []
            for idx, _ in t.entries()[len(s.entries()):]:
                if any(all(a.eq(d) for a, d in zip(i, idx)) for i in done):
                    continue
                done.append(idx)
                c = t.get(idx)
                if any(occurs(k, x) for x in idx):
                    if len([i for i in done if any(occurs(k, x) for x in i)]) > 1:
                        raise Unsupported("two indexed writes to one family")
                    eff["idx"][fam] = (idx, c)
                else:
                    self.obj_effect(eff, fam, idx, s.get(idx), c, E)
        return eff

    def obj_effect(self, eff, fam, idx, cS, cE, E):
        if cS is cE:
            return
        key = (fam, idx)
        if isinstance(cS, Inst):
            for f in list(cE.f):
                x, y = cS.f.get(f), cE.f[f]
                if x is not y and not (x is not None and x.same(y)):
                    eff["fields"][key + (f,)] = y
            return
        if isinstance(cS, Dict) and isinstance(cE, Dict):
            for f in list(cE.e):
                if f not in cS.e or not cS.e[f][0].eq(cE.e[f][0]):
                    raise Unsupported("key added to a dictionary in a loop")
                x, y = cS.e[f][1], cE.e[f][1]
                if not x.same(y):
                    eff["fields"][key + (f,)] = y
            if len(cS.e) != len(cE.e):
                raise Unsupported("key removed in a loop")
            return
        if isinstance(cS, Dict) and isinstance(cE, Map):
            eff["objs"][key] = ("map", list(cE.entries()))
            return
        if cE.lin is None or isinstance(cE, Seq) and cE.root() is not cS and cE.root() is not cS.root():
            run = self.appended_run(cS, cE, E) if isinstance(cE, Seq) and isinstance(cS, Seq) else None
            if run is None:
                raise Unsupported(f"untracked change of a {type(cE).__name__} in a loop")
            eff["objs"][key] = ("seq", [run])
            return
        ents = list(cE.entries())
        if cE.root() is cS:
            pass
        elif cE.root() is cS.root() and len(cS.entries()) <= len(ents) and all(
                x is y for x, y in zip(cS.entries(), ents)):
            ents = ents[len(cS.entries()):]
        else:
            raise Unsupported("lost lineage in a loop")
        if not ents:
            return
        eff["objs"][key] = ({Seq: "seq", Map: "map", SetC: "set"}[type(cE)], ents)

    def appended_run(self, cS, cE, E):
        """cE is cS with some values (of an inner loop, say) after it"""
        d = simp(cE.n - cS.n)
        i = z3.FreshConst(I, "i")
        if not self.proves(E, d >= 0):
            return None
        if conc(cS.n) != 0 and not self.v_equal(cE.get(i), cS.get(i), E, And(i >= 0, i < cS.n)):
            return None
        return ("run", d, lambda p: cE.get(simp(cS.n + p)))

    # next guess -----------------------------------------------------------

    def update_guess(self, st0, S, E, k, eff, cells, objs, fams, news, prev, n, base2):
        changed = False
        # objects allocated by the body
        for fam, t in eff["new"].items():
            if any(occurs(k, x) for x in ()) or fam not in news:
                changed = True
            elif not self.same_new(fam, news[fam], t, k, E):
                changed = True
            news[fam] = self.new_family(fam, t, k)
        # fields: become cells
        for key, v in eff["fields"].items():
            ck = ("fld",) + key
            if ck not in cells:
                fam, idx, name = key
                o = st0.heap[fam].get(idx) if fam in st0.heap else None
                ent = None
                if isinstance(o, Inst):
                    ent = o.f.get(name, VPoison(name))
                elif isinstance(o, Dict):
                    ent = o.e[name][1]
                cells[ck] = Cell(ck, ent)
                changed = True
        # carried cells
        for c in cells.values():
            if c.key[0] == "fld" and c.key[1] in eff["new"]:
                continue
            vE = self.get_cell(E, c)
            if c.mode == "sym":
                if self.close_sym(c, vE, k, cells, E):
                    changed = True
            elif c.mode == "closed":
                want = c.closed(simp(k + 1))
                if not self.v_equal(vE, want, E):
                    raise Unsupported(f"carried variable {c.key} has no closed form")
        # containers
        for key, (kind, ents) in eff["objs"].items():
            old = prev["objs"].get(key) if prev else None
            if key in objs and old is not None and self.same_entries(old[1], ents, E):
                continue
            fam, idx = key
            c0 = strip(st0.heap[fam].get(idx))
            facts = []
            f = self.closed_obj(kind, c0, ents, k, n, facts, st0)
            objs[key] = {"f": f, "facts": facts}
            changed = True
        for key in list(objs):
            if key not in eff["objs"]:
                if not (prev and key not in prev["objs"]):
                    del objs[key]
                    changed = True
        # indexed families
        for fam, (idx, c) in eff["idx"].items():
            old = prev["idx"].get(fam) if prev else None
            if fam in fams and old is not None and all(a.eq(d) for a, d in zip(old[0], idx)) and self.c_equal(old[1], c, E):
                continue
            fams[fam] = self.closed_family(fam, st0.heap[fam], idx, c, k, E, st0)
            changed = True
        return changed

    def new_family(self, fam, t, k):
        """template of a family allocated in the body, valid for all indices"""
        idxs = []
        for idx, _ in t.entries():
            if not any(all(a.eq(d) for a, d in zip(i, idx)) for i in idxs):
                idxs.append(idx)
        amb = tuple(self.ambient) + (k,)
        idx0 = None
        for i in idxs:
            if len(i) >= len(amb) and all(x.eq(y) for x, y in zip(i[:len(amb)], amb)):
                if all(x.eq(y) for x, y in zip(i, amb)) and len(i) == len(amb):
                    idx0 = i
                else:
                    return self.inner_family(fam, t, k, amb)
            else:
                raise Unsupported("write to an object of another iteration")
        if idx0 is None:
            return self.inner_family(fam, t, k, amb)
        content = strip(t.get(idx0))

        def get(i):
            if all(x.eq(y) for x, y in zip(i, idx0)):
                return content
            return content.subst([(x, y) for x, y in zip(idx0, i) if not x.eq(y)])

        return Tmpl(get, t.arity)

    def inner_family(self, fam, t, k, amb):
        """family allocated by an inner loop of this body: index (amb..., inner)"""
        m = len(amb)
        old = t

        def get(i):
            pairs = [(x, y) for x, y in zip(amb, i[:m]) if not x.eq(y)]
            if not pairs:
                return old.get(i)
            fr = [z3.FreshConst(x.sort(), "ix") for x in i[m:]]
            c = old.get(tuple(amb) + tuple(fr))
            return strip(c).subst(pairs + [(f, y) for f, y in zip(fr, i[m:])])

        return Tmpl(get, t.arity)

    def same_new(self, fam, old, new, k, E):
        amb = tuple(self.ambient) + (k,)
        if old.arity == len(amb):
            return self.c_equal(old.get(amb), new.get(amb), E)
        sorts = (FAMSORTS.get(fam) or [I] * old.arity)[len(amb):]
        extra = [z3.FreshConst(s, "ix") for s in sorts]
        try:
            return self.c_equal(old.get(amb + tuple(extra)), new.get(amb + tuple(extra)), E)
        except Unsupported:
            return False

    def same_entries(self, a, c, E):
        if len(a) != len(c):
            return False
        for x, y in zip(a, c):
            if x[0] != y[0]:
                return False
            if x[0] in ("app", "set", "del", "add"):
                if not self.t_equal(x[1], y[1], E):
                    return False
                for p, q in zip(x[2:], y[2:]):
                    if isinstance(p, V):
                        if not self.v_equal(p, q, E):
                            return False
                    elif not self.t_equal(p, q, E):
                        return False
            elif x[0] == "addp":
                t = z3.FreshConst(Val, "v")
                if not self.t_equal(b(x[2](t)), b(y[2](t)), E):
                    return False
            elif x[0] == "run":
                i = z3.FreshConst(I, "i")
                if not self.t_equal(x[1], y[1], E) or not self.v_equal(x[2](i), y[2](i), E, And(i >= 0, i < x[1])):
                    return False
            elif x[0] == "upd":
                i = z3.FreshConst(I, "i")
                if not self.t_equal(b(x[1](i)), b(y[1](i)), E):
                    return False
                if not self.v_equal(x[2](i), y[2](i), E, x[1](i)):
                    return False
            else:
                return False
        return True

    def t_equal(self, x, y, E):
        if x.eq(y):
            return True
        if x.sort() != y.sort():
            return False
        return self.proves(E, x == y)

    def v_equal(self, x, y, E, under=None):
        x, y = force(x), force(y)
        if x is y or x.same(y):
            return True
        t = self.v_eq_term(x, y)
        if t is None:
            return False
        if under is not None:
            t = Implies(under, t)
        return self.proves(E, t)

    def v_eq_term(self, x, y):
        """x and y are the same value (identity for references); None: cannot be"""
        x, y = force(x), force(y)
        if x is y or x.same(y):
            return TRUE
        if isinstance(x, VUnion):
            cs = [(c, self.v_eq_term(v, y)) for c, v in x.alts]
            return And(*[Implies(c, t if t is not None else FALSE) for c, t in cs])
        if isinstance(y, VUnion):
            return self.v_eq_term(y, x)
        if type(x) is not type(y):
            if {type(x), type(y)} <= {VStr, VAny}:
                return x.t == y.t
            return None
        if isinstance(x, VBool):
            return Iff(x.t, y.t)
        if isinstance(x, (VInt, VReal, VAny, VStr)):
            return x.t == y.t
        if isinstance(x, VTuple):
            if len(x.items) != len(y.items):
                return None
            ts = [self.v_eq_term(p, q) for p, q in zip(x.items, y.items)]
            return None if any(t is None for t in ts) else And(*ts)
        if isinstance(x, VRef):
            if x.fam != y.fam or len(x.idx) != len(y.idx):
                return None
            return And(*[p == q for p, q in zip(x.idx, y.idx)])
        if isinstance(x, VPoison):
            return TRUE
        return None

    def c_equal(self, x, y, E):
        if isinstance(x, _Lazy) or isinstance(y, _Lazy):
            return False
        t = self.c_eq_term(x, y)
        return t is not None and self.proves(E, t)

    def c_eq_term(self, x, y):
        if x is y:
            return TRUE
        if type(x) is not type(y):
            return None
        if isinstance(x, Inst):
            if set(x.f) != set(y.f):
                return None
            ts = [self.v_eq_term(x.f[n], y.f[n]) for n in x.f]
        elif isinstance(x, Dict):
            if set(x.e) != set(y.e):
                return None
            ts = []
            for n in x.e:
                t = self.v_eq_term(x.e[n][1], y.e[n][1])
                ts += [Iff(x.e[n][0], y.e[n][0]), None if t is None else Implies(x.e[n][0], t)]
        elif isinstance(x, Seq):
            if x.items is not None and y.items is not None:
                if len(x.items) != len(y.items):
                    return None
                ts = [self.v_eq_term(p, q) for p, q in zip(x.items, y.items)]
            else:
                i = z3.FreshConst(I, "i")
                t = self.v_eq_term(x.get(i), y.get(i))
                ts = [x.n == y.n, None if t is None else z3.Implies(z3.And(i >= 0, i < x.n), t)]
        elif isinstance(x, Map):
            i, v = z3.FreshConst(I, "i"), z3.FreshConst(Val, "v")
            t = self.v_eq_term(x.val(v), y.val(v))
            ts = [x.n == y.n, z3.Implies(z3.And(i >= 0, i < x.n), x.at(i) == y.at(i)),
                  b(x.dom(v)) == b(y.dom(v)), None if t is None else Implies(x.dom(v), t)]
        elif isinstance(x, SetC):
            v = z3.FreshConst(Val, "v")
            ts = [b(x.has(v)) == b(y.has(v))]
        else:
            return None
        if any(t is None for t in ts):
            return None
        return And(*ts)

    # closed forms -----------------------------------------------------------

    def close_sym(self, c, vE, k, cells, E):
        """closed form of an accumulator; True when the guess changed"""
        X, vE, v0 = c.sym, force(vE), force(c.entry)
        if isinstance(vE, VUnion):
            raise Unsupported(f"carried variable {c.key}")
        if isinstance(vE, VReal) and isinstance(X, VInt):
            c.want = VReal(iv(0))
            c.entry = VReal(to_real(v0))
            return True
        if type(vE) is not type(X) or not isinstance(X, (VInt, VReal, VBool)):
            raise Unsupported(f"carried variable {c.key}")
        if any(d.mode == "sym" and d is not c and v_occurs(d.sym.t, vE) for d in cells.values()
               if d.mode == "sym" and not isinstance(d.sym, VTuple)):
            raise Unsupported("mutually dependent accumulators")
        mk = type(X)
        x0 = v0.t if mk is not VReal else to_real(v0)
        amb = list(self.ambient)
        if isinstance(X, VBool):
            t1 = simp(z3.substitute(vE.t, (X.t, TRUE)))
            t0 = simp(z3.substitute(vE.t, (X.t, FALSE)))
            if z3.is_true(t1):
                c.closed = lambda kk: VBool(Or(x0, Exists([I], lambda j: And(j >= 0, j < kk, z3.substitute(t0, (k, j))))))
            elif z3.is_false(t0):
                c.closed = lambda kk: VBool(And(x0, ForAll([I], lambda j: Implies(
                    And(j >= 0, j < kk), z3.substitute(t1, (k, j))))))
            else:
                raise Unsupported(f"flag {c.key}")
            c.mode = "closed"
            return True
        d = simp(vE.t - X.t)
        if not occurs(X.t, d):
            if not occurs(k, d):
                c.closed = lambda kk: mk(simp(x0 + d * (kk if mk is VInt else z3.ToReal(kk))))
            else:
                nm, P, _ = self.loop_fn("acc", I, R if mk is VReal else I)
                self.register_sum(smt.SumRec(nm, P, amb, lambda i: z3.substitute(d, (k, i))))
                c.closed = lambda kk: mk(x0 + P(*amb, kk))
        else:
            nm, F, _ = self.loop_fn("fold", I, R if mk is VReal else I)
            step = vE.t
            self.register_sum(smt.FoldRec(nm, F, amb, x0, lambda i: z3.substitute(step, (k, i), (X.t, F(*amb, i)))))
            c.closed = lambda kk: mk(F(*amb, kk))
            c.facts = self.extremum(X.t, step, x0, k, F, amb, E)
        c.mode = "closed"
        return True

    def extremum(self, X, step, x0, k, F, amb, E):
        """facts of a fold that keeps the better of two by a key, proved by induction
        on the number of iterations from the fact that <= is a total preorder:
        step = e(k) if key(e(k)) is beyond key(X) else X"""
        if not z3.is_app_of(step, z3.Z3_OP_ITE):
            return []
        cond, e, other = step.children()
        neg = False
        if e.eq(X):
            e, other, neg = other, e, True
        if not other.eq(X) or occurs(X, e):
            return []
        while z3.is_not(cond):
            cond, neg = cond.arg(0), not neg
        if z3.is_app_of(cond, z3.Z3_OP_GT) or z3.is_app_of(cond, z3.Z3_OP_GE):
            hi, lo = cond.children()
        elif z3.is_app_of(cond, z3.Z3_OP_LT) or z3.is_app_of(cond, z3.Z3_OP_LE):
            lo, hi = cond.children()
        else:
            return []
        if neg:
            lo, hi = hi, lo
        # the new one is taken when lo < hi (or lo <= hi)
        if occurs(X, lo) and not occurs(X, hi):
            keyX, keye, up = lo, hi, True
        elif occurs(X, hi) and not occurs(X, lo):
            keyX, keye, up = hi, lo, False
        else:
            return []
        if occurs(k, keyX) or not self.t_equal(simp(z3.substitute(keyX, (X, e))), simp(keye), E):
            return []
        _, _, at = self.loop_fn("won", I, I)
        val = lambda q: F(*amb, q)  # noqa
        key = lambda t: z3.substitute(keyX, (X, t))  # noqa
        ej = lambda j: z3.substitute(e, (k, j))  # noqa
        keyj = lambda j: z3.substitute(keye, (k, j))  # noqa
        le = (lambda p, q: p <= q) if up else (lambda p, q: q <= p)
        return [
            ForAll([I], lambda q: Implies(q >= 0, And(
                Or(val(q) == x0, And(at(q) >= 0, at(q) < q, val(q) == ej(at(q)))),
                le(key(x0), key(val(q))))), lambda q: [val(q)]),
            ForAll([I, I], lambda q, j: Implies(And(j >= 0, j < q), le(keyj(j), key(val(q)))),
                   lambda q, j: [z3.MultiPattern(keyj(j), val(q))])]

    def poison_closed(self, c, E, k, facts):
        """value of an unread cell before iteration kk, from its last write"""
        vE = force(self.get_cell(E, c))
        v0 = c.entry if c.entry is not None else VPoison("unbound")
        if isinstance(vE, VPoison) and vE.name == c.pname:
            return lambda kk: v0
        if isinstance(vE, VUnion) and any(isinstance(x, VPoison) and x.name == c.pname for _, x in vE.alts):
            new = [(q, x) for q, x in vE.alts if not (isinstance(x, VPoison) and x.name == c.pname)]
            cond = Or(*[q for q, _ in new])
            val = new[-1][1]
            for q, x in reversed(new[:-1]):
                val = merge(q, x, val)
            _, _, last = self.loop_fn("last", I, I)
            cj = lambda j: z3.substitute(cond, (k, j))  # noqa
            facts.append(ForAll([I], lambda q: Implies(q >= 0, And(
                last(q) >= -1, last(q) < q, Implies(last(q) >= 0, cj(last(q))))), lambda q: [last(q)]))
            facts.append(ForAll([I, I], lambda q, j: Implies(And(j >= 0, j < q, cj(j)), last(q) >= j)))
            return lambda kk: merge(last(kk) < 0, v0, val.subst([(k, last(kk))]))
        return lambda kk: merge(kk <= 0, v0, vE.subst([(k, simp(kk - 1))])) if not v_const(vE, k) else merge(kk <= 0, v0, vE)

    def closed_obj(self, kind, c0, ents, k, n, facts, st0):
        if kind == "seq":
            return self.closed_seq(c0, ents, k, facts)
        if kind == "map":
            return self.closed_map(c0, ents, k, n, facts, st0)
        return self.closed_set(c0, ents, k, st0)

    def closed_seq(self, c0, ents, k, facts):
        if all(e[0] == "upd" for e in ents) and len(ents) == 1:
            return self.closed_upd(c0, ents[0], k)
        if len(ents) == 1 and ents[0][0] == "run":
            return self.closed_runs(c0, ents[0], k, facts)
        if any(e[0] != "app" for e in ents):
            raise Unsupported("sequence operation in a loop")
        n0, get0, kind = c0.n, c0.get, c0.kind
        vals = [e[2] for e in ents]
        m = len(ents)
        if all(is_true(e[1]) for e in ents):
            def closed(kk):
                def get(i):
                    p = simp(i - n0)
                    if m == 1:
                        new = vals[0].subst([(k, p)])
                    else:
                        q = p / m
                        new = vals[-1].subst([(k, q)])
                        for r in range(m - 2, -1, -1):
                            new = merge(p % m == r, vals[r].subst([(k, q)]), new)
                    if conc(n0) == 0:
                        return new
                    return merge(simp(i < n0), get0(i), new)
                return Seq(kind, n=simp(n0 + m * kk), get=get)
            return closed
        amb = list(self.ambient)
        conds = [e[1] for e in ents]
        nm, K, Kf = self.loop_fn("cnt", I, I)
        tot = z3.Sum([If(c, iv(1), iv(0)) for c in conds]) if m > 1 else If(conds[0], iv(1), iv(0))
        self.register_sum(smt.SumRec(nm, K, amb, lambda i: z3.substitute(tot, (k, i))))
        _, _, inv = self.loop_fn("kinv", I, I)
        anyc = lambda j: z3.substitute(Or(*conds), (k, j))  # noqa
        tj = lambda j: z3.substitute(tot, (k, j))  # noqa
        facts.append(ForAll([I], lambda q: Implies(q >= 0, And(Kf(q) >= 0, Kf(q) <= m * q)), lambda q: [Kf(q)]))
        facts.append(ForAll([I, I], lambda p, q: Implies(And(p >= 0, p <= q), Kf(p) <= Kf(q)), lambda p, q: [z3.MultiPattern(Kf(p), Kf(q))]))
        # position p of the appended part belongs to iteration inv(p)
        facts.append(ForAll([I, I], lambda p, q: Implies(And(p >= 0, p < Kf(q), q >= 0), And(
            inv(p) >= 0, inv(p) < q, Kf(inv(p)) <= p, p < Kf(inv(p)) + tj(inv(p)), anyc(inv(p)))),
            lambda p, q: [z3.MultiPattern(inv(p), Kf(q))]))
        if m == 1:
            facts.append(ForAll([I, I], lambda j, q: Implies(And(j >= 0, j < q, anyc(j)), And(
                Kf(j) < Kf(q), inv(Kf(j)) == j)), lambda j, q: [z3.MultiPattern(Kf(j), Kf(q))]))

        def closed(kk):
            def get(i):
                p = simp(i - n0)
                j = inv(p)
                off = p - Kf(j)
                new = vals[-1].subst([(k, j)])
                for r in range(m - 2, -1, -1):
                    pre = z3.Sum([If(z3.substitute(c, (k, j)), iv(1), iv(0)) for c in conds[:r]]) if r else iv(0)
                    new = merge(And(z3.substitute(conds[r], (k, j)), off == pre), vals[r].subst([(k, j)]), new)
                if conc(n0) == 0:
                    return new
                return merge(simp(i < n0), get0(i), new)
            return Seq(kind, n=n0 + Kf(kk), get=get)
        return closed

    def closed_runs(self, c0, ent, k, facts):
        """every iteration appends d(k) values"""
        _, d, val = ent
        n0, get0, kind = c0.n, c0.get, c0.kind
        amb = list(self.ambient)
        nm, N, Nf = self.loop_fn("runs", I, I)
        self.register_sum(smt.SumRec(nm, N, amb, lambda i: z3.substitute(d, (k, i))))
        _, _, inv = self.loop_fn("rinv", I, I)
        dj = lambda j: z3.substitute(d, (k, j))  # noqa
        facts.append(ForAll([I, I], lambda p, q: Implies(And(p >= 0, p <= q), And(Nf(p) >= 0, Nf(p) <= Nf(q))),
                            lambda p, q: [z3.MultiPattern(Nf(p), Nf(q))]))
        facts.append(ForAll([I, I], lambda p, q: Implies(And(p >= 0, p < Nf(q), q >= 0), And(
            inv(p) >= 0, inv(p) < q, Nf(inv(p)) <= p, p < Nf(inv(p)) + dj(inv(p)))),
            lambda p, q: [z3.MultiPattern(inv(p), Nf(q))]))
        # position o of the run of iteration j
        facts.append(ForAll([I, I, I], lambda j, o, q: Implies(And(j >= 0, j < q, o >= 0, o < dj(j)), And(
            Nf(j) + o < Nf(q), inv(Nf(j) + o) == j)), lambda j, o, q: [z3.MultiPattern(inv(Nf(j) + o), Nf(q))]))
        x = z3.FreshConst(I, "off")
        v = val(x)

        def closed(kk):
            def get(i):
                p = simp(i - n0)
                new = v.subst([(k, inv(p)), (x, p - Nf(inv(p)))])
                return new if conc(n0) == 0 else merge(simp(i < n0), get0(i), new)
            return Seq(kind, n=n0 + Nf(kk), get=get)
        return closed

    def closed_upd(self, c0, ent, k):
        _, pred, val = ent
        i = z3.FreshConst(I, "i")
        p = b(pred(i))
        # i == t(k), t linear in k
        if not (z3.is_eq(p) and (p.arg(0).eq(i) or p.arg(1).eq(i))):
            raise Unsupported("indexed write in a loop")
        t = p.arg(1) if p.arg(0).eq(i) else p.arg(0)
        inv = self.linear_inverse(t, k)
        if inv is None:
            raise Unsupported("indexed write in a loop")

        def closed(kk):
            def get(j):
                q = inv(j)
                return merge(And(q >= 0, q < kk), val(j).subst([(k, q)]), c0.get(j))
            return Seq(c0.kind, n=c0.n, get=get)
        return closed

    def linear_inverse(self, t, k):
        if t.sort() != I:
            return None
        d = simp(z3.substitute(t, (k, k + 1)) - t)
        s = conc(d)
        if s not in (1, -1):
            return None
        a = simp(z3.substitute(t, (k, iv(0))))
        return lambda i: simp((i - a) * s)

    def key_inverse(self, key, k, st, first=False):
        """inverse of a key term as a function of k: (inv, exact) or None"""
        if z3.is_app(key) and key.num_args() > 0:
            nm = key.decl().name()
            last = key.arg(key.num_args() - 1)
            if nm in self.inverses:
                inner = self.linear_inverse(last, k)
                if inner is not None and not any(occurs(k, key.arg(i)) for i in range(key.num_args() - 1)):
                    params, pos = self.inverses[nm]
                    pairs = [(p, a) for p, a in zip(params, key.children()[:-1]) if not p.eq(a)]
                    if all(z3.is_const(p) and p.decl().name().endswith("!any") for p, _ in pairs):
                        return lambda x: inner(z3.substitute(pos(x), *pairs) if pairs else pos(x))
                    return None
            if nm == "dkey" and last.eq(k) and not occurs(k, key.arg(0)):
                # the position of the first occurrence; exact where keys do not repeat
                d = key.arg(0)
                if first or self.proves(st, tag(d) == TAGS["dict"]):
                    return lambda x: dpos(d, x)
                return None
            if nm.startswith("fmt!") and key.num_args() == 1:
                unf = z3.Function("unfmt!" + nm[4:], Val, Val)
                a = key.arg(0)
                if z3.is_app(a) and a.decl().name() == "mkint":
                    inner = self.linear_inverse(a.arg(0), k)
                    if inner is not None:
                        return lambda x: inner(ival(unf(x)))
                sub_ = self.key_inverse(a, k, st)
                if sub_ is not None:
                    return lambda x: sub_(unf(x))
            if nm == "mkint":
                inner = self.linear_inverse(key.arg(0), k)
                if inner is not None:
                    return lambda x: inner(ival(x))
        return None

    def closed_map(self, c0, ents, k, n, facts, st0):
        if isinstance(c0, Dict):
            c0 = dict_to_map(c0)
        if len(ents) != 1 or ents[0][0] != "set":
            raise Unsupported(f"dictionary operation in a loop {[e[:3] for e in ents]}")
        cond, key, val = ents[0][1:4]
        if not is_true(cond):
            return (self.closed_map_over(c0, cond, key, val, k, n, facts, st0)
                    or self.closed_map_filter(c0, cond, key, val, k, n, facts, st0))
        keyat = lambda j: z3.substitute(key, (k, j))  # noqa
        inv = self.key_inverse(key, k, st0)
        if inv is None:
            j1, j2 = z3.FreshConst(I, "j1"), z3.FreshConst(I, "j2")
            hyp = And(j1 >= 0, j1 < j2, j2 < n if n is not None else TRUE)
            if not self.proves(st0, Implies(hyp, Not(keyat(j1) == keyat(j2))), 4000):
                if n is not None and conc(c0.n) == 0:
                    return self.closed_map_repeat(c0, keyat, key, val, k, n, facts)
                raise Unsupported("keys of a dictionary built in a loop may repeat")
            _, _, pos = self.loop_fn("kpos", Val, I)
            inv = pos
            facts.append(ForAll([I], lambda j: Implies(And(j >= 0, j < n if n is not None else TRUE), pos(keyat(j)) == j),
                                lambda j: [keyat(j)]))
        n0 = c0.n
        empty = conc(n0) == 0
        if not empty:
            i = z3.FreshConst(I, "i")
            s = st0.copy()
            s.assume(And(i >= 0, i < n) if n is not None else i >= 0)
            if self.proves(s, c0.dom(keyat(i))):
                def over(kk):
                    return Map(c0.n, c0.at, c0.dom, c0.pos, lambda x: merge(
                        And(inv(x) >= 0, inv(x) < kk, keyat(inv(x)) == x), val.subst([(k, inv(x))]), c0.val(x)),
                        None, c0.strkeys)
                return over
            if not self.proves(s, Not(c0.dom(keyat(i)))):
                raise Unsupported("dictionary update in a loop")
        strkeys = c0.strkeys and (z3.is_app(key))

        def closed(kk):
            def dom(x):
                j = self.is_key_at(x, key, k)
                if j is not None:
                    return Or(c0.dom(x), And(j >= 0, simp(j < kk)))
                return Or(c0.dom(x), And(inv(x) >= 0, inv(x) < kk, keyat(inv(x)) == x))

            def val_(x):
                j = self.is_key_at(x, key, k)
                new = val.subst([(k, j if j is not None else inv(x))])
                return new if empty else merge(c0.dom(x), c0.val(x), new)

            return Map(
                simp(n0 + kk), lambda i: keyat(i) if empty else If(i < n0, c0.at(i), keyat(simp(i - n0))), dom,
                lambda x: inv(x) if empty else If(c0.dom(x), c0.pos(x), n0 + inv(x)), val_, None,
                getattr(c0, "strkeys", True))
        return closed

    def closed_map_repeat(self, c0, keyat, key, val, k, n, facts):
        """dictionary built from a list of keys that may repeat: the last value
        of a key counts, the order is that of the first occurrences"""
        _, _, at = self.loop_fn("rat", I, I, Val)
        _, _, pos = self.loop_fn("rpos", I, Val, I)
        _, _, last = self.loop_fn("rlast", I, Val, I)
        _, _, cnt = self.loop_fn("rcount", I, I)
        dom = lambda m, x: And(last(m, x) >= 0, last(m, x) < m, keyat(last(m, x)) == x)  # noqa
        rng = lambda m: And(m >= 0, m <= n)  # noqa
        facts.append(ForAll([I], lambda m: Implies(rng(m), And(cnt(m) >= 0, cnt(m) <= m)), lambda m: [cnt(m)]))
        facts.append(ForAll([I, I], lambda m, i: Implies(
            And(rng(m), i >= 0, i < cnt(m)), And(dom(m, at(m, i)), pos(m, at(m, i)) == i)), lambda m, i: [at(m, i)]))
        facts.append(ForAll([I, Val], lambda m, x: Implies(And(rng(m), dom(m, x)), And(
            pos(m, x) >= 0, pos(m, x) < cnt(m), at(m, pos(m, x)) == x)), lambda m, x: [last(m, x)]))
        facts.append(ForAll([I, I], lambda m, j: Implies(And(rng(m), j >= 0, j < m), And(
            dom(m, keyat(j)), last(m, keyat(j)) >= j)), lambda m, j: [z3.MultiPattern(cnt(m), keyat(j))]))
        distinct = ForAll([I, I], lambda i, j: Implies(And(i >= 0, i < j, j < n), Not(keyat(i) == keyat(j))))
        facts.append(Implies(distinct, And(cnt(n) == n, ForAll([I], lambda i: Implies(
            And(i >= 0, i < n), at(n, i) == keyat(i)), lambda i: [at(n, i)]))))

        def closed(kk):
            return Map(cnt(kk), lambda i: at(kk, i), lambda x: dom(kk, x), lambda x: pos(kk, x),
                       lambda x: val.subst([(k, last(kk, x))]), None, c0.strkeys)
        return closed

    def is_key_at(self, x, key, k):
        """j when x is syntactically key[k := j]"""
        if x.eq(key):
            return k
        if z3.is_app(x) and z3.is_app(key) and x.decl().eq(key.decl()) and x.num_args() == key.num_args() > 0:
            last = key.num_args() - 1
            if key.arg(last).eq(k) and not any(occurs(k, key.arg(i)) for i in range(last)):
                if all(x.arg(i).eq(key.arg(i)) for i in range(last)):
                    return x.arg(last)
        return None

    def closed_map_over(self, c0, cond, key, val, k, n, facts, st0):
        """some values of a dictionary replaced by a loop over distinct keys"""
        if conc(c0.n) == 0:
            return None
        at = lambda t, j: z3.substitute(t, (k, j))  # noqa
        inside = lambda j: And(j >= 0, j < n if n is not None else TRUE)  # noqa
        i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
        s = st0.copy()
        s.assume(inside(i))
        s.assume(at(cond, i))
        if not self.proves(s, c0.dom(at(key, i))):
            return None
        inv = self.key_inverse(key, k, st0)
        if inv is None:
            if not self.proves(st0, Implies(And(inside(i), inside(j), i < j), Not(at(key, i) == at(key, j))), 4000):
                return None
            _, _, inv = self.loop_fn("kpos", Val, I)
            facts.append(ForAll([I], lambda j: Implies(inside(j), inv(at(key, j)) == j), lambda j: [at(key, j)]))
        return lambda kk: Map(c0.n, c0.at, c0.dom, c0.pos, lambda x: merge(
            And(inv(x) >= 0, inv(x) < kk, at(key, inv(x)) == x, at(cond, inv(x))), val.subst([(k, inv(x))]), c0.val(x)),
            None, c0.strkeys)

    def closed_map_filter(self, c0, cond, key, val, k, n, facts, st0):
        """dictionary built by a filtered loop"""
        if conc(c0.n) != 0:
            raise Unsupported("conditional dictionary update in a loop")
        seq = self.closed_seq(Seq("list", []), [("app", cond, VAny(key))], k, facts)
        inv = self.key_inverse(key, k, st0)
        if inv is None:
            raise Unsupported("keys of a filtered dictionary")
        keyat = lambda j: z3.substitute(key, (k, j))  # noqa
        condat = lambda j: z3.substitute(cond, (k, j))  # noqa

        def closed(kk):
            q = seq(kk)
            K = q.n
            return Map(
                q.n, lambda i: q.get(i).t,
                lambda x: And(inv(x) >= 0, inv(x) < kk, keyat(inv(x)) == x, condat(inv(x))),
                lambda x: seq(inv(x)).n,
                lambda x: val.subst([(k, inv(x))]), None, c0.strkeys)
        return closed

    def closed_set(self, c0, ents, k, st0):
        def closed(kk):
            def has(x):
                alts = []
                for e in ents:
                    if e[0] == "add":
                        cond, t = e[1], e[2]
                        inv = self.key_inverse(t, k, st0, is_true(cond))
                        if inv is not None:
                            j = inv(x)
                            alts.append(And(j >= 0, j < kk, z3.substitute(t, (k, j)) == x, z3.substitute(cond, (k, j))))
                        else:
                            alts.append(Exists([I], lambda j: And(j >= 0, j < kk, z3.substitute(And(cond, t == x), (k, j)))))
                    else:
                        cond, p = e[1], e[2]
                        alts.append(Exists([I], lambda j: And(j >= 0, j < kk, z3.substitute(And(cond, p(x)), (k, j)))))
                return Or(c0.has(x), *alts)
            s = SetC(None, has)
            s.ents = ents
            return s
        return closed

    def closed_family(self, fam, t0, idx, c, k, E, st0):
        inv = None
        for p, t in enumerate(idx):
            if occurs(k, t):
                f = self.linear_inverse(t, k) if t.sort() == I else self.key_inverse(t, k, st0)
                if f is None and t.sort() == I and z3.is_app(t) and t.num_args() > 0:
                    f = None
                if f is not None:
                    inv = (p, f)
                    break
        if inv is None:
            raise Unsupported("objects written in a loop cannot be told apart")
        p, f = inv
        content = strip(c)

        def closed(kk):
            def get(i):
                if all(x.eq(y) for x, y in zip(i, idx)) and kk.eq(k):
                    return t0.get(i)
                j = None
                x = i[p]
                if z3.is_app(x) and x.decl().eq(idx[p].decl()) and x.sort() == Val:
                    j = self.is_key_at(x, idx[p], k)
                if j is None:
                    j = f(x)
                cond = And(j >= 0, j < kk, *[z3.substitute(idx[q], (k, j)) == i[q] for q in range(len(idx))
                                             if not (q == p and x.sort() == I)])
                return merge_content(simp_ground(cond), content.subst([(k, j)]), t0.get(i))
            return Tmpl(get, t0.arity)
        return closed

    # the states after the loop ------------------------------------------------

    def finish(self, node, st0, run, k, n, cells, objs, fams, news, cont, orelse, elem, target, never=False):
        outs = []
        facts = self.guess_facts(cells, objs)
        E = run["E"]
        pc = {}
        for c in cells.values():
            if c.mode == "poison":
                pc[c.key] = self.poison_closed(c, E, k, facts) if E is not None else (lambda v: lambda kk: v)(
                    c.entry if c.entry is not None else VPoison("unbound"))
            elif c.mode == "sym":
                raise Unsupported(f"carried variable {c.key}")
        cont = self.settle(cont, k)
        contf = And(*cont) if cont else TRUE
        lin = self.linear_elem(elem, k)

        def past(kk):
            out = list(facts)
            if not is_true(contf):
                for f in (cont if len(cont) < 60 else [contf]):
                    if occurs(k, f):
                        out.append(self.forall_k(f, k, kk, lin))
                        if n is None and plain_arith(f):
                            # nothing to trigger on: the last iteration is what matters
                            out.append(Implies(kk > 0, simp(z3.substitute(f, (k, simp(kk - 1))))))
                    else:
                        out.append(Implies(kk > 0, f))
            return out

        def patch(S, kk):
            for c in cells.values():
                if c.mode != "poison":
                    continue
                v = self.get_cell(S, c)
                w = self.unmark(force(v) if not isinstance(v, VThunk) else v, c, pc[c.key], kk)
                if w is not v:
                    self.set_cell(S, c, w)

        for o in run["raises"] + run["outs"]:
            if o.st.dead:
                continue
            s = o.st
            if never:
                s.assume(k == 0)
            else:
                for f in past(k):
                    s.assume(f)
            patch(s, k)
            if o.kind == "raise":
                self.raises.append(o)
            elif o.kind == "break":
                outs.append(Outcome("next", s))
            else:
                outs.append(o)
        if n is not None:
            s = st0.copy()
            if never:
                s.assume(n <= 0)
            else:
                if not self.proves(s, n >= 0):
                    s.assume(n >= 0)
                for f in past(n):
                    s.assume(f)
            for c in cells.values():
                if c.mode == "poison":
                    pass
            saved = {c.key: c.mode for c in cells.values()}
            self.install_final(s, n, cells, objs, fams, news, k, pc)
            if orelse:
                outs += self.run_block(orelse, s)
            else:
                outs.append(Outcome("next", s))
        return self.join(outs)

    def forall_k(self, f, k, kk, lin=None):
        """f for every k below kk; over the loop variable itself when that gives
        better triggers"""
        j = z3.Const(f"{k}~", I)
        g, rng = z3.substitute(f, (k, j)), z3.And(j >= 0, j < kk)
        if lin is not None:
            a, s = lin
            jy = simp(s * (j - a))
            gy = z3.simplify(z3.substitute(f, (k, jy)), arith_lhs=False)
            if direct_uses(gy, j) > direct_uses(g, j):
                g, rng = gy, z3.And(simp(jy >= 0), simp(jy < kk))
        vs = [j]
        while True:
            if z3.is_not(g) and z3.is_quantifier(g.arg(0)) and g.arg(0).is_exists():
                new, g = open_quantifier(g.arg(0))
                g = Not(g)
            elif z3.is_quantifier(g) and g.is_forall():
                new, g = open_quantifier(g)
            else:
                break
            vs += new
        for v in vs[1:]:
            g = shift_variable(g, v)
        g = z3.Implies(rng, g)
        if len(vs) > 1:
            g = shift_variable(g, j)
        return z3.ForAll(vs, g)

    def settle(self, cont, k):
        """facts of one iteration with the truth values it fixes filled in"""
        lits, flat, todo = [], [], list(cont)
        while todo:
            f = todo.pop(0)
            if z3.is_app_of(f, z3.Z3_OP_ITE) and z3.is_false(f.arg(2)):
                todo[:0] = [f.arg(0), f.arg(1)]
                lits.append((f.arg(0), z3.BoolVal(True)))
            elif z3.is_and(f):
                todo[:0] = f.children()
            else:
                flat.append(f)
        cont = flat
        for f in cont:
            g, val = (f.arg(0), z3.BoolVal(False)) if z3.is_not(f) else (f, z3.BoolVal(True))
            if z3.is_app(g) and g.num_args() and g.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bool(g):
                lits.append((g, val))
        if not lits:
            return cont
        out = []
        for f in cont:
            if any(f.eq(g) or (z3.is_not(f) and f.arg(0).eq(g)) for g, _ in lits):
                out.append(f)
                continue
            f2 = z3.substitute(f, *lits)
            if not f2.eq(f):
                f2 = drop_trivial(f2)
            if not is_true(f2):
                out.append(f2)
        return out

    def linear_elem(self, elem, k):
        try:
            e = force(elem(k)) if elem is not None else None
        except Exception:  # noqa
            return None
        if not isinstance(e, VInt) or e.t.eq(k):
            return None
        e0 = simp(z3.substitute(e.t, (k, iv(0))))
        s = conc(simp(z3.substitute(e.t, (k, iv(1))) - e0))
        if s not in (1, -1) or conc(simp(e.t - e0 - s * k)) != 0:
            return None
        return e0, s

    def unmark(self, v, c, closed, kk):
        if isinstance(v, VPoison) and v.name == c.pname:
            return closed(kk)
        if isinstance(v, VUnion) and any(isinstance(x, VPoison) and x.name == c.pname for _, x in v.alts):
            good = [(q, x) for q, x in v.alts if not (isinstance(x, VPoison) and x.name == c.pname)]
            bad = Or(*[q for q, x in v.alts if isinstance(x, VPoison) and x.name == c.pname])
            if not good:
                return closed(kk)
            w = good[-1][1]
            for q, x in reversed(good[:-1]):
                w = merge(q, x, w)
            return merge(bad, closed(kk), w)
        return v

    def install_final(self, S, kk, cells, objs, fams, news, k, pc):
        for fam, f in fams.items():
            S.heap[fam] = relin(S.heap[fam], f(kk))
        for fam, t in news.items():
            S.heap[fam] = t
        for (fam, idx), o in objs.items():
            c = o["f"](kk)
            c0 = S.heap[fam].get(idx)
            lin = self.loop_lineage(c0, c, kk)
            if lin is not None:
                c.lin = lin
            S.heap[fam] = S.heap[fam].put(idx, c)
        for c in cells.values():
            if c.mode == "poison":
                f = pc[c.key]
                if c.key[0] == "env":
                    v = VThunk(lambda f=f: f(kk))
                    if v_is_entry(c, f, kk):
                        v = c.entry if c.entry is not None else VPoison(c.key[1])
                    S.env[c.key[1]] = v
                else:
                    _, fam, idx, name = c.key
                    o = S.heap[fam].get(idx)
                    S.heap[fam] = S.heap[fam].put(idx, o.set(name, f(kk)))
            else:
                v = c.closed(kk)
                if isinstance(v, VBool):
                    v = VBool(self.named(S, v.t))
                if c.key[0] == "env":
                    S.env[c.key[1]] = v
                else:
                    _, fam, idx, name = c.key
                    o = S.heap[fam].get(idx)
                    S.heap[fam] = S.heap[fam].put(idx, o.set(name, v))

    def loop_lineage(self, c0, c, kk):
        """how the content after a loop came from the one before it"""
        if isinstance(c0, SetC) and isinstance(c, SetC):
            new = c.has
            return (c0.root(), c0.entries() + [("addp", TRUE, new)])
        if isinstance(c0, Seq) and isinstance(c, Seq) and c0.items is None or isinstance(c0, Seq):
            if conc(simp(c.n - c0.n)) == 0:
                get = c.get
                return (c0.root(), c0.entries() + [("upd", lambda i: TRUE, get)])
        return None


def drop_trivial(f):
    """implications with constant antecedents resolved"""
    if z3.is_implies(f):
        return Implies(drop_trivial(f.arg(0)), drop_trivial(f.arg(1)))
    if z3.is_not(f):
        return Not(drop_trivial(f.arg(0)))
    if z3.is_and(f):
        return And(*[drop_trivial(c) for c in f.children()])
    if z3.is_or(f):
        return Or(*[drop_trivial(c) for c in f.children()])
    return f


def direct_uses(t, j):
    """number of uninterpreted applications that have j itself as an argument"""
    n, todo, seen = 0, [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(c.eq(j) for c in x.children()):
                n += 1
            todo.extend(x.children())
    return n


def shift_variable(t, v):
    """t with the bound variable v replaced by v - c (c - v) when it only occurs
    as an argument c + v (c - v): a change of variable that gives a trigger"""
    if not v.sort() == I or direct_uses(t, v):
        return t
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for c in x.children():
                    if c.sort() == I:
                        d = z3.simplify(c - v)
                        if not mentions(d, v) and mentions(c, v):
                            u = z3.simplify(z3.substitute(t, (v, v - d)))
                            return u if direct_uses(u, v) else t
                        d = z3.simplify(c + v)
                        if not mentions(d, v) and mentions(c, v):
                            u = z3.simplify(z3.substitute(t, (v, d - v)))
                            return u if direct_uses(u, v) else t
            todo.extend(x.children())
    return t


def mentions(t, v):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.eq(v):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return False


def plain_arith(t):
    """no quantifiers, no applications of functions"""
    if not z3.is_app(t):
        return False
    if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return False
    return all(plain_arith(c) for c in t.children())


def open_quantifier(q):
    vs = [z3.FreshConst(q.var_sort(i), "o") for i in range(q.num_vars())]
    return vs, z3.substitute_vars(q.body(), *reversed(vs))


def simp_ground(t):
    s = z3.simplify(t)
    return s if z3.is_true(s) or z3.is_false(s) else t


def relin(old, new):
    """lineage for a family rewritten by a loop: opaque"""
    return new


def v_const(v, k):
    return not v_occurs(k, v) and not isinstance(v, VThunk)


def v_is_entry(c, f, kk):
    return False


def fresh_put(t, idx, content):
    """put without recording lineage"""
    if t.arity == 0:
        n = Tmpl(lambda i: content, 0)
    else:
        p = t.put(idx, content)
        n = Tmpl(p._get, t.arity)
    return n


def dict_to_map_optional(d):
    raise Unsupported("iteration over a dictionary with optional keys")
