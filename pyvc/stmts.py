"""Statements."""
import ast

import z3

from core import *  # noqa


class Outcome:
    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val

    def __repr__(self):
        return f"<{self.kind} {self.val}>"


def same_value(x, y):
    return x is y or (y is not None and force(x).same(force(y)))


class StmtMixin:
    def run_block(self, stmts, st):
        outs, cur = [], st
        for s in stmts:
            base = len(cur.pc)
            res = self.run_stmt(s, cur)
            nxt = []
            for o in res:
                if o.st.dead:
                    continue
                (nxt if o.kind == "next" else outs).append(o)
            if not nxt:
                return outs
            if len(nxt) == 1:
                cur = nxt[0].st
            else:
                cur, _ = self.merge_many(0, [(o.st, None) for o in nxt])
        outs.append(Outcome("next", cur))
        return outs

    def run_stmt(self, node, st):
        if st.dead:
            return []
        f = getattr(self, "s_" + type(node).__name__, None)
        if f is None:
            raise Unsupported(f"statement {type(node).__name__}")
        r = f(node, st)
        return [Outcome("next", st)] if r is None else r

    def s_Pass(self, node, st):
        pass

    def s_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return
        self.ev(node.value, st)

    def s_Assign(self, node, st):
        v = self.ev(node.value, st)
        if st.dead:
            return
        for t in node.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, node, st):
        if node.value is None:
            return
        v = self.ev(node.value, st)
        if not st.dead:
            self.assign(node.target, v, st)

    def assign(self, t, v, st):
        if st.dead:
            return
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            if not st.dead:
                self.set_attr(o, t.attr, v, st)
            return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            if st.dead:
                return
            k = self.ev(t.slice, st)
            if not st.dead:
                self.set_item(o, k, v, st, t)
            return
        raise Unsupported(f"assignment target {type(t).__name__}")

    def unpack(self, t, v, st):
        v = force(v)
        if isinstance(v, VUnion):
            v = self.unpoison(st, v, "?")
        if any(isinstance(e, ast.Starred) for e in t.elts):
            self.unpack_star(t, v, st)
            return
        if isinstance(v, VUnion):
            if all(isinstance(x, VTuple) for c, x in v.alts):
                n = len(t.elts)
                good = [(c, x) for c, x in v.alts if len(x.items) == n]
                bad = Or(*[c for c, x in v.alts if len(x.items) != n])
                self.guard(st, Not(bad), ValueError)
                for i, e in enumerate(t.elts):
                    w = good[-1][1].items[i]
                    for c, x in reversed(good[:-1]):
                        w = merge(c, x.items[i], w)
                    self.assign(e, w, st)
                return

            def f(s, x):
                self.unpack(t, x, s)
                return VNone
            self.distribute(st, v, f)
            return
        xs = self.concrete_items(v, st, len(t.elts))
        if st.dead:
            return
        if xs is None:
            raise Unsupported("unpacking")
        if len(xs) != len(t.elts):
            self.do_raise(st, VExc(ValueError))
            return
        for e, x in zip(t.elts, xs):
            self.assign(e, x, st)

    def unpack_star(self, t, v, st):
        if isinstance(v, VUnion):
            self.distribute(st, v, lambda s, x: (self.unpack_star(t, self.unpoison(s, x, "?"), s), VNone)[1])
            return
        c = self.seq_of(v, st)
        if st.dead:
            return
        p = [isinstance(e, ast.Starred) for e in t.elts].index(True)
        q = len(t.elts) - p - 1
        self.guard(st, c.n >= p + q, ValueError, "not enough values to unpack")
        if st.dead:
            return
        m, get = conc(c.n), c.get
        for i, e in enumerate(t.elts):
            if i < p:
                x = get(iv(i))
            elif i > p:
                x = get(simp(c.n - q + (i - p - 1)))
            else:
                mid = Seq("list", c.items[p:m - q]) if c.items is not None else Seq(
                    "list", n=simp(c.n - (p + q)), get=lambda i: get(simp(i + p)))
                x, e = self.alloc(st, mid, ("star",) + self.site(e)), e.value
            self.assign(e, x, st)

    def concrete_items(self, v, st, want=None):
        """list of values of a sequence of known length (or proven length want)"""
        v = force(v)
        if isinstance(v, VTuple):
            return list(v.items)
        if isinstance(v, VRef):
            c = st.content(v)
            if isinstance(c, Seq):
                if c.items is not None:
                    return list(c.items)
                n = conc(c.n)
                if n is None and want is not None:
                    self.guard(st, c.n == want, ValueError)
                    if st.dead:
                        return []
                    n = want
                if n is not None:
                    return [c.get(iv(i)) for i in range(n)]
        if isinstance(v, VAny) and want is not None:
            t = v.t
            isseq = Or(tag(t) == TAGS["list"], tag(t) == TAGS["tuple"])
            if self.proves(st, isseq):
                self.guard(st, dlen(t) == want, ValueError)
                return [VAny(dkey(t, iv(i))) for i in range(want)]
        if v is VNone or isinstance(v, (VInt, VBool, VReal)):
            self.do_raise(st, VExc(TypeError))
            return []
        return None

    def s_AugAssign(self, node, st):
        t = node.target
        if isinstance(t, ast.Name):
            cur = self.read_name(t.id, st, self.fr)
            if st.dead:
                return
            v = self.ev(node.value, st)
            if st.dead:
                return
            r = self.aug(node, cur, v, st)
            if not st.dead:
                st.env[t.id] = r
            return
        o = self.ev(t.value, st)
        if st.dead:
            return
        if isinstance(t, ast.Attribute):
            cur = self.get_attr(o, t.attr, st)
            if st.dead:
                return
            v = self.ev(node.value, st)
            if st.dead:
                return
            r = self.aug(node, cur, v, st)
            if not st.dead:
                self.set_attr(o, t.attr, r, st)
            return
        k = self.ev(t.slice, st)
        if st.dead:
            return
        cur = self.get_item(o, k, st)
        if st.dead:
            return
        v = self.ev(node.value, st)
        if st.dead:
            return
        r = self.aug(node, cur, v, st)
        if not st.dead:
            self.set_item(o, k, r, st)

    def aug(self, node, cur, v, st):
        cur = force(cur)
        if isinstance(cur, VRef):
            c = st.content(cur)
            if isinstance(node.op, ast.Add) and isinstance(c, Seq):
                self.call_builtin_method(cur, "extend", [v], {}, st)
                return cur
            if isinstance(node.op, ast.BitOr):
                if isinstance(c, Inst):
                    return self.call_method(cur, "__ior__", [v], {}, st)
                if isinstance(c, (Dict, Map, SetC)):
                    self.call_builtin_method(cur, "update", [v], {}, st)
                    return cur
        return self.binop(node.op, cur, v, st, node)

    def s_Return(self, node, st):
        v = VNone if node.value is None else self.ev(node.value, st)
        return [Outcome("return", st, v)] if not st.dead else []

    def s_Break(self, node, st):
        return [Outcome("break", st)]

    def s_Continue(self, node, st):
        return [Outcome("continue", st)]

    def s_If(self, node, st):
        c = self.cond(node.test, st)
        if st.dead:
            return []
        c = self.named(st, c)
        cc = conc(c)
        if cc is None:
            if self.infeasible(st, Not(c)):
                cc = True
            elif self.infeasible(st, c):
                cc = False
        if cc is True:
            st.assume(c)
            self.narrow(node.test, st)
            return self.run_block(node.body, st)
        if cc is False:
            st.assume(Not(c))
            self.narrow(node.test, st)
            return self.run_block(node.orelse, st)
        base = len(st.pc)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(Not(c))
        self.narrow(node.test, s1)
        self.narrow(node.test, s2)
        o1 = self.run_block(node.body, s1)
        o2 = self.run_block(node.orelse, s2)
        outs = [o for o in o1 + o2 if o.kind != "next" and not o.st.dead]
        n1 = [o.st for o in o1 if o.kind == "next" and not o.st.dead]
        n2 = [o.st for o in o2 if o.kind == "next" and not o.st.dead]
        if n1 and n2:
            outs.append(Outcome("next", merge_states(base, c, n1[0], n2[0])))
        elif n1 or n2:
            outs.append(Outcome("next", (n1 or n2)[0]))
        return outs

    def narrow(self, test, st):
        """drop impossible alternatives of the variables tested"""
        for n in ast.walk(test):
            if isinstance(n, ast.Name) and n.id in st.env:
                v = force(st.env[n.id])
                if isinstance(v, VUnion):
                    alts = [(c, x) for c, x in v.alts if not self.infeasible(st, c)]
                    if alts and len(alts) < len(v.alts):
                        st.env[n.id] = alts[0][1] if len(alts) == 1 else VUnion(alts)

    def s_Raise(self, node, st):
        if node.exc is None:
            e = self.fr.get("exc")
            if e is None:
                raise Unsupported("bare raise")
        else:
            e = self.ev(node.exc, st)
        if st.dead:
            return []

        def f(s, e):
            if isinstance(e, VPy) and isinstance(e.obj, type) and issubclass(e.obj, BaseException):
                e = VExc(e.obj)
            if not isinstance(e, VExc):
                raise Unsupported(f"raise {e!r}")
            self.do_raise(s, e)
            return VNone

        self.distribute(st, e, f)
        return []

    def s_Assert(self, node, st):
        c = self.cond(node.test, st)
        if not st.dead:
            self.guard(st, self.named(st, c), AssertionError)

    def s_Delete(self, node, st):
        for t in node.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = VPoison(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                if st.dead:
                    return
                k = self.ev(t.slice, st)
                if st.dead:
                    return
                self.del_item(o, k, st)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                if not st.dead:
                    self.del_attr(o, t.attr, st)
            else:
                raise Unsupported("del")

    def s_Global(self, node, st):
        raise Unsupported("global statement")

    def s_Nonlocal(self, node, st):
        raise Unsupported("nonlocal statement")

    def s_FunctionDef(self, node, st):
        if node.decorator_list:
            raise Unsupported("decorated nested function")
        self.closure(node, st, node.name)

    def s_Import(self, node, st):
        for a in node.names:
            v = self.do_import(a.name, None, st)
            if st.dead:
                return
            st.env[a.asname or a.name.split(".")[0]] = v if (a.asname or "." not in a.name) else self.do_import(
                a.name.split(".")[0], None, st)

    def s_ImportFrom(self, node, st):
        for a in node.names:
            v = self.do_import(("." * node.level) + (node.module or ""), a.name, st)
            if st.dead:
                return
            st.env[a.asname or a.name] = v

    def s_Try(self, node, st):
        saved_env = st.env
        with self.catching() as raised:
            outs = self.run_block(node.body, st)
        caught = list(raised)
        if node.orelse:
            more = []
            for o in outs:
                if o.kind == "next" and not o.st.dead:
                    more += self.run_block(node.orelse, o.st)
                else:
                    more.append(o)
            outs = more
        final_raises = []
        for o in caught:
            exc = o.val
            done = False
            for h in node.handlers:
                if h.type is None:
                    m = True
                else:
                    m = self.exc_matches(exc, h.type, o.st)
                if m:
                    s = o.st
                    if h.name:
                        s.env[h.name] = exc
                    old = self.fr.get("exc")
                    self.fr["exc"] = exc
                    with self.catching() as r2:
                        mine = self.run_block(h.body, s)
                    for q in (mine + list(r2)) if h.name else ():
                        q.st.env.pop(h.name, None)
                    outs = outs + mine
                    self.fr["exc"] = old
                    final_raises += r2
                    done = True
                    break
            if not done:
                final_raises.append(o)
        if node.finalbody:
            fin = []
            for o in outs:
                if o.st.dead:
                    continue
                for p in self.run_block(node.finalbody, o.st):
                    fin.append(Outcome(o.kind, p.st, o.val) if p.kind == "next" else p)
            outs = fin
            for o in final_raises:
                for p in self.run_block(node.finalbody, o.st):
                    if p.kind == "next":
                        self.raises.append(Outcome("raise", p.st, o.val))
                    else:
                        outs.append(p)
        else:
            self.raises.extend(final_raises)
        return outs

    def exc_matches(self, exc, typ, st):
        v = self.ev(typ, st)
        xs = v.items if isinstance(v, VTuple) else [v]
        for x in xs:
            if not isinstance(x, VPy):
                raise Unsupported("except clause")
            if issubclass(exc.cls, x.obj):
                return True
        return False

    def s_With(self, node, st):
        raise Unsupported("with statement")

    # ------------------------------------------------------------- loops

    def s_For(self, node, st):
        v = self.ev(node.iter, st)
        if st.dead:
            return []

        def go(s, v):
            it = self.iterate(v, s)
            if s.dead:
                return []
            n, elem = it[0], it[1]
            self.iter_src = self.sources(v)
            return self.loop(node, s, n, elem, node.target, node.body, node.orelse)

        v = force(v)
        if isinstance(v, VUnion):
            v = self.unpoison(st, v, "?")
        if isinstance(v, VUnion):
            return self.split(st, v, go)
        return go(st, v)

    def sources(self, v):
        """the objects an iteration reads while it runs"""
        v = force(v)
        if isinstance(v, VRef):
            return [v]
        if isinstance(v, VExt):
            return [r for x in v.data if isinstance(x, V) for r in self.sources(x)]
        if isinstance(v, VTuple) and False:
            return []
        return []

    def check_sources(self, src, before, after):
        """a loop that changes the object it iterates over is not understood"""
        for r in src:
            if r.fam not in before.heap or r.fam not in after.heap:
                continue
            x, y = before.content(r), after.content(r)
            if x is y:
                continue
            if isinstance(x, Inst):
                d = x.f.get("data")
                if isinstance(y, Inst) and isinstance(d, VRef):
                    if not same_value(d, y.f.get("data")):
                        raise Unsupported("iterated object modified in the loop")
                    self.check_sources([d], before, after)
                continue
            if isinstance(x, Map) and isinstance(y, Map):
                i = z3.FreshConst(I, "i")
                if x.n is y.n or self.proves(after, And(x.n == y.n, Implies(And(i >= 0, i < x.n), x.at(i) == y.at(i)))):
                    continue
            if isinstance(x, Dict) and isinstance(y, Dict) and list(x.e) == list(y.e) and all(
                    x.e[k][0].eq(y.e[k][0]) for k in x.e):
                continue
            raise Unsupported("iterated object modified in the loop")

    def split(self, st, v, f):
        """run f on every alternative of a union as separate paths"""
        outs = []
        for c, x in v.alts:
            s = st.copy()
            s.assume(c)
            if self.infeasible(s):
                continue
            outs += f(s, x)
        return self.join(outs)

    def s_While(self, node, st):
        key = ("while", id(node))
        if key not in self.synth:
            test = ast.If(ast.UnaryOp(ast.Not(), node.test), [ast.Break()], [])
            ast.copy_location(test, node)
            for x in ast.walk(test):
                if not hasattr(x, "lineno"):
                    ast.copy_location(x, node)
            const = isinstance(node.test, ast.Constant) and bool(node.test.value)
            self.synth[key] = (node.body if const else [test] + node.body, node)
        body = self.synth[key][0]
        if node.orelse:
            raise Unsupported("while-else")
        return self.loop(node, st, None, None, None, body, [])
