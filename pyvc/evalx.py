"""Expressions, attributes and calls."""
import ast
import builtins
import collections
import collections.abc
import inspect
import types

import z3

import front
from core import *  # noqa

MAXDEPTH = 40
CONTAINER_KINDS = {"list": list, "deque": collections.deque}


def fn_of(o):
    return o.__func__ if isinstance(o, (types.MethodType, staticmethod, classmethod)) else o


class Optional:
    """a keyword argument given in some calls only"""

    def __init__(self, cond, v):
        self.cond, self.v = cond, v


class EvalMixin:
    # ---------------------------------------------------------------- nodes

    def ev(self, node, st):
        if st.dead:
            return VPoison("dead")
        v = getattr(self, "e_" + type(node).__name__, None)
        if v is None:
            raise Unsupported(f"expression {type(node).__name__}")
        return v(node, st)

    def evl(self, nodes, st):
        out = []
        for n in nodes:
            out.append(self.ev(n, st))
            if st.dead:
                return None
        return out

    def cond(self, node, st):
        """truth term of an expression"""
        v = self.ev(node, st)
        if st.dead:
            return TRUE
        return self.truth(v, st)

    def e_Constant(self, node, st):
        if node.value is Ellipsis:
            return VPy(Ellipsis)
        return self.lift(node.value, st)

    def e_Name(self, node, st):
        return self.read_name(node.id, st, self.fr)

    def e_Tuple(self, node, st):
        items = self.elements(node.elts, st, "tuple")
        if isinstance(items, VRef):
            return items
        return VTuple(items) if items is not None else VPoison("dead")

    def elements(self, elts, st, kind=None):
        """the values of a display; a new list or tuple when one of unknown
        length is unpacked into it (kind)"""
        out, parts = [], []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                if st.dead:
                    return None
                if isinstance(force(v), VUnion) and kind is not None:
                    v = self.b_list([v], {}, st, e)
                    if isinstance(force(v), VUnion):
                        raise Unsupported("unpacking of one of several sequences")
                    xs = None
                else:
                    xs = self.concrete_items(v, st)
                if xs is None:
                    if kind is None:
                        raise Unsupported("unpacking of unbounded sequence")
                    c = self.seq_of(v, st)
                    if st.dead:
                        return None
                    parts += [Seq(kind, out), Seq(kind, n=c.n, get=c.get) if c.items is None else Seq(kind, list(c.items))]
                    out = []
                    continue
                out.extend(xs)
            else:
                out.append(self.ev(e, st))
            if st.dead:
                return None
        if parts:
            whole = None
            for q in parts + [Seq(kind, out)]:
                if q.items is None or q.items:
                    whole = q if whole is None else concat(whole, q)
            return self.alloc(st, whole if whole is not None else Seq(kind, []), ("display",) + self.site(elts[0]))
        return out

    def e_List(self, node, st):
        items = self.elements(node.elts, st, "list")
        if items is None:
            return VPoison("dead")
        if isinstance(items, VRef):
            return items
        return self.alloc(st, Seq("list", items), self.site(node))

    def e_Set(self, node, st):
        items = self.elements(node.elts, st)
        if items is None:
            return VPoison("dead")
        s = SetC([])
        for x in items:
            s = s.add(x)
        s.lin = None
        return self.alloc(st, s, self.site(node))

    def e_Dict(self, node, st):
        ents = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                m = self.ev(v, st)
                if st.dead:
                    return VPoison("dead")
                ents.append((None, m))
                continue
            kv = self.ev(k, st)
            vv = self.ev(v, st)
            if st.dead:
                return VPoison("dead")
            ents.append((kv, vv))
        ref = self.alloc(st, Dict({}), self.site(node))
        for kv, vv in ents:
            if kv is None:
                self.dict_update(ref, vv, st)
            else:
                self.dict_set(ref, kv, vv, st)
        c = st.content(ref)
        if isinstance(c, (Map, Dict)):
            c.lin = None
        return ref

    def e_JoinedStr(self, node, st):
        parts = []
        for p in node.values:
            if isinstance(p, ast.Constant):
                parts.append(S(p.value))
            else:
                v = self.ev(p.value, st)
                if st.dead:
                    return VPoison("dead")
                v = force(v)
                spec = ""
                if p.format_spec is not None:
                    sv = self.ev(p.format_spec, st)
                    if not (isinstance(sv, VStr) and sv.lit is not None):
                        raise Unsupported("format spec")
                    spec = sv.lit
                if p.conversion != -1:
                    spec = "!" + chr(p.conversion) + spec
                if isinstance(v, VStr) and not spec:
                    parts.append(v)
                else:
                    parts.append((v, spec))
        return self.fstring(parts, st)

    def e_BoolOp(self, node, st):
        is_and = isinstance(node.op, ast.And)

        def go(s, rest):
            v = self.ev(rest[0], s)
            if s.dead or len(rest) == 1:
                return v
            v = force(v)
            c = self.truth(v, s)
            c = self.named(s, c)
            if isinstance(v, VBool):
                v = VBool(c)

            def nxt(t):
                return go(t, rest[1:])

            if is_and:
                r = self.fork(s, c, nxt, lambda t: self.restrict(v, Not(c), falsy=True))
            else:
                r = self.fork(s, c, lambda t: self.restrict(v, c), nxt)
            return r

        return go(st, node.values)

    def restrict(self, v, c, falsy=False):
        if isinstance(v, VBool):
            return VBool(FALSE if falsy else TRUE)
        if isinstance(v, VUnion) and not falsy:
            some = [(d, x) for d, x in v.alts if x is not VNone]
            if len(some) < len(v.alts) and some:
                return some[0][1] if len(some) == 1 else VUnion(some)
        return v

    def e_UnaryOp(self, node, st):
        v = self.ev(node.operand, st)
        if st.dead:
            return v
        if isinstance(node.op, ast.Not):
            return VBool(self.named(st, Not(self.truth(v, st))))
        v = force(v)
        if isinstance(v, VUnion):
            return self.distribute(st, v, lambda s, x: self.neg(node.op, self.unpoison(s, x, "?"), s))
        return self.neg(node.op, v, st)

    def neg(self, op, v, st):
        if isinstance(v, VAny):
            v = self.any_num(v, st, True)
            if isinstance(v, VUnion):
                return self.distribute(st, v, lambda s, x: self.neg(op, x, s))
        if isinstance(op, ast.USub):
            if isinstance(v, VInf):
                return VInf(not v.neg)
            if isinstance(v, VReal):
                return VReal(simp(-v.t))
            return VInt(simp(-to_int(v)))
        if isinstance(op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, node, st):
        x = self.ev(node.left, st)
        if st.dead:
            return x
        y = self.ev(node.right, st)
        if st.dead:
            return y
        return self.binop(node.op, x, y, st, node)

    def e_Compare(self, node, st):
        left = self.ev(node.left, st)
        if st.dead:
            return left

        def go(s, left, i):
            right = self.ev(node.comparators[i], s)
            if s.dead:
                return right
            t = self.compare(node.ops[i], left, right, s)
            if s.dead:
                return VBool(TRUE)
            if i + 1 == len(node.ops):
                return VBool(self.named(s, t))
            t = self.named(s, t)
            return self.fork(s, t, lambda u: go(u, right, i + 1), lambda u: VBool(FALSE))

        return go(st, left, 0)

    def e_IfExp(self, node, st):
        c = self.cond(node.test, st)
        if st.dead:
            return VPoison("dead")
        c = self.named(st, c)
        return self.fork(st, c, lambda s: self.ev(node.body, s), lambda s: self.ev(node.orelse, s))

    def e_Attribute(self, node, st):
        v = self.ev(node.value, st)
        if st.dead:
            return v
        return self.get_attr(v, node.attr, st)

    def e_Lambda(self, node, st):
        return self.closure(node, st, "<lambda>")

    def closure(self, node, st, name):
        """a nested function; its default values are computed now, and the variables
        it shares with the function around must not change any more"""
        a, defaults = node.args, {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        for n, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
                (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            defaults[n] = self.ev(d, st)
            if st.dead:
                return VPoison("dead")
        v = VLambda(node, None, self.fr, name, defaults)
        if isinstance(node, ast.FunctionDef):
            st.env[name] = v
        v.env = dict(st.env)
        if id(node) not in self.direct:
            self.check_shared(node, st)
        return v

    def check_shared(self, node, st):
        body = node.body if isinstance(node.body, list) else [node.body]
        inner = [n for x in body for n in ast.walk(x)]
        own = {x.arg for x in ast.walk(node.args) if isinstance(x, ast.arg)} | {
            n.id for n in inner if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        free = {n.id for n in inner if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - own
        fn = self.fr.get("fn")
        tree = front.function_ast(fn) if fn is not None else None
        if tree is None:
            raise Unsupported("closure")
        around = [n for n in ast.walk(tree) if isinstance(n, (ast.For, ast.While, ast.comprehension, ast.ListComp, ast.DictComp,
                                                              ast.SetComp, ast.GeneratorExp))
                  and any(m is node for m in ast.walk(n))]
        mine = {id(n) for n in ast.walk(node)}
        for n in ast.walk(tree):
            if id(n) in mine or not (isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and n.id in free):
                continue
            later = (n.lineno, n.col_offset) > (node.lineno, node.col_offset)
            if later or any(m is n for x in around for m in ast.walk(x)):
                raise Unsupported(f"variable {n.id} of a closure may change")

    def e_Starred(self, node, st):
        raise Unsupported("starred expression")

    def e_NamedExpr(self, node, st):
        v = self.ev(node.value, st)
        if not st.dead:
            st.env[node.target.id] = v
        return v

    def e_Slice(self, node, st):
        def part(n):
            return VNone if n is None else self.ev(n, st)
        return VExt("slice", (part(node.lower), part(node.upper), part(node.step)))

    def e_Subscript(self, node, st):
        c = self.ev(node.value, st)
        if st.dead:
            return c
        k = self.ev(node.slice, st)
        if st.dead:
            return k
        return self.get_item(c, k, st, node)

    # comprehensions become loops

    def e_ListComp(self, node, st):
        return self.comp(node, st, "list")

    def e_GeneratorExp(self, node, st):
        """evaluated at once, although CPython does so when it is consumed"""
        ref = self.comp(node, st, "list")
        if id(node) in self.direct:
            return ref
        names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
        if any(isinstance(force(st.env[n]), VRef) for n in names if n in st.env):
            raise Unsupported("a generator over data that may change")
        return self.iterator("generator", (ref,))

    def e_SetComp(self, node, st):
        return self.comp(node, st, "set")

    def e_DictComp(self, node, st):
        return self.comp(node, st, "dict")

    def comp(self, node, st, kind):
        key = ("comp", id(node))
        if any(isinstance(n, ast.NamedExpr) for n in ast.walk(node)):
            raise Unsupported("an assignment expression in a comprehension")
        if key not in self.synth:
            acc = f".acc{len(self.synth)}"
            nm = ast.Name(acc, ast.Load())
            if kind == "dict":
                inner = ast.Assign([ast.Subscript(nm, node.key, ast.Store())], node.value)
            else:
                inner = ast.Expr(ast.Call(ast.Attribute(nm, "append" if kind == "list" else "add", ast.Load()),
                                          [node.elt], []))
            body = inner
            for g in reversed(node.generators):
                for c in reversed(g.ifs):
                    body = ast.If(c, [body], [])
                body = ast.For(g.target, g.iter, [body], [])
            ast.copy_location(body, node)
            for n in ast.walk(body):
                if not hasattr(n, "lineno") and isinstance(n, (ast.expr, ast.stmt)):
                    n.lineno, n.col_offset = node.lineno, node.col_offset
                    n.end_lineno, n.end_col_offset = node.end_lineno, node.end_col_offset
            # a comprehension at the very start of another node needs its own site
            body.col_offset = node.col_offset + 1000
            self.synth[key] = (acc, body, node)
        acc, loop, _ = self.synth[key]
        content = {"list": lambda: Seq("list", []), "set": lambda: SetC([]), "dict": lambda: Dict({})}[kind]()
        saved = dict(st.env)
        ref = self.alloc(st, content, ("comp",) + self.site(node))
        st.env[acc] = ref
        outs = self.run_stmt(loop, st)
        nxt = [o for o in outs if o.kind == "next"]
        if any(o.kind != "next" for o in outs):
            raise Unsupported("comprehension control flow")
        if not nxt:
            st.dead = True
            st.pc.append(FALSE)
            return VPoison("dead")
        s = nxt[0].st
        s.env = saved
        st.take(s)
        c = st.content(ref)
        if hasattr(c, "lin") and getattr(c, "lin", None) is not None and not self.ambient:
            pass
        return ref

    # ------------------------------------------------------------ attributes

    def static_attr(self, cls, name):
        try:
            return inspect.getattr_static(cls, name)
        except AttributeError:
            return None

    def get_attr(self, v, name, st):
        v = force(v)
        if isinstance(v, VUnion):
            return self.distribute(st, v, lambda s, x: self.get_attr(self.unpoison(s, x, name), name, s))
        if isinstance(v, VPoison):
            return self.unpoison(st, v, name)
        if isinstance(v, VRef):
            c = st.content(v)
            if isinstance(c, Inst):
                return self.inst_attr(v, c, name, st)
            return VBound(None, v, name)
        if isinstance(v, VPy):
            return self.py_attr(v.obj, name, st)
        if isinstance(v, VExt):
            if v.kind == "super":
                return self.super_attr(v, name, st)
            return self.ext_attr(v, name, st)
        if isinstance(v, (VStr, VAny, VTuple)):
            if name == "__class__":
                return VExt("class_of", (v,))
            return VBound(None, v, name)
        if v is VNone or isinstance(v, (VInt, VBool, VReal)):
            if name == "__class__":
                return VPy({True: type(None)}.get(v is VNone, int))
            self.do_raise(st, VExc(AttributeError, (S(name),)))
            return VPoison("dead")
        if isinstance(v, VExc):
            return VExt("opaque", ("excattr", name))
        raise Unsupported(f"attribute {name} of {v!r}")

    def hooked(self, cls, *names):
        """special methods of a class that change what plain operations on its instances do"""
        for n in names:
            f = self.static_attr(cls, n)
            if f is not None and f is not getattr(object, n, None) and f is not inspect.getattr_static(object, n, None):
                raise Unsupported(f"{cls.__name__}.{n}")

    def inst_attr(self, v, c, name, st, default=None):
        cls = c.cls
        self.hooked(cls, "__getattribute__")
        if name not in c.f and self.static_attr(cls, name) is None:
            self.hooked(cls, "__getattr__")
        if name == "__class__":
            return VPy(cls)
        if name == "__dict__":
            raise Unsupported("__dict__")
        sa = self.static_attr(cls, name)
        if isinstance(sa, property):
            with self.catching() as raised:
                x = self.call(VBound(sa.fget, v), [], {}, st)
            if default is not None and any(issubclass(o.val.cls, AttributeError) for o in raised):
                raise Unsupported("getattr with a default of a property that may fail")
            self.raises.extend(raised)
            return x
        if name in c.f:
            self.field_reads.add((v.fam, name))
            x = force(c.f[name])
            if isinstance(x, VPoison):
                if x.name.startswith("loop:"):
                    raise PoisonRead(x.name)
                x = None
            elif isinstance(x, VUnion) and any(isinstance(w, VPoison) for _, w in x.alts):
                bad = Or(*[q for q, w in x.alts if isinstance(w, VPoison)])
                for q, w in x.alts:
                    if isinstance(w, VPoison) and w.name.startswith("loop:"):
                        if not self.proves(st, Not(q)):
                            raise PoisonRead(w.name)
                good = [(q, w) for q, w in x.alts if not isinstance(w, VPoison)]
                gv = good[0][1] if len(good) == 1 else VUnion(good)
                if default is not None:
                    return self.fork(st, Not(bad), lambda s: gv, lambda s: default)
                if sa is None:
                    self.guard(st, Not(bad), AttributeError, name)
                    return gv
                return self.fork(st, Not(bad), lambda s: gv, lambda s: self.class_value(v, sa, name, s))
            if x is not None:
                return x
        if sa is not None:
            return self.class_value(v, sa, name, st)
        self.described(c, name)
        if default is not None:
            return default
        self.do_raise(st, VExc(AttributeError, (S(name),)))
        return VPoison("dead")

    def described(self, c, name):
        """an attribute the instance has although its description leaves it out"""
        if OPEN in c.f and name not in c.f and not front.assigned_attributes(c.cls).isdisjoint((name, None)):
            raise Unsupported(f"attribute {name} of the instance is not described")

    def class_value(self, me, sa, name, st):
        if isinstance(sa, staticmethod):
            return VPy(sa.__func__)
        if isinstance(sa, classmethod):
            return VBound(sa.__func__, VPy(st.content(me).cls))
        if isinstance(sa, types.FunctionType):
            return VBound(sa, me)
        if callable(sa) and not isinstance(sa, type):
            return VBound(None, me, name) if not isinstance(sa, types.BuiltinFunctionType) else VPy(sa)
        return self.lift(sa, st)

    def py_attr(self, obj, name, st):
        if isinstance(obj, type):
            sa = self.static_attr(obj, name)
            if sa is None and not hasattr(obj, name):
                self.do_raise(st, VExc(AttributeError, (S(name),)))
                return VPoison("dead")
            if isinstance(sa, (staticmethod, classmethod)):
                return VPy(sa.__func__) if isinstance(sa, staticmethod) else VBound(sa.__func__, VPy(obj))
            if isinstance(sa, types.FunctionType):
                return VPy(sa)
            return self.lift(getattr(obj, name), st)
        if not hasattr(obj, name):
            self.do_raise(st, VExc(AttributeError, (S(name),)))
            return VPoison("dead")
        return self.lift(getattr(obj, name), st)

    def super_attr(self, v, name, st):
        cls, me = v.data
        mro = st.content(me).cls.__mro__
        for k in mro[mro.index(cls) + 1:]:
            if name in k.__dict__:
                a = k.__dict__[name]
                if isinstance(a, property):
                    return self.call(VBound(a.fget, me), [], {}, st)
                if isinstance(a, types.FunctionType):
                    return VBound(a, me)
                if isinstance(a, staticmethod):
                    return VPy(a.__func__)
                if name == "__init__":
                    return VPy(_noop)
                return self.lift(a, st)
        self.do_raise(st, VExc(AttributeError, (S(name),)))
        return VPoison("dead")

    def ext_attr(self, v, name, st):
        h = self.ext_models.get(v.kind)
        if h is not None:
            r = h(self, v, name, st)
            if r is not None:
                return r
        if v.kind == "process" and name == "name":
            t = z3.Const("process name", Val)
            st.assume(tag(t) == TAGS["str"])
            return VStr(t)
        return VBound(None, v, name)

    def set_attr(self, v, name, val, st):
        v = force(v)
        if isinstance(v, VUnion):
            self.distribute(st, v, lambda s, x: (self.set_attr(self.unpoison(s, x, name), name, val, s), VNone)[1])
            return
        if isinstance(v, VRef):
            c = st.content(v)
            if isinstance(c, Inst):
                sa = self.static_attr(c.cls, name)
                self.hooked(c.cls, "__setattr__")
                if isinstance(sa, property):
                    if sa.fset is None:
                        self.do_raise(st, VExc(AttributeError))
                        return
                    self.call(VBound(sa.fset, v), [val], {}, st)
                    return
                self.writes.append((v, name))
                self.put(st, v, c.set(name, val))
                return
        if isinstance(v, VExt):
            self.externals.append(("setattr", name))
            return
        if isinstance(v, VPy):
            if hasattr(v.obj, "_takes_anything"):
                return
            raise Unsupported(f"assignment to attribute of {v!r}")
        if v is VNone:
            self.do_raise(st, VExc(AttributeError))
            return
        raise Unsupported(f"attribute assignment on {v!r}")

    def del_attr(self, v, name, st):
        if isinstance(v, VRef):
            c = st.content(v)
            if isinstance(c, Inst):
                self.hooked(c.cls, "__delattr__")
                sa = self.static_attr(c.cls, name)
                if isinstance(sa, property):
                    if sa.fdel is None:
                        self.do_raise(st, VExc(AttributeError))
                        return
                    self.call(VBound(sa.fdel, v), [], {}, st)
                    return
        raise Unsupported("del attribute")

    # ----------------------------------------------------------- subscripts

    def norm_index(self, i, n, st, what=IndexError):
        """index term in range, negative indices wrapped; raises otherwise"""
        i = to_int(i) if not isinstance(i, VAny) else self.int_arg(i, st).t
        ci = conc(i)
        if ci is not None:
            r = iv(ci) if ci >= 0 else simp(n + ci)
        elif self.proves(st, i >= 0):
            r = i
        else:
            r = If(i >= 0, i, i + n)
        self.guard(st, And(r >= 0, r < n), what, "index out of range")
        return r

    def get_item(self, c, k, st, node=None):
        c, k = force(c), force(k)
        if isinstance(c, VUnion):
            return self.distribute(st, c, lambda s, x: self.get_item(self.unpoison(s, x, "?"), k, s, node))
        if isinstance(k, VUnion) and not isinstance(k, VExt):
            return self.distribute(st, k, lambda s, x: self.get_item(c, self.unpoison(s, x, "?"), s, node))
        if isinstance(c, VTuple):
            if isinstance(k, VExt) and k.kind == "slice":
                seq = self.slice_seq(Seq("tuple", list(c.items)), k, st)
                if seq.items is None:
                    raise Unsupported("tuple slice")
                return VTuple(seq.items)
            ki = conc(to_int(k))
            if ki is not None:
                if -len(c.items) <= ki < len(c.items):
                    return c.items[ki]
                self.do_raise(st, VExc(IndexError))
                return VPoison("dead")
            seq = Seq("tuple", list(c.items))
            return seq.get(self.norm_index(k, seq.n, st))
        if isinstance(c, VStr) and c.lit is not None:
            parts = k.data if isinstance(k, VExt) and k.kind == "slice" else (k,)
            if all(x is VNone or isinstance(x, (VInt, VBool)) and conc(to_int(x)) is not None for x in map(force, parts)):
                parts = [None if force(x) is VNone else conc(to_int(force(x))) for x in parts]
                try:
                    return S(c.lit[slice(*parts)] if len(parts) > 1 else c.lit[parts[0]])
                except (IndexError, TypeError, ValueError) as e:
                    self.do_raise(st, VExc(type(e)))
                    return VPoison("dead")
        if isinstance(c, VRef):
            o = st.content(c)
            if isinstance(o, Inst):
                return self.call_method(c, "__getitem__", [k], {}, st)
            if isinstance(o, Seq):
                if isinstance(k, VExt) and k.kind == "slice" and o.kind == "deque":
                    self.do_raise(st, VExc(TypeError))
                    return VPoison("dead")
                if isinstance(k, VExt) and k.kind == "slice":
                    return self.as_seq_value(self.slice_seq(o, k, st), st, node)
                if not isinstance(k, (VInt, VBool, VAny)):
                    self.do_raise(st, VExc(TypeError))
                    return VPoison("dead")
                i = self.norm_index(k, o.n, st)
                if st.dead:
                    return VPoison("dead")
                return o.get(i)
            if isinstance(o, (Dict, Map)):
                return self.dict_get(c, k, st)
        if isinstance(c, VAny):
            t = c.t
            self.guard(st, Or(*[tag(t) == TAGS[n] for n in ("dict", "list", "tuple", "str", "other")]), TypeError)
            if st.dead:
                return VPoison("dead")
            if self.proves(st, tag(t) == TAGS["dict"]):
                kt = to_val(k)
                self.plain_key(k, st)
                self.guard(st, uhas(st, t, kt), KeyError)
                return VAny(uget(st, t, kt))
            if self.proves(st, Or(tag(t) == TAGS["list"], tag(t) == TAGS["tuple"])):
                if isinstance(k, VExt) and k.kind == "slice":
                    no_user_writes(st)
                    kind = "list" if self.proves(st, tag(t) == TAGS["list"]) else "tuple"
                    if kind == "tuple" and not self.proves(st, tag(t) == TAGS["tuple"]):
                        raise Unsupported("slice of a list or tuple")
                    return self.as_seq_value(self.slice_seq(Seq(kind, n=dlen(t), get=lambda i: VAny(dkey(t, i))), k, st), st, node)
                i = self.norm_index(k, dlen(t), st)
                return VAny(dkey(t, i))
            raise Unsupported("subscript of unknown value")
        if isinstance(c, VExt) and c.kind == "bigtuple" and c.data[2]:
            i = self.norm_index(k, iv(c.data[1]), st)
            if st.dead:
                return VPoison("dead")
            t = z3.Function(f"constant!{c.data[0]}", I, Val)(i)
            st.assume(tag(t) == TAGS["str"])
            return VStr(t)
        if isinstance(c, VExt):
            h = self.ext_models.get(c.kind)
            if h is not None:
                r = h(self, c, "__getitem__", st)
                if r is not None:
                    return self.call(r, [k], {}, st)
        if isinstance(c, VPy) and isinstance(c.obj, (dict, list, tuple)):
            return self.get_item(self.lift(c.obj, st), k, st)
        if c is VNone or isinstance(c, (VInt, VBool, VReal)):
            self.do_raise(st, VExc(TypeError))
            return VPoison("dead")
        raise Unsupported(f"subscript of {c!r}")

    def as_seq_value(self, seq, st, node=None):
        if seq.kind == "tuple" and seq.items is not None:
            return VTuple(seq.items)
        return self.alloc(st, seq, ("slice",) + (self.site(node) if node is not None else (0, 0)))

    def slice_bounds(self, n, sl, st):
        lo, hi, step = sl.data
        if step is not VNone and conc(to_int(step)) != 1:
            raise Unsupported("slice step")

        def norm(x, d):
            if x is VNone:
                return d
            t = to_int(x)
            ct = conc(t)
            if ct is not None and conc(n) is not None:
                cn = conc(n)
                return iv(max(0, min(cn, ct if ct >= 0 else cn + ct)))
            if self.proves(st, And(t >= 0, t <= n)):
                return t
            if ct is not None and ct < 0 and self.proves(st, n >= -ct):
                return simp(n + ct)
            t = z3.If(t < 0, t + n, t)
            return z3.If(t < 0, iv(0), z3.If(t > n, n, t))

        a, c = norm(lo, iv(0)), norm(hi, n)
        if not self.proves(st, a <= c):
            c = z3.If(c < a, a, c)
        return a, c

    def slice_seq(self, o, sl, st):
        lo, hi, step = sl.data
        if lo is VNone and hi is VNone and step is not VNone and conc(to_int(step)) == -1:
            if o.items is not None:
                return Seq(o.kind, o.items[::-1])
            n, get = o.n, o.get
            return Seq(o.kind, n=n, get=lambda i: get(simp(n - 1 - i)))
        a, c = self.slice_bounds(o.n, sl, st)
        ca, cc = conc(a), conc(c)
        if o.items is not None and ca is not None and cc is not None:
            return Seq(o.kind, o.items[ca:cc])
        get = o.get
        return Seq(o.kind, n=simp(c - a), get=lambda i: get(simp(a + i)))

    def set_item(self, c, k, v, st, node=None):
        c, k = force(c), force(k)
        if isinstance(c, VUnion):
            self.distribute(st, c, lambda s, x: (self.set_item(self.unpoison(s, x, "?"), k, v, s, node), VNone)[1])
            return
        if isinstance(k, VUnion):
            self.distribute(st, k, lambda s, x: (self.set_item(c, self.unpoison(s, x, "?"), v, s, node), VNone)[1])
            return
        if isinstance(c, VRef):
            o = st.content(c)
            if isinstance(o, Inst):
                self.call_method(c, "__setitem__", [k, v], {}, st)
                return
            if isinstance(o, Seq):
                if isinstance(k, VExt) and k.kind == "slice":
                    self.set_slice(c, o, k, v, st)
                    return
                i = self.norm_index(k, o.n, st)
                if st.dead:
                    return
                self.writes.append((c, None))
                self.put(st, c, o.write(lambda j: Eq(j, i), lambda j: v))
                return
            if isinstance(o, (Dict, Map)):
                self.dict_set(c, k, v, st)
                return
        if isinstance(c, VAny) and not self.ambient:
            self.guard(st, tag(c.t) == TAGS["dict"], TypeError)
            self.plain_key(k, st)
            if not st.dead:
                uset(st, c.t, to_val(k), to_val(v))
            return
        if isinstance(c, VExt):
            self.externals.append(("setitem", c.kind))
            h = self.ext_models.get(c.kind)
            if h is not None:
                r = h(self, c, "__setitem__", st)
                if r is not None:
                    self.call(r, [k, v], {}, st)
                    return
        raise Unsupported(f"item assignment on {c!r}")

    def set_slice(self, c, o, sl, v, st):
        v = force(v)
        if not isinstance(v, VRef) or not isinstance(st.content(v), Seq):
            raise Unsupported("slice assignment value")
        src = st.content(v)
        if o.kind == "array" and src.kind != "array":
            self.do_raise(st, VExc(TypeError))
            return
        a, d = self.slice_bounds(o.n, sl, st)
        self.writes.append((c, None))
        if self.proves(st, src.n == d - a):
            self.put(st, c, o.write(lambda j: And(j >= a, j < d), lambda j: src.get(simp(j - a))))
            return
        get, n, m, sget = o.get, o.n, src.n, src.get
        diff = m - (d - a)
        new = Seq(o.kind, n=simp(n + diff), get=lambda j: merge(j < a, get(j), merge(
            j < a + m, sget(simp(j - a)), get(simp(j - diff)))))
        self.put(st, c, new)

    def del_item(self, c, k, st):
        c, k = force(c), force(k)
        if isinstance(c, VUnion):
            self.distribute(st, c, lambda s, x: (self.del_item(self.unpoison(s, x, "?"), k, s), VNone)[1])
            return
        if isinstance(c, VRef):
            o = st.content(c)
            if isinstance(o, Inst):
                self.call_method(c, "__delitem__", [k], {}, st)
                return
            if isinstance(o, (Dict, Map)):
                self.dict_del(c, k, st)
                return
            if isinstance(o, Seq) and o.kind == "tuple":
                self.do_raise(st, VExc(TypeError))
                return
            if isinstance(o, Seq) and o.kind in ("list", "deque", "array"):
                if isinstance(k, VExt) and k.kind == "slice":
                    a, d = self.slice_bounds(o.n, k, st)
                    ca, cd = conc(a), conc(d)
                    if o.items is not None and ca is not None and cd is not None:
                        new = Seq(o.kind, o.items[:ca] + o.items[cd:])
                    else:
                        get = o.get
                        new = Seq(o.kind, n=simp(o.n - (d - a)), get=lambda j: merge(j < a, get(j), get(simp(j + (d - a)))))
                    self.writes.append((c, None))
                    self.put(st, c, new)
                    return
                if isinstance(k, (VInt, VBool)):
                    i = self.norm_index(k, o.n, st)
                    if not st.dead:
                        self.seq_pop(c, o, [VInt(i)], {}, st, None)
                    return
        raise Unsupported(f"del on {c!r}")

    # -------------------------------------------------------------- dicts

    def plain_key(self, k, st):
        """True == 1 == 1.0 as keys, which the terms for them are not;
        lists, dictionaries and sets given by the user cannot be keys"""
        alts = k.alts if isinstance(k, VUnion) else [(TRUE, k)]
        for _, x in alts:
            if isinstance(force(x), (VBool, VReal)):
                raise Unsupported(f"{x!r} as a key")
        for c, x in alts:
            x = force(x)
            if isinstance(x, VAny) and user_value(x.t):
                self.guard(st, Implies(c, hashable(x.t)), TypeError, "unhashable")

    def dict_get(self, ref, k, st, default=None):
        o = st.content(ref)
        self.plain_key(k, st)
        if isinstance(o, Dict):
            if isinstance(k, VStr) and k.lit is not None:
                if k.lit in o.e:
                    p, v = o.e[k.lit]
                elif getattr(o, "open", False):
                    raise Unsupported(f"key {k.lit!r} of an open dictionary")
                else:
                    p, v = FALSE, None
                if default is not None:
                    if v is None:
                        return default
                    return self.fork(st, p, lambda s: v, lambda s: default)
                self.guard(st, p, KeyError, k.lit)
                return v if v is not None else VPoison("dead")
            if not o.e and not getattr(o, "open", False):
                if default is not None:
                    return default
                self.do_raise(st, VExc(KeyError))
                return VPoison("dead")
            if all(isinstance(x, str) for x in o.e) and not getattr(o, "open", False):
                t = to_val(k)
                alts = [(And(p, Eq(t, lit(x))), v) for x, (p, v) in o.e.items()]
                has = Or(*[c for c, _ in alts])
                if default is None:
                    self.guard(st, has, KeyError)
                    if st.dead:
                        return VPoison("dead")
                    v = alts[-1][1]
                    for c, x in reversed(alts[:-1]):
                        v = merge(c, x, v)
                    return v
                v = default
                for c, x in reversed(alts):
                    v = merge(c, x, v)
                return v
            raise Unsupported("dictionary lookup")
        t = to_val(k)
        has = o.dom(t)
        if default is not None:
            return self.fork(st, has, lambda s: o.val(t), lambda s: default)
        self.guard(st, has, KeyError)
        if st.dead:
            return VPoison("dead")
        return o.val(t)

    def dict_set(self, ref, k, v, st):
        self.plain_key(k, st)
        o = st.content(ref)
        self.writes.append((ref, None))
        if isinstance(o, Dict):
            if isinstance(k, VStr) and k.lit is not None:
                n = o.set(k.lit, v)
                if getattr(o, "open", False):
                    n.open = True
                self.put(st, ref, n)
                return
            if o.e and all(isinstance(x, str) for x in o.e):
                t = to_val(k)
                present = And(*[p for p, _ in o.e.values()])
                inside = Or(*[Eq(t, lit(x)) for x in o.e])
                if is_true(present) and self.proves(st, inside):
                    e = {x: (p, merge(Eq(t, lit(x)), v, w)) for x, (p, w) in o.e.items()}
                    self.put(st, ref, Dict(e))
                    return
            o = dict_to_map(o)
            o.lin = None
        m = o.set(to_val(k), v, k)
        self.put(st, ref, m)

    def dict_del(self, ref, k, st):
        self.plain_key(k, st)
        o = st.content(ref)
        self.writes.append((ref, None))
        if isinstance(o, Dict):
            if isinstance(k, VStr) and k.lit is not None and not getattr(o, "open", False):
                p = o.e[k.lit][0] if k.lit in o.e else FALSE
                self.guard(st, p, KeyError)
                if not st.dead:
                    e = dict(o.e)
                    del e[k.lit]
                    self.put(st, ref, Dict(e))
                return
            o = dict_to_map(o)
        t = to_val(k)
        self.guard(st, o.dom(t), KeyError)
        if not st.dead:
            self.put(st, ref, o.delete(t))

    def dict_update(self, ref, other, st):
        other = force(other)
        if isinstance(other, VRef):
            c = st.content(other)
            if isinstance(c, Dict):
                for k, (p, v) in c.e.items():
                    if is_true(p):
                        self.dict_set(ref, S(k), v, st)
                    else:
                        self.fork(st, p, lambda s: (self.dict_set(ref, S(k), v, s), VNone)[1], lambda s: VNone)
                return
            if isinstance(c, Map):
                return self.map_merge(ref, c, st)
        if isinstance(other, VAny) and self.proves(st, tag(other.t) == TAGS["dict"]):
            no_user_writes(st)
            t = other.t
            return self.map_merge(ref, Map(dlen(t), lambda i: dkey(t, i), lambda k: dhas(t, k), lambda k: dpos(t, k),
                                           lambda k: VAny(dget(t, k)), None, False), st)
        raise Unsupported(f"update with {other!r}")

    def map_merge(self, ref, o, st):
        """all entries of o, new ones after the old ones in their order"""
        if self.ambient:
            raise Unsupported("update in a comprehension")
        m = st.content(ref)
        if isinstance(m, Dict) and getattr(m, "open", False):
            raise Unsupported("update of an open dictionary")
        m = dict_to_map(m) if isinstance(m, Dict) else m
        if m.kind != "dict" or o.kind != "dict":
            raise Unsupported(f"update of {m.kind}")
        if conc(m.n) == 0:
            self.writes.append((ref, None))
            self.put(st, ref, Map(o.n, o.at, o.dom, o.pos, o.val, None, m.strkeys and o.strkeys))
            return
        n, at, pos = self.fresh("n", I), self.fresh_fn("at", I, Val), self.fresh_fn("pos", Val, I)
        dom = lambda k: Or(m.dom(k), o.dom(k))  # noqa
        st.assume(And(n >= m.n, n >= o.n, n <= m.n + o.n))
        st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < n), And(dom(at(i)), pos(at(i)) == i)), lambda i: [at(i)]))
        st.assume(ForAll([Val], lambda k: Implies(dom(k), And(pos(k) >= 0, pos(k) < n, at(pos(k)) == k)), lambda k: [pos(k)]))
        st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < m.n), at(i) == m.at(i)), lambda i: [at(i)]))
        st.assume(ForAll([Val, Val], lambda j, k: Implies(
            And(o.dom(j), o.dom(k), Not(m.dom(j)), Not(m.dom(k)), o.pos(j) < o.pos(k)), pos(j) < pos(k))))
        self.reg_inverse(at, pos, st)
        self.writes.append((ref, None))
        self.put(st, ref, Map(n, at, dom, pos, lambda k: merge(o.dom(k), o.val(k), m.val(k)), None,
                              m.strkeys and o.strkeys))

    # -------------------------------------------------------------- calls

    def e_Call(self, node, st):
        f = node.func
        # zero argument super
        if isinstance(f, ast.Name) and f.id == "super" and not node.args and "super" not in st.env:
            cls = self.fr.get("cls")
            me = st.env.get(self.fr.get("self_name"))
            if cls is None or me is None:
                raise Unsupported("super()")
            return VExt("super", (cls, force(me)))
        fv = self.ev(f, st)
        if st.dead:
            return VPoison("dead")
        if isinstance(fv, VPy) and fv.obj is next and 1 <= len(node.args) <= 2 and not node.keywords and isinstance(
                node.args[0], ast.GeneratorExp) and len(node.args[0].generators) == 1:
            return self.first_of(node, st)
        # the callee consumes its arguments before anything else happens
        at_once = isinstance(fv, VBound) and fv.fn is None or isinstance(fv, VPy) and getattr(
            fv.obj, "__module__", "") == "builtins" and fv.obj not in (iter, zip, enumerate, map, filter, next)
        for x in node.args:
            if at_once and (isinstance(x, ast.GeneratorExp) or isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Name) and x.func.id in ("map", "filter")):
                self.direct.add(id(x))
        for x in list(node.args) + [k.value for k in node.keywords]:
            if isinstance(x, ast.Lambda) and at_once:
                self.direct.add(id(x))
        args = self.elements(node.args, st)
        if args is None:
            return VPoison("dead")
        kw = {}
        for k in node.keywords:
            v = self.ev(k.value, st)
            if st.dead:
                return VPoison("dead")
            if k.arg is None:
                v = force(v)
                o = st.content(v) if isinstance(v, VRef) else None
                if not isinstance(o, Dict):
                    raise Unsupported("** of unknown dictionary")
                for x, (p, w) in o.e.items():
                    if not is_true(p):
                        raise Unsupported("** with optional keys")
                    kw[x] = w
            else:
                kw[k.arg] = v
        return self.call(fv, args, kw, st, node)

    def first_of(self, node, st):
        """next(x for ... in ... if ..., default) is a loop with a break"""
        gen = node.args[0]
        g = gen.generators[0]
        key = ("next", id(node))
        if any(isinstance(n, ast.NamedExpr) for n in ast.walk(node)):
            raise Unsupported("an assignment expression in a comprehension")
        if key not in self.synth:
            nm = f".nxt{len(self.synth)}"
            load, store = lambda x: ast.Name(nm + x, ast.Load()), lambda x: ast.Name(nm + x, ast.Store())  # noqa
            body = [ast.Assign([store("r")], gen.elt), ast.Break()]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            other = ast.Assign([store("r")], load("d")) if len(node.args) == 2 else ast.Raise(load("e"), None)
            loop = ast.For(g.target, load("i"), body, [other])
            for n in ast.walk(loop):
                if not hasattr(n, "lineno") and isinstance(n, (ast.expr, ast.stmt)):
                    n.lineno, n.col_offset = node.lineno, node.col_offset
                    n.end_lineno, n.end_col_offset = node.end_lineno, node.end_col_offset
            loop.col_offset = node.col_offset + 1000
            self.synth[key] = (nm, loop, node)
        nm, loop, _ = self.synth[key]
        saved = dict(st.env)
        it = self.ev(g.iter, st)
        if st.dead:
            return VPoison("dead")
        st.env[nm + "i"], st.env[nm + "e"] = it, VPy(StopIteration)
        if len(node.args) == 2:
            d = self.ev(node.args[1], st)
            if st.dead:
                return VPoison("dead")
            st.env[nm + "d"] = d
        outs = self.run_stmt(loop, st)
        nxt = [o for o in outs if o.kind == "next"]
        if len(nxt) > 1 or any(o.kind not in ("next", "raise") for o in outs):
            raise Unsupported("control flow in next")
        self.raises.extend(o for o in outs if o.kind == "raise")
        if not nxt:
            st.dead = True
            st.pc.append(FALSE)
            return VPoison("dead")
        s = nxt[0].st
        r = s.env[nm + "r"]
        s.env = saved
        st.take(s)
        return r

    def call(self, fv, args, kw, st, node=None):
        if st.dead:
            return VPoison("dead")
        fv = force(fv)
        if isinstance(fv, VUnion):
            return self.distribute(st, fv, lambda s, x: self.call(self.unpoison(s, x, "?"), args, kw, s, node))
        args = [force(a) for a in args]
        if isinstance(fv, VPy):
            return self.call_py(fv.obj, args, kw, st, node)
        if isinstance(fv, VBound):
            if fv.fn is not None:
                return self.call_fn(fv.fn, [fv.me] + args, kw, st, node)
            return self.call_builtin_method(fv.me, fv.name, args, kw, st, node)
        if isinstance(fv, VLambda):
            return self.call_lambda(fv, args, kw, st)
        if isinstance(fv, VExt):
            return self.ext_call(fv, args, kw, st, node)
        if isinstance(fv, VRef) and isinstance(st.content(fv), Inst):
            return self.call_method(fv, "__call__", args, kw, st)
        if isinstance(fv, VAny) or fv is VNone:
            self.do_raise(st, VExc(TypeError))
            return VPoison("dead")
        raise Unsupported(f"call of {fv!r}")

    def call_method(self, me, name, args, kw, st):
        f = self.get_attr(me, name, st)
        return self.call(f, args, kw, st)

    def call_py(self, obj, args, kw, st, node=None):
        m = self.model_for(obj)
        if m is not None:
            return m(self, args, kw, st, node)
        if isinstance(obj, type):
            if issubclass(obj, BaseException):
                return VExc(obj, args)
            if self.in_scope(obj):
                self.hooked(obj, "__new__")
                if type(obj).__call__ is not type.__call__:
                    raise Unsupported(f"metaclass of {obj.__name__}")
                ref = self.alloc(st, Inst(obj, {}), ("new", obj.__name__) + (self.site(node) if node is not None else ()))
                init = self.static_attr(obj, "__init__")
                if isinstance(init, types.FunctionType):
                    self.call_fn(init, [ref] + args, kw, st, node)
                return ref
            raise Unsupported(f"class {obj.__name__}")
        if isinstance(obj, types.FunctionType):
            return self.call_fn(obj, args, kw, st, node)
        if isinstance(obj, types.MethodType):
            if isinstance(obj.__self__, type):
                return self.call_fn(obj.__func__, [VPy(obj.__self__)] + args, kw, st, node)
        raise Unsupported(f"call of {obj!r}")

    def in_scope(self, obj):
        mod = getattr(obj, "__module__", "") or ""
        return mod.split(".")[0] in ("hyperpack",) or mod in self.inline_modules

    def call_fn(self, fn, args, kw, st, node=None):
        m = self.model_for(fn)
        if m is not None:
            return m(self, args, kw, st, node)
        con = self.contracts.get(getattr(fn, "__qualname__", ""))
        if con is not None and self.in_scope(fn):
            bound = self.bind(fn, args, kw, st)
            if bound is None:
                return VPoison("dead")
            if con.matches(self, st, bound):
                self.used_contracts.add(fn.__qualname__)
                return con.apply(self, st, bound)
        if not self.in_scope(fn):
            raise Unsupported(f"call of {getattr(fn, '__module__', '')}.{getattr(fn, '__qualname__', fn)}")
        return self.inline(fn, args, kw, st, node)

    def bind(self, fn, args, kw, st):
        """parameter name -> value"""
        sig = inspect.signature(fn)
        try:
            ba = sig.bind(*args, **kw)
        except TypeError:
            self.do_raise(st, VExc(TypeError, (S("arguments"),)))
            return None
        env = {}
        for name, p in sig.parameters.items():
            if name in ba.arguments:
                v = ba.arguments[name]
                if p.kind == p.VAR_POSITIONAL:
                    v = VTuple(v)
                elif p.kind == p.VAR_KEYWORD:
                    v = self.alloc(st, Dict({k: (x.cond, x.v) if isinstance(x, Optional) else (TRUE, x) for k, x in v.items()}),
                                   ("kw", fn.__qualname__))
                env[name] = v
            elif p.kind == p.VAR_POSITIONAL:
                env[name] = VTuple(())
            elif p.kind == p.VAR_KEYWORD:
                env[name] = self.alloc(st, Dict({}), ("kw", fn.__qualname__))
            else:
                env[name] = self.lift(p.default, st)
        return env

    def inline(self, fn, args, kw, st, node=None):
        if len(self.stack) > MAXDEPTH:
            raise Unsupported("call depth")
        tree = front.function_ast(fn)
        if tree is None or isinstance(tree, ast.Lambda):
            raise Unsupported(f"no source of {fn}")
        for n in ast.walk(tree):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                raise Unsupported("generator function")
        env = self.bind(fn, args, kw, st)
        if env is None:
            return VPoison("dead")
        self.inlined.add(f"{fn.__module__}.{fn.__qualname__}")
        cls = None
        try:
            cls = front.closure_var(fn, "__class__")
        except KeyError:
            pass
        first = next(iter(inspect.signature(fn).parameters), None)
        fr = {"fn": fn, "glob": fn.__globals__, "cls": cls, "self_name": first,
              "locals": set(fn.__code__.co_varnames), "name": fn.__qualname__}
        return self.run_frame(fr, tree.body, env, st, ("call", getattr(fn, "__qualname__", "?"))
                              + (self.site(node) if node is not None else ()))

    def call_lambda(self, fv, args, kw, st):
        node = fv.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg or a.kwarg or a.kwonlyargs:
            raise Unsupported("nested function signature")
        env = dict(zip(names, args))
        if len(args) > len(names) or set(kw) & set(env) or not set(kw) <= set(names) or set(names) - set(env) - set(kw) - set(fv.defaults):
            self.do_raise(st, VExc(TypeError))
            return VPoison("dead")
        env = {**fv.defaults, **env, **kw}
        fr = dict(fv.glob)
        fr["closure_env"] = fv.env
        fr["name"] = fv.name
        fr["own"] = {n.id for x in node.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} \
            if isinstance(node, ast.FunctionDef) else set()
        body = [ast.Return(node.body)] if isinstance(node, ast.Lambda) else node.body
        for x in body:
            if not hasattr(x, "lineno"):
                ast.copy_location(x, node)
        return self.run_frame(fr, body, env, st, ("call", fv.name))

    def run_frame(self, fr, body, env, st, site):
        saved_env, saved_fr, saved_path = st.env, self.fr, self.path
        st.env = env
        self.fr = fr
        self.path = self.path + (site,)
        self.stack.append(fr)
        base = len(st.pc)
        outer, self.raises = self.raises, []
        try:
            outs = self.run_block(body, st)
        finally:
            mine, self.raises = self.raises, outer
            self.fr, self.path = saved_fr, saved_path
            self.stack.pop()
        for o in mine:
            o.st.env = dict(saved_env)
            self.raises.append(o)
        rets = []
        for o in outs:
            if o.kind == "return":
                rets.append((o.st, o.val))
            elif o.kind == "next":
                rets.append((o.st, VNone))
            else:
                raise Unsupported(f"{o.kind} leaves function")
        for s, _ in rets:
            s.env = {}
        r = self.merge_many(base, rets)
        if r is None:
            st.env = saved_env
            st.dead = True
            st.pc.append(FALSE)
            return VPoison("dead")
        s, v = r
        s.env = saved_env
        st.take(s)
        return v if v is not None else VNone


def _noop(*a, **k):
    return None
