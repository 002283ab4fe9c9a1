"""Meaning of built-in functions, container methods and external libraries."""
import ast
import builtins
import collections
import collections.abc
import copy
import itertools
import json
import logging
import math
import random
import re
import time
import types

import z3

import smt
from core import *  # noqa

TYPE_TAGS = {bool: "bool", int: "int", float: "float", str: "str", dict: "dict", list: "list",
             tuple: "tuple", set: "set", type(None): "none"}


def regex_name(pattern, how):
    return f"{how}:{pattern.pattern}:{pattern.flags}"


class ModelMixin:
    def init_models(self):
        import array
        import multiprocessing
        import pathlib
        import platform
        M = self.models = {}
        for name in dir(type(self)):
            if name.startswith("b_"):
                M[getattr(builtins, name[2:])] = getattr(type(self), name)
        M[collections.deque] = type(self).m_deque
        M[array.array] = type(self).m_array
        M[copy.deepcopy] = type(self).m_deepcopy
        M[math.ceil] = type(self).m_ceil
        M[math.floor] = type(self).m_floor
        M[random.randint] = type(self).m_randint
        M[random.uniform] = type(self).m_uniform
        M[time.time] = type(self).m_time
        M[multiprocessing.cpu_count] = type(self).m_cpu_count
        M[re.match] = type(self).m_rematch
        M[platform.system] = type(self).m_opaque_str
        M[multiprocessing.current_process] = lambda ex, a, k, st, n: VExt("process", ())
        M[pathlib.Path] = type(self).m_path
        M[itertools.combinations] = type(self).m_combinations
        M[itertools.permutations] = type(self).m_permutations
        M[json.dumps] = type(self).m_opaque_str
        M[collections.abc.KeysView] = lambda ex, a, k, st, n: VExt("keys", (a[0],))
        M[collections.abc.ItemsView] = type(self).m_itemsview
        M[collections.abc.ValuesView] = type(self).m_valuesview

    def model_for(self, obj):
        try:
            m = self.models.get(obj)
        except TypeError:
            return None
        if m is not None:
            return m
        if isinstance(obj, types.MethodType) and isinstance(obj.__self__, logging.Logger):
            return ModelMixin.m_log
        if isinstance(getattr(obj, "__self__", None), re.Pattern) and obj.__name__ in ("match", "fullmatch", "search"):
            return lambda ex, a, k, st, n: ModelMixin.m_regex(ex, obj, a, k, st, n)
        if isinstance(obj, type) and issubclass(obj, dict) and obj is dict:
            return ModelMixin.b_dict
        if getattr(obj, "__self__", None) is dict and obj.__name__ == "fromkeys":
            return ModelMixin.m_fromkeys
        return None

    def m_fromkeys(self, args, kw, st, node):
        if kw or not 1 <= len(args) <= 2 or node is None:
            raise Unsupported("dict.fromkeys")
        key = ("fromkeys", id(node))
        if key not in self.synth:
            n = ast.parse("{.k: .v for .k in .it}".replace(".", "_fromkeys_"), mode="eval").body
            for x in ast.walk(n):
                if hasattr(x, "lineno"):
                    x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = (
                        node.lineno, node.col_offset + 2000, node.end_lineno, node.end_col_offset)
            self.synth[key] = (n, node)
        names = ("_fromkeys_it", "_fromkeys_v", "_fromkeys_k")
        saved = {n: st.env[n] for n in names if n in st.env}
        st.env["_fromkeys_it"] = args[0]
        st.env["_fromkeys_v"] = args[1] if len(args) == 2 else VNone
        r = self.e_DictComp(self.synth[key][0], st)
        for n in names:
            st.env.pop(n, None)
        st.env.update(saved)
        return r

    def as_generator(self, text, args, st, node):
        """the generator expression that does the same, over names of its own"""
        key = ("generator", id(node), text)
        if key not in self.synth:
            n = ast.parse(text, mode="eval").body
            for x in ast.walk(n):
                if hasattr(x, "lineno"):
                    x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = (
                        node.lineno, node.col_offset + 3000, node.end_lineno, node.end_col_offset)
            self.synth[key] = (n, node)
        gen = self.synth[key][0]
        if id(node) in self.direct:
            self.direct.add(id(gen))
        elif any(isinstance(a, VRef) for a in args[1:]) or isinstance(args[0], (VLambda, VBound)):
            raise Unsupported("a generator over data that may change")
        names = ["_gen_f", "_gen_zip"] + [f"_gen_{i}" for i in range(len(args))]
        saved = {n: st.env[n] for n in names if n in st.env}
        st.env["_gen_f"], st.env["_gen_zip"] = args[0], VPy(zip)
        for i, a in enumerate(args[1:]):
            st.env[f"_gen_{i}"] = a
        r = self.e_GeneratorExp(gen, st)
        for n in names:
            st.env.pop(n, None)
        st.env.update(saved)
        return r

    def b_map(self, args, kw, st, node):
        if kw or len(args) < 2 or node is None:
            raise Unsupported("map")
        args = [force(a) for a in args]
        if len(args) == 2:
            return self.as_generator("(_gen_f(_gen_x) for _gen_x in _gen_0)", args, st, node)
        n = range(len(args) - 1)
        xs, its = ", ".join(f"_gen_x{i}" for i in n), ", ".join(f"_gen_{i}" for i in n)
        return self.as_generator(f"(_gen_f({xs}) for {xs} in _gen_zip({its}))", args, st, node)

    def b_filter(self, args, kw, st, node):
        if kw or len(args) != 2 or node is None:
            raise Unsupported("filter")
        args = [force(a) for a in args]
        how = "_gen_x" if args[0] is VNone else "_gen_f(_gen_x)"
        return self.as_generator(f"(_gen_x for _gen_x in _gen_0 if {how})", args, st, node)

    def m_log(self, args, kw, st, node):
        return VNone

    def m_regex(self, obj, args, kw, st, node):
        """whether a text matches is a function of the text, named by the pattern"""
        v = force(args[0])
        if len(args) != 1 or kw or not isinstance(v, (VAny, VStr)):
            raise Unsupported("regular expression")
        if isinstance(v, VAny):
            self.guard(st, tag(v.t) == TAGS["str"], TypeError)
        ok = z3.Function("re." + regex_name(obj.__self__, obj.__name__), Val, B)(v.t)
        return VUnion([(ok, VExt("match", ())), (Not(ok), VNone)])

    def m_rematch(self, args, kw, st, node):
        """re.match(pattern, text) for a literal pattern"""
        pat, v = force(args[0]), force(args[1]) if len(args) == 2 else None
        if kw or not isinstance(pat, VStr) or pat.lit is None or not isinstance(v, VStr):
            raise Unsupported("re.match")
        if v.lit is not None:
            m = re.match(pat.lit, v.lit)
            return VNone if m is None else VExt("match", (S(m.group()),))
        g = z3.Function("re.group:" + pat.lit, Val, Val)(v.t)
        st.assume(tag(g) == TAGS["str"])
        if re.fullmatch(r"(\\d|\[0-9\])[*+]", pat.lit):
            num, ok = z3.Function("int!of", Val, I)(g), z3.Function("int!ok", Val, B)(g)
            st.assume(And(Or(g == lit(""), ok), num >= 0, truthyV(g) == (g != lit(""))))
        m = VExt("match", (VStr(g),))
        if re.match(pat.lit, ""):
            return m  # some prefix always matches
        ok = z3.Function("re.prefix:" + pat.lit, Val, B)(v.t)
        return VUnion([(ok, m), (Not(ok), VNone)])

    def m_cpu_count(self, args, kw, st, node):
        self.nondet.add("number of processors")
        n = self.fresh("cpus", I)
        st.assume(n >= 1)
        return VInt(n)

    def m_path(self, args, kw, st, node):
        self.nondet.add("file system")
        v = force(args[0])
        if len(args) != 1:
            raise Unsupported("Path of several parts")
        if isinstance(v, VAny):
            self.guard(st, Or(tag(v.t) == TAGS["str"], tag(v.t) == TAGS["other"]), TypeError)
        return VExt("path", (v,))

    def m_opaque_str(self, args, kw, st, node):
        self.nondet.add("opaque text")
        t = self.fresh("text", Val)
        st.assume(tag(t) == TAGS["str"])
        return VStr(t)

    # ---------------------------------------------------------- builtins

    def b_print(self, args, kw, st, node):
        return VNone

    def b_len(self, args, kw, st, node):
        return self.distribute(st, args[0], lambda s, v: self.len_(self.unpoison(s, v, "?"), s))

    def len_(self, v, st):
        v = force(v)
        if isinstance(v, VTuple):
            return VInt(len(v.items))
        if isinstance(v, VRef):
            c = st.content(v)
            if isinstance(c, (Seq, Map)):
                return VInt(simp(c.n))
            if isinstance(c, Dict):
                if getattr(c, "open", False):
                    raise Unsupported("len of an open dictionary")
                return VInt(simp(z3.Sum([If(p, iv(1), iv(0)) for p, _ in c.e.values()]))) if c.e else VInt(0)
            if isinstance(c, SetC):
                if c.items is not None and all(isinstance(x, VStr) and x.lit is not None for x in c.items):
                    return VInt(len({x.lit for x in c.items}))
                n, _ = self.enum_set(c, st)
                return VInt(n)
            if isinstance(c, Inst):
                return self.call_method(v, "__len__", [], {}, st)
        if isinstance(v, VAny):
            self.guard(st, Or(*[tag(v.t) == TAGS[n] for n in ("dict", "list", "tuple", "set", "str", "other")]), TypeError)
            no_user_writes(st)
            return VInt(dlen(v.t))
        if isinstance(v, VStr):
            if v.lit is not None:
                return VInt(len(v.lit))
            return VInt(dlen(v.t))
        if isinstance(v, VExt) and v.kind in ("keys", "items", "values"):
            return self.len_(v.data[0], st)
        if isinstance(v, VExt) and v.kind in ("range", "combs", "enumerate", "zip"):
            return VInt(self.iterate(v, st)[0])
        if isinstance(v, VExt) and v.kind == "bigtuple":
            return VInt(v.data[1])
        if v is VNone or isinstance(v, (VInt, VBool, VReal)):
            self.do_raise(st, VExc(TypeError))
            return VInt(0)
        raise Unsupported(f"len of {v!r}")

    def b_range(self, args, kw, st, node):
        args = [self.int_arg(a, st) for a in args]
        if st.dead:
            return VPoison("dead")
        if len(args) == 1:
            args = [VInt(0), args[0], VInt(1)]
        elif len(args) == 2:
            args = args + [VInt(1)]
        return VExt("range", args)

    def int_arg_in(self, st, a):
        return self.int_arg(a, st)

    def int_arg(self, a, st):
        a = force(a)
        if isinstance(a, VUnion):
            a = self.unpoison(st, a, "?")
        if isinstance(a, VAny):
            a = self.any_num(a, st, True)
            if isinstance(a, VUnion):
                return self.distribute(st, a, self.int_arg_in)
        if isinstance(a, (VInt, VBool)):
            return VInt(to_int(a))
        if isinstance(a, VReal):
            self.do_raise(st, VExc(TypeError))
            return VInt(0)
        if a is VNone:
            self.do_raise(st, VExc(TypeError))
            return VInt(0)
        raise Unsupported(f"{a!r} as integer")

    def b_enumerate(self, args, kw, st, node):
        return self.iterator("enumerate", (args[0], args[1] if len(args) > 1 else kw.get("start", VInt(0))))

    def b_zip(self, args, kw, st, node):
        return self.iterator("zip", args)

    def b_reversed(self, args, kw, st, node):
        return self.iterator("reversed", args)

    def b_iter(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, VRef) and isinstance(st.content(v), Inst):
            return self.call_method(v, "__iter__", [], {}, st)
        if isinstance(v, VExt) and v.use is not None:
            return v
        return self.iterator("iter", args)

    def b_next(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, VExt) and v.kind == "iter":
            n, el = self.iterate(v, st)
            if len(args) > 1:
                raise Unsupported("next with default")
            self.guard(st, n > 0, StopIteration)
            return el(iv(0)) if not st.dead else VPoison("dead")
        raise Unsupported("next")

    def seq_of(self, v, st):
        """Seq content with the elements of an iterable"""
        v = force(v)
        if isinstance(v, VRef):
            c = st.content(v)
            if isinstance(c, Seq):
                return c
        n, el = self.iterate(v, st)
        if st.dead:
            return Seq("list", [])
        cn = conc(n)
        if cn is not None and cn <= 64:
            return Seq("list", [el(iv(i)) for i in range(cn)])
        return Seq("list", n=n, get=el)

    def b_list(self, args, kw, st, node):
        if not args:
            return self.alloc(st, Seq("list", []), self.site(node))
        return self.distribute(st, args[0], lambda s, v: self.mk_list(self.unpoison(s, v, "?"), s, node))

    def mk_list(self, v, st, node):
        c = self.seq_of(v, st)
        if st.dead:
            return VPoison("dead")
        new = Seq("list", list(c.items)) if c.items is not None else Seq("list", n=c.n, get=c.get)
        return self.alloc(st, new, ("list",) + self.site(node))

    def b_tuple(self, args, kw, st, node):
        if not args:
            return VTuple(())

        def mk(s, v):
            v = self.unpoison(s, v, "?")
            if isinstance(v, VTuple):
                return v
            c = self.seq_of(v, s)
            if s.dead:
                return VPoison("dead")
            if c.items is not None:
                return VTuple(c.items)
            return self.alloc(s, Seq("tuple", n=c.n, get=c.get), ("tuple",) + self.site(node))
        return self.distribute(st, args[0], mk)

    def b_set(self, args, kw, st, node):
        if not args:
            return self.alloc(st, SetC([]), self.site(node))
        return self.distribute(st, args[0], lambda s, v: self.mk_set(self.unpoison(s, v, "?"), s, node))

    def mk_set(self, v, st, node):
        v = force(v)
        if isinstance(v, VRef):
            c = st.content(v)
            if isinstance(c, Map):
                return self.alloc(st, SetC(None, c.dom), self.site(node))
            if isinstance(c, SetC):
                return self.alloc(st, SetC(c.items, c._has), self.site(node))
        if isinstance(v, VAny) and self.proves(st, tag(v.t) == TAGS["dict"]):
            t = v.t
            no_user_writes(st)
            return self.alloc(st, SetC(None, lambda x: dhas(t, x)), self.site(node))
        c = self.seq_of(v, st)
        if st.dead:
            return VPoison("dead")
        if c.items is not None:
            s = SetC([])
            for x in c.items:
                self.plain_key(x, st)
                s = s.add(x)
            s.lin = None
            return self.alloc(st, s, self.site(node))
        n, get = c.n, c.get
        el = get(self.fresh("index", I))
        if any(isinstance(force(x), (VBool, VReal)) for x in ([x for _, x in el.alts] if isinstance(el, VUnion) else [el])):
            raise Unsupported(f"a set of {el!r}")
        if isinstance(el, VAny) and user_value(el.t):
            self.guard(st, ForAll([I], lambda i: Implies(And(i >= 0, i < n), hashable(to_val(get(i))))), TypeError, "unhashable")
        new = SetC(None, lambda x: Exists([I], lambda i: And(i >= 0, i < n, to_val(get(i)) == x)))
        new.made_of = n, get
        return self.alloc(st, new, self.site(node))

    def b_dict(self, args, kw, st, node):
        ref = self.alloc(st, Dict({k: (TRUE, v) for k, v in kw.items()}), ("dict",) + self.site(node))
        if args:
            a = force(args[0])
            if isinstance(a, VRef):
                c = st.content(a)
                if isinstance(c, (Dict, Map)) and not kw:
                    self.put(st, ref, copy_content(c))
                    return ref
            if isinstance(a, VAny) and not kw and self.proves(st, tag(a.t) == TAGS["dict"]):
                t = a.t
                no_user_writes(st)
                self.put(st, ref, Map(dlen(t), lambda i: dkey(t, i), lambda x: dhas(t, x), lambda x: dpos(t, x),
                                      lambda x: VAny(dget(t, x)), None, False))
                return ref
            raise Unsupported("dict()")
        return ref

    def b_isinstance(self, args, kw, st, node):
        v, c = args
        cls = [x.obj for x in c.items] if isinstance(c, VTuple) else [c.obj] if isinstance(c, VPy) else None
        if cls is None:
            raise Unsupported("isinstance")
        flat = []
        for x in cls:
            if isinstance(x, types.UnionType):
                flat += list(x.__args__)
            elif isinstance(x, tuple):
                flat += list(x)
            else:
                flat.append(x)
        v = force(v)
        if isinstance(v, VUnion):
            return VBool(Or(*[And(q, Or(*[self.isinst(self.unpoison(st, x, "?"), k, st) for k in flat])) for q, x in v.alts]))
        return VBool(Or(*[self.isinst(v, k, st) for k in flat]))

    def isinst(self, v, cls, st):
        v = force(v)
        if isinstance(v, VAny):
            t = v.t
            if cls is int:
                return Or(tag(t) == TAGS["int"], tag(t) == TAGS["bool"])
            if cls in TYPE_TAGS:
                return tag(t) == TAGS[TYPE_TAGS[cls]]
            f = z3.Function("isinst!" + cls.__name__, Val, B)
            yes = [tag(t) == TAGS[n] for p, n in TYPE_TAGS.items() if issubclass(p, cls)]
            if cls.__module__.split(".")[0] == "hyperpack" and not yes:
                return And(tag(t) == TAGS["other"], f(t))
            return Or(*yes, And(tag(t) == TAGS["other"], f(t)))
        k = self.class_of(v, st)
        return b(issubclass(k, cls))

    def class_of(self, v, st):
        v = force(v)
        if isinstance(v, VBool):
            return bool
        if isinstance(v, VInt):
            return int
        if isinstance(v, (VReal, VInf)):
            return float
        if isinstance(v, VStr):
            return str
        if isinstance(v, VTuple):
            return tuple
        if v is VNone:
            return type(None)
        if isinstance(v, VExc):
            return v.cls
        if isinstance(v, VPy):
            return type(v.obj)
        if isinstance(v, VRef):
            c = st.content(v)
            if isinstance(c, Inst):
                return c.cls
            if isinstance(c, (Dict, Map)):
                return dict
            if isinstance(c, SetC):
                return set
            if isinstance(c, Seq):
                import array
                return {"list": list, "deque": collections.deque, "tuple": tuple, "array": array.array}[c.kind]
        raise Unsupported(f"type of {v!r}")

    def b_issubclass(self, args, kw, st, node):
        return VBool(issubclass(args[0].obj, args[1].obj))

    def b_type(self, args, kw, st, node):
        if len(args) != 1:
            raise Unsupported("type()")
        v = force(args[0])
        if isinstance(v, VAny):
            return VExt("class_of", (v,))
        return VPy(self.class_of(v, st))

    def b_getattr(self, args, kw, st, node):
        if not (isinstance(args[1], VStr) and args[1].lit is not None):
            raise Unsupported("getattr with unknown name")
        name = args[1].lit
        if len(args) == 2:
            return self.get_attr(args[0], name, st)
        v = force(args[0])
        if isinstance(v, VRef) and isinstance(st.content(v), Inst):
            return self.inst_attr(v, st.content(v), name, st, default=args[2])
        if isinstance(v, VPy):
            return self.lift(getattr(v.obj, name), st) if hasattr(v.obj, name) else args[2]
        if v is VNone:
            return args[2]
        raise Unsupported("getattr with default")

    def b_hasattr(self, args, kw, st, node):
        v = force(args[0])
        name = args[1].lit
        if isinstance(v, VRef) and isinstance(st.content(v), Inst):
            c = st.content(v)
            self.hooked(c.cls, "__getattribute__", "__getattr__")
            if isinstance(self.static_attr(c.cls, name), property):
                raise Unsupported("hasattr of a property")
            if name in c.f:
                x = force(c.f[name])
                if isinstance(x, VUnion):
                    return VBool(Or(*[q for q, w in x.alts if not isinstance(w, VPoison)]))
                if not isinstance(x, VPoison):
                    return VBool(True)
            if self.static_attr(c.cls, name) is None:
                self.described(c, name)
            return VBool(self.static_attr(c.cls, name) is not None)
        if isinstance(v, VPy):
            return VBool(hasattr(v.obj, name))
        raise Unsupported("hasattr")

    def b_setattr(self, args, kw, st, node):
        self.set_attr(args[0], args[1].lit, args[2], st)
        return VNone

    def b_abs(self, args, kw, st, node):
        v = force(args[0])
        if isinstance(v, VReal):
            return VReal(z3.If(v.t >= 0, v.t, -v.t))
        t = to_int(self.int_arg(v, st))
        if conc(t) is not None:
            return VInt(abs(conc(t)))
        if self.proves(st, t >= 0):
            return VInt(t)
        return VInt(z3.If(t >= 0, t, -t))

    def b_int(self, args, kw, st, node):
        v = force(args[0])
        if isinstance(v, VUnion) and len(args) == 1 and not kw:
            return self.distribute(st, v, lambda s, x: self.b_int([self.unpoison(s, x, "?")], kw, s, node))
        if len(args) > 1 or kw:
            raise Unsupported("int with a base")
        if isinstance(v, (VInt, VBool)):
            return VInt(to_int(v))
        if isinstance(v, VReal):
            return VInt(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if isinstance(v, VStr):
            if v.lit is not None and v.lit.isdecimal():
                return VInt(int(v.lit))
            f = z3.Function("int!of", Val, I)
            ok = z3.Function("int!ok", Val, B)
            self.guard(st, ok(v.t), ValueError)
            return VInt(f(v.t))
        raise Unsupported("int()")

    def b_float(self, args, kw, st, node):
        v = force(args[0])
        if isinstance(v, VStr) and v.lit is not None:
            return self.lift(float(v.lit))
        return VReal(to_real(v))

    def b_bool(self, args, kw, st, node):
        return VBool(self.named(st, self.truth(args[0], st)))

    def b_str(self, args, kw, st, node):
        v = force(args[0]) if args else S("")
        if isinstance(v, VStr):
            return v
        try:
            return self.fstring([(v, "")], st)
        except Unsupported:
            return self.m_opaque_str(args, kw, st, node)

    def b_round(self, args, kw, st, node):
        v = force(args[0])
        args = list(args) + list(kw.values())
        if len(args) > 1 and force(args[1]) is not VNone:
            d = conc(to_int(force(args[1])))
            if d is None or not 0 <= d <= 12 or not isinstance(v, (VInt, VReal)):
                raise Unsupported("round to digits")
            if isinstance(v, VInt):
                return v
            f = z3.Function(f"ROUND{d}", R, R)
            r, half = f(v.t), z3.RealVal(f"1/{2 * 10 ** d}")
            st.assume(And(r - v.t <= half, v.t - r <= half))
            if self.ambient:
                return VReal(r)
            st.assume(ForAll([R, R], lambda x, y: Implies(x <= y, f(x) <= f(y)), lambda x, y: [z3.MultiPattern(f(x), f(y))]))
            return VReal(r)
        if isinstance(v, (VInt, VBool)):
            return VInt(to_int(v))
        r = ROUND(to_real(v))
        x = to_real(v)
        st.assume(And(z3.ToReal(r) - x <= z3.RealVal("1/2"), x - z3.ToReal(r) <= z3.RealVal("1/2")))
        return VInt(r)

    def m_ceil(self, args, kw, st, node):
        v = force(args[0])
        if isinstance(v, VAny):
            v = self.any_num(v, st)
        if isinstance(v, (VInt, VBool)):
            return VInt(to_int(v))
        f = z3.Function("CEIL", R, I)
        r, x = f(v.t), v.t
        st.assume(And(z3.ToReal(r) >= x, z3.ToReal(r) < x + 1))
        return VInt(r)

    def m_floor(self, args, kw, st, node):
        v = force(args[0])
        if isinstance(v, (VInt, VBool)):
            return VInt(to_int(v))
        return VInt(z3.ToInt(v.t))

    def m_randint(self, args, kw, st, node):
        self.nondet.add("random numbers")
        a, c = to_int(self.int_arg(args[0], st)), to_int(self.int_arg(args[1], st))
        self.guard(st, a <= c, ValueError, "empty range for randint")
        r = self.fresh("rand", I)
        st.assume(And(r >= a, r <= c))
        return VInt(r)

    def m_uniform(self, args, kw, st, node):
        self.nondet.add("random numbers")
        a, c = [to_real(force(x)) for x in args]
        r = self.fresh("rand", R)
        st.assume(Or(And(r >= a, r <= c), And(r >= c, r <= a)))
        return VReal(r)

    def m_time(self, args, kw, st, node):
        self.nondet.add("clock")
        t = self.fresh("time", R)
        for h in getattr(self, "time_hooks", []):
            h(self, st, t)
        return VReal(t)

    def minmax(self, args, kw, st, node, is_max):
        if len(args) == 1:
            v = force(args[0])
            if isinstance(v, VUnion):
                return self.distribute(st, v, lambda s, x: self.minmax([self.unpoison(s, x, "?")], kw, s, node, is_max))
            c = self.seq_of(v, st)
            if st.dead:
                return VPoison("dead")
            if set(kw) - {"default", "key"}:
                raise Unsupported("max with " + ", ".join(kw))
            if kw.get("key", VNone) is not VNone:
                run = lambda s: self.minmax_key(c, kw["key"], s, node, is_max)  # noqa
                if "default" in kw:
                    return self.fork(st, c.n > 0, run, lambda s: kw["default"])
                self.guard(st, c.n > 0, ValueError, "empty sequence")
                return run(st) if not st.dead else VPoison("dead")
            if c.items is not None:
                if not c.items:
                    if "default" in kw:
                        return kw["default"]
                    self.do_raise(st, VExc(ValueError))
                    return VPoison("dead")
                args = c.items
            else:
                if "default" in kw:
                    return self.fork(st, c.n > 0, lambda s: self.max_seq(c, s, is_max), lambda s: kw["default"])
                self.guard(st, c.n > 0, ValueError, "empty sequence")
                if st.dead:
                    return VPoison("dead")
                return self.max_seq(c, st, is_max)
        op = ast.Gt() if is_max else ast.Lt()
        r = force(args[0])
        for x in args[1:]:
            x = force(x)
            cnd = self.compare(op, x, r, st)
            r = merge(cnd, x, r)
        return r

    def minmax_key(self, c, key, st, node, is_max):
        """the first element with the greatest (least) key"""
        syn = ("minmax", id(node))
        if syn not in self.synth:
            nm = f".ext{len(self.synth)}"
            load = lambda x: ast.Name(nm + x, ast.Load())  # noqa
            comp = ast.ListComp(ast.Call(load("k"), [load("x")], []),
                                [ast.comprehension(ast.Name(nm + "x", ast.Store()), load("s"), [], 0)])
            for x in ast.walk(comp):
                if isinstance(x, ast.expr):
                    x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = (
                        node.lineno, node.col_offset + 2000, node.end_lineno, node.end_col_offset)
            self.synth[syn] = (nm, comp, node)
        nm, comp, _ = self.synth[syn]
        st.env[nm + "k"] = key
        st.env[nm + "s"] = self.alloc(st, copy_content(c), ("ext",) + self.site(node))
        ref = self.comp(comp, st, "list")
        if st.dead:
            return VPoison("dead")
        for x in "ksx":
            st.env.pop(nm + x, None)
        keys = st.content(ref)
        if keys.items is not None:
            best, k0 = c.items[0] if c.items is not None else c.get(iv(0)), keys.items[0]
            for i, x in enumerate(keys.items[1:], 1):
                cnd = self.compare(ast.Gt() if is_max else ast.Lt(), force(x), force(k0), st)
                best = merge(cnd, c.items[i] if c.items is not None else c.get(iv(i)), best)
                k0 = merge(cnd, x, k0)
            return best
        w = self.fresh("argm", I)
        m = force(keys.get(w))
        if not isinstance(m, (VInt, VReal)):
            raise Unsupported("max of non numbers")
        num = lambda i: (to_real if isinstance(m, VReal) else to_int)(force(keys.get(i)))  # noqa
        st.assume(And(w >= 0, w < c.n))
        top = num(w)
        st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < c.n), num(i) <= top if is_max else num(i) >= top)))
        st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < w), num(i) < top if is_max else num(i) > top)))
        return c.get(w)

    def max_seq(self, c, st, is_max):
        w = self.fresh("argm", I)
        m = c.get(w)
        if isinstance(m, VAny):
            m = self.any_num(m, st, True)
        if not isinstance(m, (VInt, VReal)):
            raise Unsupported("max of non numbers")
        r = self.fresh("max", m.t.sort())
        st.assume(And(w >= 0, w < c.n, r == m.t))

        def le(i):
            e = c.get(i)
            t = (to_real(e) if isinstance(m, VReal) else to_int(e)) if not isinstance(e, VAny) else ival(e.t)
            return Implies(And(i >= 0, i < c.n), t <= r if is_max else t >= r)
        st.assume(ForAll([I], le))
        return type(m)(r)

    def b_max(self, args, kw, st, node):
        return self.minmax(args, kw, st, node, True)

    def b_min(self, args, kw, st, node):
        return self.minmax(args, kw, st, node, False)

    def b_sum(self, args, kw, st, node):
        def go(s, v):
            v = self.unpoison(s, v, "?")
            c = self.seq_of(v, s)
            if s.dead:
                return VPoison("dead")
            start = force(args[1]) if len(args) > 1 else VInt(0)
            if c.items is not None:
                r = start
                for x in c.items:
                    r = self.binop(ast.Add(), r, x, s)
                return r
            return self.binop(ast.Add(), start, self.sum_seq(c, s), s)
        return self.distribute(st, args[0], go)

    def sum_seq(self, c, st):
        i = z3.FreshConst(I, "i")
        e = force(c.get(i))
        if isinstance(e, VUnion):
            raise Unsupported("sum of mixed values")
        real = isinstance(e, VReal)
        t = to_real(e) if real else (to_int(e) if not isinstance(e, VAny) else ival(e.t))
        nm, P, Pf = self.sum_fn(t, i, real)
        return (VReal if real else VInt)(Pf(c.n))

    def sum_fn(self, t, i, real=False):
        """prefix sums of t over i; one function for one term, whatever the names
        of its variables"""
        memo, todo, have = set(), [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() not in memo:
                memo.add(x.get_id())
                if z3.is_const(x):
                    have.add(x.get_id())
                todo.extend(x.children() if z3.is_app(x) else [x.body()])
        amb = [a for a in self.ambient if a.get_id() in have]
        canon = [z3.Const(f"amb!{q}", a.sort()) for q, a in enumerate(amb)]
        key = z3.substitute(t, (i, z3.Const("sumvar!", I)), *zip(amb, canon))
        hit = self.sum_memo.get(key.get_id())
        if hit is not None and hit[1] == real:
            nm, P = hit[2], hit[3]
            return nm, P, lambda n: P(*amb, n)
        nm = f"sum!{self.fresh_n}"
        self.fresh_n += 1
        self.sum_memo[key.get_id()] = (key, real, nm, z3.Function(
            nm, *[a.sort() for a in amb], I, R if real else I))
        P = z3.Function(nm, *[a.sort() for a in amb], I, R if real else I)
        self.register_sum(smt.SumRec(nm, P, amb, lambda j: z3.substitute(t, (i, j))))
        return nm, P, lambda n: P(*amb, n)

    def b_any(self, args, kw, st, node):
        return self.anyall(args, st, True)

    def b_all(self, args, kw, st, node):
        return self.anyall(args, st, False)

    def anyall(self, args, st, is_any):
        def go(s, v):
            c = self.seq_of(self.unpoison(s, v, "?"), s)
            if s.dead:
                return VPoison("dead")
            if c.items is not None:
                ts = [self.truth(x, s) for x in c.items]
                return VBool(self.named(s, Or(*ts) if is_any else And(*ts)))
            n, get = c.n, c.get
            if is_any:
                t = Exists([I], lambda i: And(i >= 0, i < n, self.truth(get(i), s)))
            else:
                t = ForAll([I], lambda i: Implies(And(i >= 0, i < n), self.truth(get(i), s)))
            return VBool(self.named(s, t))
        return self.distribute(st, args[0], go)

    def b_sorted(self, args, kw, st, node):
        c = self.seq_of(args[0], st)
        if st.dead:
            return VPoison("dead")
        new = self.sort_seq(c, kw, st)
        return self.alloc(st, new, ("sorted",) + self.site(node))

    def sort_seq(self, c, kw, st):
        """a permutation of c, ordered"""
        key, rev = kw.get("key", VNone), kw.get("reverse", VBool(False))
        if c.items is not None and len(c.items) <= 1:
            return Seq("list", list(c.items))
        perm = self.fresh_fn("perm", I, I)
        inv = self.fresh_fn("pinv", I, I)
        n, get = c.n, c.get
        rng = lambda i: And(i >= 0, i < n)  # noqa
        st.assume(ForAll([I], lambda i: Implies(rng(i), And(rng(perm(i)), inv(perm(i)) == i)), lambda i: [perm(i)]))
        st.assume(ForAll([I], lambda i: Implies(rng(i), And(rng(inv(i)), perm(inv(i)) == i)), lambda i: [inv(i)]))
        self.perms = getattr(self, "perms", []) + [(perm, inv, n)]
        r = self.truth(rev, st)

        def keyof(i, s):
            v = get(i)
            if key is VNone:
                return v
            return self.call(key, [v], {}, s)

        s2 = st.copy()
        i, j = self.fresh_index(), self.fresh_index()
        s2.assume(And(i >= 0, i < j, j < n))
        base = len(s2.pc)
        with self.catching() as rs:
            ki, kj = keyof(perm(i), s2), keyof(perm(j), s2)
            if isinstance(force(ki), VRef):
                # lists compare element by element
                xs, ys = self.concrete_items(ki, s2), self.concrete_items(kj, s2)
                if xs is None or ys is None:
                    raise Unsupported("sort key")
                le = self.lex(ast.LtE(), xs, ys, s2) if all(not isinstance(x, VStr) for x in xs) else self.lex_str(xs, ys, s2)
                ge = self.lex(ast.GtE(), xs, ys, s2) if all(not isinstance(x, VStr) for x in xs) else self.lex_str(ys, xs, s2)
            else:
                le = self.compare(ast.LtE(), ki, kj, s2)
                ge = self.compare(ast.GtE(), ki, kj, s2)
        if rs:
            for o in rs:
                if not self.infeasible(o.st):
                    raise Unsupported("sort key may fail")
        facts = s2.pc[base:]
        q1, q2 = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
        body = Implies(And(i >= 0, i < j, j < n), And(*facts, Implies(r, ge), Implies(Not(r), le)))
        body = z3.substitute(body, (i, q1), (j, q2))
        st.assume(z3.ForAll([q1, q2], body, patterns=[z3.MultiPattern(perm(q1), perm(q2))]))
        return Seq("list", n=n, get=lambda i: get(perm(i)))

    def lex_str(self, xs, ys, st):
        """xs <= ys where some elements are strings"""
        lt = z3.Function("str<", Val, Val, B)
        out = TRUE
        for x, y in reversed(list(zip(xs, ys))):
            x, y = force(x), force(y)
            if isinstance(x, VStr):
                l, e = lt(x.t, y.t), x.t == y.t
            else:
                l, e = self.compare(ast.Lt(), x, y, st), self.eq(x, y, st)
            out = Or(l, And(e, out))
        return out

    # ---------------------------------------------------------- containers

    def m_deque(self, args, kw, st, node):
        if args:
            c = self.seq_of(args[0], st)
            new = Seq("deque", list(c.items)) if c.items is not None else Seq("deque", n=c.n, get=c.get)
        else:
            new = Seq("deque", [])
        return self.alloc(st, new, self.site(node))

    def m_array(self, args, kw, st, node):
        if len(args) < 2:
            return self.alloc(st, Seq("array", []), self.site(node))
        c = self.seq_of(args[1], st)
        new = Seq("array", list(c.items)) if c.items is not None else Seq("array", n=c.n, get=c.get)
        return self.alloc(st, new, ("array",) + self.site(node))

    def m_deepcopy(self, args, kw, st, node):
        v = force(args[0])
        if isinstance(v, (VInt, VBool, VReal, VStr, VAny)) or v is VNone:
            return v
        if isinstance(v, VRef):
            c = st.content(v)
            if isinstance(c, Seq) and c.items is None:
                x = c.get(z3.FreshConst(I, "i"))
                if isinstance(x, (VInt, VStr, VReal, VBool)):
                    return self.alloc(st, Seq(c.kind, n=c.n, get=c.get), ("dc",) + self.site(node))
            if isinstance(c, Dict) and not getattr(c, "open", False):
                e = {}
                for k, (p, x) in c.e.items():
                    e[k] = (p, self.m_deepcopy([x], {}, st, node))
                return self.alloc(st, Dict(e), ("dc",) + self.site(node))
            if isinstance(c, Seq) and c.items is not None:
                return self.alloc(st, Seq(c.kind, [self.m_deepcopy([x], {}, st, node) for x in c.items]), ("dc",) + self.site(node))
            if isinstance(c, Seq):
                x = c.get(z3.FreshConst(I, "i"))
                if isinstance(x, VTuple):
                    return self.alloc(st, Seq(c.kind, n=c.n, get=c.get), ("dc",) + self.site(node))
        if isinstance(v, VTuple):
            return VTuple(self.m_deepcopy([x], {}, st, node) for x in v.items)
        if isinstance(v, VUnion):
            return self.distribute(st, v, lambda s, x: self.m_deepcopy([x], {}, s, node))
        raise Unsupported("deepcopy")

    def m_itemsview(self, args, kw, st, node):
        return self.view("items", args[0], st)

    def m_valuesview(self, args, kw, st, node):
        return self.view("values", args[0], st)

    def view(self, kind, v, st):
        if isinstance(v, VRef) and isinstance(st.content(v), Inst):
            return VExt("inst" + kind, (v,))
        return VExt(kind, (v,))

    def iter_institems(self, v, st):
        n, el = self.iterate(v.data[0], st)

        def get(i):
            k = el(i)
            return VTuple((k, self.get_item(v.data[0], k, self.at_element(st, i, n))))
        return n, get

    def at_element(self, st, i, n):
        """the state in which the ith of n elements is looked up"""
        st = st.copy()
        st.assume(And(i >= 0, i < n))
        return st

    def iter_instvalues(self, v, st):
        n, el = self.iterate(v.data[0], st)
        return n, lambda i: self.get_item(v.data[0], el(i), self.at_element(st, i, n))

    def m_combinations(self, args, kw, st, node):
        r = conc(to_int(args[1]))
        if r is None:
            raise Unsupported("combinations")
        return VExt("combs", (args[0], VInt(r)))

    def iter_combs(self, v, st):
        n, el = self.iterate(v.data[0], st)
        r = conc(v.data[1].t)
        cn = conc(n)
        if cn is not None and cn <= 8:
            s = Seq("list", [VTuple(el(iv(i)) for i in c) for c in itertools.combinations(range(cn), r)])
            return s.n, s.get
        fs = [self.fresh_fn(f"comb{p}", I, I) for p in range(r)]
        cnt = self.fresh("ncomb", I)
        if r == 2:
            st.assume(2 * cnt == n * (n - 1))
        st.assume(cnt >= 0)
        for f in fs:
            # one copy per trigger
            st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < cnt), And(
                fs[0](i) >= 0, *[fs[p](i) < fs[p + 1](i) for p in range(r - 1)], fs[-1](i) < n)), lambda i: [f(i)]))
        return cnt, lambda i: VTuple(el(f(i)) for f in fs)

    def m_permutations(self, args, kw, st, node):
        if kw or not args:
            raise Unsupported("permutations")
        r = force(args[1]) if len(args) > 1 else VNone
        return VExt("perms", (args[0], r))

    def iter_perms(self, v, st):
        """the arrangements of r of n elements: each exactly once, in some order"""
        n, el = self.iterate(v.data[0], st)
        cn = conc(n)
        r = cn if v.data[1] is VNone else conc(to_int(v.data[1]))
        if cn is None or r is None or r < 0 or cn > 12:
            raise Unsupported("permutations")
        cnt = math.perm(cn, r)
        ps = [self.fresh_fn(f"perm{j}", I, I) for j in range(r)]
        idx = self.fresh_fn("arrangement", *[I] * r, I) if r else None
        within = lambda a: And(*[And(x >= 0, x < cn) for x in a], z3.Distinct(*a) if len(a) > 1 else TRUE)  # noqa
        if r:
            st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < cnt), And(
                within([p(i) for p in ps]), idx(*[p(i) for p in ps]) == i)), lambda i: [ps[0](i)]))
            st.assume(ForAll([I] * r, lambda *a: Implies(within(a), And(
                idx(*a) >= 0, idx(*a) < cnt, *[p(idx(*a)) == x for p, x in zip(ps, a)])), lambda *a: [idx(*a)]))
        self.arrangements.append((idx, [el(iv(j)) for j in range(cn)]))
        return iv(cnt), lambda i: VTuple(el(p(i)) for p in ps)

    def call_builtin_method(self, me, name, args, kw, st, node=None):
        me = force(me)
        if isinstance(me, VUnion):
            return self.distribute(st, me, lambda s, v: self.call_builtin_method(self.unpoison(s, v, "?"), name, args, kw, s, node))
        if isinstance(me, VRef):
            c = st.content(me)
            kind = {Seq: "seq", Dict: "map", Map: "map", SetC: "set"}.get(type(c))
            f = getattr(self, f"{kind}_{name}", None)
            if f is None:
                if isinstance(c, Seq) and name in ("add", "items", "keys", "get", "values"):
                    self.do_raise(st, VExc(AttributeError))
                    return VPoison("dead")
                raise Unsupported(f"method {name} of {kind}")
            return f(me, c, args, kw, st, node)
        if isinstance(me, VStr):
            return self.str_method(me, name, args, kw, st)
        if isinstance(me, VTuple):
            if name == "index":
                return self.tuple_index(me, args[0], st)
            raise Unsupported(f"tuple.{name}")
        if isinstance(me, VAny):
            return self.any_method(me, name, args, kw, st, node)
        if isinstance(me, VExt):
            return self.ext_method(me, name, args, kw, st, node)
        raise Unsupported(f"method {name} of {me!r}")

    def tuple_index(self, me, x, st):
        ts = [self.eq(y, x, st) for y in me.items]
        self.guard(st, Or(*ts), ValueError)
        r = iv(len(ts) - 1)
        for i in range(len(ts) - 2, -1, -1):
            r = If(ts[i], iv(i), r)
        return VInt(r)

    # sequences

    def seq_append(self, me, c, args, kw, st, node):
        self.writes.append((me, None))
        self.put(st, me, c.append(args[0]))
        return VNone

    def seq_extend(self, me, c, args, kw, st, node):
        o = self.seq_of(args[0], st)
        if st.dead:
            return VNone
        self.writes.append((me, None))
        if o.items is not None:
            for x in o.items:
                c = c.append(x)
            self.put(st, me, c)
            return VNone
        new = Seq(c.kind, n=c.n + o.n, get=lambda i: merge(i < c.n, c.get(i), o.get(i - c.n)))
        self.put(st, me, new)
        return VNone

    def seq_insert(self, me, c, args, kw, st, node):
        if c.kind not in ("list", "deque"):
            raise Unsupported(f"insert of {c.kind}")
        k = self.int_arg(args[0], st)
        if st.dead or not isinstance(k, VInt):
            raise Unsupported("insert")
        t = simp(k.t)
        ct = conc(t)
        if c.items is not None and ct is not None:
            out = list(c.items)
            out.insert(ct, args[1])
            new = Seq(c.kind, out)
        else:
            t = z3.If(t < 0, t + c.n, t)
            t, get, v = simp(z3.If(t < 0, iv(0), z3.If(t > c.n, c.n, t))), c.get, args[1]
            new = Seq(c.kind, n=simp(c.n + 1), get=lambda i: merge(Eq(i, t), v, merge(i < t, get(i), get(simp(i - 1)))))
        self.writes.append((me, None))
        self.put(st, me, new)
        return VNone

    def seq_appendleft(self, me, c, args, kw, st, node):
        if c.kind != "deque":
            self.do_raise(st, VExc(AttributeError))
            return VNone
        return self.seq_insert(me, c, [VInt(iv(0)), args[0]], {}, st, node)

    def seq_popleft(self, me, c, args, kw, st, node):
        if c.kind != "deque":
            self.do_raise(st, VExc(AttributeError))
            return VPoison("dead")
        self.guard(st, c.n > 0, IndexError)
        if st.dead:
            return VPoison("dead")
        self.writes.append((me, None))
        v = c.get(iv(0))
        if c.items is not None:
            self.put(st, me, Seq(c.kind, c.items[1:]))
        else:
            get = c.get
            self.put(st, me, Seq(c.kind, n=simp(c.n - 1), get=lambda i: get(simp(i + 1))))
        return v

    def seq_pop(self, me, c, args, kw, st, node):
        self.guard(st, c.n > 0, IndexError)
        if st.dead:
            return VPoison("dead")
        self.writes.append((me, None))
        if args:
            i = self.norm_index(force(args[0]), c.n, st)
            if st.dead:
                return VPoison("dead")
        else:
            i = simp(c.n - 1)
        v = c.get(i)
        if c.items is not None and conc(i) is not None:
            j = conc(i)
            self.put(st, me, Seq(c.kind, c.items[:j] + c.items[j + 1:]))
        else:
            get = c.get
            self.put(st, me, Seq(c.kind, n=simp(c.n - 1), get=lambda j: merge(j < i, get(j), get(simp(j + 1)))))
        return v

    def find(self, c, x, st):
        """first index of a value; ValueError when absent"""
        if c.items is not None:
            return self.tuple_index(VTuple(c.items), x, st).t
        p = self.fresh("where", I)
        t = Exists([I], lambda i: And(i >= 0, i < c.n, self.eq(c.get(i), x, st)))
        self.guard(st, self.named(st, t), ValueError)
        st.assume(And(p >= 0, p < c.n, self.eq(c.get(p), x, st)))
        st.assume(ForAll([I], lambda i: Implies(And(i >= 0, i < p), Not(self.eq(c.get(i), x, st)))))
        return p

    def seq_index(self, me, c, args, kw, st, node):
        return VInt(self.find(c, args[0], st))

    def seq_remove(self, me, c, args, kw, st, node):
        p = self.find(c, args[0], st)
        if st.dead:
            return VNone
        self.writes.append((me, None))
        cp = conc(p)
        if c.items is not None and cp is not None:
            self.put(st, me, Seq(c.kind, c.items[:cp] + c.items[cp + 1:]))
            return VNone
        get = c.get
        self.put(st, me, Seq(c.kind, n=simp(c.n - 1), get=lambda i: merge(i < p, get(i), get(simp(i + 1)))))
        return VNone

    def seq_clear(self, me, c, args, kw, st, node):
        self.writes.append((me, None))
        self.put(st, me, Seq(c.kind, []))
        return VNone

    def seq_copy(self, me, c, args, kw, st, node):
        new = Seq(c.kind, list(c.items)) if c.items is not None else Seq(c.kind, n=c.n, get=c.get)
        return self.alloc(st, new, ("copy",) + self.site(node))

    def seq_sort(self, me, c, args, kw, st, node):
        new = self.sort_seq(c, kw, st)
        self.writes.append((me, None))
        self.put(st, me, Seq(c.kind, new.items) if new.items is not None else Seq(c.kind, n=new.n, get=new.get))
        return VNone

    def seq_reverse(self, me, c, args, kw, st, node):
        n, get = c.n, c.get
        self.writes.append((me, None))
        self.put(st, me, Seq(c.kind, c.items[::-1]) if c.items is not None else Seq(c.kind, n=n, get=lambda i: get(simp(n - 1 - i))))
        return VNone

    # dictionaries

    def map_get(self, me, c, args, kw, st, node):
        d = args[1] if len(args) > 1 else kw.get("default", VNone)
        k = force(args[0])
        if isinstance(k, VUnion):
            k = self.unpoison(st, k, "?")
        return self.dict_get(me, k, st, default=d)

    def map___getitem__(self, me, c, args, kw, st, node):
        return self.dict_get(me, force(args[0]), st)

    def map_items(self, me, c, args, kw, st, node):
        return VExt("items", (me,))

    def map_keys(self, me, c, args, kw, st, node):
        return VExt("keys", (me,))

    def map_values(self, me, c, args, kw, st, node):
        return VExt("values", (me,))

    def map_copy(self, me, c, args, kw, st, node):
        return self.alloc(st, copy_content(c), ("copy",) + self.site(node))

    def map_update(self, me, c, args, kw, st, node):
        for a in args:
            self.dict_update(me, a, st)
        for k, v in kw.items():
            self.dict_set(me, S(k), v, st)
        return VNone

    def map_clear(self, me, c, args, kw, st, node):
        self.writes.append((me, None))
        self.put(st, me, Dict({}))
        return VNone

    def map_setdefault(self, me, c, args, kw, st, node):
        k = force(args[0])
        d = args[1] if len(args) > 1 else VNone
        has = self.contains(me, k, st)

        def absent(s):
            self.dict_set(me, k, d, s)
            return d
        return self.fork(st, has, lambda s: self.dict_get(me, k, s), absent)

    def map_pop(self, me, c, args, kw, st, node):
        k = force(args[0])
        if len(args) > 1:
            has = self.contains(me, k, st)

            def present(s):
                v = self.dict_get(me, k, s)
                self.dict_del(me, k, s)
                return v
            return self.fork(st, has, present, lambda s: args[1])
        v = self.dict_get(me, k, st)
        if not st.dead:
            self.dict_del(me, k, st)
        return v

    # sets

    def set_add(self, me, c, args, kw, st, node):
        v = force(args[0])
        if isinstance(v, VUnion):
            v = self.unpoison(st, v, "?")
        self.plain_key(v, st)
        self.writes.append((me, None))
        n = c.add(v)
        if n is not c:
            n.strs = (getattr(c, "strs", False) or (c.items is not None and all(isinstance(x, VStr) for x in c.items))) and isinstance(v, VStr)
            self.put(st, me, n)
        return VNone

    def set_update(self, me, c, args, kw, st, node):
        """one add after the other"""
        for a in args:
            key = ("update", id(node))
            if key not in self.synth:
                nm = f".upd{len(self.synth)}"
                load = lambda x: ast.Name(x, ast.Load())  # noqa
                loop = ast.For(ast.Name(nm + "x", ast.Store()), load(nm + "i"), [ast.Expr(ast.Call(
                    ast.Attribute(load(nm + "s"), "add", ast.Load()), [load(nm + "x")], []))], [])
                for x in ast.walk(loop):
                    if isinstance(x, (ast.expr, ast.stmt)):
                        x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = (
                            node.lineno, node.col_offset + 1000, node.end_lineno, node.end_col_offset)
                self.synth[key] = (nm, loop, node)
            nm, loop, _ = self.synth[key]
            st.env[nm + "s"], st.env[nm + "i"] = me, a
            outs = self.run_stmt(loop, st)
            nxt = [o for o in outs if o.kind == "next"]
            if len(nxt) != 1 or len(outs) != 1:
                raise Unsupported("set.update")
            s = nxt[0].st
            for x in "six":
                s.env.pop(nm + x, None)
            st.take(s)
        return VNone

    def set_op(self, me, args, st, node, f):
        o = self.mk_set(args[0], st, node)
        x, y = st.content(me), st.content(o)
        if x.items is not None and y.items is not None and all(
            isinstance(i, VStr) and i.lit is not None for i in x.items + y.items
        ):
            ys = {i.lit for i in y.items}
            return x, y, ys
        return x, y, None

    def set_difference(self, me, c, args, kw, st, node):
        x, y, ys = self.set_op(me, args, st, node, None)
        if ys is not None:
            return self.alloc(st, SetC([i for i in x.items if i.lit not in ys]), ("sd",) + self.site(node))
        return self.alloc(st, SetC(None, lambda t: And(x.has(t), Not(y.has(t)))), ("sd",) + self.site(node))

    def set_union(self, me, c, args, kw, st, node):
        x, y, ys = self.set_op(me, args, st, node, None)
        return self.alloc(st, SetC(None, lambda t: Or(x.has(t), y.has(t))), ("su",) + self.site(node))

    def set_issubset(self, me, c, args, kw, st, node):
        x, y, ys = self.set_op(me, args, st, node, None)
        return VBool(self.named(st, ForAll([Val], lambda t: Implies(x.has(t), y.has(t)))))

    def set_issuperset(self, me, c, args, kw, st, node):
        x, y, ys = self.set_op(me, args, st, node, None)
        return VBool(self.named(st, ForAll([Val], lambda t: Implies(y.has(t), x.has(t)))))

    def set_isdisjoint(self, me, c, args, kw, st, node):
        x, y, ys = self.set_op(me, args, st, node, None)
        return VBool(self.named(st, ForAll([Val], lambda t: Not(And(y.has(t), x.has(t))))))

    def set_intersection(self, me, c, args, kw, st, node):
        x, y, ys = self.set_op(me, args, st, node, None)
        return self.alloc(st, SetC(None, lambda t: And(x.has(t), y.has(t))), ("si",) + self.site(node))

    # strings and unknown values

    def str_method(self, me, name, args, kw, st):
        if me.lit is not None and all(isinstance(a, VStr) and a.lit is not None for a in args) and not kw:
            r = getattr(me.lit, name)(*[a.lit for a in args])
            if isinstance(r, list):
                return self.alloc(st, Seq("list", [S(x) for x in r]), ("strm",))
            return self.lift(r)
        if name == "join" and len(args) == 1 and not kw:
            return self.join_strings(me, args[0], st)
        if name in ("startswith", "endswith") and len(args) == 1 and not kw and isinstance(force(args[0]), VStr):
            return VBool(z3.Function("text." + name, Val, Val, B)(me.t, force(args[0]).t))
        if name in ("isdigit", "isalpha", "isalnum", "isdecimal", "isnumeric", "islower", "isupper", "isspace", "isidentifier") and not args and not kw:
            return VBool(z3.Function("text." + name, Val, B)(me.t))
        if name in ("format", "join", "strip", "lower", "upper", "replace", "title", "encode", "decode"):
            return self.m_opaque_str(args, kw, st, None)
        if name == "split" and not kw and len(args) <= 1 and (
                not args or isinstance(force(args[0]), VStr) and force(args[0]).lit):
            # the parts are a function of the text
            sep = force(args[0]).lit if args else ""
            n, f = z3.Function("split.n:" + sep, Val, I)(me.t), z3.Function("split.at:" + sep, Val, I, Val)
            st.assume(n >= (1 if args else 0))
            st.assume(ForAll([I], lambda i: tag(f(me.t, i)) == TAGS["str"], lambda i: [f(me.t, i)]))
            return self.alloc(st, Seq("list", n=n, get=lambda i: VStr(f(me.t, i))), ("split",))
        raise Unsupported(f"str.{name}")

    def join_strings(self, sep, arg, st):
        """sep.join(arg): the text is known when its pieces are; else the pieces are on record"""
        def go(s, v):
            v = self.unpoison(s, v, "?")
            c = self.seq_of(v, s)
            if s.dead:
                return VPoison("dead")
            if c.items is not None and all(isinstance(force(x), VStr) for x in c.items):
                out = []
                for i, x in enumerate(c.items):
                    out += ([sep] if i else []) + [force(x)]
                return self.fstring(out, s) if out else S("")
            t = self.m_opaque_str([], {}, s, None)
            self.joins.append((t, sep, c))
            return t
        return self.distribute(st, arg, go)

    def any_method(self, me, name, args, kw, st, node):
        t = me.t
        if name in ("get", "items", "keys", "values", "copy"):
            self.guard(st, tag(t) == TAGS["dict"], AttributeError, name)
            if st.dead:
                return VPoison("dead")
            if name == "get":
                d = args[1] if len(args) > 1 else VNone
                kt = to_val(force(args[0]))
                self.plain_key(force(args[0]), st)
                return self.fork(st, uhas(st, t, kt), lambda s: VAny(uget(s, t, kt)), lambda s: d)
            if user_writes(st):
                raise Unsupported("iteration over a changed dictionary of the user")
            if name in ("items", "keys", "values"):
                return VExt(name, (me,))
        raise Unsupported(f"method {name} of an unknown value")

    # externals: overridden or extended by contracts

    def ext_method(self, me, name, args, kw, st, node):
        h = self.ext_methods.get(me.kind)
        if h is not None:
            r = h(self, me, name, args, kw, st, node)
            if r is not None:
                return r
        if me.kind in ("items", "keys", "values") and name == "__iter__":
            return me
        if me.kind == "match" and me.data and name == "group" and not kw and (
                not args or isinstance(force(args[0]), VInt) and conc(force(args[0]).t) == 0):
            return me.data[0]
        if me.kind == "path" and name in ("exists", "is_dir") and not args and len(me.data) == 1:
            self.assumptions.add("the file system does not change while settings are validated")
            return VBool(z3.Function("path." + name, Val, B)(to_val(me.data[0])))
        raise Unsupported(f"method {name} of {me!r}")

    def ext_call(self, fv, args, kw, st, node):
        raise Unsupported(f"call of {fv!r}")

    def do_import(self, module, name, st):
        if module.startswith("."):
            import importlib
            m = importlib.import_module(module, package="hyperpack")
            return self.lift(getattr(m, name), st) if name else VPy(m)
        m = self.modules.get(module)
        if isinstance(m, types.FunctionType):
            m = m(st)
            return m if name is None or st.dead else self.attr(m, name, st)
        if m is not None:
            self.assumptions.add(f"{module.split('.')[0]} behaves as its stand-in in pyvc/stubs")
            return self.lift(getattr(m, name), st) if name else VPy(m)
        raise Unsupported(f"import of {module}")


def copy_content(c):
    if isinstance(c, Dict):
        d = Dict(c.e)
        if getattr(c, "open", False):
            d.open = True
        return d
    if isinstance(c, Map):
        return Map(c.n, c.at, c.dom, c.pos, c.val, None, c.strkeys)
    if isinstance(c, Seq):
        return Seq(c.kind, list(c.items)) if c.items is not None else Seq(c.kind, n=c.n, get=c.get)
    raise Unsupported("copy")
