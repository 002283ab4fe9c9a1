"""Loops with user supplied invariants."""
import z3

from core import *  # noqa
from loops import assigned_names
from stmts import Outcome
import ast


class LoopSpec:
    """One annotated loop.

    applies(ex, node, st, n, elem)   context object or None
    havoc(ex, c, st)                 replace everything the loop changes
    inv(ex, c, st, k)                [(name, formula, props)]
    hints(ex, c, st0, st, k)         facts instantiating lemmas after the body
    """

    name = "loop"
    func = None
    rotate = False      # while loops: the invariant is about the states in which the condition holds
    auto = False        # guess what is known about variables the invariant does not mention

    def guesses(self, ex, c, st, x, v, k):
        """[(id, formula)] candidate facts about variable x"""
        return []

    def mark(self, ex, c):
        return None

    def back(self, ex, c, m):
        pass

    def enter_body(self, ex, c, st):
        pass

    def applies(self, ex, node, st, n, elem):
        raise NotImplementedError

    def havoc(self, ex, c, st):
        raise NotImplementedError

    def inv(self, ex, c, st, k):
        raise NotImplementedError

    def after_body(self, ex, c, head, st, k):
        pass

    def on_exit(self, ex, c, st, k):
        pass


def same_val(x, y):
    return x is y or force(x).same(force(y))


def frame_check(ex, st0, H, E):
    """E (after the body) may differ from H (head) only where H was havocked"""
    for fam, tE in E.heap.items():
        tH = H.heap.get(fam)
        if tH is None or tE is tH:
            continue
        t0 = st0.heap.get(fam)
        js = tuple(ex.fresh(f"j{i}", s) for i, s in enumerate(fam_sorts(fam, tH)))
        cH, cE = tH.get(js), tE.get(js)
        if t0 is None:
            continue
        c0 = t0.get(js)
        if c0 is cH and cE is not cH:
            if isinstance(cH, (Inst, Dict)):
                pass
            elif isinstance(cE, type(cH)) and ex.c_equal(cH, cE, E):
                continue
            else:
                raise Unsupported(f"loop changes {fam} outside its invariant")
        if isinstance(cH, Inst):
            for k in list(cE.f):
                if k not in cH.f:
                    raise Unsupported(f"loop adds field {k}")
                if k in c0.f and not isinstance(cH.f[k], VPoison) and same_val(c0.f[k], cH.f[k]) \
                        and not same_val(cE.f[k], cH.f[k]):
                    if not provably_same(ex, E, cE.f[k], cH.f[k]):
                        raise Unsupported(f"loop changes field {k} outside its invariant")
        elif isinstance(cH, Dict) and isinstance(cE, Dict):
            for k in list(cE.e):
                if k not in cH.e:
                    raise Unsupported(f"loop adds key {k}")
                if k in c0.e:
                    (p0, v0), (pH, vH), (pE, vE) = c0.e[k], cH.e[k], cE.e[k]
                    if p0.eq(pH) and same_val(v0, vH) and not (pE.eq(pH) and same_val(vE, vH)):
                        if not (ex.proves(E, pE == pH) and provably_same(ex, E, vE, vH)):
                            raise Unsupported(f"loop changes key {k} outside its invariant")


def fam_sorts(fam, t):
    if t.arity == 0:
        return []
    if fam in FAMSORTS:
        return FAMSORTS[fam]
    for idx, _ in t.entries():
        return [x.sort() for x in idx]
    raise Unsupported("family of unknown index sorts")


def provably_same(ex, st, x, y):
    x, y = force(x), force(y)
    try:
        t = ex.v_eq_term(x, y)
    except Exception:  # noqa
        return False
    return t is not None and ex.proves(st, t)


SCALAR = (VInt, VBool, VReal)


def same_under(ex, st, x, y):
    """x is y in every execution that reaches st"""
    x, y = force(x), force(y)
    if x is y or x.same(y):
        return True
    if isinstance(x, VUnion):
        alts = [(q, v) for q, v in x.alts if not is_false(q) and not ex.proves(st, Not(q))]
        return all(same_under(ex, st, v, y) for q, v in alts)
    if isinstance(x, VTuple) and isinstance(y, VTuple) and len(x.items) == len(y.items):
        return all(same_under(ex, st, p, q) for p, q in zip(x.items, y.items))
    if isinstance(x, VPoison) or isinstance(y, VPoison):
        return False
    return provably_same(ex, st, x, y)


def fresh_like(ex, name, v):
    if isinstance(v, VInt):
        return VInt(ex.fresh(name, I))
    if isinstance(v, VBool):
        return VBool(ex.fresh(name, B))
    return VReal(ex.fresh(name, R))


def scalar(v):
    """a union of numbers (a variable set on some paths only) is no scalar"""
    return v if isinstance(v, SCALAR) else None


class Auto:
    """what is known at the head of a loop about a variable the invariant does
    not mention: found by guessing and checking"""

    def __init__(self, ex, spec, c, names, st, is_for):
        self.spec, self.c, self.is_for = spec, c, is_for
        self.entry, self.cands, self.poison = {}, {}, set()
        self.kinds = {}  # variables of more than one type
        for x in names:
            v = st.env.get(x)
            v = force(v) if v is not None else None
            if v is None or isinstance(v, VPoison):
                continue
            self.entry[x] = v
            self.cands[x] = {i for i, f in self.formulas(ex, st, x, v, iv(0)) if i == "same" or ex.proves(st, f)}

    def formulas(self, ex, st, x, v, k):
        e = self.entry[x]
        if not isinstance(e, SCALAR):
            return [("same", None)]
        out = []
        if type(v) is type(e):
            out.append(("same", Iff(v.t, e.t) if isinstance(e, VBool) else v.t == e.t))
            if isinstance(e, VInt) and self.is_for:
                out.append(("count", v.t == e.t + k))
            out += self.spec.guesses(ex, self.c, st, x, v, k)
        return out

    def at_head(self, ex, H, x, k):
        if x not in self.entry or x in self.poison:
            H.env[x] = VPoison("inv:" + x)
            return
        e = self.entry[x]
        if x in self.kinds:
            H.env[x] = any_of(ex, x, H, self.kinds[x])
            return
        if not isinstance(e, SCALAR):
            H.env[x] = e
            return
        H.env[x] = e if "same" in self.cands[x] else fresh_like(ex, x, e)
        for i, f in self.formulas(ex, H, x, H.env[x], k):
            if i in self.cands[x]:
                H.assume(f)

    def after(self, ex, st, x, k):
        """still true?  False: something had to be given up"""
        if x not in self.entry or x in self.poison:
            return True
        e, v = self.entry[x], force(st.env.get(x, VPoison(x)))
        if x in self.kinds:
            return self.widen(ex, st, x, v, self.kinds[x])
        if not isinstance(e, SCALAR):
            if not same_under(ex, st, v, e):
                return self.widen(ex, st, x, v, {kind_of(e)})
            return True
        if isinstance(v, VUnion):
            good = [u for q, u in v.alts if not is_false(q) and not ex.proves(st, Not(q))]
            v = good[0] if len(good) == 1 else v
        if type(v) is not type(e):
            return self.widen(ex, st, x, v, {kind_of(e)})
        lost = {i for i, f in self.formulas(ex, st, x, v, k) if i in self.cands[x] and not ex.proves(st, f)}
        self.cands[x] -= lost
        return not lost


    def widen(self, ex, st, x, v, known):
        """admit further types of values; False when something had to be given up"""
        alts = v.alts if isinstance(v, VUnion) else [(TRUE, v)]
        now = {kind_of(u) for q, u in alts if not is_false(q) and not ex.proves(st, Not(q))} | known
        if None in now:
            self.poison.add(x)
            return False
        if self.kinds.get(x) == now:
            return True
        self.kinds[x] = now
        return False


def kind_of(v):
    v = force(v)
    return "none" if v is VNone else type(v).__name__ if isinstance(v, SCALAR + (VStr,)) else None


def any_of(ex, x, st, kinds):
    """an arbitrary value of the given types"""
    out = []
    for i, k in enumerate(sorted(kinds)):
        if k == "none":
            v = VNone
        elif k == "VStr":
            v = VStr(ex.fresh(x, Val))
            st.assume(tag(v.t) == TAGS["str"])
        else:
            v = fresh_like(ex, x, {"VInt": VInt(iv(0)), "VBool": VBool(TRUE), "VReal": VReal(z3.RealVal(0))}[k])
        out.append(v)
    r = out[-1]
    for v in reversed(out[:-1]):
        r = merge(ex.fresh("kind of " + x, B), v, r)
    return r


def run_spec(ex, spec, c, node, st, n, elem, target, body, orelse, src=()):
    is_for = n is not None
    k0 = iv(0)
    if is_for and not ex.proves(st, n >= 0):
        n = z3.If(n > 0, n, iv(0))
    exits, test = [], None
    if not is_for and spec.rotate and body is not node.body:
        # the invariant holds whenever the condition was found true
        test, body = body[0], body[1:]
        res = ex.run_stmt(test, st)
        exits += [Outcome("next", o.st) for o in res if o.kind == "break" and not o.st.dead]
        res = [o.st for o in res if o.kind == "next" and not o.st.dead]
        if not res:
            return ex.join(exits)
        st = res[0] if len(res) == 1 else ex.merge_many(0, [(s, None) for s in res])[0]
    for nm, f, props in spec.inv(ex, c, st, k0):
        ex.oblige(st, f, f"{spec.name}: {nm} holds on entry", props, "invariant")
    names = assigned_names(body)
    if target is not None:
        names += [x for x in assigned_names([ast.Assign([target], ast.Constant(0))]) if x not in names]
    auto = Auto(ex, spec, c, names, st, is_for) if spec.auto else None
    for attempt in range(12):
        mark = (len(ex.obligations), len(ex.vacuous), spec.mark(ex, c))
        r = run_once(ex, spec, c, node, st, n, elem, target, body, orelse, src, test, names, auto)
        if r is not None:
            return ex.join(exits + r)
        del ex.obligations[mark[0]:], ex.vacuous[mark[1]:]
        spec.back(ex, c, mark[2])
    raise Unsupported(f"{spec.name}: variables")


def run_once(ex, spec, c, node, st, n, elem, target, body, orelse, src, test, names, auto):
    is_for = n is not None
    H = st.copy()
    k = ex.fresh("it", I) if is_for else None
    before = {x: H.env.get(x) for x in names}
    kept, guessed = [], []
    spec.havoc(ex, c, H)
    kk = k if is_for else None
    for x in names:
        if H.env.get(x) is before[x]:
            if auto is not None:
                guessed.append(x)
                auto.at_head(ex, H, x, k)
            elif isinstance(before[x], VRef):
                # the same object on every iteration: checked after the body
                kept.append(x)
            else:
                H.env[x] = VPoison("inv:" + x)
    if is_for:
        H.assume(And(k >= 0, k <= n))
    for nm, f, props in spec.inv(ex, c, H, kk):
        H.assume(f)
    S = H.copy()
    if is_for:
        S.assume(k < n)
    outs = []
    saved = ex.path
    ex.path = saved + (("inv",) + ex.site(node),)
    head = S.copy()
    try:
        if target is not None:
            ex.assign(target, elem(k), S)
        ex.last_it = k
        spec.enter_body(ex, c, S)
        res = ex.run_block(body, S) if not S.dead else []
    except PoisonRead as e:
        raise Unsupported(f"{spec.name}: variable {e.name} is not covered by the invariant")
    finally:
        ex.path = saved
    done = []
    for o in res:
        if o.st.dead or any(z3.is_false(f) for f in o.st.pc):
            continue
        if o.kind in ("next", "continue") and test is not None:
            for p in ex.run_stmt(test, o.st):
                if p.kind == "break":
                    p.kind = "break after body"
                done.append(p)
        else:
            done.append(o)
    k2 = simp(k + 1) if is_for else None
    ends = [o for o in done if o.kind in ("next", "continue") and not o.st.dead and not ex.infeasible(o.st)]
    if auto is not None:
        good = True
        for o in ends:
            for x in guessed:
                good = auto.after(ex, o.st, x, k2) and good
        if not good:
            return None
    for o in done:
        if o.kind in ("next", "continue"):
            if o not in ends:
                continue
            frame_check(ex, st, H, o.st)
            for x in kept:
                if not same_val(o.st.env.get(x, VPoison(x)), before[x]):
                    raise Unsupported(f"{spec.name}: variable {x} refers to another object")
            ex.check_sources(src, head, o.st)
            spec.after_body(ex, c, head, o.st, k2)
            ex.vacuity(o.st, f"{spec.name}: end of body")
            for nm, f, props in spec.inv(ex, c, o.st, k2):
                ex.oblige(o.st, f, f"{spec.name}: {nm} is preserved", props, "invariant")
        elif o.kind in ("break", "break after body"):
            s = o.st
            spec.on_exit(ex, c, s, k)
            outs.append(Outcome("next", s))
        else:
            outs.append(o)
    if is_for:
        X = H
        X.assume(k == n)
        spec.on_exit(ex, c, X, k)
        if orelse:
            outs += ex.run_block(orelse, X)
        else:
            outs.append(Outcome("next", X))
    if not is_for:
        spec.on_exit(ex, c, None, None)
    return outs


def install(ex, specs):
    def hook(ex, node, st, n, elem, target, body, orelse, src):
        name = ex.fr.get("name")
        for s in specs:
            if s.func is not None and s.func != name:
                continue
            c = s.applies(ex, node, st, n, elem)
            if c is not None:
                return run_spec(ex, s, c, node, st, n, elem, target, body, orelse, src)
        return None

    ex.loop_hooks.append(hook)
