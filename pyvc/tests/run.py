#!/usr/bin/env python3
"""Compares the engine with CPython: run with python3-vt.

For every sample function and every combination of the argument values listed
for it, the function is executed symbolically once (the arguments are symbols
that range over the listed values: a list is an array of unknown length, a
dictionary an unknown ordered map) and then, for each combination,

  * the outcome CPython has (return or kind of exception) must be possible,
  * a result other than CPython's must not be provable, nor an outcome
    CPython does not have be the only one left.

Either failing is a soundness error of the engine (exit 1).  A result that
cannot be proved equal, or a function outside of the engine's language, is
incompleteness: counted, never an error.
"""
import itertools
import os
import signal
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE), HERE]
os.environ.setdefault("VERIF_REPO", "/repo")

from vc import *  # noqa
import exec as E  # noqa
import core  # noqa
import inv  # noqa
import smt  # noqa
import samples  # noqa
from fractions import Fraction  # noqa


def chosen(sel, vals, f):
    out = f(vals[-1])
    for i in reversed(range(len(vals) - 1)):
        out = If(sel == i, f(vals[i]), out)
    return out


def given(t, x):
    """what a term known to be this value of the user satisfies"""
    if x is None:
        return t == NONEV
    if isinstance(x, bool):
        return t == core.mkbool(b(x))
    if isinstance(x, int):
        return t == core.mkint(iv(x))
    if isinstance(x, float):
        return t == core.mkreal(z3.RealVal(str(Fraction(x))))
    if isinstance(x, str):
        return t == lit(x)
    if isinstance(x, (list, tuple)):
        return And(tag(t) == TAGS[type(x).__name__], core.dlen(t) == len(x), *[given(core.dkey(t, iv(i)), y) for i, y in enumerate(x)])
    if isinstance(x, dict):
        k0 = z3.FreshConst(Val, "k")
        return And(tag(t) == TAGS["dict"], core.dlen(t) == len(x),
                   *[And(core.dkey(t, iv(i)) == given_key(k), core.dhas(t, given_key(k)), given(core.dget(t, given_key(k)), y))
                     for i, (k, y) in enumerate(x.items())],
                   z3.ForAll([k0], Implies(core.dhas(t, k0), Or(*[k0 == given_key(k) for k in x])), patterns=[core.dhas(t, k0)]))
    raise TypeError(x)


def given_key(k):
    return lit(k) if isinstance(k, str) else core.mkint(iv(k))


def argument(ex, st, name, vals):
    """(symbolic value, selector, how to make it the i-th value)"""
    sel = z3.Int("which " + name)
    st.assume(And(sel >= 0, sel < len(vals)))
    v = vals[0]
    if isinstance(vals, samples.Given):
        t = z3.Const("given " + name, Val)
        for i, x in enumerate(vals):
            st.assume(Implies(sel == i, given(t, x)))
        return VAny(t), sel
    if isinstance(v, bool):
        return VBool(chosen(sel, vals, lambda x: b(x))), sel
    if isinstance(v, int):
        return VInt(chosen(sel, vals, lambda x: iv(x))), sel
    if isinstance(v, str):
        t = chosen(sel, vals, lambda x: lit(x))
        return VStr(t), sel
    if isinstance(v, list):
        n = z3.Int("len " + name)
        f = z3.Function("at " + name, I, I)
        st.assume(n >= 0)
        for i, x in enumerate(vals):
            st.assume(Implies(sel == i, And(n == len(x), *[f(iv(j)) == y for j, y in enumerate(x)])))
        return heap0(st, ("arg", name), Seq("list", n=n, get=lambda i: VInt(f(i)))), sel
    if isinstance(v, dict):
        n = z3.Int("len " + name)
        at = z3.Function("key " + name, I, Val)
        f = z3.Function("value " + name, Val, I)
        dom = z3.Function("has " + name, Val, B)
        pos = z3.Function("pos " + name, Val, I)
        m = Map(n, at, dom, pos, lambda k: VInt(f(k)))
        for g in map_wf(m):
            st.assume(g)
        st.assume(ForAll([Val], lambda k: Implies(dom(k), tag(k) == TAGS["str"])))
        for i, x in enumerate(vals):
            st.assume(Implies(sel == i, And(n == len(x), *[And(at(iv(j)) == lit(k), f(lit(k)) == y) for j, (k, y) in enumerate(x.items())])))
        return heap0(st, ("arg", name), m), sel
    raise TypeError(v)


def map_wf(m):
    return [m.n >= 0,
            ForAll([I], lambda i: Implies(And(i >= 0, i < m.n), And(m.dom(m.at(i)), m.pos(m.at(i)) == i)), ),
            ForAll([Val], lambda k: Implies(m.dom(k), And(m.pos(k) >= 0, m.pos(k) < m.n, m.at(m.pos(k)) == k)))]


def same(ex, st, v, want):
    v = force(v)
    if isinstance(v, VExt):
        return z3.FreshConst(B, "unknown")
    if isinstance(v, VUnion):
        return And(*[Implies(c, same(ex, st, x, want)) for c, x in v.alts])
    if isinstance(v, VAny):
        return given(v.t, want)
    if want is None:
        return b(v is VNone)
    if isinstance(want, bool):
        return (v.t == want) if isinstance(v, VBool) else FALSE
    if isinstance(want, int):
        return v.t == want if isinstance(v, VInt) else FALSE
    if isinstance(want, float):
        q = Fraction(want).limit_denominator(1000)
        return v.t == z3.RealVal(str(q)) if isinstance(v, VReal) else FALSE
    if isinstance(want, str):
        if isinstance(v, VStr):
            return v.t == lit(want) if v.lit is None else b(v.lit == want)
        return FALSE
    if isinstance(want, tuple) and isinstance(v, VTuple):
        return And(b(len(v.items) == len(want)), *[same(ex, st, x, y) for x, y in zip(v.items, want)])
    if isinstance(want, (list, tuple)) and isinstance(v, VRef):
        c = st.content(v)
        if not isinstance(c, Seq) or (c.kind == "tuple") != isinstance(want, tuple):
            return FALSE
        return And(c.n == len(want), *[same(ex, st, c.get(iv(i)), y) for i, y in enumerate(want)])
    if isinstance(want, dict) and isinstance(v, VRef):
        c = st.content(v)
        if isinstance(c, Dict):
            c = dict_to_map(c)
        if not isinstance(c, Map):
            return FALSE
        return And(c.n == len(want), *[And(c.at(iv(i)) == lit(k), c.dom(lit(k)), same(ex, st, c.val(lit(k)), x))
                                       for i, (k, x) in enumerate(want.items())])
    return FALSE


def python(fn, kw):
    import copy
    try:
        return "ok", fn(**copy.deepcopy(kw))
    except Exception as e:  # noqa
        return "raise", type(e)


def sample(fn, domains):
    ex = E.Exec({})
    ex.inline_modules = ex.inline_modules | {"samples"}
    inv.install(ex, [])
    st = State()
    args, sels = [], {}
    for n, vals in domains.items():
        a, s = argument(ex, st, n, vals)
        args.append(a)
        sels[n] = s
    with ex.catching() as raised:
        v = ex.inline(fn, list(args), {}, st)
    raised = list(raised)
    bad, unproved, points = [], [], 0
    for combo in itertools.product(*[range(len(x)) for x in domains.values()]):
        kw = {n: domains[n][i] for n, i in zip(domains, combo)}
        here = [sels[n] == i for n, i in zip(domains, combo)]
        kind, want = python(fn, kw)
        points += 1
        found = False

        def possible(s):
            s2 = s.copy()
            for g in here:
                s2.assume(g)
            r = smt.check(s2.pc, FALSE, 3000)[0]
            return s2, r != "unsat"

        if not st.dead:
            s2, open_ = possible(st)
            if kind == "ok":
                if not open_:
                    bad.append(f"{kw}: CPython returns {want!r}, the engine excludes a return")
                else:
                    found = True
                    g = same(ex, s2, v, want)
                    if not smt.prove(s2.pc, g, 3000)[0]:
                        if smt.check(s2.pc, Not(g), 3000)[0] == "unsat":
                            bad.append(f"{kw}: CPython returns {want!r}, the engine proves another result: {v}")
                        else:
                            unproved.append(f"{kw}: {want!r} not proved")
            elif open_:
                unproved.append(f"{kw}: CPython raises {want.__name__}, a return is not excluded")
        for o in raised:
            s2, open_ = possible(o.st)
            if not open_:
                continue
            if kind == "raise" and issubclass(o.val.cls, want) or kind == "raise" and issubclass(want, o.val.cls):
                found = True
            else:
                unproved.append(f"{kw}: {o.val.cls.__name__} not excluded")
        if not found and not (kind == "ok" and st.dead is False and any(str(kw) in x for x in bad)):
            bad.append(f"{kw}: CPython has {kind} {want}, no such outcome of the engine")
    return points, bad, unproved


def late(*a):
    raise Unsupported("out of time")


def one(i):
    fn, dom = samples.SAMPLES[i]
    signal.signal(signal.SIGALRM, late)
    signal.alarm(90)
    try:
        return (fn.__name__,) + sample(fn, dom)
    except Unsupported as e:
        return fn.__name__, 0, [], f"unsupported: {e}"
    except PoisonRead as e:
        return fn.__name__, 0, [], f"unsupported: reads {e}"
    except Exception as e:  # noqa
        import traceback
        return fn.__name__, 0, [], f"engine: {type(e).__name__}: {e} {traceback.format_exc()[-700:]}"


def main():
    import multiprocessing as mp
    which = [i for i, (f, d) in enumerate(samples.SAMPLES) if len(sys.argv) < 2 or any(a in f.__name__ for a in sys.argv[1:])]
    wrong = points = outside = weak = 0
    with mp.Pool(6, maxtasksperchild=1) as pool:
        for name, n, bad, rest in pool.imap(one, which):
            points += n
            if isinstance(rest, str):
                outside += 1
                print(f"-- {name}: {rest}")
                continue
            weak += len(rest)
            for x in bad:
                wrong += 1
                print(f"WRONG {name}: {x}")
            for x in rest[:2]:
                print(f"   {name}: {x} (of {len(rest)})")
    print(f"{len(which)} functions, {points} argument combinations: {wrong} wrong, {weak} not proved, {outside} functions outside")
    return 1 if wrong else 0


if __name__ == "__main__":
    sys.exit(main())
