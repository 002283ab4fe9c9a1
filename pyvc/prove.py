"""Runs the proof of one contract; prints / returns its obligations."""
import importlib
import json
import sys
import time
import traceback

from vc import *  # noqa
import smt
import inv

MODULES = ["contracts.pack", "contracts.struct", "contracts.problem", "contracts.manip", "contracts.search", "contracts.solve",
           "contracts.local", "contracts.hyper", "contracts.multi", "contracts.data", "contracts.report"]


def all_contracts():
    out = {}
    for m in MODULES:
        mod = importlib.import_module(m)
        for x in vars(mod).values():
            if isinstance(x, type) and getattr(x, "qual", None) and x.__module__ == m and not getattr(x, "assumed", False):
                out[getattr(x, "proof_name", None) or x.qual] = x
    return out


def closure(names):
    """the contracts the given ones rely on, at any distance"""
    cs = all_contracts()
    seen, todo = set(), list(names)
    while todo:
        quals = {u.qual for u in cs[todo.pop()].uses}
        for n, c in cs.items():
            if c.qual in quals and n not in seen:
                seen.add(n)
                todo.append(n)
    return [n for n in cs if n in seen and n not in names]


def run(cls):
    """verify one contract; a report dictionary"""
    t0 = time.time()
    con = cls()
    ex = E.Exec({u.qual: u() for u in con.uses})
    ex.proof_timeout = con.timeout
    rep = {"function": getattr(con, "proof_name", None) or con.qual, "error": None}
    try:
        specs = [s() for s in con.loops]
        inv.install(ex, specs)
        st = State()
        if con.lookup:
            con.check(ex, st, None, None)
            raise StopIteration
        args, ctx = con.setup(ex, st)
        fn = con.function()
        ex.current = con.qual
        # vacuity: the precondition is satisfiable
        n0 = len(ex.obligations)
        with ex.catching() as raised:
            v = ex.inline(fn, list(args), con.call_kw(ctx), st)
        raised = list(raised)
        if not st.dead:
            ex.vacuity(st, "normal return")
            con.check(ex, st, ctx, v)
        for o in raised:
            con.check_raise(ex, ctx, o)
        if con.reads is not None:
            extra = sorted(f"{fam[-1]}.{n}" for fam, n in ex.field_reads
                           if fam in (("self",), ("owner",)) and n not in con.reads) + sorted(ex.nondet)
            ex.oblige(State(), E.b(not extra), "the result depends only on " + (", ".join(sorted(con.reads)) or "the arguments")
                      + (f" (not on {', '.join(extra)})" if extra else ""), ("C05",), "footprint")
        if st.dead and not raised:
            rep["error"] = "no outcome"
    except StopIteration:
        pass
    except Unsupported as e:
        rep["error"] = f"unsupported: {e}"
        rep["trace"] = traceback.format_exc()
    except PoisonRead as e:
        rep["error"] = f"unsupported: reads {e.name}"
        rep["trace"] = traceback.format_exc()
    except Exception as e:  # noqa
        rep["error"] = f"engine: {type(e).__name__}: {e}"
        rep["trace"] = traceback.format_exc()
    if rep["error"] is None:
        try:
            ex.try_again()
        except Exception as e:  # noqa
            rep["trace"] = f"second attempt: {e}"
    rep["obligations"] = [
        {"name": o.name, "props": list(o.props), "ok": o.ok, "how": o.detail, "s": round(o.dt, 3),
         "kind": o.kind, "smt2": o.smt2} for o in ex.obligations]
    rep["vacuous"] = [w for w, bad in ex.vacuous if bad] + [f"obligation {n}" for n, v in ex.vac.items() if v]
    rep["vacuity_checks"] = len(ex.vacuous)
    rep["second"] = ex.second
    if "sat" in ex.second:
        rep["error"] = "engine: cvc5 refutes an obligation z3 discharged"
    rep["inlined"] = sorted(ex.inlined)
    rep["contracts_used"] = sorted(ex.used_contracts)
    rep["queries"] = smt.STATS["queries"]
    rep["solver_s"] = round(smt.STATS["time"], 2)
    rep["wall_s"] = round(time.time() - t0, 2)
    rep["assumptions"] = sorted(ex.assumptions)
    return rep


def main():
    args = sys.argv[1:]
    cs = all_contracts()
    if "--thorough" in args:
        args.remove("--thorough")
        smt.THOROUGH = True
    if "--vacuity" in args:
        args.remove("--vacuity")
        smt.HYPS = True
    if args[0] == "--json":
        rep = run(cs[args[2]])
        with open(args[1], "w") as f:
            json.dump(rep, f)
        return
    if args[0] == "--closure":
        print(json.dumps(closure(args[1:])))
        return
    if args[0] == "--all":
        import concurrent.futures as cf
        import subprocess
        flag = ["--vacuity"] if smt.HYPS else []
        todo = [n for n in cs if len(args) < 2 or any(a in n for a in args[1:])]

        def one(n):
            r = subprocess.run([sys.executable, __file__, n] + flag, capture_output=True, text=True)
            return n, r.stdout + r.stderr[-500:]
        with cf.ThreadPoolExecutor(8) as ex:
            for n, out in ex.map(one, todo):
                bad = [x for x in out.splitlines() if not x.startswith("ok ")]
                print("\n".join(bad), flush=True)
        return
    if args[0] == "--list":
        print("\n".join(cs))
        return
    for name in [a for a in args if a != "--trace"]:
        rep = run(cs[name])
        for o in rep["obligations"]:
            print("ok  " if o["ok"] else "FAIL", o["kind"], o["name"], o["props"], o["how"], o["s"])
        print(name, "error:", rep["error"], rep.get("trace", "") if rep["error"] and "--trace" in sys.argv else "", "vacuous", "\n   ".join([""] + rep["vacuous"]) or "-",
              rep["vacuity_checks"], "queries", rep["queries"], "solver", rep["solver_s"], "wall", rep["wall_s"])


if __name__ == "__main__":
    main()
