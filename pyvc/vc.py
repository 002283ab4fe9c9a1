"""Verification of one function against a contract: set-up, run, postcondition."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
for p in (REPO, HERE):
    if p not in sys.path:
        sys.path.insert(0, p)
sys.setrecursionlimit(20000)

import z3  # noqa

from core import *  # noqa
import exec as E  # noqa
from stmts import Outcome  # noqa


def new_state():
    return State()


def call(ex, st, fn, args, kw=None):
    """(result, [exceptional outcomes]); st is the state after normal return"""
    ex.current = getattr(fn, "__qualname__", str(fn))
    with ex.catching() as raised:
        v = ex.inline(fn, list(args), dict(kw or {}), st)
    return v, list(raised)


def seq_const(name, kind, n, get):
    return Seq(kind, n=n, get=get)


def heap0(st, fam, content):
    st.heap[fam] = Tmpl(lambda i: content, 0)
    return VRef(fam)


def heapfam(st, fam, sorts, get):
    if isinstance(sorts, int):
        sorts = [I] * sorts
    FAMSORTS[fam] = list(sorts)
    st.heap[fam] = Tmpl(get, len(sorts))
