"""Engine set-up shared by the checks."""
import time
from . import models
from .engine import Engine, Limit, TRUE, FALSE, UNIT  # noqa: F401
from .state import St, fresh  # noqa: F401
from .num import K, V, ZERO, ONE, add, sub, addc, neg, is_const  # noqa: F401


def engine(prog, budget=None):
    e = Engine(prog)
    models.install(e)
    if budget:
        e.deadline = time.time() + budget
    return e


def loc(prog, span):
    return span or "?"


def adt(prog, path, args_s=None):
    """type index of an ADT by path (and printed form)"""
    for i, t in enumerate(prog.types):
        if t["k"] == "adt" and t.get("path") == path and (args_s is None or t["s"] == args_s):
            return i
    return None


def opt(prog, ty, v):
    """an Option value of option type `ty`"""
    if v is None:
        return ("a", ty, prog.variant(ty, "None"), ())
    return ("a", ty, prog.variant(ty, "Some"), (v,))


def trace_text(st, prog=None):
    return "\n".join(" ".join(str(x) for x in t) for t in st.trace())
