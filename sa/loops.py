"""Loops end: in every function the analysed paths enter, each cycle of the control flow graph passes a call
that consumes something finite (an iterator over a finite sequence, a pop)."""
import re

CONSUME = re.compile(r"(::|^)(next|next_back|pop|pop_front|pop_back|next_if|next_if_eq|nth|remove|swap_remove|truncate|drain)$")
ENDLESS = ("core::iter::sources::repeat", "core::iter::adapters::cycle", "core::ops::range::RangeFrom")


def endless(p, ty, seen=None):
    seen = set() if seen is None else seen
    if ty is None or ty in seen:
        return False
    seen.add(ty)
    t = p.types[ty]
    if t.get("path", "").startswith(ENDLESS):
        return True
    return any(endless(p, a, seen) for a in t.get("args", []))


def callee(t):
    f = t.get("f") or {}
    return f.get("fn") or {}


def consuming(p, t):
    r = callee(t)
    return bool(CONSUME.search(r.get("path", "")) or CONSUME.search(r.get("rpath") or ""))


def free_cycle(body, p):
    """a block on a cycle that passes no consuming call, or None"""
    n = len(body.blocks)
    cut = {b for b in range(n) if body.blocks[b]["t"]["t"] == "call" and consuming(p, body.blocks[b]["t"])}
    state = {}
    for root in range(n):
        if root in state or root in cut:
            continue
        stack = [(root, iter(body.succs(root)))]
        state[root] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in cut:
                    continue
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(body.succs(s))))
                    break
                if state[s] == 1:
                    return s
            else:
                state[b] = 2
                stack.pop()
    return None


def loops_end(rep, p, ids):
    for i in sorted(ids):
        b = p.bodies.get(i)
        if b is None or not b.local:
            continue
        where = "%s at %s" % (b.path, b.d["span"])
        if not b.loop_heads():
            rep.ok("loops end", where + " (no loop)")
            continue
        c = free_cycle(b, p)
        if c is None:
            rep.ok("loops end", where)
        else:
            rep.open("loops end", where, "a loop consumes no iterator or stack: its end is not shown")
