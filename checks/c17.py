"""C17: effects.  Every function of the library is a root; the call graph (with the function values
that are passed around) is followed through every body rustc resolves, std's included; the first
function outside the pure part of the standard library is an effect."""
from collections import deque
from sa.common import Report, dump

# parts of std that act on the world or on state shared between calls
EFFECTS = [
    ("std::io::", "standard streams or I/O"),
    ("std::fs::", "files"),
    ("std::env::", "the environment"),
    ("std::time::", "clocks"),
    ("std::net::", "the network"),
    ("std::process::", "processes"),
    ("std::os::", "operating system interfaces"),
    ("std::sys::", "operating system interfaces"),
    ("std::sys_common::", "operating system interfaces"),
    ("std::thread::", "threads or thread-local state"),
    ("std::sync::", "state shared between calls"),
    ("std::backtrace::", "the call stack"),
    ("std::panic::", "the panic hook or unwinding"),
    ("std::rt::", "the runtime"),
    ("core::sync::atomic::", "state shared between calls"),
    ("core::sync::", "state shared between calls"),
    ("core::cell::lazy::", "lazily initialised state"),
    ("core::arch::", "machine instructions"),
    ("core::core_arch::", "machine instructions"),
    ("core::intrinsics::volatile", "volatile memory"),
    ("core::ptr::read_volatile", "volatile memory"),
    ("core::ptr::write_volatile", "volatile memory"),
    ("libc::", "the C library"),
    ("core::panic::location::", "the caller's source position"),
]
# functions of those parts without an effect
PURE = ["std::io::error::", "std::env::{impl ", "std::process::{impl Exit", "std::time::{impl Duration}", "core::sync::atomic::{impl "]
# nondeterministic, but only visible when something iterates: not decided here
OPEN = [("std::hash::random::", "randomly seeded hashing"), ("std::collections::hash", "hash tables")]
# the panic machinery (C01, C14, C20 decide that it is not reached)
STOP = ["core::panicking::", "std::panicking::", "alloc::alloc::", "core::slice::index::slice_", "core::str::slice_error_fail", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed", "alloc::raw_vec::handle_error"]
CRATES = ("core::", "alloc::", "std::", "smallvec::", "target_lexicon::", "cfg_expr::", "hashbrown::")


def recs(x):
    """every function mentioned in a piece of a body"""
    if isinstance(x, dict):
        if "path" in x and ("inst" in x or "rpath" in x):
            yield x
        for k, v in x.items():
            if k not in ("sp",) and isinstance(v, (dict, list)):
                yield from recs(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from recs(v)


def classify(path):
    for s in STOP:
        if path.startswith(s):
            return "stop", None
    for s, w in OPEN:
        if path.startswith(s):
            return "open", w
    for s in PURE:
        if path.startswith(s) and not (s == "core::sync::atomic::{impl "):
            return "stop", None
    for s, w in EFFECTS:
        if path.startswith(s):
            return "effect", w
    return None, None


def run():
    rep = Report("C17", "other")
    p = dump()
    # unsafe code
    for it in p.items:
        rep.check("no unsafe function", not it["unsafe"], it["path"], "is an unsafe function")
    rep.check("no unsafe code", not p.d["unsafe_blocks"], p.d["unsafe_blocks"][0] if p.d["unsafe_blocks"] else "crate", "unsafe block, unsafe impl or foreign function")
    # mutable global state
    for s in p.d["statics"]:
        w = "%s at %s" % (s["path"], s["span"])
        rep.check("no mutable static", not s["mut"], w, "static mut")
        rep.check("no static with interior mutability", s["freeze"], w, "a static whose value can change")
    rep.check("statics examined", True, "%d statics" % len(p.d["statics"]), "")
    # effects
    roots = [b for b in p.bodies.values() if b.local]
    seen = {}
    q = deque()
    for b in roots:
        seen[b.id] = None
        q.append(b.id)
    edges = 0
    flagged = set()
    unresolved = {}
    while q:
        i = q.popleft()
        b = p.bodies[i]
        for r in recs(b.blocks):
            edges += 1
            path = r.get("rpath") or r["path"]
            kind, what = classify(path)
            if kind is None:
                kind, what = classify(r["path"])
            if kind == "stop":
                continue
            if kind == "effect" and path.startswith("core::sync::") and not b.local:
                kind = None  # reference counts and the like: without a static there is no global state
            if kind in ("effect", "open"):
                chain = []
                j = i
                while j is not None:
                    chain.append(p.bodies[j])
                    j = seen[j]
                chain.reverse()
                root = chain[0]
                where = "%s at %s" % (root.path, root.d["span"])
                if (root.id, path) in flagged:
                    continue
                flagged.add((root.id, path))
                trail = " -> ".join([c.path for c in chain] + [path])
                if kind == "effect":
                    rep.violation("no effect", where, "reaches %s (%s)" % (path, what), trail)
                else:
                    rep.open("no effect", where, "uses %s (%s)" % (path, what))
                continue
            if r.get("kind") in ("unresolved", "virtual", "fnptr"):
                unresolved[r["path"]] = unresolved.get(r["path"], 0) + 1
            k = r.get("inst", -1)
            if k is not None and k >= 0 and k in p.bodies and k not in seen:
                seen[k] = i
                q.append(k)
        # addresses turned into numbers
        if b.local:
            for blk in b.blocks:
                for s in blk["s"]:
                    if s[0] == "=" and s[2].get("r") == "cast" and "Expose" in s[2].get("kind", ""):
                        rep.open("no address dependence", "%s at %s" % (b.path, b.d["span"]), "turns an address into a number")
    bad = {f[0] for f in flagged}
    for b in roots:
        if b.id not in bad:
            rep.ok("no effect", b.path)
    rep.extra["analysed"] = {"functions_of_the_library": len(roots), "functions_followed": len(seen), "call_edges": edges,
                             "calls_left_to_the_caller": unresolved, "cut": p.d["cut"]}
    rep.assumptions.append("code supplied by the caller (Logic, callbacks, Into, Hasher, Write) is not part of the library")
    rep.trusted = ["rustc's MIR and instance resolution", "classification of the standard library by module", "smallvec and target-lexicon are followed like the library itself"]
    return rep
