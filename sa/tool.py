"""The update tool, interpreted on every outcome of its system calls.

Values that come from the outside are kept as tags: ("T", "w", labels, flag) is any value computed from the
named sources (flag: "e" an empty collection, "+" a non-empty one, "v" the value part of a cfg line).
Functions of std that have no special meaning here yield any value of their type with the labels of
their arguments; Option and Result combinators are interpreted."""
import re
from .engine import Dead, Engine, Outcomes, UNIT
from .harness import *
from .models import S_of
from .sink import parts, raw
from .state import Split, Stuck
from . import models

PASS = ("core::option::", "core::result::", "core::ops::function", "core::ops::try_trait", "core::ops::control_flow", "core::mem::",
        "core::hint::", "core::convert::{impl T}::", "core::cmp::impls::{impl &", "core::array::", "core::bool::", "core::tuple::", "core::num::",
        "core::ops::range::", "core::ops::deref::", "core::iter::range", "core::panicking::")
TEXT = ("alloc::string::String",)
MUTATE = {"push", "push_str", "insert", "insert_str", "extend", "extend_from_slice", "append", "write_fmt", "write_str", "write_char", "write_all", "add_assign",
          "push_back", "push_front", "extend_one", "entry", "get_or_insert"}
SHUFFLE = {"sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "dedup", "dedup_by_key", "reverse"}
SHRINK = {"pop", "remove", "truncate", "clear", "retain", "drain", "swap_remove", "split_off"}
WRITERS = {"write", "rename", "copy", "remove_file", "create", "create_new", "set_permissions", "create_dir", "create_dir_all", "remove_dir_all", "hard_link"}
WORLD = ("std::process::", "std::fs::", "std::thread::", "std::env::", "std::io::", "std::net::", "std::os::", "std::panic::", "std::sync::")
VIEW = {"deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "borrow_mut", "as_str", "as_mut_str", "as_bytes", "by_ref", "into_iter", "iter", "to_owned", "to_string",
        "clone", "into", "from", "into_string", "into_boxed_str", "as_string", "into_owned", "cloned", "copied", "to_vec", "into_bytes", "trim", "trim_end", "trim_start", "trim_matches", "trim_end_matches", "trim_start_matches"}
LISTS = {"lines", "collect", "with_capacity", "drop", "shrink_to_fit", "from_iter"}
LOCAL = "update::"
YES, NO = ("T", "f", True), ("T", "f", False)


def leaf(v):
    """the values in a constant, without its variants"""
    if isinstance(v, dict):
        return [leaf(x) for k, x in v.items() if k not in ("variant", "path", "const", "ty", "k")]
    return [leaf(x) for x in v] if isinstance(v, list) else v


def w(labels, flag=None):
    if "target" in labels:  # the text of rows: what fills them was looked at when they were formatted
        labels = ["target"]
    return ("T", "w", tuple(sorted(labels)), flag)


class Tool(Engine):
    def __init__(self, prog, scenario, budget=60):
        Engine.__init__(self, prog)
        models.install(self)
        import time

        self.deadline = time.time() + budget
        self.sc = scenario
        self.exits = []
        self.late = False
        self.sites = set()
        self.world = self.world_bodies()
        self.crate = [b.path for b in prog.bodies.values() if b.local]

    def world_bodies(self):
        """the local bodies that reach the outside"""
        from checks.c17 import recs

        users, bad = {}, set()
        for b in self.p.bodies.values():
            if not b.local:
                continue
            for r in recs(b.blocks):
                path = r.get("rpath") or r["path"]
                if path.startswith(WORLD) and not path.startswith("std::io::stdio::_e"):
                    bad.add(b.id)
                k = r.get("inst", -1)
                if k in self.p.bodies and self.p.bodies[k].local:
                    users.setdefault(k, set()).add(b.id)
            for blk in b.blocks:
                for s in blk["s"]:
                    if s[0] == "=" and s[2].get("r") == "agg" and isinstance(s[2]["kind"], dict) and "closure" in s[2]["kind"]:
                        k = self.ty(s[2]["kind"]["closure"])["inst"] if isinstance(s[2]["kind"]["closure"], int) else None
                        if k is not None:
                            users.setdefault(k, set()).add(b.id)
        work = list(bad)
        while work:
            for u in users.get(work.pop(), ()):
                if u not in bad:
                    bad.add(u)
                    work.append(u)
        return bad

    # ---- labels
    def labels(self, st, v, seen=None):
        out = set()
        work, seen = [v], set()
        while work:
            v = work.pop()
            k = v[0]
            if k in ("r", "rv"):
                if v in seen:
                    continue
                seen.add(v)
                try:
                    work.append(self.load(st, self.deref_val(st, v)))
                except (Stuck, Split):
                    out.add("?")
            elif k == "T":
                if v[1] == "w":
                    out.update(v[2])
                elif v[1] == "line":
                    out.add(v[2])
                elif v[1] == "parts":
                    out.add(v[2])
            elif k == "a":
                work.extend(v[3])
            elif k == "cl":
                pass
            elif k == "tu":
                work.extend(x for x in v[1] if x[0] != "T" or x[1] == "w")
            elif k == "q":
                for it in v[1]:
                    if it[0] == "1":
                        work.append(it[1])
                    else:
                        out.add("?")
            elif k == "i":
                for s in v[1][1]:
                    s = s[0] if isinstance(s, tuple) else s
                    if isinstance(s, str) and s.startswith("~"):
                        out.update(x for x in s.split("~")[1].split(",") if x)
            elif k in ("s", "S"):
                if v[1][0] == "t" and st.str_const(v[1]) is None:
                    out.add("?")
            elif k == "y":
                out.add("?")
            elif k == "sl":
                work.append(v[1])
        return out

    def has_tag(self, st, v, what):
        work, n = [v], 0
        while work and n < 200:
            v = work.pop()
            n += 1
            if v[0] in ("r", "rv"):
                try:
                    work.append(self.load(st, self.deref_val(st, v)))
                except (Stuck, Split):
                    return True
            elif v[0] == "T":
                if what(v):
                    return True
            elif v[0] in ("a", "cl"):
                work.extend(v[3] if v[0] == "a" else v[2])
            elif v[0] == "tu":
                work.extend(v[1])
            elif v[0] == "q":
                work.extend(x[1] for x in v[1] if x[0] == "1")
        return False

    def tagged(self, st, v):
        return self.has_tag(st, v, lambda t: t[1] in ("w", "line", "parts", "status", "cmd", "handle", "arguments") or t[1] == "fmtarg")

    # ---- values of any type
    def anys(self, st, ty, labels, flag=None, depth=3):
        """the values a type can have, as far as they are told apart: [fn(state) -> value]"""
        t = self.ty(ty)
        k = t["k"]
        val = w(labels, flag)
        if k == "int":
            nm = "~%s~%s" % (",".join(sorted(labels)), t["name"])
            return [lambda s: self.sym(s, ty, nm if labels else fresh())]
        if k == "bool":
            return [lambda s: ("b", False), lambda s: ("b", True)]
        if k == "tuple":
            outs = [[]]
            for e in t["elems"]:
                outs = [o + [f] for o in outs for f in self.anys(st, e, labels, flag, depth - 1)][:8]
            return [lambda s, o=o: ("tu", tuple(f(s) for f in o)) for o in outs]
        if k == "never":
            return []
        if k == "ref":
            if self.ty(t["elem"])["k"] == "str":
                return [lambda s: val]
            if self.ty(t["elem"]).get("path", "").startswith(LOCAL):
                inner = self.anys(st, t["elem"], labels, flag, depth)
            else:
                inner = [lambda s: val]

            def put(f):
                def g(s):
                    v = f(s)
                    o = ("H", "~%s~%s~%s" % (",".join(sorted(labels)), flag, v[2] if v[0] == "a" else ""))
                    s.heap[o] = v
                    return ("r", o, ())
                return g

            return [put(f) for f in inner]
        if k == "adt" and depth and t.get("path", "").split("::")[-1] in ("Option", "Result", "Ordering", "ControlFlow") and t["path"].startswith("core::"):
            res = []
            for vi, v in enumerate(t["variants"]):
                outs = [[]]
                for f in v["fields"]:
                    outs = [o + [g] for o in outs for g in self.anys(st, f["ty"], labels, flag, depth - 1)][:8]
                for o in outs:
                    res.append(lambda s, o=o, vi=vi: ("a", ty, vi, tuple(g(s) for g in o)))
            return res
        if k == "adt" and t.get("path", "").startswith(LOCAL) and depth:
            res = []
            for vi, v in enumerate(t["variants"]):
                outs = [[]]
                for f in v["fields"]:
                    outs = [o + [g] for o in outs for g in self.anys(st, f["ty"], labels, flag, depth - 1)][:8]
                for o in outs:
                    def make(s, o=o, vi=vi):
                        if not o and self.sc.focus in labels:
                            s.ext["odd"] = YES
                        return ("a", ty, vi, tuple(g(s) for g in o))
                    res.append(make)
            return res
        return [lambda s: val]

    def give(self, st, fs, pre=None):
        if len(fs) == 1 and pre is None:
            return fs[0](st)
        self.forks(st, [(pre, f) for f in fs])

    def forks(self, st, alts):
        """the state as it is now (not as it was before the call) goes on in each of the ways"""
        outs = []
        for pre, f in alts:
            s = st.copy()
            if len(alts) > 1:
                s.nsplit += 1
            if pre is not None:
                pre(s)
            v = f(s)
            if s.ok():
                outs.append((s, v))
        raise Outcomes(outs)

    def variant(self, ty, name, vals=()):
        return ("a", ty, self.p.variant(ty, name), tuple(vals))

    def result(self, cx, good, bad_flag="failed", goods=None):
        """Ok(good) or Err with the failure noted"""
        rt = cx.rt
        t = self.ty(rt)
        err = t["variants"][self.p.variant(rt, "Err")]["fields"]

        def fail(s):
            self.fail(s, bad_flag)
            return self.variant(rt, "Err", [self.anys(s, f["ty"], ())[0](s) for f in err])

        alts = [(None, lambda s, g=g: self.variant(rt, "Ok", [g(s)])) for g in (goods or [good])]
        self.forks(cx.st, alts + [(None, fail)])

    def fail(self, s, flag="failed"):
        s.ext[flag] = YES
        if flag == "failed" and s.ext["wrote"] == YES:
            s.ext["late"] = YES

    def const(self, v, ty):
        if self.ty(ty).get("path") == "std::process::ExitCode":
            ns = re.findall(r"\d+", str(leaf(v)))
            return ("T", "exit", int(ns[0]) if len(ns) == 1 else None)
        return Engine.const(self, v, ty)

    def exit_from(self, cx):
        if self.ty(cx.rt).get("path") != "std::process::ExitCode":
            return NotImplemented
        v = self.strip_refs(cx.st, cx.args[0])
        n = cx.st.num.norm(v[1]) if v[0] == "i" else None
        return ("T", "exit", n[0] if n is not None and is_const(n) else None)

    # ---- dispatch
    def step_call(self, st, fr, t):
        f = t["f"].get("fn") if isinstance(t["f"], dict) else None
        if t["b"] < 0 and f:
            path = f.get("rpath") or f["path"]
            if path == "std::process::exit":
                code = self.operand(st, fr, t["a"][0])
                self.exits.append((st, code, t.get("sp")))
                raise Dead()
            b = self.p.bodies.get(f.get("inst", -1))
            if b is not None and b.local:
                args = [self.operand(st, fr, a) for a in t["a"]]
                Engine.call_rec(self, st, f, args, t.get("at"), None, 0, Call(self, st, f, args, t.get("at"), t["dt"], t.get("sp"), fr))
                return None
        return Engine.step_call(self, st, fr, t)

    def call_rec(self, st, rec, args, at, dest, ret, cx):
        path = rec.get("rpath") or rec["path"]
        b = self.p.bodies.get(rec.get("inst", -1))
        cx = Call(self, st, rec, args, at, cx.rt, cx.span, cx.fr)
        if b is not None and b.local or rec.get("ctor") or rec.get("kind") == "shim":
            return Engine.call_rec(self, st, rec, args, at, dest, ret, cx)
        h = SPECIAL.get(path) or SPECIAL.get((rec.get("trait"), rec["name"]))
        if h is not None:
            r = h(self, cx)
            if r is not NotImplemented:
                return r
        if path.startswith(PASS) or rec.get("trait", "").startswith("core::ops::function"):
            return Engine.call_rec(self, st, rec, args, at, dest, ret, cx)
        if path.startswith(WORLD):
            return self.outside(cx, path)
        if not any(self.tagged(st, a) for a in args) and rec["name"] not in MUTATE:
            if path in self.models or rec["path"] in self.models or (rec.get("trait") == "core::clone::Clone" and rec["name"] == "clone"):
                snap = st.copy()
                try:
                    return Engine.call_rec(self, st, rec, args, at, dest, ret, cx)
                except Stuck:
                    st.__dict__.update(snap.__dict__) if hasattr(st, "__dict__") else None
        return self.wild(cx, path)

    def outside(self, cx, path):
        name = cx.rec["name"]
        if path.startswith("std::fs::") and name in WRITERS:
            return self.write(cx)
        if path.startswith("std::fs::") and name in ("read_to_string", "read"):
            self.fail_late(cx)
            f = lambda s: (s.ext.__setitem__("readme", YES), w(["README"]))[1]
            return self.result(cx, f)
        if path == "std::env::var":
            return self.variant(cx.rt, "Ok", [w(())])
        if path.startswith("std::io::stdio::_") or path.startswith(("std::io::stdio::", "std::io::error::", "std::process::{impl ExitStatus}::fmt", "std::env::")):
            return self.wild(cx, path)
        if path.startswith("std::process::{impl Command}::"):
            return self.command_arg(cx)
        self.stuck(cx.st, "no meaning for " + path)
        return self.wild(cx, path)

    def fail_late(self, cx):
        """data are gathered after a file was written: a failure here comes too late"""
        if cx.st.ext["wrote"] == YES:
            cx.st.ext["late"] = YES
            self.note_late(cx)

    def note_late(self, cx):
        self.sc.problem(self, cx.st, "writes last", cx.span, "gathers data after a file was already written")

    def wild(self, cx, path):
        st, name = cx.st, cx.rec["name"]
        args = cx.args
        self.sites.add((path, cx.span))
        labels = set()
        flag = None
        for i, a in enumerate(args):
            labels |= self.labels(st, a)
        for a in args:
            x = a
            while x[0] in ("r", "rv"):
                x = self.load(st, self.deref_val(st, x))
            if x[0] == "cl" and self.ty(x[1])["inst"] in self.world:
                self.stuck(st, "a closure with effects is given to " + path)
            elif x[0] == "cl":
                self.havoc(st, x, path)
        rt = self.ty(cx.rt)
        if any(self.has_tag(st, a, lambda t: t[1] in ("status", "handle")) for a in args) and not (rt["k"] == "tuple" and not rt["elems"]) and "fmt" not in path:
            self.stuck(st, "an outcome is examined by " + path)
        if args:
            x = self.strip_refs(st, args[0])
            if x[0] == "T" and x[1] == "w" and "stdout" in x[2] and ("cfg" in x[2] or "targets" in x[2]) and name not in VIEW | LISTS | MUTATE and "fmt" not in path:
                self.stuck(st, "the output of rustc is read by " + path)
            if name in MUTATE and args[0][0] in ("r", "rv"):
                self.note_text(cx, labels)
                self.store(st, self.target(st, args[0]), w(labels, "+" if name not in ("extend", "append", "extend_from_slice") or (x[0] == "T" and x[3:] == ("+",)) else None))
            elif name in SHRINK and args[0][0] in ("r", "rv"):
                self.store(st, self.target(st, args[0]), w(labels))
            elif x[0] == "T" and x[1] == "w" and name in VIEW | SHUFFLE:
                flag = x[3]
            if name in ("deref_mut", "as_mut", "as_mut_slice", "borrow_mut", "by_ref") and rt["k"] == "ref":
                return args[0] if self.load(st, self.deref_val(st, args[0]))[0] not in ("r", "rv") else self.load(st, self.deref_val(st, args[0]))
        if rt["k"] in ("bool", "int") or rt.get("path", "").split("::")[-1] in ("Option", "Result", "Ordering"):
            if self.sc.focus in labels and not any(self.strip_refs(st, a)[:2] == ("T", "line") for a in args):
                st.ext["odd"] = YES
        fs = self.anys(st, cx.rt, labels, flag)
        if name.startswith("binary_search"):  # whether a name was already met makes no difference
            fs = [fs[self.p.variant(cx.rt, "Err")]]
        elif self.ordinary(labels) and name in ("parse", "strip_prefix", "strip_suffix"):
            good = self.p.variant(cx.rt, "Ok" if name == "parse" else "Some")
            fs = [f for f in fs if f(st.copy())[2] == good]
        return self.give(st, fs)

    def ordinary(self, labels):
        """values of the keys that are not looked at are non-empty and have no special meaning"""
        return self.sc.focus not in labels and any(k in labels for k in self.sc.prefix)

    def target(self, st, ref):
        """the place a (reference to a) reference leads to"""
        while True:
            c = self.deref_val(st, ref)
            v = self.load(st, c)
            if v[0] not in ("r", "rv"):
                return c
            ref = v

    # ---- the outside
    def write(self, cx):
        st = cx.st
        self.sc.at_write(self, st, cx.span, self.labels(st, cx.args[-1]))
        st.ext["wrote"] = YES
        fs = self.anys(st, cx.rt, ())
        rt = self.ty(cx.rt)
        if rt.get("path", "").endswith("::Result"):
            return self.result(cx, [f for f in fs if f][0] and self.ok_of(cx), "unwritten")
        return self.give(st, fs)

    def ok_of(self, cx):
        t = self.ty(cx.rt)["variants"][self.p.variant(cx.rt, "Ok")]["fields"][0]["ty"]
        return self.anys(cx.st, t, ())[0]

    def text(self, st, v):
        v = self.strip_refs(st, v)
        if v[0] in ("s", "S"):
            return v[1][1] if v[1][0] == "k" else st.str_const(v[1])
        return None

    def command_new(self, cx):
        return ("T", "cmd", (self.text(cx.st, cx.args[0]) or "?",))

    def command_arg(self, cx):
        st = cx.st
        c = self.target(st, cx.args[0]) if cx.args[0][0] in ("r", "rv") else None
        cur = self.strip_refs(st, cx.args[0])
        if cur[0] != "T" or cur[1] != "cmd" or c is None:
            self.stuck(st, "a command is not followed")
            return cx.args[0]
        new = []
        work = list(cx.args[1:])
        while work:
            v = self.strip_refs(st, work.pop(0))
            if v[0] == "q":
                work = [x[1] for x in v[1] if x[0] == "1"] + work
            elif v[0] == "a" and self.ty(v[1])["k"] != "adt":
                work = list(v[3]) + work
            else:
                t = self.text(st, v)
                new.append(t if t is not None else "*")
        have = set(cur[2])
        self.store(st, c, ("T", "cmd", cur[2] + tuple(x for x in new if x in ("target-list", "cfg", "--version", "-V", "-vV", "-Vv") and x not in have)))
        return cx.args[0]

    def run_command(self, cx, kind):
        st = cx.st
        cur = self.strip_refs(st, cx.args[0])
        if cur[0] != "T" or cur[1] != "cmd":
            self.stuck(st, "a command is not followed")
            cur = ("T", "cmd", ("?",))
        prog, args = cur[2][0], set(cur[2][1:])
        fmt = prog == "rustfmt"
        src = "targets" if "target-list" in args else "cfg" if "cfg" in args else "version" if args else "command"
        if not fmt:
            self.fail_late(cx)
        rt = cx.rt
        okt = self.ty(rt)["variants"][self.p.variant(rt, "Ok")]["fields"][0]["ty"]
        self.sc.commands.add(src if not fmt else "rustfmt")

        def made(good):
            def f(s):
                if not good:
                    self.fail(s, "unwritten" if fmt else "failed")
                elif src == "cfg":
                    s.ext["seen"], s.ext["odd"], s.ext["at"] = NO, NO, ("T", "at", 0)
                stt = ("T", "status", good)
                if kind == "status":
                    return stt
                vals = []
                for fl in self.ty(okt)["variants"][0]["fields"]:
                    vals.append(stt if fl["name"] == "status" else w(["stdout", src] if fl["name"] == "stdout" and not fmt else []))
                return ("a", okt, 0, tuple(vals))
            return f

        return self.result(cx, None, "unwritten" if fmt else "failed", goods=[made(True), made(False)])

    def success(self, cx):
        v = self.strip_refs(cx.st, cx.args[0])
        if v[0] == "T" and v[1] == "status":
            return ("b", v[2])
        return NotImplemented

    def code(self, cx):
        v = self.strip_refs(cx.st, cx.args[0])
        if v[0] == "T" and v[1] == "status":
            if v[2]:
                return self.variant(cx.rt, "Some", [("i", K(0))])

            def other(s):
                n = V(fresh())
                s.num.add_ge(addc(n, -1))
                return self.variant(cx.rt, "Some", [("i", n)])

            self.forks(cx.st, [(None, lambda s: self.variant(cx.rt, "None")), (None, other)])
        return NotImplemented

    def from_utf8(self, cx):
        ls = self.labels(cx.st, cx.args[0])
        if "stdout" in ls:
            return self.result(cx, lambda s: w(ls))
        return self.give(cx.st, self.anys(cx.st, cx.rt, ls))

    def from_utf8_lossy(self, cx):
        ls = self.labels(cx.st, cx.args[0])
        if "stdout" not in ls:
            return w(ls)
        self.forks(cx.st, [(None, lambda s: w(ls)), (None, lambda s: (self.fail(s), w(ls))[1])])

    # ---- threads
    def scope(self, cx):
        f = cx.args[0]
        sc = ("r", ("H", "scope"), ())
        outs = []
        for order in (0, 1) if self.sc.orders else (0,):
            s = cx.st.copy()
            s.heap[("H", "scope")] = ("T", "scope")
            s.ext["order"] = ("T", "order", order)
            s.ext["pending"] = ("tu", ())
            for s1, v in self.call_value(s, f, [sc], cx.rt, cx.span):
                outs.extend(self.drain(s1, v))
        raise Outcomes(outs)

    def drain(self, s, v):
        work, out = [s], []
        while work:
            s = work.pop()
            pend = s.ext["pending"][1]
            todo = [i for i, x in enumerate(pend) if x[0] == "cl"]
            if not todo:
                s.ext["pending"] = ("tu", ())
                out.append((s, v))
                continue
            work.extend(x for x, _ in self.run_thread(s, todo[-1]))
        return out

    def run_thread(self, s, i):
        pend = list(s.ext["pending"][1])
        f = pend[i]
        pend[i] = ("T", "running")
        s.ext["pending"] = ("tu", tuple(pend))
        res = []
        for s1, r in self.call_value(s, f, []):
            p1 = list(s1.ext["pending"][1])
            p1[i] = ("tu", (("T", "done"), r))
            s1.ext["pending"] = ("tu", tuple(p1))
            res.append((s1, r))
        return res

    def spawn(self, cx):
        st = cx.st
        if "pending" not in st.ext:
            return NotImplemented
        f = [a for a in cx.args if self.strip_refs(st, a)[0] in ("cl", "f")]
        if len(f) != 1:
            self.stuck(st, "a thread is not followed")
            return ("T", "handle", -1)
        i = len(st.ext["pending"][1])
        st.ext["pending"] = ("tu", st.ext["pending"][1] + (self.strip_refs(st, f[0]),))
        h = ("T", "handle", i)
        if st.ext["order"][2] == 0:
            raise Outcomes([(s, h) for s, _ in self.run_thread(st, i)])
        return h

    def join_thread(self, cx):
        v = self.strip_refs(cx.st, cx.args[0])
        if v[0] != "T" or v[1] != "handle" or v[2] < 0:
            return NotImplemented
        st = cx.st
        x = st.ext["pending"][1][v[2]]
        runs = self.run_thread(st, v[2]) if x[0] == "cl" else [(st, x[1][1])]
        outs = []
        for s, r in runs:
            outs.append((s, self.variant(cx.rt, "Ok", [r])))
        bad = cx.st.copy()  # a panic in the thread, given to whoever joins it
        self.fail(bad)
        outs.append((bad, self.variant(cx.rt, "Err", [w(())])))
        raise Outcomes(outs)

    # ---- texts and iterators
    def lines(self, cx):
        v = self.strip_refs(cx.st, cx.args[0])
        if v[0] == "T" and v[1] == "w":
            return v
        return NotImplemented

    def next(self, cx):
        st = cx.st
        v = self.strip_refs(st, cx.args[0])
        if v[0] == "it" or v[0] != "T":
            return NotImplemented
        if v[1] == "parts":
            c = self.target(st, cx.args[0])
            if v[3] < 2:
                self.store(st, c, ("T", "parts", v[2], v[3] + 1))
                return self.variant(cx.rt, "Some", [self.piece(v[2], v[3])])
            return self.variant(cx.rt, "None")
        if v[1] != "w":
            return NotImplemented
        if cx.rec["name"] == "nth" and "stdout" in v[2] and "version" in v[2]:
            self.forks(cx.st, [(None, lambda s: (self.fail(s), self.variant(cx.rt, "None"))[1]), (None, lambda s: self.variant(cx.rt, "Some", [w(v[2])]))])
        if cx.rec["name"] != "next":
            if {"cfg", "targets"} & set(v[2]):
                self.stuck(st, "lines are taken with " + cx.rec["name"])
            return NotImplemented
        if "enumerate" in (cx.rec.get("rpath") or ""):
            if {"cfg", "targets"} & set(v[2]):
                self.stuck(st, "numbered lines")
        elif "cfg" in v[2] and "stdout" in v[2]:
            return self.sc.cfg_line(self, cx)
        elif "targets" in v[2] and "stdout" in v[2]:
            return self.sc.target_line(self, cx)
        c = self.target(st, cx.args[0])
        alts = self.anys(st, cx.rt, v[2])
        if v[3] == "+":
            t = self.ty(cx.rt)
            some = self.p.variant(cx.rt, "Some")
            it = t["variants"][some]["fields"][0]["ty"]
            alts = [lambda s, f=f: ("a", cx.rt, some, (f(s),)) for f in self.anys(st, it, v[2])]
        elif v[3] == "e":
            return self.variant(cx.rt, "None")

        def alt(f):
            def g(s):
                self.store(s, c, w(v[2]))
                return f(s)
            return g

        return self.give(st, [alt(f) for f in alts])

    def piece(self, key, i):
        return ("s", ("k", key)) if i == 0 else w([key], "v")

    def find(self, cx):
        v = self.strip_refs(cx.st, cx.args[0])
        name = cx.rec["name"]
        if v[0] == "T" and v[1] == "line":
            if name in ("find", "rfind"):
                return self.variant(cx.rt, "Some", [self.sym(cx.st, self.synth.usize, "eqpos")])
            if name in ("split_once", "rsplit_once"):
                return self.variant(cx.rt, "Some", [("tu", (self.piece(v[2], 0), self.piece(v[2], 1)))])
            if name == "split_at":
                return ("tu", (self.piece(v[2], 0), self.piece(v[2], 1)))
            if name in ("split", "splitn"):
                return ("T", "parts", v[2], 0)
        if name in ("rfind", "find") and v[0] == "T" and v[1] == "w" and "README" in v[2] and (self.text(cx.st, cx.args[1]) == "]:" or name == "rfind" and self.strip_refs(cx.st, cx.args[1]) == ("c", ord("["))):
            self.forks(cx.st, [(None, lambda s: (self.fail(s), self.variant(cx.rt, "None"))[1]), (None, lambda s: self.variant(cx.rt, "Some", [self.sym(s, self.synth.usize, fresh())]))])
        return NotImplemented

    def index(self, cx):
        v = self.strip_refs(cx.st, cx.args[0])
        if v[0] == "T" and v[1] == "line":
            a = self.strip_refs(cx.st, cx.args[1])
            t = self.ty(a[1] if a[0] == "a" else a[2])["path"] if a[0] in ("a", "y") else ""
            return self.piece(v[2], 0 if t.endswith("RangeTo") or t.endswith("RangeToInclusive") else 1)
        if v[0] == "T":
            return self.wild(cx, "index")
        return NotImplemented

    def eq(self, cx):
        a, b = (self.strip_refs(cx.st, x) for x in cx.args[:2])
        if not (a[0] == "T" or b[0] == "T"):
            return NotImplemented
        ls = self.labels(cx.st, a) | self.labels(cx.st, b)
        if any(x[0] == "T" and x[1] in ("line", "parts", "status") for x in (a, b)):
            self.stuck(cx.st, "a line or a status is compared")
        neg = cx.rec["name"] == "ne"
        if self.ordinary(ls):
            return ("b", neg)

        def yes(s):
            if self.sc.focus in ls:
                s.ext["odd"] = YES
            return ("b", not neg)

        self.forks(cx.st, [(None, lambda s: ("b", neg)), (None, yes)])

    def is_empty(self, cx):
        v = self.strip_refs(cx.st, cx.args[0])
        if v[0] != "T" or v[1] != "w":
            return NotImplemented
        if v[3] in ("+", "e"):
            return ("b", v[3] == "e")
        if self.ordinary(v[2]):
            return ("b", False)

        def yes(s):
            if self.sc.focus in v[2]:
                s.ext["odd"] = YES
            return ("b", True)

        self.forks(cx.st, [(None, lambda s: ("b", False)), (None, yes)])

    # ---- text that is put together
    def arguments(self, cx):
        return ("tu", (("T", "arguments"), cx.args[0], cx.args[1]))

    def argument(self, cx):
        ls = self.labels(cx.st, cx.args[0])
        return w(ls) if ls or self.tagged(cx.st, cx.args[0]) else ("T", "w", (), None)

    def template(self, st, v):
        """[(literal before, labels)] of the placeholders"""
        v = self.strip_refs(st, v)
        if v[0] == "tu" and v[1] and v[1][0] == ("T", "arguments"):
            args = self.strip_refs(st, v[1][2])
            if args[0] == "q" and all(x[0] == "1" for x in args[1]):
                lit, out = "", []
                for kind, what in parts(raw(self, st, v[1][1])):
                    if kind == "text":
                        lit += what
                    else:
                        a = args[1][what[0]][1]
                        out.append((lit, self.labels(st, a), self.strip_refs(st, a)))
                        lit = ""
                return out
        return []

    def format(self, cx):
        for lit, ls, v in self.template(cx.st, cx.args[0]):
            self.sc.field(self, cx.st, cx.span, lit, ls, v)
        v = self.strip_refs(cx.st, cx.args[0])
        ls = self.fmt_labels(cx.st, v)
        return w(ls)

    def fmt_labels(self, st, v):
        if v[0] == "tu" and v[1] and v[1][0] == ("T", "arguments"):
            return self.labels(st, v[1][2])
        return set()

    def write_fmt(self, cx):
        st = cx.st
        for lit, ls, v in self.template(st, cx.args[1]):
            self.sc.field(self, st, cx.span, lit, ls, v)
        ls = self.labels(st, cx.args[0]) | self.fmt_labels(st, self.strip_refs(st, cx.args[1]))
        self.note_text(cx, ls)
        self.store(st, self.target(st, cx.args[0]), w(ls, "+"))
        rt = cx.rt
        if self.ty(rt).get("path", "").endswith("Result"):
            return self.variant(rt, "Ok", [UNIT])
        return self.give(st, self.anys(st, rt, ()))

    def note_text(self, cx, ls):
        if "target" in ls:
            cx.st.ext["row"] = NO


from .engine import Call  # noqa: E402

SPECIAL = {
    ("core::convert::From", "from"): Tool.exit_from,
    ("core::convert::Into", "into"): Tool.exit_from,
    "std::process::{impl Command}::new": Tool.command_new,
    "std::process::{impl Command}::output": lambda e, cx: e.run_command(cx, "output"),
    "std::process::{impl Command}::status": lambda e, cx: e.run_command(cx, "status"),
    "std::process::{impl ExitStatus}::success": Tool.success,
    "std::process::{impl ExitStatus}::code": Tool.code,
    "alloc::string::{impl String}::from_utf8": Tool.from_utf8,
    "core::str::converts::from_utf8": Tool.from_utf8,
    "alloc::string::{impl String}::from_utf8_lossy": Tool.from_utf8_lossy,
    "std::thread::scoped::scope": Tool.scope,
    "std::thread::scoped::{impl Scope}::spawn": Tool.spawn,
    "std::thread::scoped::{impl ScopedJoinHandle}::join": Tool.join_thread,
    "core::str::{impl str}::lines": Tool.lines,
    "core::str::{impl str}::find": Tool.find,
    "core::str::{impl str}::rfind": Tool.find,
    "core::str::{impl str}::split_once": Tool.find,
    "core::str::{impl str}::rsplit_once": Tool.find,
    "core::str::{impl str}::split_at": Tool.find,
    "core::str::{impl str}::split": Tool.find,
    "core::str::{impl str}::splitn": Tool.find,
    ("core::ops::index::Index", "index"): Tool.index,
    ("core::cmp::PartialEq", "eq"): Tool.eq,
    ("core::cmp::PartialEq", "ne"): Tool.eq,
    ("core::iter::traits::iterator::Iterator", "next"): Tool.next,
    ("core::iter::traits::iterator::Iterator", "nth"): Tool.next,
    "core::str::{impl str}::is_empty": Tool.is_empty,
    "alloc::string::{impl String}::is_empty": Tool.is_empty,
    "alloc::vec::{impl Vec}::is_empty": Tool.is_empty,
    "core::slice::{impl [T]}::is_empty": Tool.is_empty,
    "core::fmt::{impl Arguments}::new": Tool.arguments,
    "core::fmt::rt::{impl Argument}::new_display": Tool.argument,
    "core::fmt::rt::{impl Argument}::new_debug": Tool.argument,
    "alloc::fmt::format": Tool.format,
    "core::fmt::Write::write_fmt": Tool.write_fmt,
}
