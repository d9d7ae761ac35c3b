"""C21: the update tool writes only complete, successfully gathered data.

Its main is interpreted on every outcome of every system call; the cfg lines rustc prints are generated
around one key at a time."""
import multiprocessing
import re
from sa.common import Report, dump
from sa.engine import Limit
from sa.harness import *
from sa.state import Stuck, Split
from sa.tool import Tool, YES, NO, w

KEYS = {"panic": "panic", "target_abi": "abi", "target_arch": "arch", "target_endian": "endian", "target_env": "env", "target_family": "families",
        "target_has_atomic": "has_atomics", "target_os": "os", "target_pointer_width": "pointer_width", "target_vendor": "vendor"}
FIELD = {v: k for k, v in KEYS.items()}
MUST = ["target_arch", "target_endian", "target_pointer_width", "panic"]
IGNORED = ["target_feature"]
NEW = ["some_new_key", "target_new_key"]
LABEL = re.compile(r"(?:^|[^A-Za-z0-9_])(\w+):\s*(?:\w+::|Some\(\w+::)?$")


def run():
    rep = Report("C21", "other")
    p = dump("update")
    mains = [b for b in p.bodies.values() if b.local and b.path == "update::main"]
    if len(mains) != 1:
        rep.open("entry", "update::main", "function not found")
        return rep
    jobs = [(key, [k for k in others if k != key]) for key in list(KEYS) + NEW for others in (list(KEYS), MUST)]
    cmds, funs, n = set(), set(), 0
    global CTX
    CTX = p, mains[0]
    with multiprocessing.get_context("fork").Pool(4) as pool:
        for r, c, k, fs in pool.imap(one, jobs):
            rep.merge(r)
            cmds |= c
            n += k
            funs |= fs
    rep.extra["analysed"] = {"ends_judged": n, "commands": sorted(cmds), "functions": sorted(funs), "scenarios": len(jobs)}
    rep.trusted = ["what std's process, file and thread functions can return", "other functions of std yield any value of their type"]
    return rep


def one(job):
    p, main = CTX
    rep = Report("C21", "other")
    sc = Scenario(rep, p, *job)
    try:
        sc.run(main)
    except Exception as e:
        rep.open("analysis", "update::main", "analysis stopped: %r" % (e,))
    return rep, sc.commands, sc.n, {p.bodies[i].path for i in sc.ids if i in p.bodies and p.bodies[i].local}


class Scenario:
    def __init__(self, rep, p, focus, prefix):
        self.rep, self.p, self.focus = rep, p, focus
        self.prefix = prefix + IGNORED
        self.commands = set()
        self.n = 0
        self.ids = set()
        self.orders = focus == "panic"
        self.fields = 0
        self.written = 0

    def run(self, main):
        rep = self.rep
        eng = Tool(self.p, self, 100)
        st = St()
        for k in ("failed", "unwritten", "wrote", "late", "readme", "done", "row", "seen", "odd", "missed", "unknown"):
            st.ext[k] = NO
        st.ext["at"] = ("T", "at", 0)
        where = "update::main at " + main.d["span"]
        try:
            outs = eng.call_body(st, main, [])
            for s, v in outs:
                t = eng.ty(main.locals[0])
                good = t["k"] == "tuple"
                if t.get("path", "").endswith("::Result"):
                    good = t["variants"][eng.variant_of(s, v)]["name"] == "Ok"
                elif v[0] == "T" and v[1] == "exit" and v[2] is not None:
                    good = v[2] == 0
                elif not good:
                    s.add_taint("the exit status is not followed")
                    good = True
                self.ends(eng, s, main.d["span"], good)
            for s, code, span in eng.exits:
                n = s.num.norm(code[1]) if code[0] == "i" else None
                if n is None or not is_const(n):
                    good = s.need(("eq", code[1])) if code[0] == "i" else None
                    if good is not True and not (code[0] == "i" and s.decide(("eq", code[1])) is False):
                        s.add_taint("an exit code is not known")
                    good = bool(good)
                else:
                    good = n[0] == 0
                self.ends(eng, s, span, good)
        except (Limit, Stuck, Split, KeyError, IndexError, TypeError, AssertionError, RecursionError) as e:
            rep.open("analysis", where, "analysis stopped: %r" % (e,))
        for k in eng.stucks:
            rep.open("modelled", k, "not followed")
        if not self.n:
            rep.open("analysis", where, "no end reached")
        if self.focus in KEYS and not self.fields:
            rep.open("fields", where, "%s: no row of a target was recognised" % self.focus)
        if not self.written and self.focus not in NEW:
            rep.open("analysis", where, "%s: no path writes a file" % self.focus)
        self.ids = eng.visited

    # ---- judgements
    def problem(self, eng, s, rule, span, why):
        if s.doubt():
            self.rep.open(rule, span, why + " (after %s)" % s.doubt()[0])
        else:
            self.rep.violation(rule, span, why)

    def ends(self, eng, s, span, good):
        self.n += 1
        if good and (s.ext["failed"] == YES or s.ext["unwritten"] == YES):
            self.problem(eng, s, "a failure gives a failure status", span, "the tool ends with success although something failed")
        elif good and s.ext["wrote"] == NO:
            self.problem(eng, s, "a failure gives a failure status", span, "the tool ends with success without writing")
        else:
            self.rep.ok("a failure gives a failure status", span)

    def at_write(self, eng, s, span, labels):
        self.written += 1
        for key, bad, why in (("failed", YES, "a file is written although gathering the data failed"),
                              ("missed", YES, "a file is written although a target has no %s" % self.focus),
                              ("unknown", YES, "a file is written although rustc printed an unknown key"),
                              ("readme", NO, "a file is written before the README was read"),
                              ("done", NO, "a file is written before every target was read"),
                              ("row", YES, "a file is written without the row of a target")):
            if s.ext[key] == bad:
                self.problem(eng, s, "writes last", span, why)
            else:
                self.rep.ok("writes last", span)

    def field(self, eng, s, span, lit, labels, v):
        m = LABEL.search(lit)
        if not m or m.group(1) not in FIELD or s.ext["failed"] == YES:
            return
        f = m.group(1)
        key = FIELD[f]
        mine = self.focus
        known = {l for l in labels if l in KEYS}
        if key in KEYS and known and key not in known:
            self.problem(eng, s, "fields", span, "the field %s is filled from %s" % (f, " and ".join(sorted(known))))
            return
        if key != mine:
            if mine in known:
                self.rep.open("fields", span, "the field %s depends on %s as well" % (f, mine))
            return
        self.fields += 1
        if s.ext["seen"] == NO:
            if key in labels:
                self.problem(eng, s, "fields", span, "the field %s keeps the value of an earlier target" % f)
            else:
                self.rep.ok("fields", "%s %s" % (f, span))
            return
        if key in labels:
            self.rep.ok("fields", "%s %s" % (f, span))
        elif s.ext["odd"] == YES:
            self.rep.ok("fields", "%s %s" % (f, span))
        elif "?" in labels:
            self.rep.open("fields", span, "what fills %s is not followed" % f)
        else:
            self.problem(eng, s, "fields", span, "the field %s is not filled although rustc printed %s" % (f, key))

    # ---- what rustc prints
    def target_line(self, eng, cx):
        st = cx.st
        if st.ext["row"] == YES:
            self.problem(eng, st, "every target", cx.span, "a target is passed over")

        def end(s):
            s.ext["done"] = YES
            return eng.variant(cx.rt, "None")

        def one(s):
            s.ext["row"] = YES
            return eng.variant(cx.rt, "Some", [w(["target"])])

        eng.forks(st, [(None, end), (None, one)])

    def cfg_line(self, eng, cx):
        st = cx.st
        at = st.ext["at"][2]

        def line(key):
            def f(s):
                if key == self.focus:
                    s.ext["seen"], s.ext["odd"] = YES, NO
                    if key in NEW:
                        s.ext["unknown"] = YES
                return eng.variant(cx.rt, "Some", [("T", "line", key)])
            return f

        if at < len(self.prefix):
            st.ext["at"] = ("T", "at", at + 1)
            return line(self.prefix[at])(st)

        def end(s):
            if self.focus in MUST and s.ext["seen"] == NO:
                s.ext["missed"] = YES
            return eng.variant(cx.rt, "None")

        alts = [end, line(self.focus), lambda s: eng.variant(cx.rt, "Some", [("s", ("k", "unix"))])]
        alts += [line(k) for k in self.prefix]
        eng.forks(st, [(None, f) for f in alts])
