"""C20: errors display without panicking and describe their reason.

ParseError's Display is interpreted on a symbolic text, span and reason with a monitored formatter; Reason's
Display and description per variant.  What was written is compared piece by piece."""
from sa.common import Report, dump
from sa.harness import *
from sa.loops import loops_end
from sa.models import S_of
from sa.sink import Sink, pieces
from sa.state import Stuck
from sa.values import paths, same_val

E = "cfg_expr::error::"
DISPLAY = "core::fmt::Display"
ERROR = "core::error::Error"
STARTS = (0, 1, 2, 5, 9, 40, 130, 300)


def run():
    rep = Report("C20", "proof")
    p = dump()
    c = Check(rep, p)
    c.run()
    loops_end(rep, p, c.ids)
    rep.extra["analysed"] = {"paths_judged": c.n, "functions": sorted({p.bodies[i].path for i in c.ids if i in p.bodies and p.bodies[i].local})}
    return rep


class Check:
    def __init__(self, rep, p):
        self.rep = rep
        self.p = p
        self.ids = set()
        self.n = 0

    def ty(self, path):
        ts = self.p.type_by_path(path)
        if len(ts) != 1:
            self.rep.open("type", path, "type not found")
            return None
        return ts[0]

    def impl(self, trait, name, ty, what):
        bs = self.p.find_impl(trait, name, lambda t: t == ty)
        if len(bs) != 1:
            self.rep.open("implementation", what, "%d found" % len(bs))
            return None
        return bs[0]

    def run(self):
        p = self.p
        self.pe, self.rs = self.ty(E + "ParseError"), self.ty(E + "Reason")
        if self.pe is None or self.rs is None:
            return
        self.fields = {f["name"]: i for i, f in enumerate(p.types[self.pe]["variants"][0]["fields"])}
        if not {"original", "span", "reason"} <= set(self.fields):
            self.rep.open("type", E + "ParseError", "its fields are not the expected ones")
            return
        self.vars = [v["name"] for v in p.types[self.rs]["variants"]]
        self.rb = self.impl(DISPLAY, "fmt", self.rs, "Display of Reason")
        eb = self.impl(DISPLAY, "fmt", self.pe, "Display of ParseError")
        if self.rb is None or eb is None:
            return
        self.msgs = {v: self.message(i) for i, v in enumerate(self.vars)}
        self.distinct(self.msgs, "messages")
        for i, v in enumerate(self.vars):
            self.lists(i, v)
            self.display(eb, i)
        self.description()
        h = self.p.type_by_path(E + "HasAtomicParseError")
        for t in h:
            b = self.impl(DISPLAY, "fmt", t, "Display of HasAtomicParseError")
            if b:
                self.show(b, t, lambda eng, s, x: (True, ""), "atomic error")

    # ---- running
    def show(self, b, ty, judge, rule, value=None, loops=True, atomic=(), sym="me"):
        """run Display body b on value(eng, st) and judge what was written where no write failed"""
        eng = engine(self.p, 60)
        st = St()
        sink = Sink(eng, atomic)
        f = sink.start(st)
        me = value(eng, st) if value else eng.sym(st, ty, sym)
        st.heap[("H", "me")] = st.ext["me"] = me

        def j(s, r):
            if s.ext["failed"] == ("b", True):
                return True, ""
            vi = eng.variant_of(s, r)
            t = eng.ty(r[1] if r[0] == "a" else r[2])
            if t["variants"][vi]["name"] != "Ok":
                return False, "gives an error although every write succeeded"
            return judge(eng, s, s.ext["me"])

        self.n += paths(self.rep, rule, eng, b, [("r", ("H", "me"), ()), f], st, j, loops=loops)
        self.ids |= eng.visited

    def reason(self, eng, st, vi):
        v = self.p.types[self.rs]["variants"][vi]
        return ("a", self.rs, vi, tuple(eng.sym(st, f["ty"], "payload%d" % i) for i, f in enumerate(v["fields"])))

    # ---- Reason
    def message(self, vi):
        """the pieces Reason's Display writes for a variant: one list per path"""
        out = []

        def judge(eng, s, me):
            ps = pieces(s)
            out.append(ps)
            for x in me[3]:
                if x[0] == "i" and not any(q[0] == "any" for q in ps):
                    # different numbers are different reasons
                    if not any(q[0] == "int" and s.need(("eq", sub(q[1], x[1]))) for q in ps):
                        k = [q for q in ps if q[0] == "k"]
                        n = s.num.norm(x[1])
                        if is_const(n) and any(str(n[0]) in q[1] for q in k):
                            return True, ""
                        return False, "the message of %s does not show its number: %s" % (self.vars[vi], text(ps))
            return True, ""

        self.show(self.rb, self.rs, judge, "reason", value=lambda eng, st: self.reason(eng, st, vi))
        return out

    def lists(self, vi, name):
        """a message that lists terms names each of them, in lists of up to three terms"""
        fs = self.p.types[self.rs]["variants"][vi]["fields"]
        for fi, f in enumerate(fs):
            t = self.p.types[f["ty"]]
            if t["k"] != "ref" or self.p.types[t["elem"]]["k"] != "slice":
                continue
            for n in (1, 2, 3):
                els = []

                def value(eng, st):
                    v = self.reason(eng, st, vi)
                    els.extend(st.newtext("term%d" % i) for i in range(n))
                    o = ("H", "terms")
                    st.heap[o] = ("q", tuple(("1", ("s", S)) for S in els))
                    a = list(v[3])
                    a[fi] = ("r", o, ())
                    return ("a", v[1], v[2], tuple(a))

                def judge(eng, s, me):
                    ps = pieces(s)
                    if any(x[0] == "any" for x in ps):
                        return None, "the list is printed in a way that is not followed"
                    for S in els:
                        if not any(x[0] == "t" and s.seq_decide(x[1], S) for x in ps):
                            if s.ge(ZERO, s.slen(S)) or s.str_const(S) is not None or s.tx[S[1]].cls:
                                continue
                            return False, "the message of %s with %d terms leaves out one of them" % (name, n)
                    return True, ""

                self.show(self.rb, self.rs, judge, "listed terms", value=value, loops=False)

    def distinct(self, msgs, what):
        vs = sorted(msgs)
        for i, a in enumerate(vs):
            for b in vs[i + 1:]:
                for x in msgs[a]:
                    for y in msgs[b]:
                        r = apart(x, y)
                        w = "%s of %s and %s" % (what, a, b)
                        if r:
                            self.rep.ok("distinct", w)
                        elif r is None:
                            self.rep.open("distinct", w, "cannot be told apart: %s and %s" % (text(x), text(y)))
                        else:
                            self.rep.violation("distinct", w, "both are %s" % text(x), "reason %s\nreason %s" % (a, b))

    def description(self):
        b = self.impl(ERROR, "description", self.pe, "description of ParseError")
        if b is None:
            return
        got = {}
        for i, v in enumerate(self.vars):
            eng = engine(self.p, 60)
            st = St()
            st.heap[("H", "me")] = self.error(eng, st, i)
            res = []

            def judge(s, r):
                S = S_of(eng, s, r)
                k = S[1] if S[0] == "k" else s.str_const(S)
                if k is None:
                    return None, "not a constant text"
                if not k:
                    return False, "%s is described by nothing" % v
                res.append([("k", k)])
                for o in self.vars:
                    if o != v and any(m == [("k", k)] for m in self.msgs[o]):
                        return False, "%s is described by the message of %s: %r" % (v, o, k)
                return True, ""

            self.n += paths(self.rep, "description", eng, b, [("r", ("H", "me"), ())], st, judge)
            self.ids |= eng.visited
            got[v] = res
        self.distinct(got, "descriptions")

    # ---- ParseError
    def error(self, eng, st, vi, start=None, fixed=False):
        e = eng.expand(st, eng.sym(st, self.pe, "err"))
        fs = list(e[3])
        fs[self.fields["reason"]] = self.reason(eng, st, vi)
        sp = eng.expand(st, fs[self.fields["span"]])
        if start is not None:
            sp = ("a", sp[1], sp[2], (("i", K(start)), ("i", K(start + 2))))
        fs[self.fields["span"]] = sp
        return ("a", e[1], e[2], tuple(fs))

    def display(self, eb, vi):
        bad = []
        self.show(eb, self.pe, lambda eng, s, me: self.judge(eng, s, me, vi, bad), "output",
                  value=lambda eng, st: self.error(eng, st, vi), atomic=[self.rb])
        if bad:
            # the number of spaces is not provable: look for a span that shows it
            n = len(self.rep.viol)
            for k in STARTS:
                self.show(eb, self.pe, lambda eng, s, me: self.judge(eng, s, me, vi, None), "output",
                          value=lambda eng, st: self.error(eng, st, vi, k), atomic=[self.rb], loops=False)
                if len(self.rep.viol) > n:
                    return
            self.rep.open("output", "%s: %s" % (eb.path, self.vars[vi]), "the number of spaces: " + bad[0])

    def judge(self, eng, s, me, vi, bad):
        v = self.vars[vi]
        ps = pieces(s)
        shown = "for %s it writes %s" % (v, text(ps))
        fs = me[3]
        S = S_of(eng, s, fs[self.fields["original"]])
        start = eng.expand(s, fs[self.fields["span"]])[3][0][1]
        # the text
        if ps and ps[0][0] == "t" and s.seq_decide(ps[0][1], S) is not False:
            if s.seq_decide(ps[0][1], S) is not True and not s.need(("seq", ps[0][1], S)):
                return False, "the output does not start with the text: " + shown
            ps = ps[1:]
        elif not s.need(("eq", s.slen(S))):
            if ps and ps[0][0] == "any":
                return None, "the start of the output is not followed"
            k = s.str_const(S)
            if k is None or not ps or ps[0][0] != "k" or not ps[0][1].startswith(k):
                if len(ps) and ps[0][0] == "t" and ps[0][1][0] == "t" and ps[0][1][1] == S[1] or k is None and ps and ps[0][0] != "t":
                    return (False, "the output does not start with the text: " + shown)
                return None, "the start of the output is not followed: " + shown
            ps = cut(ps, len(k))
        if not ps or ps[0][0] == "any":
            return (None if ps else False), "nothing follows the text: " + shown
        if ps[0][0] != "k" or ps[0][1][0] != "\n":
            return (None if ps[0][0] == "t" else False), "no newline follows the text: " + shown
        ps = cut(ps, 1)
        # the spaces
        total, looped = ZERO, False
        while ps and (ps[0][0] == "k" and ps[0][1][0] == " " or ps[0][0] == "rep" and ps[0][1] == " "):
            if ps[0][0] == "rep":
                total = add(total, ps[0][2])
                ps = ps[1:]
            else:
                n = len(ps[0][1]) - len(ps[0][1].lstrip(" "))
                total = addc(total, n)
                ps = cut(ps, n)
            # a run of another character may be empty
            while ps and ps[0][0] == "rep" and ps[0][1] != " " and s.need(("ge", neg(ps[0][2]))):
                ps = ps[1:]
        if ps and ps[0][0] == "any":
            return None, "the spaces are not followed: " + shown
        msg = ps and self.is_message(eng, s, ps, vi, me)
        d = s.num.norm(sub(total, start))
        if not (d == ZERO or msg and d == ONE):
            exact = s.need(("eq", sub(total, start))) or msg and s.need(("eq", addc(sub(total, start), -1)))
            if not exact:
                if bad is not None and any(x[0] == "tu" and x[1][0][:2] == ("T", "loop") for _, x in s.ext["out"][1]):
                    bad.append(shown)
                    return True, ""
                return False, "the newline is not followed by as many spaces as the span's start: " + shown
        # the end
        r = self.ends(eng, s, ps, vi, me)
        return r, "the output does not end with the message of its reason: " + shown

    def is_message(self, eng, s, ps, vi, me):
        if ps[0][0] == "shown":
            return True
        return any(len(m) == 1 and m[0][0] == "k" and len(ps) == 1 and ps[0] == m[0] for m in self.msgs[self.vars[vi]])

    def ends(self, eng, s, ps, vi, me):
        if not ps:
            return False
        x = ps[-1]
        if x[0] == "shown":
            if x[1] != self.rb.id:
                return None
            return same_val(eng, s, x[2], me[3][self.fields["reason"]])
        ms = self.msgs[self.vars[vi]]
        if x[0] == "any" or any(y[0] == "any" for y in ps):
            return None
        for m in ms:
            if len(m) == 1 and m[0][0] == "k":
                if x[0] == "k" and x[1].endswith(m[0][1]):
                    return True
            elif x[0] != "k" or any(y[0] == "any" for y in m):
                return None
            elif m[-1][0] == "k" and x[1].endswith(m[-1][1]):
                return None
        return False


def cut(ps, n):
    k = ps[0][1][n:]
    return ([("k", k)] if k else []) + ps[1:]


def text(ps):
    return " + ".join("%r" % x[1] if x[0] == "k" else "<%s>" % {"t": "text", "rep": "repeated %r" % (x[1],), "int": "number", "shown": "message", "any": "..."}[x[0]]
                      for x in ps) or "nothing"


def apart(x, y):
    """are the texts of two piece lists always different?  None: not known"""
    if all(a[0] == "k" for a in x) and all(a[0] == "k" for a in y):
        return x != y
    a, b = fixed(x, 0), fixed(y, 0)
    n = min(len(a), len(b))
    if a[:n] != b[:n]:
        return True
    a, b = fixed(x, -1), fixed(y, -1)
    n = min(len(a), len(b))
    if n and a[-n:] != b[-n:]:
        return True
    return None


def fixed(ps, at):
    return ps[at][1] if ps and ps[at][0] == "k" else ""
