"""Expression::eval and predicates() against their specification, for every node sequence parse can build.

The nodes come from a generator: each request for the next node forks into the end (only when exactly one
result is outstanding), a predicate, all(c) and any(c) with c at most the number h of outstanding results,
and not() with at least one - what C03 shows of every parsed expression.  Between two nodes the results kept
by eval are the anonymous but distinct results 0..h of the sequence so far; after each node the specification
says which of them were consumed, how they were combined and what was put in their place."""
from .harness import *
from .lexcheck import Obs, facts_text, splitting, full
from .models import some, none, ix_at
from .parsecheck import ParseRun, EXPR, FUNC, Missing
from .state import Split, Stuck
from .engine import Limit, Outcomes, Dead
from .values import same_val

LOGIC = "cfg_expr::expr::Logic"
RANGE = "core::ops::range::Range"


def I(l):
    return ("i", l)


def at(v):
    """(lo, hi) of the results a token stands for, when it is a single outstanding one"""
    if v[0] == "T" and v[1] == "at":
        return v[2][1], addc(v[2][1], 1)
    return None


class EvalRun:
    def __init__(self, prog, budget=40):
        self.p = prog
        self.budget = budget
        self.obs = []
        self.missing = None
        self.engines = []
        pr = ParseRun(prog, "W")
        self.pr = pr
        if pr.missing:
            self.missing = pr.missing
            return
        self.fvar = {v["name"]: i for i, v in enumerate(prog.types[self.fn_ty()]["variants"])}
        if set(self.fvar) != {"Not", "All", "Any"}:
            self.missing = "the variants of Func"

    def fn_ty(self):
        return self.p.types[self.pr.nodety]["variants"][self.pr.fnvar]["fields"][0]["ty"]

    def ob(self, st, rule, ok, why, where=None):
        self.obs.append(Obs(rule, ok if ok is None else bool(ok), why, st.doubt(), where or self.pr.evalb.d["span"], "" if ok else facts_text(st)))
        return ok

    # ---- symbolic predicates -------------------------------------------------------------------
    def raws(self, st, ty, depth=6):
        """[(state, value, whole)]: every shape of a stored predicate; texts are any ranges of the text on
        character boundaries.  whole is False where an Option of it is empty: whether that can be
        stored is not known here (C06 looks at what is stored)"""
        p = self.p
        t = p.types[ty]
        if t["k"] == "adt" and t["path"] == RANGE:
            s = st.copy()
            a, b = fresh(), fresh()
            n = s.tx["t0"].n
            s.num.add_ge(V(a))
            s.num.add_ge(sub(V(b), V(a)))
            s.num.add_ge(sub(n, V(b)))
            s.add_bnd("t0", V(a))
            s.add_bnd("t0", V(b))
            return [(s, ("a", ty, 0, (I(V(a)), I(V(b)))), True)]
        if t["k"] == "adt" and t["path"].startswith("cfg_expr") or t["k"] == "adt" and t["path"] == "core::option::Option":
            out = []
            for vi, v in enumerate(t["variants"]):
                part = [(st.copy(), (), True)]
                for f in v["fields"]:
                    part = [(s2, fs + (x,), w and w2) for s, fs, w in part for s2, x, w2 in self.raws(s, f["ty"], depth - 1)]
                empty = t["path"].endswith("Option") and not v["fields"]
                out += [(s, ("a", ty, vi, fs), w and not empty) for s, fs, w in part]
            return out
        s = st.copy()
        return [(s, self.eng.sym(s, ty, fresh()), True)]

    def single(self, st, node):
        """[(state, predicate)]: what eval hands to the callback for this predicate alone"""
        s = st.copy()
        ext = s.ext
        s.ext = {"got": ("tu", ())}
        pr = self.pr
        fs = [None, None]
        fs[pr.seqf] = ("q", (("1", node),))
        fs[pr.txtf] = ("S", ("t", "t0", ZERO, s.tx["t0"].n))
        o = ("H", fresh())
        s.heap[o] = ("a", pr.exty, 0, tuple(fs))
        old, self.mode = self.mode, "single"
        self.eng.mute = True
        try:
            outs = self.eng.call_body(s, pr.evalb, [("r", o, ()), ("y", "#callback", pr.evalb.locals[2])])
        finally:
            self.mode = old
            self.eng.mute = False
        res = []
        for s2, _ in outs:
            got = s2.ext["got"][1]
            s2.ext = dict(ext)
            s2.heap.pop(o, None)
            if len(got) == 1:
                res.append((s2, got[0]))
            else:
                self.ob(s2, "one callback per predicate", False, "eval calls the callback %d times for one predicate" % len(got))
        return res

    def setup(self):
        self.eng = eng = engine(self.p, self.budget)
        self.engines.append(eng)
        eng.trait_hooks[("call", "y")] = self.hook_callback
        for m, n in (("top", 0), ("bottom", 0), ("and", 2), ("or", 2), ("not", 1)):
            eng.hooks[LOGIC + "::" + m] = self.logic(m)
            eng.trait_hooks[(LOGIC, m)] = self.logic(m)
        eng.gens["nodes"] = self.next_node
        st = St()
        st.newtext("t0")
        return st

    def expr(self, st):
        pr = self.pr
        fs = [None, None]
        fs[pr.seqf] = ("q", (("g", "nodes", V("#nodes")),))
        st.num.add_ge(V("#nodes", 1, -1))
        fs[pr.txtf] = ("S", ("t", "t0", ZERO, st.tx["t0"].n))
        o = ("H", "expr")
        st.heap[o] = ("a", pr.exty, 0, tuple(fs))
        return ("r", o, ())

    # ---- results -------------------------------------------------------------------------------
    def logic(self, m):
        def f(cx):
            st = cx.st
            if self.mode == "single":
                return ("y", fresh(), cx.rt)
            if m in ("top", "bottom"):
                return ("T", "acc", "and" if m == "top" else "or", "unit")
            a = [x for x in cx.args]
            for i, x in enumerate(a):
                while x[0] in ("r", "rv"):
                    x = self.eng.load(st, self.eng.deref_val(st, x))
                a[i] = x
            if any(x[0] != "T" for x in a):
                raise Stuck("a logic operation on a value that is not followed")
            if m == "not":
                if at(a[0]) is None:
                    return ("T", "odd", "not() of something that is not one result")
                return ("T", "neg", a[0][2])
            return self.combine(st, m, a[0], a[1])

        return f

    def combine(self, st, m, a, b):
        """a m b, both accumulators or single results"""
        x, y = self.acc(m, a), self.acc(m, b)
        if x is None or y is None:
            return ("T", "odd", "%s of values that are not results of this function's operands" % m)
        u = x[0] + y[0]
        if x[1] is None:
            r = y[1]
        elif y[1] is None:
            r = x[1]
        elif st.same(x[1][0], y[1][1]):
            r = (y[1][0], x[1][1])
        elif st.same(x[1][1], y[1][0]):
            r = (x[1][0], y[1][1])
        else:
            return ("T", "odd", "%s of operands that are not neighbours or not distinct" % m)
        if u > 1:
            return ("T", "odd", "%s of several top or bottom elements" % m)
        if r is None:
            return ("T", "acc", m, "unit")
        return ("T", "acc", m, "unit" if u else "bare", I(r[0]), I(r[1]))

    def acc(self, m, v):
        r = at(v)
        if r is not None:
            return 0, r
        if v[1] == "acc" and v[2] == m:
            return (1 if v[3] == "unit" else 0), ((v[4][1], v[5][1]) if len(v) > 4 else None)
        return None

    def hook_callback(self, cx):
        st = cx.st
        v = self.eng.strip_refs(st, cx.args[1])
        if self.mode == "single":
            st.ext["got"] = ("tu", st.ext["got"][1] + (v,))
            return ("y", fresh(), cx.args[0][2])
        cur = st.ext["node"]
        if cur[1] != "pred":
            self.ob(st, "one callback per predicate", False, "the callback is called where no predicate is evaluated")
            raise Dead()
        if not self.ob(st, "one callback per predicate", st.ext["calls"] == I(ZERO), "the callback is called more than once for a predicate"):
            raise Dead()
        r = same_val(self.eng, st, v, st.ext["want"])
        if not self.ob(st, "the callback's argument", r, "the callback gets another predicate than the one at this place"):
            raise Dead()
        st.ext["calls"] = I(ONE)
        return ("T", "call")

    # ---- nodes ---------------------------------------------------------------------------------
    def next_node(self, cx, cur, it):
        st = cx.st
        outs = []
        for s, good in self.after(st):
            if good:
                outs += self.give(cx, s)
        raise Outcomes(outs)

    def tokens_in(self, st):
        """the sequence that holds the results: [(place, value)], and results held elsewhere"""
        seqs, loose = [], []

        def walk(obj, path, v):
            if v[0] == "q":
                if v[1] and any(self.is_res(x[1] if x[0] == "1" else x[2]) for x in v[1] if x[0] in ("1", "n")):
                    seqs.append((("P", obj, path), v))
                    return
                for i, x in enumerate(v[1]):
                    if x[0] == "1":
                        walk(obj, path + (("?",),), x[1])
            elif v[0] == "T" and self.is_res(v):
                loose.append(v)
            elif v[0] in ("a", "cl", "tu"):
                for i, x in enumerate(v[3] if v[0] == "a" else v[2] if v[0] == "cl" else v[1]):
                    if isinstance(x, tuple):
                        walk(obj, path + (("f", i),), x)

        live = self.live(st)
        for o, v in st.heap.items():
            if not isinstance(o[0], int) or o in live:
                walk(o, (), v)
        return seqs, loose

    def live(self, st):
        from .join import frame_roots

        return {k for k, _ in frame_roots(st, 0)}

    def is_res(self, v):
        return v[0] == "T" and v[1] in ("ix", "at", "acc", "neg", "call", "odd")

    def after(self, st):
        """judge the node evaluated last; yields (state, follow it)"""
        def f(s):
            return self.settle(s)

        yield from splitting(self.eng, st, f)

    def settle(self, s):
        cur = s.ext["node"]
        if self.mode == "preds":
            return self.settle_preds(s)
        if cur[1] == "none":
            return True
        h = s.ext["h"][1]
        if cur[1] == "pred" and not self.ob(s, "one callback per predicate", s.ext["calls"] == I(ONE), "a predicate is evaluated without calling the callback"):
            return False
        seqs, loose = self.tokens_in(s)
        if len(seqs) != 1 or loose:
            if not seqs and not loose:
                self.ob(s, "results", False, "the result of a node is lost")
            else:
                self.ob(s, "results", None, "the results are not kept in one sequence")
            return False
        place, q = seqs[0]
        its = [x for x in q[1] if not (x[0] == "n" and s.num.entails_eq(x[1]))]
        if any(x[0] not in ("1", "n") for x in its):
            self.ob(s, "results", None, "the results are not followed")
            return False
        kind = cur[1]
        c = {"pred": ZERO, "not": ONE}.get(kind) or (cur[2][1] if kind in ("all", "any") else ZERO)
        # below: the results 0..h-c, untouched; on top: the result of the node
        below, top = its[:-1], its[-1]
        if top[0] == "n" and (top[2][1] == "ix" or not s.same(top[1], ONE)):
            below, top = its, None
        else:
            top = top[1] if top[0] == "1" else top[2]
        pos = ZERO
        okb = True
        for x in below:
            v, n = (x[1], ONE) if x[0] == "1" else (x[2], x[1])
            b = v[2][1] if v[0] == "T" and v[1] in ("at", "ix") else None
            if b is None or not s.same(b, pos):
                okb = False
            pos = add(pos, n)
        name = {"pred": "a predicate", "not": "not()", "all": "all()", "any": "any()"}[kind]
        # a single operand's own result may stand for the whole all() or any() only with its unit
        if top is None:
            self.ob(s, "results", False, "%s leaves no result" % name)
            return False
        if not self.ob(s, "operands", okb and s.same(pos, sub(h, c)), "%s does not consume exactly its own operands" % name):
            return False
        if kind == "pred":
            good = top == ("T", "call")
            why = "the result kept for a predicate is not the callback's"
        elif kind == "not":
            good = top[1] == "neg" and s.same(top[2][1], sub(h, c))
            why = "not() does not give the negation of its operand's result"
        else:
            op = "and" if kind == "all" else "or"
            good = top[1] == "acc" and top[2] == op and top[3] == "unit"
            if good and len(top) > 4:
                good = s.same(top[4][1], sub(h, c)) and s.same(top[5][1], h)
            elif good:
                good = s.same(c, ZERO)
            why = "%s does not combine the %s element with exactly its operands' results" % (name, "top" if op == "and" else "bottom")
            if top[1] == "odd":
                why += " (%s)" % top[2]
        if not self.ob(s, "combination", good, why):
            return False
        h2 = s.num.norm(addc(sub(h, c), 1))
        self.eng.store(s, place, ("q", (("n", h2, ("T", "ix", I(ZERO))),)))
        s.ext["h"] = I(h2)
        s.ext["node"] = ("T", "none2")
        s.ext["want"] = ("T", "-")
        s.ext["calls"] = I(ZERO)
        return True

    def settle_preds(self, s):
        if s.ext["node"][1] == "pred" and not self.ob(s, "predicates() loses none", s.ext["calls"] == I(ONE), "predicates() passes over a predicate"):
            return False
        s.ext["node"] = ("T", "none2")
        s.ext["want"] = ("T", "-")
        return True

    # ---- running -------------------------------------------------------------------------------
    def run(self):
        try:
            self.run_eval()
            self.run_preds()
        except (Limit, Stuck, KeyError, IndexError, TypeError, AssertionError, RecursionError) as e:
            self.missing = "analysis stopped: %r" % (e,)

    def run_eval(self):
        st = self.setup()
        self.mode = "eval"
        self.returns = 0
        e = self.expr(st)
        st.ext = {"h": I(ZERO), "node": ("T", "none"), "calls": I(ZERO), "want": ("T", "-")}
        for s, v in self.eng.call_body(st, self.pr.evalb, [e, ("y", "#callback", self.pr.evalb.locals[2])]):
            self.returns += 1
            if s.ext["node"] != ("T", "end"):
                self.ob(s, "value of the root", False, "eval returns before the last node")
                continue
            good = v[0] == "T" and v[1] == "at" and s.same(v[2][1], ZERO)
            self.ob(s, "value of the root", good, "eval does not return the value of the root")

    def run_preds(self):
        p, pr = self.p, self.pr
        b = p.find_inherent(EXPR, "predicates")
        if len(b) != 1 or b[0].argc != 1:
            raise Stuck("Expression::predicates not found")
        rt = b[0].locals[0]
        nb = p.find_impl("core::iter::traits::iterator::Iterator", "next", lambda t: t == rt)
        if len(nb) != 1:
            raise Stuck("the iterator predicates() returns")
        self.nextb = nb[0]
        st = self.setup()
        self.mode = "preds"
        e = self.expr(st)
        st.ext = {"h": I(ZERO), "node": ("T", "none"), "calls": I(ZERO), "want": ("T", "-")}
        work = []
        from .join import canonical, join, rebuild_state

        for s, it in self.eng.call_body(st, b[0], [e]):
            s.frames = []
            s.ext["it"] = it
            work.append(s)
        table = {}
        self.yields = 0
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > 400:
                raise Limit("no fixpoint")
            s.num = type(s.num)()
            s.ext["h"] = I(ZERO)
            cn, key = canonical(self.eng, s, 0)
            if key in table:
                continue
            table[key] = True
            it = s.ext.pop("it")
            o = ("H", "it")
            s.heap[o] = it
            for s2, v in self.call_next(s, it, o):
                def f(x):
                    return full(self.eng, x, v, 1)

                for s3, r in splitting(self.eng, s2, f):
                    if r[0] != "a":
                        self.ob(s3, "predicates() yields each", None, "the item is not followed", b[0].d["span"])
                        continue
                    s3 = s3.copy()
                    if p.types[r[1]]["variants"][r[2]]["name"] == "None":
                        self.ob(s3, "predicates() ends with the last", s3.ext["node"] == ("T", "end"), "predicates() ends before the last predicate", b[0].d["span"])
                        continue
                    self.yields += 1
                    if not self.ob(s3, "predicates() yields each", s3.ext["node"] == ("T", "pred") and s3.ext["calls"] == I(ZERO), "predicates() yields something that is not the next predicate", b[0].d["span"]):
                        continue
                    same = same_val(self.eng, s3, self.eng.strip_refs(s3, r[3][0]), s3.ext["want"])
                    if not self.ob(s3, "predicates() yields the same", same, "predicates() yields another predicate than eval's callback gets", b[0].d["span"]):
                        continue
                    s3.ext["calls"] = I(ONE)
                    s3.ext["want"] = ("T", "-")
                    s3.ext["it"] = s3.heap.pop(o)
                    s3.frames = []
                    s3.nsplit = 0
                    s3.ext["h"] = I(ZERO)
                    work.append(s3)

    def call_next(self, s, it, o):
        return self.eng.call_body(s, self.nextb, [("r", o, ())])

    def give(self, cx, st):
        """the next node, or the end"""
        out = []
        eng, pr = self.eng, self.pr
        h = st.ext["h"][1]
        rt = cx.rt

        def fin(s, node, tag, want=None):
            o = ("H", fresh())
            s.heap[o] = node
            s.ext["node"] = tag
            s.ext["calls"] = I(ZERO)
            s.ext["want"] = want if want is not None else ("T", "-")
            out.append((s, ("a", rt, self.p.variant(rt, "Some"), (("r", o, ()),))))

        self.nodes_given = getattr(self, "nodes_given", 0) + 1
        s = st.copy()
        free = self.mode == "preds"
        if not free:
            s.num.add_eq(addc(h, -1))
        if s.ok() and s.num.check_feasible() and st.ext["node"] != ("T", "none"):
            s.ext["node"] = ("T", "end")
            out.append((s, ("a", rt, self.p.variant(rt, "None"), ())))
        for s0, raw, whole in self.raws(st, pr.rawty):
            node = ("a", pr.nodety, pr.prvar, (raw,))
            n = len(out)
            for s, want in self.single(s0, node):
                fin(s, node, ("T", "pred"), want)
            if len(out) == n and whole:
                self.ob(s0, "one callback per predicate", None, "eval of a predicate standing alone does not return")
        fty = self.fn_ty()
        for name in ("All", "Any"):
            s = st.copy()
            c = fresh()
            s.num.add_ge(V(c))
            if not free:
                s.num.add_ge(sub(h, V(c)))
            s.num.add_ge(V(c, -1, 2 ** 62))
            fin(s, ("a", pr.nodety, pr.fnvar, (("a", fty, self.fvar[name], (I(V(c)),)),)), ("T", name.lower(), I(V(c))))
        s = st.copy()
        if not free:
            s.num.add_ge(addc(h, -1))
        if s.ok() and s.num.check_feasible():
            fin(s, ("a", pr.nodety, pr.fnvar, (("a", fty, self.fvar["Not"], ()),)), ("T", "not"))
        for s, _ in out:
            s.nsplit += 1
        return [(s, v) for s, v in out if s.ok()]

