"""The parser against the grammar, for every token sequence.  Expression::parse is interpreted on a
symbolic text in product with a reference recogniser (a pushdown automaton over the tokens, carried
as ghost values).  Calls of Lexer::next are answered by the lexer's specification (which the lexer
analysis establishes separately): every token of every kind, at fresh positions.  States are joined
at those calls; the open functions below the innermost one are folded into a group whose members
are described by invariants (ALT) that are computed along the way, so the nesting depth is unbounded.
"""
import time

from . import chars as C
from .harness import *
from .num import Num
from .state import Split, Stuck, TextFacts, fresh, c_and, c_not
from .models import parse_fact, int_max
from .join import canonical, join, rebuild_state, Mapper, frame_roots, rigid, TAGS
from .engine import Limit, Outcomes, Dead
from .lexcheck import LexRun, Obs, vname, vfield, full, splitting, facts_text, IDSTART, IDREST, QUOTE, NOQUOTE, TOKEN, LEXER

EXPR = "cfg_expr::expr::Expression"
FUNC = "cfg_expr::expr::Func"
RANGE = "core::ops::range::Range"
TNONE = ("T", "none")
TREE = ("T", "tree")
ROOT = ("y", "ROOT", 0)
WORDS = {"All": "all", "Any": "any", "Not": "not"}
FUEL = 8  # tokens that are read on after a text is known to be invalid
CLOSERS = 5  # the last of them only close parentheses or end the text
LATER = 200  # seconds
SEQS = ("alloc::vec::Vec", "smallvec::SmallVec", "alloc::collections::vec_deque::VecDeque")
TKEYS = {"abi": "Abi", "arch": "Arch", "feature": None, "os": "Os", "family": "Family", "env": "Env", "endian": "Endian",
         "has_atomic": "HasAtomic", "pointer_width": "PointerWidth", "vendor": "Vendor"}


def I(l):
    return ("i", l)


class Missing(Exception):
    pass


class Import(Mapper):
    """renames the private symbols of a stored state"""

    def __init__(self, s, E):
        self.s = s
        self.E = E
        self.ren = {}
        self.objs = {}
        self.done = set()

    def sym(self, x):
        if not x.startswith("#"):
            return x
        if x.endswith(".w"):
            return self.sym(x[:-2]) + ".w"
        r = self.ren.get(x)
        if r is None:
            r = self.ren[x] = fresh()
        return r

    def lin(self, l):
        return (l[0], tuple(sorted((self.sym(x), k) for x, k in l[1])))

    def char(self, c):
        if isinstance(c, int):
            return c
        n = self.sym(c)
        if n not in self.s.chars:
            self.s.chars[n] = self.E.cset(c)
        return n

    def tid(self, t):
        return self.sym(t)

    def yid(self, y):
        return self.sym(y)

    def obj(self, o):
        if o[0] != "H" or rigid(str(o[1])):
            return o
        n = ("H", self.sym(o[1]))
        if o not in self.done:
            self.done.add(o)
            self.s.heap[n] = self.val(self.E.heap[o])
        return n

    def boolean(self, v):
        if "#" in repr(v[1]):
            return ("b", ("atom", fresh()))
        return v

    def facts(self):
        s, E = self.s, self.E
        for c in E.chars:
            self.char(c)
        for tid, t in E.tx.items():
            n = self.tid(tid)
            if n not in s.tx:
                s.tx[n] = TextFacts(self.lin(t.n))
            x = s._tx(n)
            own = tid != n
            x.cls += tuple((self.lin(a), self.lin(b), k) for a, b, k in t.cls if own or priv(a, b))
            x.ch += tuple((self.lin(a), self.char(c)) for a, c in t.ch if own or priv(a))
            x.bnd += tuple(self.lin(a) for a in t.bnd if own or priv(a))
            x.eqs += tuple((self.lin(a), self.lin(b), k) for a, b, k in t.eqs if own or priv(a, b))
            x.neqs += tuple((self.lin(a), self.lin(b), k) for a, b, k in t.neqs if own or priv(a, b))
        for x, e in E.num.eqs.items():
            s.num.add_eq(sub(self.lin(V(x)), self.lin(e)))
        for t, c in E.num.ineqs.items():
            s.num.add_ge(self.lin((c, t)))


def priv(*ls):
    return any(x.startswith("#") for l in ls for x, _ in l[1])


class ParseRun:
    def __init__(self, prog, world, lex=None, budget=600):
        self.p = prog
        self.world = world
        self.budget = budget
        self.missing = None
        self.alt = {}
        self.rounds = 0
        try:
            self.find()
        except Missing as e:
            self.missing = str(e)

    # ---- what is analysed ----------------------------------------------------------------------
    def find(self):
        p = self.p
        b = p.find_inherent(EXPR, "parse")
        if len(b) != 1 or b[0].argc != 1:
            raise Missing("Expression::parse(&str) not found")
        self.parse = b[0]
        b = p.find_inherent(EXPR, "eval")
        if len(b) != 1 or b[0].argc != 2:
            raise Missing("Expression::eval not found")
        self.evalb = b[0]
        lr = LexRun(p)
        if lr.missing:
            raise Missing(lr.missing)
        self.lex_new, self.lex_next = lr.new, lr.next
        self.exty = self.p.type_by_path(EXPR)
        if len(self.exty) != 1:
            raise Missing("type Expression")
        self.exty = self.exty[0]
        self.seqf = self.txtf = None
        fs = p.types[self.exty]["variants"][0]["fields"]
        for i, f in enumerate(fs):
            t = p.types[f["ty"]]
            if t["k"] == "adt" and t["path"] == "alloc::string::String" and self.txtf is None:
                self.txtf = i
            elif t["k"] == "adt" and t["path"] in SEQS and self.seqf is None:
                self.seqf = i
                self.seqty = f["ty"]
            else:
                raise Missing("field %s of Expression" % f["name"])
        if self.seqf is None or self.txtf is None:
            raise Missing("the fields of Expression")
        self.nodety = self.elem_ty(self.seqty)
        n = p.types[self.nodety]
        self.fnvar = self.prvar = None
        if n["k"] != "adt" or len(n["variants"]) != 2:
            raise Missing("the nodes of an Expression")
        for i, v in enumerate(n["variants"]):
            if len(v["fields"]) == 1 and p.adt_path(v["fields"][0]["ty"]) == FUNC:
                self.fnvar = i
            elif len(v["fields"]) == 1 and p.types[v["fields"][0]["ty"]]["k"] == "adt":
                self.prvar = i
                self.rawty = v["fields"][0]["ty"]
        if self.fnvar is None or self.prvar is None:
            raise Missing("the nodes of an Expression")

    def elem_ty(self, ty):
        t = self.p.types[ty]
        if t["k"] in ("array", "slice"):
            return t["elem"]
        if t["k"] == "adt" and t.get("args"):
            for a in t["args"]:
                x = self.p.types[a]
                if x["k"] == "array":
                    return x["elem"]
                return a
        return None

    # ---- running -------------------------------------------------------------------------------
    def run(self):
        if self.missing:
            return
        try:
            self.once()
        except (Limit, Stuck, KeyError, IndexError, TypeError, AssertionError, RecursionError) as e:
            self.missing = "analysis stopped: %r" % (e,)

    def once(self):
        self.eng = eng = engine(self.p, self.budget)
        self.obs = []
        self.epanics = []
        self.tokens_n = 0
        self.returns = 0
        self.states = 0
        self.visits = 0
        self.cut = 0
        self.verified = 0
        self.table = {}
        self.dirty = {}
        self.later = {}
        self.ldirty = {}
        self.asked = False
        self.ineval = False
        eng.unfold = self.unfold_asked
        eng.join_first = lambda st: st.frames[-1].body.local
        eng.no_join = self.token_loop
        eng.on_clone = self.on_clone
        eng.body_hooks[self.lex_new.id] = self.hook_new
        eng.body_hooks[self.lex_next.id] = self.hook_next
        eng.trait_hooks[("call", "y")] = self.hook_callback
        st = St()
        T = st.newtext("t0")
        self.T = T
        if self.world == "S":
            # positions are counted from the end of the "cfg("
            self.T = T = ("t", "t0", K(-4), T[3])
            st.add_bnd("t0", K(-4))
            st.num.add_ge(addc(neg(T[3]), 2 ** 63 - 5))
            st.assume(("sw", T, "cfg("), True)
            st.assume(("ew", T, ")"), True)
            st.num.add_ge(addc(T[3], -1))
            starts = [st]
        else:
            a = st.copy()
            a.assume(("sw", T, "cfg("), False)
            b = st.copy()
            b.assume(("sw", T, "cfg("), True)
            b.assume(("ew", T, ")"), False)
            starts = [a, b]
        self.lo, self.hi = (ZERO, addc(T[3], -1)) if self.world == "S" else (ZERO, T[3])
        self.hard = [2, 1, 0, -1]
        for s in starts:
            s.ext = {
                "ph": ("T", "START"), "gs": ("q", ()), "kr": I(ZERO), "tot": I(ZERO), "cur": I(ZERO),
                "key": TNONE, "val": TNONE, "leaf": TNONE, "closing": TNONE, "early": TNONE, "ub": I(ZERO), "b0": I(ZERO),
            }
            for s2, v in eng.call_body(s, self.parse, [("s", T)]):
                self.judge(s2, v)
        while self.dirty:
            key = min(self.dirty, key=self.dirty.get)
            del self.dirty[key]
            st, cn, first, cnt, term = self.table[key]
            self.visits += 1
            its = st.ext["gs"][1]
            if its and its[-1][0] == "L":
                for s in self.unfolded(st.copy(), its[-1]):
                    self.enqueue(s, term)
                continue
            for s2, v in eng.run(self.resume(st.copy(), term), base=0):
                self.judge(s2, v)
        self.invalid_texts()

    def resume(self, st, t):
        out = []
        for s, v in self.tokens(st, t["dt"]):
            s.nsplit += 1
            d = self.eng.place(s, s.frames[-1], t["d"])
            self.eng.finish_call(s, d, t["b"], v)
            out.append(s)
        return out

    def unfolded(self, st, it):
        for _ in range(1):
            try:
                self.unfold(st, it)
            except Split as sp:
                for s in self.eng.do_split(st, sp):
                    if s.ok():
                        yield s

    def token_loop(self, st):
        """is the loop at the top frame's block one that fetches tokens?"""
        f = st.frames[-1]
        if f.depth != 1:
            return False
        k = (f.body.id, f.bb)
        c = self.__dict__.setdefault("_tl", {})
        if k not in c:
            c[k] = self.lex_next.id in {x for x in self.calls_in_loop(f.body, f.bb)}
        return c[k]

    def calls_in_loop(self, body, head):
        # the blocks of the natural loop: what reaches a back edge without passing the head
        prd = {}
        for b in range(len(body.blocks)):
            for s in body.succs(b):
                prd.setdefault(s, []).append(b)
        fwd = {head}
        work = [head]
        while work:
            b = work.pop()
            for s in body.succs(b):
                if s not in fwd:
                    fwd.add(s)
                    work.append(s)
        dom = {0}  # the blocks that are reached without the head are not dominated by it
        work = [0] if head != 0 else []
        while work:
            b = work.pop()
            for s in body.succs(b):
                if s != head and s not in dom:
                    dom.add(s)
                    work.append(s)
        back = {head}
        work = [b for b in prd.get(head, ()) if b in fwd and b not in dom]
        back.update(work)
        while work:
            b = work.pop()
            for s in prd.get(b, ()):
                if s not in back:
                    back.add(s)
                    work.append(s)
        for b in fwd & back:
            t = body.blocks[b]["t"]
            if t["t"] == "call" and "fn" in t["f"]:
                yield t["f"]["fn"].get("inst", -1)

    def on_clone(self, st, v):
        run = self

        class M(Mapper):
            def val(self, v):
                if v[0] == "T" and v[1] in ("leaf", "tree"):
                    return ("T", "copy")
                if v[0] in ("r", "rv"):
                    return v
                return Mapper.val(self, v)

        return M().val(v)

    def ob(self, st, rule, ok, why, where=None):
        self.obs.append(Obs(rule, bool(ok), why, st.doubt(), where or self.parse.d["span"], "" if ok else self.path_text(st)))
        return ok

    def path_text(self, st):
        toks = [x[1] for x in st.trace() if x and x[0] == "tok"]
        return "world: %s\ntokens: %s\nreference: %s\n%s" % (
            "enclosing cfg( ) removed" if self.world == "S" else "whole text", " ".join(toks[-60:]), st.ext.get("ph", ("", "?"))[1:], facts_text(st))

    # ---- the lexer -----------------------------------------------------------------------------
    def hook_new(self, cx):
        st = cx.st
        S = cx.args[0]
        if S[0] != "s" or S[1][0] != "t":
            raise Stuck("Lexer::new of an unknown text")
        S = S[1]
        if st.need(("sw", S, "cfg(")) and st.need(("ew", S, ")")):
            lo, hi = addc(S[2], 4), addc(S[3], -1)
        else:
            lo, hi = S[2], S[3]
        self.eng.body_hooks.pop(self.lex_new.id)
        try:
            outs = self.eng.call_body(st, self.lex_new, cx.args)
        finally:
            self.eng.body_hooks[self.lex_new.id] = self.hook_new
        if st.ext.get("lexv") is not None:
            raise Stuck("a second lexer")
        res = []
        for s, v in outs:
            s.ext["lexv"] = v
            s.ext["lexat"] = TNONE
            s.ext["lo"], s.ext["hi"], s.ext["cur"] = I(lo), I(hi), I(lo)
            self.ob(s, "C19: parsed text", S[1] == "t0" and s.same(lo, self.lo) and s.same(hi, self.hi),
                    "the text that is parsed is not the given text without its enclosing cfg( )")
            if len(outs) > 1:
                s.nsplit += 1
            res.append((s, v))
        raise Outcomes(res)

    def hook_next(self, cx):
        st = cx.st
        eng = self.eng
        if "lo" not in st.ext:
            raise Stuck("a lexer that was not made by Lexer::new")
        fr = st.frames[-1]
        t = fr.body.blocks[fr.bb]["t"]
        me = cx.args[0]
        v = eng.strip_refs(st, me)
        if v != st.ext["lexv"]:
            st.add_taint("the lexer is changed outside of its methods")
        at = ("r", me[1], me[2]) if me[0] == "r" else TNONE
        if st.ext["lexat"] == TNONE:
            st.ext["lexat"] = at
        elif st.ext["lexat"] != at:
            st.add_taint("several copies of the lexer are advanced")
        res = []
        for s in self.settled(st, fr, t):
            if s.ext["ph"][1] in ("DOOMED", "END", "LEXERR"):
                if s.ext["ph"][1] == "DOOMED":
                    self.enqueue(s, t, later=True)
                    continue
                n = s.ext.get("fuel", ("T", "fuel", 4))[2]
                if n <= 0:
                    self.cut += 1
                    continue
                s.ext["fuel"] = ("T", "fuel", n - 1)
                res.extend(self.tokens(s, cx.rt))
            else:
                self.states += 1
                self.enqueue(s, t)
        if not res:
            raise Dead()
        for s, v in res:
            s.nsplit += 1
        raise Outcomes(res)

    def settled(self, st, fr, t):
        """the states after the concrete state was compared with the ghost state"""
        eng = self.eng
        top = st.frames[-1]
        if not t["d"][1]:
            st.heap.pop((top.depth, t["d"][0]), None)
        top.bb = t["b"]
        top.si = 0
        ph = st.ext["ph"][1]
        if ph in ("DOOMED", "END", "LEXERR"):
            yield st
            return
        for s in self.leaves(st):
            if s.ext["ph"][1] == "DOOMED":
                yield s
                continue
            for s2, ok in splitting(eng, s, self.settle):
                if ok and s2.ok():
                    yield s2

    def enqueue(self, st, term, later=False):
        """join the state with the others of its shape; remember to visit it when it is new (later: a text that is
        known to be invalid)"""
        eng = self.eng
        cn, key = canonical(eng, st, eng.base)
        table, dirty = (self.later, self.ldirty) if later else (self.table, self.dirty)
        ent = table.get(key)
        if ent is None:
            if len(table) > 3000:
                if later:
                    self.cut += 1
                    return
                raise Limit("too many parser states")
            table[key] = [st.copy(), cn, True, 1, term]
            self.mark(key, st, dirty)
            return
        A, ca, first, cnt, t0 = ent
        if t0["d"] != term["d"] or t0["b"] != term["b"]:
            raise Stuck("tokens are fetched in several places")
        changed, lins, nr, num, names, newchars, tx, tmap, facts = join(eng, A, ca, st, cn, first, self.hard)
        if not changed:
            return
        if cnt > 60:
            if later:
                self.cut += 1
                return
            raise Limit("no fixpoint in the parser")
        new = rebuild_state(eng, st, cn, key, lins[nr:], num, names, newchars, tx, tmap, facts)
        new.lossy = True
        c2, k2 = canonical(eng, new, eng.base)
        if k2 != key and k2 in table:
            # the join made a part constant or merged two parts
            table[key][3] += 1
            return self.enqueue(new, term, later) if table[k2] is not ent else None
        table[k2] = [new.copy(), c2, False, cnt + 1, term]
        if k2 != key:
            del table[key]
            dirty.pop(key, None)
        self.mark(k2, new, dirty)

    def mark(self, key, st, dirty):
        self.tick = getattr(self, "tick", 0) + 1
        dirty.setdefault(key, self.tick)

    def invalid_texts(self):
        """go on with the texts that are known to be invalid, for some tokens, to see whether they are accepted"""
        eng = self.eng
        end = time.time() + LATER
        if eng.deadline:
            end = min(end, eng.deadline)
        old, eng.deadline = eng.deadline, end
        steps, eng.max_steps = eng.max_steps, eng.steps + 20_000_000
        try:
            while self.ldirty:
                left = lambda k: self.later[k][0].ext["fuel"][2]
                key = min(self.ldirty, key=lambda k: (-left(k), self.ldirty[k]))
                del self.ldirty[key]
                st, cn, first, cnt, term = self.later[key]
                n = left(key)
                if n <= 0:
                    self.cut += 1
                    continue
                st = st.copy()
                st.ext["fuel"] = ("T", "fuel", n - 1)
                for s2, v in eng.run(self.resume(st, term), base=0):
                    self.judge(s2, v)
        except Limit:
            self.cut += 1 + len(self.ldirty)
        finally:
            eng.deadline, eng.max_steps = old, steps

    def unfold_asked(self, st, it):
        self.asked = True
        self.unfold(st, it)

    # ---- tokens --------------------------------------------------------------------------------
    def tokens(self, st, rt):
        """every item the lexer can yield next: [(state, value)]"""
        p = self.p
        ph = st.ext["ph"][1]
        out = []
        kinds = ["None"]
        if ph not in ("END", "LEXERR"):
            kinds += ["Err", "Key", "Value", "Equals", "OpenParen", "CloseParen", "Comma", "All", "Any", "Not"]
        if ph == "DOOMED" and st.ext["fuel"][2] < CLOSERS:
            kinds = ["None", "CloseParen"]
        some = p.variant(rt, "Some")
        res_ty = p.types[rt]["variants"][some]["fields"][0]["ty"]
        okv, errv = p.variant(res_ty, "Ok"), p.variant(res_ty, "Err")
        ltty = p.types[res_ty]["variants"][okv]["fields"][0]["ty"]
        erty = p.types[res_ty]["variants"][errv]["fields"][0]["ty"]
        lo, hi, cur = st.ext["lo"][1], st.ext["hi"][1], st.ext["cur"][1]
        for kind in kinds:
            s = st.copy()
            self.tokens_n += 1
            a = b = None
            S = None
            if kind == "None":
                val = ("a", rt, p.variant(rt, "None"), ())
                s.note("tok", "<end>")
            else:
                x, y = V(fresh()), V(fresh())
                a, b = x, y
                s.num.add_ge(sub(a, cur))
                s.num.add_ge(sub(hi, b))
                s.add_bnd("t0", a)
                s.add_bnd("t0", b)
                if kind == "Err":
                    s.num.add_ge(sub(b, a))
                else:
                    s.num.add_ge(addc(sub(b, a), -1))
                rng = lambda ty: ("a", ty, 0, (I(sub(a, lo)), I(sub(b, lo))))
                if kind == "Err":
                    fs = p.types[erty]["variants"][0]["fields"]
                    vs = []
                    for f in fs:
                        path = p.adt_path(f["ty"])
                        if path == "alloc::string::String":
                            vs.append(("S", ("t", "t0", lo, hi)))
                        elif path == RANGE:
                            vs.append(rng(f["ty"]))
                        else:
                            vs.append(self.eng.sym(s, f["ty"], fresh()))
                    item = ("a", res_ty, errv, (("a", erty, 0, tuple(vs)),))
                    s.note("tok", "<lexer error>")
                else:
                    fs = p.types[ltty]["variants"][0]["fields"]
                    vs = []
                    for f in fs:
                        path = p.adt_path(f["ty"])
                        if path == RANGE:
                            vs.append(rng(f["ty"]))
                        elif path == TOKEN:
                            var = p.variant(f["ty"], kind)
                            pl = p.types[f["ty"]]["variants"][var]["fields"]
                            if kind == "Key":
                                S = ("t", "t0", a, b)
                                s.add_cls("t0", a, b, IDREST)
                                s.refine_char(s.char_at("t0", a, b), IDSTART)
                                for w in WORDS.values():
                                    s.seq_assume(S, ("k", w), False)
                            elif kind == "Value":
                                S = ("t", "t0", addc(a, 1), addc(b, -1))
                                s.num.add_ge(addc(sub(b, a), -2))
                                s.refine_char(s.char_at("t0", a, b), QUOTE)
                                s.refine_char(s.char_at("t0", addc(b, -1), b), QUOTE)
                                s.add_cls("t0", addc(a, 1), addc(b, -1), NOQUOTE)
                            vs.append(("a", f["ty"], var, tuple(("s", S) for _ in pl)))
                        else:
                            raise Stuck("field %s of a token" % f["name"])
                    item = ("a", res_ty, okv, (("a", ltty, 0, tuple(vs)),))
                    s.note("tok", {"Key": "key", "Value": '"value"', "Equals": "=", "OpenParen": "(", "CloseParen": ")", "Comma": ",",
                                   "All": "all", "Any": "any", "Not": "not"}[kind])
                val = ("a", rt, some, (item,))
                s.ext["cur"] = I(b)
            if not s.ok():
                continue

            def f(x):
                self.deliver(x, kind, S)
                return True

            for s2, _ in splitting(self.eng, s, f):
                if s2.ok():
                    out.append((s2, val))
        return out

    def doom(self, s, why):
        s.ext["ph"] = ("T", "DOOMED", why)
        s.ext["fuel"] = ("T", "fuel", FUEL)

    def explicit(self, s):
        its = s.ext["gs"][1]
        return its[-1] if its and its[-1][0] == "1" else None

    def set_top(self, s, fr):
        its = s.ext["gs"][1]
        s.ext["gs"] = ("q", its[:-1] + (("1", fr),))

    def bump(self, s):
        t = self.explicit(s)
        if t is not None:
            kind, k, base, own = t[1][1]
            self.set_top(s, ("tu", (kind, I(addc(k[1], 1)), base, own)))
        else:
            s.ext["kr"] = I(addc(s.ext["kr"][1], 1))

    def leaf_done(self, s):
        t = self.explicit(s)
        own = t[1][1][3] if t is not None else ROOT
        s.ext["leaf"] = ("tu", (own, s.ext["key"], s.ext["val"]))
        self.bump(s)

    def deliver(self, s, kind, S):
        """the reference recogniser reads one token"""
        ph = s.ext["ph"][1]
        if ph in ("DOOMED", "LEXERR", "END"):
            return
        inside = bool(s.ext["gs"][1])
        if kind == "Err":
            s.ext["ph"] = ("T", "LEXERR", "a lexer error")
            return
        if kind == "None":
            if ph in ("KEY", "VAL") and not inside:
                self.leaf_done(s)
            if inside:
                r = "unclosed parenthesis"
            elif ph == "START":
                r = "no predicate"
            elif ph == "EQ":
                r = "a key and = without a value"
            elif ph == "FN":
                r = "a function without parentheses"
            elif not s.need(("eq", addc(s.ext["kr"][1], -1))):
                r = "more than one root predicate"
            else:
                r = ""
            s.ext["ph"] = ("T", "END", r)
            return
        ok = False
        if kind in ("Key", "All", "Any", "Not", "CloseParen"):
            ok = ph in ("START", "OPEN", "LISTC")
            if kind == "CloseParen":
                ok = inside and ph in ("OPEN", "LISTC", "KEY", "VAL", "DONE")
        elif kind == "Equals":
            ok = ph == "KEY"
        elif kind == "Value":
            ok = ph == "EQ"
        elif kind == "Comma":
            ok = ph in ("KEY", "VAL", "DONE")
        elif kind == "OpenParen":
            ok = ph == "FN"
        if not ok:
            name = {"START": "the start", "KEY": "a key", "EQ": "=", "VAL": "a value", "FN": "a function name", "OPEN": "(", "LISTC": "a comma", "DONE": ")"}[ph]
            self.doom(s, "%s after %s%s" % (kind, name, "" if inside else " outside of parentheses"))
            return
        if kind == "Key":
            s.ext["ph"] = ("T", "KEY")
            s.ext["key"] = ("s", S)
            s.ext["val"] = TNONE
        elif kind == "Value":
            s.ext["ph"] = ("T", "VAL")
            s.ext["val"] = ("s", S)
        elif kind == "Equals":
            s.ext["ph"] = ("T", "EQ")
        elif kind == "OpenParen":
            s.ext["ph"] = ("T", "OPEN")
        elif kind in WORDS:
            self.bump(s)
            fr = ("tu", (("T", kind), I(ZERO), s.ext["tot"], ("y", fresh(), 0)))
            s.ext["gs"] = ("q", s.ext["gs"][1] + (("1", fr),))
            s.ext["ph"] = ("T", "FN")
        elif kind == "Comma":
            if ph in ("KEY", "VAL"):
                self.leaf_done(s)
            s.ext["ph"] = ("T", "LISTC")
        elif kind == "CloseParen":
            if ph in ("KEY", "VAL"):
                self.leaf_done(s)
            fr = self.explicit(s)[1]
            if fr[1][0][1] == "Not" and not s.need(("eq", addc(fr[1][1][1], -1))):
                self.doom(s, "not() with %s predicates" % ("no" if s.num.entails_eq(fr[1][1][1]) else "several"))
                return
            s.ext["closing"] = fr
            s.ext["gs"] = ("q", s.ext["gs"][1][:-1])
            s.ext["ph"] = ("T", "DONE")

    # ---- predicates ----------------------------------------------------------------------------
    def hook_callback(self, cx):
        st = cx.st
        if not self.ineval:
            raise Stuck("call of an unknown function")
        v = self.eng.strip_refs(st, cx.args[1])
        st.ext["got"] = ("tu", st.ext["got"][1] + (v,))
        return ("y", fresh(), cx.args[0][2])

    def predicate_of(self, st, raw):
        """[(state, Predicate value or None)]: what eval hands to the callback for this node"""
        eng, p = self.eng, self.p
        s = st.copy()
        node = ("a", self.nodety, self.prvar, (raw,))
        fs = [None, None]
        fs[self.seqf] = ("q", (("1", node),))
        fs[self.txtf] = ("S", ("t", "t0", s.ext["lo"][1], s.ext["hi"][1]))
        o = ("H", fresh())
        s.heap[o] = ("a", self.exty, 0, tuple(fs))
        s.ext["got"] = ("tu", ())
        np = len(eng.panics)
        old, self.ineval = self.ineval, True
        try:
            outs = eng.call_body(s, self.evalb, [("r", o, ()), ("y", "#callback", self.evalb.locals[2])])
        finally:
            self.ineval = old
        self.epanics.extend(eng.panics[np:])
        del eng.panics[np:]
        res = []
        for s2, _ in outs:
            got = s2.ext.pop("got")[1]
            s2.heap.pop(o, None)
            if len(got) == 1:
                res.append((s2, got[0]))
            else:
                self.ob(s2, "C04: one callback per predicate", False, "eval calls the callback %d times for one predicate" % len(got), self.evalb.d["span"])
        self.verified += 1
        return res

    def classify(self, s, key, val):
        """what the reference says about a key and value: ("good", expected) | ("bad", rule, why) | ("unknown", why)"""
        K_ = key[1]
        V_ = val[1] if val != TNONE else None
        is_ = lambda w: s.need(("seq", K_, ("k", w)))
        for w in ("unix", "windows"):
            if is_(w):
                if V_ is not None:
                    return ("bad", "C05", "%s with a value" % w)
                return ("good", ("Target", "Family", ("text", K_)))
        for w, n in (("test", "Test"), ("debug_assertions", "DebugAssertions"), ("proc_macro", "ProcMacro")):
            if is_(w):
                if V_ is not None:
                    return ("bad", "C05", "%s with a value" % w)
                return ("good", (n,))
        if is_("feature"):
            return ("good", ("Feature", ("text", V_))) if V_ is not None else ("bad", "C05", "feature without a value")
        if is_("panic"):
            return ("good", ("Target", "Panic", ("text", V_))) if V_ is not None else ("bad", "C05", "panic without a value")
        if not s.need(("sw", K_, "target_")):
            if V_ is None:
                return ("good", ("Flag", ("text", K_)))
            return ("good", ("KeyValue", ("text", K_), ("text", V_)))
        R = (K_[0], K_[1], addc(K_[2], 7), K_[3])
        for w, n in TKEYS.items():
            if not s.need(("seq", R, ("k", w))):
                continue
            if V_ is None:
                return ("bad", "C05", "target_%s without a value" % w)
            if w == "feature":
                if s.need(("eq", s.slen(V_))):
                    return ("bad", "C06", "target_feature with an empty value")
                return ("good", ("TargetFeature", ("text", V_)))
            if w == "endian":
                for e in ("big", "little"):
                    if s.need(("seq", V_, ("k", e))):
                        return ("good", ("Target", n, ("variant", e)))
                return ("bad", "C06", "target_endian with a value other than big and little")
            if w in ("has_atomic", "pointer_width"):
                if w == "has_atomic" and s.need(("seq", V_, ("k", "ptr"))):
                    return ("good", ("Target", n, ("variant", "Pointer")))
                r = self.parsed(s, V_, "u16" if w == "has_atomic" else "u8")
                if r is None:
                    return ("unknown", "whether the value of target_%s is an integer that fits is not decided by parsing it" % w)
                if r is False:
                    return ("bad", "C06", "target_%s with a value that is no integer that fits" % w)
                return ("good", ("Target", n, ("int", r)))
            return ("good", ("Target", n, ("text", V_)))
        return ("bad", "C05", "an unknown target_ key")

    def parsed(self, s, S, ty):
        r = parse_fact(s, S, ty)
        if r is False:
            return False
        if r is not None and r[0] == "is":
            return r[1]
        if r is not None and s.str_const(S) is None:
            # it is too large for a narrower type, or no integer at all
            if not s.need(("atom", ("fits", ty, repr(S)))):
                return False
            x = fresh()
            s.num.add_ge(V(x, 1, -r[1]))
            s.num.add_ge(V(x, -1, int_max(ty)))
            s.facts[("parsed", ty, S)] = x
            return V(x)
        k = s.str_const(S)
        if k is not None:
            x = k[1:] if k[:1] == "+" else k
            if x.isascii() and x.isdigit() and int(x) < 2 ** int(ty[1:]):
                return K(int(x))
            return False
        return None

    def inner_text(self, v):
        while v[0] in ("a", "rv"):
            if v[0] == "rv":
                v = v[1]
            elif len(v[3]) == 1:
                v = v[3][0]
            else:
                return None
        return v[1] if v[0] in ("s", "S") else None

    def describe(self, s, v):
        """a Predicate value in the form of `classify`"""
        p = self.p
        v = full(self.eng, s, v)
        n = vname(p, v)
        if n == "Target":
            w = v[3][0]
            k = vname(p, w)
            x = w[3][0]
            if k == "PointerWidth":
                return ("Target", k, ("int", x[1]) if x[0] == "i" else None)
            if k == "Endian":
                return ("Target", k, ("variant", vname(p, x)))
            if k == "HasAtomic":
                return ("Target", k, ("variant", vname(p, x)) if not x[3] else ("int", x[3][0][1]))
            return ("Target", k, ("text", self.inner_text(x)))
        if n in ("Test", "DebugAssertions", "ProcMacro"):
            return (n,)
        if n in ("Feature", "TargetFeature", "Flag"):
            return (n, ("text", self.inner_text(v[3][0])))
        if n == "KeyValue":
            return (n, ("text", self.inner_text(vfield(p, v, "key"))), ("text", self.inner_text(vfield(p, v, "val"))))
        return (n,)

    def agree(self, s, want, got):
        """(rule, why) of the difference, or None"""
        if want[0] != got[0] or len(want) != len(got):
            return "C05", "a %s predicate where a %s predicate was written" % (got[0], want[0])
        if want[0] == "Target" and want[1] != got[1]:
            return "C05", "a target_%s predicate where a target_%s predicate was written" % (got[1].lower(), want[1].lower())
        for a, b in zip(want[1:], got[1:]):
            if isinstance(a, str):
                continue
            if b is None or a[0] != b[0]:
                return "C06", "the value of a %s predicate is not the written one" % want[-2 if want[0] == "Target" else 0]
            if a[0] == "text":
                A, B = a[1], b[1]
                ok = B is not None and (s.seq_decide(A, B) is True)
                if ok and A[0] == "t" and B[0] == "t" and A[1] == B[1]:
                    ok = s.same(A[2], B[2]) and s.same(A[3], B[3]) or s.str_const(A) is not None
                if not ok:
                    return "C06", "the text of a %s predicate is not the text that was written" % (want[1] if want[0] == "Target" else want[0])
            elif a[0] == "int":
                if not s.same(a[1], b[1]):
                    return "C06", "the number of a %s predicate is not the written one" % want[1]
            elif a[1] != b[1]:
                return "C06", "the value of a %s predicate is %s, not %s" % (want[1], b[1], a[1])
        return None

    def leaves(self, st):
        """check and replace every predicate that was built since the last token; yields states"""
        lf = st.ext["leaf"]
        early = False
        if lf != TNONE:
            own, key, val = lf[1]
        elif st.ext["ph"][1] == "VAL":
            early = True
            own, key, val = self.owner(st), st.ext["key"], st.ext["val"]
        else:
            yield st
            return
        raws = []
        self.walk(st, lambda v, ty: raws.append(v) if ty == self.rawty and v[0] == "a" and v not in raws else None)
        if early and not raws:
            yield st
            return
        if not early and not raws and st.ext["early"] != TNONE:
            yield st
            return
        states = [(st, {})]
        for r in raws:
            nxt = []
            for s, m in states:
                for s2, pv in self.predicate_of(s, r):
                    nxt.append((s2, dict(m, **{repr(r): pv})))
            states = nxt
        for s, m in states:
            for s2, res in splitting(self.eng, s, lambda x: self.judge_leaf(x, key, val, list(m.values()))):
                if not s2.ok():
                    continue
                if res == "drop":
                    continue
                if s2.ext["ph"][1] != "DOOMED":
                    tok = ("T", "leaf", own)
                    self.rewrite(s2, lambda v, ty: tok if ty == self.rawty and v[0] == "a" and repr(v) in m else None)
                    if early:
                        s2.ext["early"] = ("T", "yes")
                yield s2

    def judge_leaf(self, s, key, val, preds):
        c = self.classify(s, key, val)
        if c[0] == "unknown":
            s.add_taint(c[1])
            return "ok"
        if c[0] == "bad":
            s.ext["badrule"] = ("T", c[1])
            self.doom(s, c[2])
            return "ok"
        for pv in preds:
            d = self.describe(s, pv)
            r = self.agree(s, c[1], d)
            if r is None:
                self.ob(s, "C05: predicate kind", True, "")
                self.ob(s, "C06: predicate value", True, "")
            else:
                self.ob(s, "%s: predicate %s" % (r[0], "kind" if r[0] == "C05" else "value"), False, "%s (key %s)" % (r[1], self.key_text(s, key)))
        return "ok"

    def key_text(self, s, key):
        k = s.str_const(key[1])
        if k is None:
            t = s.tx["t0"]
            for a, b, w in t.eqs:
                if s.same(a, key[1][2]):
                    return w + "..."
        return k or "any other"

    def owner(self, s):
        t = self.explicit(s)
        return t[1][1][3] if t is not None else ROOT

    # ---- walking the live values -----------------------------------------------------------------
    def walk(self, st, f):
        self.rewrite(st, lambda v, ty: f(v, ty) and None, True)

    def rewrite(self, st, f, ro=False):
        """apply f(value, type) to every live value (top down); a result replaces the value"""
        seen = set()
        top = st.frames
        roots = frame_roots(st, self.eng.base)
        for key, v in roots:
            fr = None
            for x in st.frames:
                if x.depth == key[0]:
                    fr = x
            if fr is None:
                continue
            n = self.tmap(st, v, fr.body.locals[key[1]], f, seen)
            if n is not v and not ro:
                st.heap[key] = n

    def tmap(self, st, v, ty, f, seen):
        r = f(v, ty)
        if r is not None:
            return r
        p = self.p
        t = p.types[ty] if ty is not None and ty < len(p.types) else None
        k = v[0]
        if k == "a":
            vt = p.types[v[1]]["variants"][v[2]]["fields"]
            n = tuple(self.tmap(st, x, y["ty"], f, seen) for x, y in zip(v[3], vt))
            return v if all(a is b for a, b in zip(n, v[3])) else ("a", v[1], v[2], n)
        if k == "tu" and t is not None and t["k"] == "tuple":
            n = tuple(self.tmap(st, x, y, f, seen) for x, y in zip(v[1], t["elems"]))
            return v if all(a is b for a, b in zip(n, v[1])) else ("tu", n)
        if k == "cl":
            up = p.types[v[1]].get("upvars", ())
            n = tuple(self.tmap(st, x, y, f, seen) for x, y in zip(v[2], up))
            return v if all(a is b for a, b in zip(n, v[2])) else ("cl", v[1], n)
        if k == "q":
            e = self.elem_ty(ty) if ty is not None else None
            out = []
            ch = False
            for it in v[1]:
                if it[0] == "1":
                    n = self.tmap(st, it[1], e, f, seen)
                    ch |= n is not it[1]
                    out.append(("1", n))
                elif it[0] == "n":
                    n = self.tmap(st, it[2], e, f, seen)
                    ch |= n is not it[2]
                    out.append(("n", it[1], n))
                else:
                    out.append(it)
            return ("q", tuple(out)) if ch else v
        if k == "it" and v[1] == "own" and v[2][0] == "q":
            n = self.tmap(st, v[2], ty, f, seen)
            return v if n is v[2] else ("it", "own", n)
        if k == "r" and v[1][0] == "H" and not v[2] and t is not None and v[1] in st.heap and v[1] not in seen:
            seen.add(v[1])
            e = t["elem"] if t["k"] == "ref" else (t["args"][0] if t.get("args") else None)
            n = self.tmap(st, st.heap[v[1]], e, f, seen)
            if n is not st.heap[v[1]]:
                st.heap[v[1]] = n
        return v

    # ---- the structure -------------------------------------------------------------------------
    def settle(self, s):
        """normalise the node sequences, check the function that was closed, fold / unfold"""
        seqs = []
        self.walk(s, lambda v, ty: seqs.append(v) if v[0] == "q" and self.elem_ty(ty) == self.nodety else None)
        closing = s.ext["closing"]
        single = len(seqs) == 1
        closed = 0
        new = {}
        tot = ZERO
        for q in seqs:
            r = self.normal(s, q[1], closing, single)
            if r is None:
                return False
            total, cl = r
            closed += cl
            total = s.num.norm(total)
            new[id(q)] = ("q", (("n", total, TREE),))
            tot = total
        if closing != TNONE and seqs and closed != 1:
            s.add_taint("the closed function is not in the expression")
        own = self.owner(s)

        def f(v, ty):
            if v[0] != "q":
                return None
            if id(v) in new:
                return new[id(v)]
            if not v[1] and self.elem_ty(ty) == self.rawty:
                return ("q", (("n", ZERO, ("T", "leaf", own)),))
            return None

        self.rewrite(s, f)
        s.ext["tot"] = I(tot if single else ZERO)
        s.ext["leaf"] = TNONE
        s.ext["closing"] = TNONE
        if s.ext["ph"][1] not in ("VAL",):
            s.ext["early"] = TNONE
        if s.ext["ph"][1] not in ("KEY", "EQ", "VAL"):
            s.ext["key"] = s.ext["val"] = TNONE
        its = s.ext["gs"][1]
        if its and its[-1][0] == "L":
            if closing != TNONE:
                s.ext["ub"] = closing[1][2]
            return True
        s.ext["ub"] = I(ZERO)
        n = sum(1 for it in its if it[0] == "1")
        if n >= 2 and s.ext["ph"][1] != "FN":
            return self.fold(s)
        # an empty sequence of predicates belongs to the innermost function: name its owner
        return True

    def normal(self, s, items, closing, single):
        """(number of trees, closed): the node sequence as a number of complete subexpressions"""
        total = ZERO
        owners = []
        closed = 0
        for it in items:
            n, v = (ONE, it[1]) if it[0] == "1" else (it[1], it[2]) if it[0] == "n" else (None, None)
            if n is None:
                s.add_taint("the expression is kept together with the open functions")
                return None
            if v == TREE:
                total = add(total, n)
                continue
            if v[0] == "a" and v[1] == self.nodety and v[2] == self.prvar:
                x = v[3][0]
                if x[0] != "T" or x[1] != "leaf":
                    s.add_taint("a predicate that is not followed")
                    return total, closed
                owners.append(x[2])
                total = add(total, n)
                continue
            if v[0] == "a" and v[1] == self.nodety and v[2] == self.fnvar and it[0] == "1":
                if closing == TNONE or closed:
                    self.ob(s, "C03: one function per closing parenthesis", False, "a function is added to the expression where none is closed")
                    return None
                kind, k, base, own = closing[1]
                fn = full(self.eng, s, v[3][0])
                name = vname(self.p, fn)
                if not self.ob(s, "C03: function kind", name == kind[1], "%s() is represented as %s" % (kind[1].lower(), name)):
                    return None
                n = fn[3][0][1] if fn[3] else ONE
                ok = s.same(n, k[1])
                if not self.ob(s, "C03: operand count", ok, "the operand count of %s() is not the number of predicates written between its parentheses" % kind[1].lower()):
                    return None
                ok = all(o == own for o in owners)
                if not self.ob(s, "C03: operands are its own", ok, "%s() combines a predicate of another function" % kind[1].lower()):
                    return None
                ok = s.same(total, add(base[1], k[1])) if single else s.ge(total, n)
                if not self.ob(s, "C03: operands present", ok, "the operands of %s() in the expression are not the predicates written between its parentheses" % kind[1].lower()):
                    return None
                total = addc(sub(total, n), 1)
                closed = 1
                owners = []
                continue
            s.add_taint("an unknown node")
            return None
        cur = self.owner(s)
        for o in owners:
            if not self.ob(s, "C03: predicates of the innermost function", o == cur, "a predicate is attached to a function that is not the innermost one"):
                return None
        return total, closed

    # ---- folding -------------------------------------------------------------------------------
    def stacks(self, s, n, folded):
        """the sequences that run parallel to the open functions: [value]"""
        out = []

        def f(v, ty):
            if v[0] != "q":
                return None
            t = self.p.types[ty]
            if t["k"] != "adt" or t["path"] not in SEQS:
                return None
            if self.elem_ty(ty) in (self.nodety, self.rawty):
                return None
            its = v[1]
            hasl = any(it[0] == "L" for it in its)
            if hasl != folded or any(it[0] == "n" for it in its):
                return None
            m = 0
            for it in reversed(its):
                if it[0] != "1":
                    break
                m += 1
            if m == n or (not hasl and m == n + 1):
                out.append(v)
            return None

        self.walk(s, f)
        return out

    def fold(self, s):
        its = s.ext["gs"][1]
        folded = its[0][0] == "L"
        n = len(its) - (1 if folded else 0)
        par = self.stacks(s, n, folded)
        if not par:
            self.eng.stuck(s, "the open functions are not kept in a sequence")
            self.eng.dropped = True
            return False
        i0 = 1 if folded else 0
        fr, nxt = its[i0][1], its[i0 + 1][1]
        kind, k, base, own = fr[1]
        run = sub(nxt[1][2][1], base[1])
        rec = s.copy()
        rec.frames = []
        rec.heap = {a: b for a, b in s.heap.items() if not isinstance(a[0], int)}
        rec.facts = {}
        rec.taint = ()
        rec.tr = None
        rec.nsplit = 0
        rec.ext = {"g": ("tu", (kind, k, I(run), own)), "cur": s.ext["cur"]}
        new = {}
        for j, q in enumerate(par):
            qs = q[1]
            c = len(qs) - n
            rec.ext["e%d" % j] = qs[c][1]
            pre = qs[:c]
            if folded:
                l = pre[-1]
                pre = pre[:-1] + (("L", "F%d" % j, addc(l[2], 1)),)
            else:
                pre = pre + (("L", "F%d" % j, ONE),)
            new[id(q)] = ("q", pre + qs[c + 1:])
        self.store(rec)
        l = addc(its[0][2], 1) if folded else ONE
        s.ext["gs"] = ("q", (("L", "G", l),) + its[i0 + 1:])
        if not folded:
            s.ext["b0"] = base  # what the outermost function found in the expression
        self.rewrite(s, lambda v, ty: new.get(id(v)) if v[0] == "q" else None)
        return True

    def store(self, rec):
        eng = self.eng
        cn, key = canonical(eng, rec, 0)
        ent = self.alt.get(key)
        if ent is None:
            A, ca, first = rec, cn, True
        else:
            A, ca, first = ent[0], ent[1], False
        changed, lins, nr, num, names, newchars, tx, tmap, facts = join(eng, A, ca, rec, cn, first, self.hard)
        if not changed:
            return
        for k, e in self.table.items():
            its = e[0].ext["gs"][1]
            if self.asked or its and its[-1][0] == "L":
                self.mark(k, e[0], self.dirty)
        new = rebuild_state(eng, rec, cn, key, lins[nr:], num, names, newchars, tx, tmap, facts)
        c2, k2 = canonical(eng, new, 0)
        self.alt[k2] = [new, c2]
        if k2 != key:
            self.alt[key] = [new, c2]

    def unfold(self, st, it):
        ents = []
        for e in self.alt.values():
            if not any(e[0] is x for x in ents):
                ents.append(e[0])
        alts = []
        for E in ents:
            for last in (True, False):
                alts.append(lambda s, E=E, last=last: self.imported(s, E, last))
        raise Split(alts, "unfold")

    def imported(self, s, E, last):
        its = s.ext["gs"][1]
        if not its or its[0][0] != "L":
            s.dead = True
            return
        d = its[0][2]
        if last:
            s.num.add_eq(addc(d, -1))
        else:
            s.num.add_ge(addc(d, -2))
        if not s.ok():
            return
        im = Import(s, E)
        ev = {k: im.val(v) for k, v in E.ext.items()}
        im.facts()
        s.num.add_ge(sub(s.ext["cur"][1], ev["cur"][1]))
        kind, k, run, own = ev["g"][1]
        nb = its[1][1][1][2][1] if len(its) > 1 else s.ext["closing"][1][2][1] if s.ext["closing"] != TNONE else s.ext["ub"][1]
        s.ext["ub"] = I(ZERO)
        base = sub(nb, run[1])
        if last:
            s.num.add_eq(sub(base, s.ext["b0"][1]))
            s.ext["b0"] = I(ZERO)
        else:
            s.num.add_ge(base)
        if not s.ok():
            return
        fr = ("tu", (kind, k, I(base), own))
        m = {"G": fr}
        for kx, v in ev.items():
            if kx[0] == "e":
                m["F" + kx[1:]] = v

        class U(Mapper):
            def items(me, its):
                out = []
                for x in Mapper.items(me, its):
                    if x[0] == "L" and x[1] in m:
                        if not last:
                            out.append(("L", x[1], addc(x[2], -1)))
                        out.append(("1", m[x[1]]))
                    else:
                        out.append(x)
                return tuple(out)

            def val(me, v):
                if v[0] in ("q",) or v[0] in ("a", "tu", "cl", "it", "sl"):
                    return Mapper.val(me, v)
                return v

        u = U()
        for kx, v in list(s.heap.items()):
            if v[0] in ("q", "a", "tu", "cl", "it") and has_l(v):
                s.heap[kx] = u.val(v)
        s.ext["gs"] = u.val(s.ext["gs"])

    # ---- results -------------------------------------------------------------------------------
    def judge(self, st, v):
        for s, v2 in splitting(self.eng, st, lambda x: full(self.eng, x, v, 1)):
            if not s.ok():
                continue
            self.returns += 1
            if v2[0] != "a":
                self.ob(s, "C02: result", False, "the result is not followed")
                continue
            name = vname(self.p, v2)
            if name == "Ok":
                self.judge_ok(s, v2[3][0])
            else:
                self.judge_err(s, v2[3][0])

    def judge_ok(self, st, e):
        ph = st.ext["ph"]
        if e[0] != "a" or e[1] != self.exty:
            st.add_taint("the result is not followed")
        if ph[1] == "DOOMED":
            r = st.ext.get("badrule", ("T", "C02"))[1]
            if r == "C02":
                self.ob(st, "C02: rejects", False, "accepts %s" % ph[2])
            else:
                self.ob(st, "%s: rejects" % r, False, "accepts %s" % ph[2])
            return
        if ph[1] == "LEXERR":
            self.ob(st, "C02: rejects", False, "accepts a text that has a lexer error")
            return
        if ph[1] != "END":
            self.ob(st, "C02: reads all tokens", False, "accepts without reading all tokens")
            return
        if ph[2]:
            self.ob(st, "C02: rejects", False, "accepts %s" % ph[2])
            return
        self.ob(st, "C02: rejects", True, "")
        txt = e[3][self.txtf] if e[0] == "a" else None
        self.ob(st, "C19: original is the parsed text", txt is not None and self.is_text(st, txt), "the stored text is not the parsed text")
        st.heap[(0, 0)] = e
        seq = e[3][self.seqf] if e[0] == "a" else ("?",)
        lf = st.ext["leaf"]
        raws = []
        if seq[0] == "q":
            for it in seq[1]:
                v = it[1] if it[0] == "1" else it[2] if it[0] == "n" else None
                if v and v[0] == "a" and v[1] == self.nodety and v[2] == self.prvar and v[3][0][0] == "a" and v[3][0] not in raws:
                    raws.append(v[3][0])
        states = [(st, [])]
        for r in raws:
            states = [(s2, m + [pv]) for s, m in states for s2, pv in self.predicate_of(s, r)]
        for s, m in states:
            if lf == TNONE:
                if raws:
                    s.add_taint("a predicate that is not followed")
                self.judge_seq(s, seq, raws, ROOT)
                continue
            own, key, val = lf[1]
            early = s.ext["early"] != TNONE
            for s2, _ in splitting(self.eng, s, lambda x: self.judge_leaf(x, key, val, m) if not early else None):
                if not s2.ok():
                    continue
                if s2.ext["ph"][1] == "DOOMED":
                    self.ob(s2, "%s: rejects" % s2.ext["badrule"][1], False, "accepts %s" % s2.ext["ph"][2])
                    continue
                self.judge_seq(s2, seq, raws, own)

    def judge_seq(self, s, seq, raws, own):
        if seq[0] != "q":
            self.ob(s, "C03: one root", False, "the nodes are not followed")
            return
        items = []
        for it in seq[1]:
            v = it[1] if it[0] == "1" else it[2] if it[0] == "n" else None
            if v and v[0] == "a" and v[1] == self.nodety and v[2] == self.prvar and v[3][0] in raws:
                nv = ("a", v[1], v[2], (("T", "leaf", own),))
                it = ("1", nv) if it[0] == "1" else ("n", it[1], nv)
            items.append(it)
        r = self.normal(s, tuple(items), s.ext["closing"], True)
        if r is not None:
            self.ob(s, "C03: one root", s.same(r[0], ONE), "the accepted expression does not have exactly one root")

    def is_text(self, s, v):
        return v[0] == "S" and v[1][0] == "t" and v[1][1] == "t0" and s.same(v[1][2], self.lo) and s.same(v[1][3], self.hi)

    def judge_err(self, st, e):
        p = self.p
        ph = st.ext["ph"]
        if e[0] == "a":
            o = vfield(p, e, "original")
            sp = vfield(p, e, "span")
            if sp[0] == "y":
                sp = self.eng.expand(st, sp)
            self.ob(st, "C08: error text", self.is_text(st, o), "the text in an error is not the parsed text")
            a, b = add(self.lo, sp[3][0][1]), add(self.lo, sp[3][1][1])
            ok = st.ge(a, self.lo) and st.ge(b, a) and st.ge(self.hi, b)
            self.ob(st, "C08: error span in range", ok, "the span of an error is not a range of its text", self.err_where(st))
            ok = ok and st.is_bnd("t0", a) and st.is_bnd("t0", b)
            self.ob(st, "C08: error span on boundaries", ok, "the span of an error is not on character boundaries", self.err_where(st))
        else:
            st.add_taint("the error is not followed")
        if ph[1] in ("DOOMED", "LEXERR") or ph[1] == "END" and ph[2]:
            self.ob(st, "C02: accepts", True, "")
            return
        # the tokens so far can still become an accepted text
        for s, r in splitting(self.eng, st, self.excuse):
            if not s.ok():
                continue
            if r is None:
                self.ob(s, "C02: accepts", False, "rejects %s" % ("a text of the grammar" if ph[1] == "END" else "tokens that can begin a text of the grammar"))
            elif r[0] == "good":
                rule = "C06: accepts" if len(r[1]) > 2 and r[1][1] in ("Endian", "HasAtomic", "PointerWidth") or r[1][0] == "TargetFeature" else "C05: accepts"
                self.ob(s, rule, False, "rejects a valid %s predicate" % r[1][1 if r[1][0] == "Target" else 0])
            elif r[0] == "unknown":
                s.add_taint(r[1])
                self.ob(s, "C06: accepts", False, "rejects a predicate: " + r[1])
            else:
                self.ob(s, "%s: accepts" % ("C02" if r[0] == "grammar" else r[1]), True, "")

    def err_where(self, st):
        return self.parse.d["span"]

    def excuse(self, s):
        """why an error is right: ("grammar",) | ("bad", rule, why); ("good", ..) / None when it is not"""
        ph = s.ext["ph"][1]
        pend = 1 if ph in ("KEY", "EQ", "VAL") else 0
        its = s.ext["gs"][1]
        if ph != "END":
            if not its:
                if s.need(("ge", addc(s.ext["kr"][1], pend - 2))):
                    return ("grammar",)
            elif s.need(("ge", addc(s.ext["kr"][1], -2))):
                return ("grammar",)
            for i, it in enumerate(its):
                if it[0] != "1":
                    continue
                kind, k, base, own = it[1][1]
                if kind[1] == "Not" and s.need(("ge", addc(k[1], (pend if i == len(its) - 1 else 0) - 2))):
                    return ("grammar",)
        lf = s.ext["leaf"]
        if lf != TNONE:
            own, key, val = lf[1]
        elif ph == "VAL":
            key, val = s.ext["key"], s.ext["val"]
        elif ph in ("KEY", "EQ"):
            # a key that needs no further token to be rejected
            return self.key_excuse(s, s.ext["key"], ph)
        else:
            return None
        return self.classify(s, key, val)

    def key_excuse(self, s, key, ph):
        K_ = key[1]
        if s.need(("sw", K_, "target_")):
            R = (K_[0], K_[1], addc(K_[2], 7), K_[3])
            if not any(s.need(("seq", R, ("k", w))) for w in TKEYS):
                return ("bad", "C05", "an unknown target_ key")
        elif ph == "EQ":
            for w in ("unix", "windows", "test", "debug_assertions", "proc_macro"):
                if s.need(("seq", K_, ("k", w))):
                    return ("bad", "C05", "%s with a value" % w)
        return None


def has_l(v):
    if v[0] == "q":
        for it in v[1]:
            if it[0] == "L":
                return True
            if it[0] == "1" and has_l(it[1]) or it[0] == "n" and has_l(it[2]):
                return True
        return False
    if v[0] in ("a", "tu", "cl", "it", "sl"):
        return any(has_l(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in TAGS else False
                   for x in (v[3] if v[0] == "a" else v[1] if v[0] == "tu" else v[2] if v[0] == "cl" else v[1:]))
    return False
