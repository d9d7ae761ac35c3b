"""The lexer against its specification, for every text: Lexer::new and Iterator::next are
interpreted on a symbolic text; the states between two calls are joined until they are stable; at
every return of next the token, its text, its span and the new position are compared with the
specification.  The specification's position g is carried as a ghost value, so nothing is assumed
about the fields of Lexer."""
from . import chars as C
from .harness import *
from .state import Split
from .join import canonical, join, rebuild_state, Stuck
from .engine import Limit

LEXER = "cfg_expr::expr::lexer::Lexer"
TOKEN = "cfg_expr::expr::lexer::Token"
IDSTART = C.norm(((0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A)))
IDREST = C.union(IDSTART, C.norm(((0x30, 0x39),)))
QUOTE = ((0x22, 0x22),)
NOQUOTE = C.compl(QUOTE)
ONE_CHAR = {"Equals": "=", "OpenParen": "(", "CloseParen": ")", "Comma": ","}
WORDS = {"All": "all", "Any": "any", "Not": "not"}
STARTS = C.union(C.union(IDSTART, QUOTE), C.norm(tuple((ord(c), ord(c)) for c in ONE_CHAR.values())))


def vname(p, v):
    return p.types[v[1]]["variants"][v[2]]["name"]


def vfield(p, v, name):
    fs = p.types[v[1]]["variants"][v[2]]["fields"]
    for i, f in enumerate(fs):
        if f["name"] == name:
            return v[3][i]
    raise Stuck("no field " + name)


def full(eng, st, v, depth=12):
    """a value with its symbolic enums decided (raises Split)"""
    if v[0] == "y":
        v = eng.expand(st, v)
    if v[0] == "a" and depth:
        return ("a", v[1], v[2], tuple(full(eng, st, x, depth - 1) for x in v[3]))
    return v


class Obs:
    """one obligation about one path"""

    __slots__ = ("rule", "ok", "why", "taint", "where", "path")

    def __init__(self, rule, ok, why, taint, where, path=""):
        self.rule = rule
        self.ok = ok
        self.why = why
        self.taint = taint
        self.where = where
        self.path = path


def strip_bounds(st, T):
    """(lo, hi) of the text without an enclosing cfg( ); raises Split"""
    if st.need(("sw", T, "cfg(")) and st.need(("ew", T, ")")):
        return addc(T[2], 4), addc(T[3], -1)
    return T[2], T[3]


def splitting(eng, st, f):
    """f(st) in every refinement it asks for"""
    work = [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 400:
            raise Limit("too many cases")
        snap = s.copy()
        try:
            r = f(s)
        except Split as sp:
            work.extend(eng.do_split(snap, sp))
            continue
        yield s, r


def facts_text(st, tid="t0", limit=20):
    t = st.tx.get(tid)
    if t is None:
        return ""
    out = []
    from .num import show

    n = st.num.norm
    for q, c in t.ch:
        out.append("char at %s in %s" % (show(n(q)), C.show(st.cset(c)) if hasattr(C, "show") else st.cset(c)))
    for a, b, k in t.cls:
        out.append("chars of [%s,%s) in %s" % (show(n(a)), show(n(b)), C.show(k) if hasattr(C, "show") else (k if len(k) < 12 else "...")))
    for a, b, s in t.eqs:
        out.append("[%s,%s) == %r" % (show(n(a)), show(n(b)), s))
    for a, b, s in t.neqs:
        out.append("[%s,%s) != %r" % (show(n(a)), show(n(b)), s))
    out.append("length %s" % show(n(t.n)))
    return "\n".join(out[:limit])


class LexRun:
    def __init__(self, prog, budget=150):
        self.p = prog
        self.eng = engine(prog, budget)
        self.obs = []
        self.states = 0
        self.returns = 0
        self.missing = None
        self.new = prog.find_inherent(LEXER, "new")
        self.next = prog.find_impl("core::iter::traits::iterator::Iterator", "next", lambda t: prog.adt_path(t) == LEXER)
        if len(self.new) != 1 or len(self.next) != 1:
            self.missing = "Lexer::new or Iterator::next for Lexer not found"
            return
        self.new, self.next = self.new[0], self.next[0]
        if self.new.argc != 1:
            self.missing = "Lexer::new does not take one argument"

    def ob(self, st, rule, ok, why, where=None):
        self.obs.append(Obs(rule, bool(ok), why, st.doubt(True), where or self.next.d["span"], "" if ok else facts_text(st)))

    def run(self):
        eng = self.eng
        st = St()
        T = st.newtext("t0")
        table = {}
        work = []
        for s, v in eng.call_body(st, self.new, [("s", T)]):
            def f(s):
                return strip_bounds(s, T)

            for s2, (lo, hi) in splitting(eng, s, f):
                s3 = s2.copy()
                s3.frames = []
                s3.heap = {k: x for k, x in s3.heap.items() if not isinstance(k[0], int)}
                s3.nsplit = 0
                kind = "stripped" if lo != T[2] else "whole"
                s3.ext = {"lex": v, "g": ("i", lo), "mode": ("T", "live", kind), "lo": ("i", lo), "hi": ("i", hi)}
                work.append(s3)
        rounds = 0
        while work:
            st = work.pop()
            rounds += 1
            st = self.merge(st, table)
            if st is None:
                continue
            self.states += 1
            s = st.copy()
            s.heap[("H", "lex")] = s.ext["lex"]
            del s.ext["lex"]
            for s2, r in eng.call_body(s, self.next, [("r", ("H", "lex"), ())]):
                def f(x):
                    # (what the states had before is read from the state: joins rename)
                    return self.judge(x, full(eng, x, r), x.ext)

                for s3, (ng, nmode) in splitting(eng, s2, f):
                    self.returns += 1
                    s3 = s3.copy()
                    lex = s3.heap.pop(("H", "lex"))
                    s3.frames = []
                    s3.nsplit = 0
                    s3.ext = {"lex": lex, "g": ("i", ng), "mode": ("T", nmode, s2.ext["mode"][2]), "lo": s2.ext["lo"], "hi": s2.ext["hi"]}
                    work.append(s3)

    def merge(self, st, table):
        eng = self.eng
        cn, key = canonical(eng, st, 0)
        ent = table.get(key)
        if ent is None:
            table[key] = [st.copy(), cn, True, 1]
            return st
        A, ca, first, cnt = ent
        changed, lins, nr, num, names, newchars, tx, tmap, facts = join(eng, A, ca, st, cn, first)
        if not changed:
            return None
        if cnt > 100:
            eng.stuck_note = "no fixpoint"
            raise Limit("no fixpoint")
        new = rebuild_state(eng, st, cn, key, lins[nr:], num, names, newchars, tx, tmap, facts)
        new.lossy = True
        c2, k2 = canonical(eng, new, 0)
        table[k2] = [new.copy(), c2, False, cnt + 1]
        if k2 != key:
            table[key] = [new.copy(), c2, False, cnt + 1] if False else ent
        return new

    # ---- the specification ---------------------------------------------------------------------
    def judge(self, st, r, pre):
        """compare one result of next with the specification; the new position and mode"""
        p = self.p
        g, LO, HI = pre["g"][1], pre["lo"][1], pre["hi"][1]
        mode = pre["mode"][1]
        tid = "t0"
        if r[0] != "a":
            self.ob(st, "result", False, "the result is not followed")
            st.add_taint("result not followed")
            return g, mode
        name = vname(p, r)
        if mode == "dead":
            self.ob(st, "stops after an error", name == "None", "yields another item after an error")
            return HI, "dead"
        if mode == "end":
            self.ob(st, "end", name == "None", "yields another item after the end")
            if name == "None":
                return HI, "end"
        if name == "None":
            ok = st.in_cls(tid, g, HI, C.WS)
            self.ob(st, "end", ok, "stops although the rest of the text is not only whitespace")
            return HI, "end"
        r = r[3][0]
        if vname(p, r) == "Err":
            self.judge_error(st, r[3][0], g, LO, HI, tid)
            return HI, "dead"
        lt = r[3][0]
        tok = vfield(p, lt, "token")
        span = vfield(p, lt, "span")
        s, e = span[3][0][1], span[3][1][1]
        a, b = add(LO, s), add(LO, e)
        kind = vname(p, tok)
        ok = st.ge(a, g) and st.ge(b, a) and st.ge(HI, b)
        self.ob(st, "token span in range", ok, "the span of a %s token is not a range of the text after the previous token" % kind)
        if not ok:
            st.dead = True
            return g, "dead"
        self.ob(st, "token span on boundaries", st.is_bnd(tid, a) and st.is_bnd(tid, b), "the span of a %s token is not on character boundaries" % kind)
        self.ob(st, "whitespace skipped", st.in_cls(tid, g, a, C.WS), "characters other than whitespace are skipped before a %s token" % kind)
        self.ob(st, "progress", st.gt(b, a), "a %s token with an empty span" % kind)
        run = ("t", tid, a, b)
        if kind in ONE_CHAR:
            ok = st.seq_decide(run, ("k", ONE_CHAR[kind])) is True
            self.ob(st, "punctuation token", ok, "%s is not exactly the character %r" % (kind, ONE_CHAR[kind]))
        elif kind in WORDS:
            ok = st.seq_decide(run, ("k", WORDS[kind])) is True and self.ends(st, tid, b, HI)
            self.ob(st, "keyword token", ok, "%s is not exactly the whole word %r" % (kind, WORDS[kind]))
        elif kind == "Key":
            S = tok[3][0][1]
            ok = S[0] == "t" and S[1] == tid and st.same(S[2], a) and st.same(S[3], b)
            self.ob(st, "key text", ok, "the text of a Key token is not the text of its span")
            c = st.char_at(tid, a, b)
            ok = st.in_cls(tid, a, b, IDREST) and C.subset(st.cset(c), IDSTART)
            self.ob(st, "identifier characters", ok, "a Key token has characters outside [A-Za-z_][A-Za-z0-9_]*")
            self.ob(st, "maximal identifier", self.ends(st, tid, b, HI), "a Key token is not a maximal run of identifier characters")
            for w in WORDS.values():
                self.ob(st, "keyword not a key", st.seq_decide(run, ("k", w)) is False, "the word %r can be a Key token" % w)
        elif kind == "Value":
            S = tok[3][0][1]
            ok = st.ge(b, addc(a, 2))
            self.ob(st, "value quotes", ok, "the span of a Value token is shorter than its quotes")
            if ok:
                if S[0] == "k":
                    ok = S[1] == "" and st.same(addc(a, 2), b)
                else:
                    ok = S[0] == "t" and S[1] == tid and st.same(S[2], addc(a, 1)) and st.same(S[3], addc(b, -1))
                self.ob(st, "value text", ok, "the text of a Value token is not the text between its quotes")
                q1 = self.charset(st, tid, a) == QUOTE
                q2 = self.charset(st, tid, addc(b, -1)) == QUOTE
                self.ob(st, "value quotes", q1 and q2, "a Value token's span does not begin and end with a quote")
                self.ob(st, "value ends at the next quote", st.in_cls(tid, addc(a, 1), addc(b, -1), NOQUOTE), "a Value token contains a quote")
        else:
            self.ob(st, "token kind", False, "unknown token kind " + kind)
        return b, "live"

    def charset(self, st, tid, pos):
        c = st.char_at(tid, pos, create=False)
        if c is None:
            return None
        return st.cset(c)

    def ends(self, st, tid, b, HI):
        """no identifier character follows at b"""
        if st.same(b, HI):
            return True
        c = st.char_at(tid, b, create=False)
        if c is None:
            return False
        return not C.inter(st.cset(c), IDREST)

    def judge_error(self, st, e, g, LO, HI, tid):
        p = self.p
        span = vfield(p, e, "span")
        s, t = add(LO, span[3][0][1]), add(LO, span[3][1][1])
        o = vfield(p, e, "original")
        ok = o[0] == "S" and o[1][0] == "t" and o[1][1] == tid and st.same(o[1][2], LO) and st.same(o[1][3], HI)
        self.ob(st, "error text", ok, "the text in a lexer error is not the lexed text")
        ok = st.ge(s, LO) and st.ge(t, s) and st.ge(HI, t)
        self.ob(st, "error span in range", ok, "the span of a lexer error is not a range of the text")
        ok = ok and st.is_bnd(tid, s) and st.is_bnd(tid, t)
        self.ob(st, "error span on boundaries", ok, "the span of a lexer error is not on character boundaries")
        # justified: after whitespace, a character that starts no token or a quote without a partner
        ok = False
        t0 = st.tx[tid]
        for q, c in t0.ch:
            if not st.in_cls(tid, g, q, C.WS) or not st.ge(q, g) or not st.gt(HI, q):
                continue
            cs = st.cset(c)
            if not C.inter(cs, STARTS) and not C.inter(cs, C.WS):
                ok = True
            if cs == QUOTE and st.in_cls(tid, addc(q, 1), HI, NOQUOTE):
                ok = True
        self.ob(st, "error justified", ok, "an error although a token starts here")


_cache = {}


def lexrun(prog):
    if prog not in _cache:
        r = LexRun(prog)
        if r.missing is None:
            try:
                r.run()
            except (Limit, Stuck, KeyError, IndexError, TypeError, AssertionError) as e:
                r.missing = "analysis stopped: %r" % (e,)
        _cache[prog] = r
    return _cache[prog]


def report(rep, run, rules, panics=False):
    """put the obligations of a run whose rule is wanted into a report"""
    if run.missing:
        rep.open("lexer", LEXER, run.missing)
    for o in run.obs:
        if rules is not None and o.rule not in rules:
            continue
        if o.ok:
            rep.ok("lexer: " + o.rule, o.where)
        elif o.taint:
            rep.open("lexer: " + o.rule, o.where, "%s (after %s)" % (o.why, o.taint[0]))
        else:
            rep.violation("lexer: " + o.rule, o.where, o.why, o.path)
    if panics:
        report_panics(rep, run.eng, strict=True)
    rep.extra.setdefault("lexer", {})
    rep.extra["lexer"] = {"states_between_calls": run.states, "returns_judged": run.returns, "mir_steps": run.eng.steps,
                          "bodies_visited": sorted(str(x) for x in run.eng.visited)[:200], "unmodelled": run.eng.stucks}


def report_panics(rep, eng, strict=False):
    for x in eng.panics:
        w = "%s (in %s)" % (x.span, x.where)
        if x.doubt(strict):
            rep.open("panic free", w, "%s (after %s)" % (x.msg, x.doubt(strict)))
        else:
            rep.violation("panic free", w, x.msg, facts_text(x.st))
    for k in eng.stucks:
        rep.open("modelled", k, "no model")
