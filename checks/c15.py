"""C15: Families and HasAtomics compare and match independently of order."""
import itertools
from sa.common import Report, dump
from sa.harness import *
from sa.lists import OneOf, elem_type, list_values
from sa.loops import loops_end
from sa.models import struct_eq
from sa.sorts import Sorts, sign, GOOD
from sa.state import Stuck
from sa.targets import seq
from sa.values import paths, same_val

T = "cfg_expr::targets::"
SETS = ("Families", "HasAtomics")
WORDS = ["unix", "wasm", "windows", "aix"]
SIZES = [8, 16, 128, 256]


def run():
    rep = Report("C15", "proof")
    p = dump()
    ids, n = set(), 0
    for name in SETS:
        n += Set(rep, p, name, ids).run()
    loops_end(rep, p, ids)
    rep.extra["analysed"] = {"paths_judged": n, "functions": sorted({p.bodies[i].path for i in ids if i in p.bodies and p.bodies[i].local})}
    return rep


class Same:
    """a list of any length and content"""

    def value(self, st):
        n = V("list.len")
        st.num.add_ge(n)
        st.num.add_ge(V("list.len", -1, 2 ** 62))
        return ("q", (("g", "list", n),))


class Const:
    def __init__(self, els):
        self.els = els

    def value(self, st):
        return ("q", tuple(("1", x) for x in self.els))


class Set:
    def __init__(self, rep, p, name, ids):
        self.rep, self.p, self.name, self.ids = rep, p, name, ids
        self.n = 0

    def run(self):
        p, rep = self.p, self.rep
        path = T + self.name
        ts = p.type_by_path(path)
        if len(ts) != 1:
            rep.open("type", path, "type not found")
            return 0
        self.ty = ts[0]
        self.elem = elem_type(p, self.ty)
        if self.elem is None:
            rep.open("type", path, "not a list")
            return 0
        mine = lambda t: t == self.ty
        el = lambda t: t == self.elem
        self.cmp = self.only(p.find_impl("core::cmp::Ord", "cmp", el), "Ord of the members")
        eeq = self.only(p.find_impl("core::cmp::PartialEq", "eq", el), "equality of the members")
        eq = self.only(p.find_impl("core::cmp::PartialEq", "eq", mine), "equality")
        new = self.only(p.find_inherent(path, "new"), "new")
        con = self.only(p.find_inherent(path, "contains"), "contains")
        if self.cmp:
            self.order()
        if eeq:
            self.members_equal(eeq)
        if eq:
            self.equal(eq)
        if new and self.cmp:
            self.built(new)
        if new and self.cmp and eq:
            self.small(new, eq)
        if con:
            self.contains(con)
        found = 0
        for tr, nm in (("core::ops::deref::Deref", "deref"), ("core::convert::AsRef", "as_ref")):
            for b in p.find_impl(tr, nm, mine):
                found += 1
                self.list_of(b)
        rep.check("gives its list", found > 0, path, "") if found else rep.open("gives its list", path, "neither Deref nor AsRef found")
        return self.n

    def only(self, bs, what):
        if len(bs) != 1:
            self.rep.open(what, T + self.name, "%d implementations found" % len(bs))
            return None
        return bs[0]

    def judge(self, rule, eng, body, args, st, judge, loops=True):
        self.n += paths(self.rep, rule, eng, body, args, st, judge, loops=loops)
        self.ids |= eng.visited

    # ---- members
    def pair(self, eng, st):
        x, y = eng.sym(st, self.elem, "x"), eng.sym(st, self.elem, "y")
        st.heap[("H", "x")], st.heap[("H", "y")] = x, y
        return x, y, ("r", ("H", "x"), ()), ("r", ("H", "y"), ())

    def order(self):
        """Equal only for equal members, and the other way round for swapped ones"""
        eng = engine(self.p, 60)
        st = St()
        x, y, rx, ry = self.pair(eng, st)

        def judge(s, v):
            a = sign(eng, s, v)
            e = s.need(struct_eq(eng, s, x, y))
            if e != (a == 0):
                return False, "Ord gives %d for %s members" % (a, "equal" if e else "different")
            bs = []
            for s2, w in eng.call_body(s.copy(), self.cmp, [ry, rx]):
                if s2.taint:
                    return None, "the order of swapped members"
                bs.append(sign(eng, s2, w))
            return all(b == -a for b in bs), "Ord gives %d and, swapped, %s" % (a, bs)

        self.judge("order of members", eng, self.cmp, [rx, ry], st, judge)
        # total on constants
        us = self.universe(engine(self.p, 60))
        rank = []
        for u in us:
            rank.append([self.constcmp(u, w) for w in us])
        if any(None in r for r in rank):
            self.rep.open("order is total", T + self.name, "a comparison of constants was not followed")
            return
        for i, j, k in itertools.product(range(len(us)), repeat=3):
            if rank[i][j] < 0 and rank[j][k] < 0:
                self.rep.check("order is total", rank[i][k] < 0, self.cmp.path, "not transitive on constants %d %d %d" % (i, j, k))

    def constcmp(self, x, y):
        eng = engine(self.p, 20)
        st = St()
        st.heap[("H", "x")], st.heap[("H", "y")] = x, y
        try:
            outs = eng.call_body(st, self.cmp, [("r", ("H", "x"), ()), ("r", ("H", "y"), ())])
            return sign(eng, outs[0][0], outs[0][1]) if len(outs) == 1 and not outs[0][0].taint else None
        except (Stuck, Limit):
            return None

    def universe(self, eng):
        """some members: the builtin ones first"""
        out = []
        for c in self.consts():
            for m in seq(c["v"]) or ():
                v = eng.const(m, self.elem)
                if v not in out:
                    out.append(v)
        t = self.p.types[self.elem]
        for vi, v in enumerate(t["variants"]):
            if not v["fields"]:
                m = ("a", self.elem, vi, ())
                if m not in out:
                    out.append(m)
            elif len(v["fields"]) == 1 and self.p.types[v["fields"][0]["ty"]]["k"] == "int":
                out += [m for k in SIZES for m in [("a", self.elem, vi, (("i", K(k)),))] if m not in out]
        return out[:8]

    def consts(self):
        return [c for c in self.p.consts if c["owner"] == self.ty and c["vis"] == "Public" and c["v"] is not None]

    def members_equal(self, b):
        eng = engine(self.p, 60)
        st = St()
        x, y, rx, ry = self.pair(eng, st)

        def judge(s, v):
            g, e = s.need(v[1]), s.need(struct_eq(eng, s, x, y))
            return g == e, "%s members compare as %s" % ("equal" if e else "different", "equal" if g else "different")

        self.judge("equality of members", eng, b, [rx, ry], st, judge)

    # ---- lists
    def equal(self, b):
        """the same list is equal in every representation"""
        def go(a, c, want, rule):
            eng0 = engine(self.p, 60)
            for s, x in list_values(eng0, St(), self.ty, a):
                for s2, y in list_values(eng0, s, self.ty, c):
                    eng = engine(self.p, 60)
                    s2.heap[("H", "a")], s2.heap[("H", "b")] = x, y
                    self.judge(rule, eng, b, [("r", ("H", "a"), ()), ("r", ("H", "b"), ())], s2,
                               lambda st, v: (st.need(v[1]) == want, "gives %s for %s lists" % ("false" if want else "true", "equal" if want else "different")))

        try:
            go(Same(), Same(), True, "equality")
            us = self.universe(engine(self.p, 20))[:3]
            ls = [l for k in range(4) for l in itertools.combinations(us, k)]
            for l in ls:
                for m in ls:
                    go(Const(l), Const(m), l == m, "equality of constants")
        except Stuck as e:
            self.rep.open("equality", T + self.name, e.why)

    def content(self, eng, s, v, depth=6):
        """the list a set holds"""
        while v[0] in ("r", "rv") or v[0] in ("a", "y") and depth:
            depth -= 1
            if v[0] in ("r", "rv"):
                v = eng.load(s, eng.deref_val(s, v))
            else:
                v = eng.expand(s, v)
                if len(v[3]) != 1:
                    return None
                v = v[3][0]
        return v if v[0] == "q" else None

    def built(self, new):
        eng = engine(self.p, 60)
        so = Sorts(eng, self.elem, self.cmp)
        st = St()

        def judge(s, v):
            q = self.content(eng, s, v)
            t = so.tag(q) if q is not None else None
            if t is None:
                return None, "the list is put together in a way that is not followed"
            return t in GOOD, "the members are kept %s, not in sorted order" % {"given": "as they came", "reversed": "in reverse order", "by-another-order": "in another order than Ord's",
                                                                             "deduped-unsorted": "with some dropped depending on their order"}.get(t, t)

        self.judge("built in sorted order", eng, new, [so.given(st)], st, judge)

    def build(self, new, els):
        eng = engine(self.p, 20)
        so = Sorts(eng, self.elem, self.cmp)
        st = St()
        try:
            outs = eng.call_body(st, new, [so.given(st, els)], loops=False)
            outs = [(s, v) for s, v in outs if not s.taint]
            if len(outs) != 1 or eng.stucks:
                return None
            q = self.content(eng, *outs[0])
            return None if q is None or any(x[0] != "1" for x in q[1]) else [x[1] for x in q[1]]
        except (Stuck, Limit, KeyError, IndexError, TypeError, AssertionError):
            return None

    def small(self, new, eq):
        """short lists of constant members, in every order"""
        eng = engine(self.p, 60)
        us = self.universe(eng)
        base = [list(l) for k in range(4) for l in itertools.combinations(us[:4], k)] + [[us[0], us[0], us[1]], [us[1], us[1], us[0]]]
        named = [(c["name"], [eng.const(m, self.elem) for m in seq(c["v"])]) for c in self.consts()]
        for nm, els in [(None, b) for b in base] + named:
            if len(els) <= 4:
                perms = set(itertools.permutations(els))
            else:
                perms = {tuple(els[i:] + els[:i]) for i in range(len(els))} | {tuple(els[::-1])}
            got = []
            for q in sorted(perms, key=repr):
                g = self.build(new, q)
                if g is None:
                    self.rep.open("short lists", "%s::new" % self.name, "not followed on constant members")
                    return
                got.append((q, g))
            st = St()
            where = "%s::new at %s" % (self.name, new.d["span"])
            for q, g in got:
                same = g == got[0][1]
                self.rep.check("short lists", same, where, "members in another order give another list", "order %r gives %r\norder %r gives %r" % (got[0][0], got[0][1], q, g))
                self.rep.check("short lists hold their members", {repr(x) for x in g} == {repr(x) for x in q}, where, "the members are not those given", "%r gives %r" % (q, g))
                if nm is not None:
                    self.rep.check("builtin sets", g == els, "%s::%s" % (self.name, nm), "differs from a set built from its members", "%r is built from %r, the builtin set is %r" % (g, q, els))
            g = got[0][1]
            rs = [self.constcmp(a, b) for a, b in zip(g, g[1:])]
            self.rep.check("iteration order", all(r is not None and r <= 0 for r in rs), where, "the members are not in sorted order: %r" % (g,))

    def contains(self, b):
        eng0 = engine(self.p, 60)
        st = St()
        payload = eng0.sym(st, self.elem, "wanted")
        st.heap[("H", "wanted")] = payload
        arg = ("r", ("H", "wanted"), ()) if self.p.types[b.locals[2]]["k"] == "ref" else payload
        try:
            gen0 = OneOf(eng0, "list", self.elem, payload)
            for s, v in list_values(eng0, st, self.ty, gen0):
                eng = engine(self.p, 60)
                gen = OneOf(eng, "list", self.elem, payload)
                s.heap[("H", "set")] = v

                def judge(x, r):
                    got = x.need(r[1])
                    k = gen.decided(x)
                    if k is None:
                        return None, "reads its list in an order that is not followed"
                    if k == 0:
                        return False, "gives %s without looking at every member" % got
                    return got == (k == 1), "gives %s for %s" % (got, "a member" if k == 1 else "what is no member")

                self.judge("contains", eng, b, [("r", ("H", "set"), ()), arg], s, judge)
            us = self.universe(eng0)[:4]
            for l in [c for k in range(4) for c in itertools.combinations(us, k)]:
                for w in us:
                    eng = engine(self.p, 60)
                    for s, v in list_values(eng, St(), self.ty, Const(l)):
                        s.heap[("H", "set")], s.heap[("H", "wanted")] = v, w
                        self.judge("contains on constants", eng, b, [("r", ("H", "set"), ()), arg if arg[0] == "r" else w], s,
                                   lambda x, r: (x.need(r[1]) == (w in l), "gives %s for %s" % (w not in l, "a member" if w in l else "what is no member")))
        except Stuck as e:
            self.rep.open("contains", b.path, e.why)

    def list_of(self, b):
        try:
            for s, v in list_values(engine(self.p, 20), St(), self.ty, Same()):
                eng = engine(self.p, 60)
                s.heap[("H", "set")] = v

                def judge(x, r):
                    if r[0] == "sl":
                        q = eng.load(x, eng.deref_val(x, r[1]))
                        if q[0] != "q" or len(q[1]) != 1 or q[1][0][:2] != ("g", "list"):
                            return None, "what is returned is not followed"
                        return x.need(("eq", r[2])) and x.need(("eq", sub(r[3], q[1][0][2]))), "returns a part of the list only"
                    q = eng.load(x, eng.deref_val(x, r)) if r[0] in ("r", "rv") else None
                    if q is None or q[0] != "q":
                        return None, "what is returned is not followed"
                    return len(q[1]) == 1 and q[1][0][:2] == ("g", "list"), "returns another list than the set holds"

                self.judge("gives its list", eng, b, [("r", ("H", "set"), ())], s, judge)
        except Stuck as e:
            self.rep.open("gives its list", b.path, e.why)
