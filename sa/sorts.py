"""Building a list from a caller's iterator: models of collecting and sorting, for an iterator of any length
(the list is known by a tag: given, sorted, distinct, ...) and for short constant lists."""
from .engine import Call, Limit, UNIT
from .harness import *
from .models import SL, seq_place, seq_ref
from .state import Split, Stuck

ITER = "core::iter::traits::iterator::Iterator"
INTO = "core::iter::traits::collect::IntoIterator"
BTREE = "alloc::collections::btree::set::BTreeSet"
GOOD = ("sorted", "distinct")
LESS, SAME, MORE = -1, 0, 1


class Sorts:
    def __init__(self, eng, elem, cmp_body):
        self.eng = eng
        self.elem = elem
        self.cmp_body = cmp_body
        eng.trait_hooks[(INTO, "into_iter")] = self.into_iter
        eng.trait_hooks[(ITER, "collect")] = self.collect
        eng.trait_hooks[(ITER, "next")] = self.next
        eng.hooks["alloc::vec::{impl Vec}::from_iter"] = self.collect
        eng.hooks["alloc::vec::{impl Vec}::extend"] = self.extend
        for p in (SL, "alloc::slice::{impl [T]}::"):
            for n in ("sort", "sort_unstable"):
                eng.hooks[p + n] = self.sort
            for n in ("sort_by", "sort_unstable_by"):
                eng.hooks[p + n] = self.sort_by
            for n in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
                eng.hooks[p + n] = self.sort_by_key
            eng.hooks[p + "reverse"] = self.reverse
        eng.hooks["alloc::vec::{impl Vec}::dedup"] = self.dedup
        eng.hooks[SL + "binary_search"] = self.binary_search

    def given(self, st, els=None):
        """the caller's iterator: of any length, or with these elements"""
        if els is not None:
            return ("it", "own", ("q", tuple(("1", e) for e in els)))
        return ("it", "own", self.tagged(st, "given"))

    def tagged(self, st, tag):
        n = V(tag + ".len")
        st.num.add_ge(n)
        st.num.add_ge(V(tag + ".len", -1, 2 ** 62))
        if tag in ("sorted", "given"):
            st.num.add_eq(sub(n, V("members")))
            st.num.add_ge(V("members"))
        return ("q", (("g", tag, n),))

    @staticmethod
    def tag(q):
        return q[1][0][1] if q[0] == "q" and len(q[1]) == 1 and q[1][0][0] == "g" else None

    # ---- the caller's iterator
    def own(self, cx):
        v = self.eng.strip_refs(cx.st, cx.args[0])
        return v if v[0] == "it" and v[1] == "own" else None

    def into_iter(self, cx):
        v = cx.args[0]
        if v[0] == "it":
            return v
        if v[0] == "tu" and v[1][0] == ("T", "btree"):
            return ("it", "own", v[1][1])
        return NotImplemented

    def collect(self, cx):
        v = cx.args[0]
        if v[0] == "tu" and v[1][0] == ("T", "btree"):
            v = ("it", "own", v[1][1])
        if v[0] != "it" or v[1] != "own":
            m = self.eng.models.get(cx.rec.get("rpath") or cx.rec["path"])
            return m(cx) if m else NotImplemented
        t = self.eng.ty(cx.rt)
        if t.get("path") in ("alloc::vec::Vec", "alloc::boxed::Box", "smallvec::SmallVec"):
            return v[2]
        if t.get("path") == BTREE:
            cur = ("H", fresh())
            cx.st.heap[cur] = v[2]
            self.arrange(cx, ("P", cur, ()), self.cmp, dedup=True)
            return ("tu", (("T", "btree"), cx.st.heap.pop(cur)))
        return NotImplemented

    def extend(self, cx):
        cur = seq_place(cx, cx.args[0])
        q = self.eng.load(cx.st, cur)
        v = cx.args[1]
        if v[0] != "it" or v[1] != "own" or q[0] != "q":
            m = self.eng.models.get(cx.rec.get("rpath") or cx.rec["path"])
            return m(cx) if m else NotImplemented
        self.eng.store(cx.st, cur, ("q", q[1] + v[2][1]))
        return UNIT

    def next(self, cx):
        v = self.own(cx)
        if v is None:
            return NotImplemented
        if self.tag(v[2]) is not None:
            raise Limit("the caller's elements are taken one by one")
        return self.eng.models["alloc::vec::into_iter::{impl IntoIter}::next"](cx)

    # ---- sorting
    def place(self, cx):
        ref = seq_ref(cx, cx.args[0])
        if ref[0] not in ("r",):
            raise Stuck("sort of " + ref[0])
        return self.eng.deref_val(cx.st, ref)

    def cmp(self, st, x, y):
        """Ord::cmp of two elements: the sign, per state"""
        a, b = ("H", fresh()), ("H", fresh())
        st.heap[a], st.heap[b] = x, y
        out = []
        for s, v in self.eng.call_body(st, self.cmp_body, [("r", a, ()), ("r", b, ())], loops=True):
            out.extend(signs(self.eng, s, v))
        return out

    def sort(self, cx):
        return self.arrange(cx, self.place(cx), self.cmp)

    def by(self, f):
        def c(st, x, y):
            out = []
            a, b = ("H", fresh()), ("H", fresh())
            st.heap[a], st.heap[b] = x, y
            for s, v in self.eng.call_value(st, f, [("r", a, ()), ("r", b, ())]):
                out.extend(signs(self.eng, s, v))
            return out

        return c

    def sort_by(self, cx):
        return self.arrange(cx, self.place(cx), self.by(cx.args[1]))

    def sort_by_key(self, cx):
        from .lexcheck import splitting
        from .models import M

        eng, f = self.eng, cx.args[1]

        def key(st, x):
            a = ("H", fresh())
            st.heap[a] = x
            return eng.call_value(st, f, [("r", a, ())])

        def order(s, kx, ky):
            v, w = eng.strip_refs(s, kx), eng.strip_refs(s, ky)
            ty = v[1] if v[0] == "a" else v[2] if v[0] == "y" else None
            if ty is not None and ty == self.elem:
                r = self.cmp(s.copy(), v, w)
                if len(r) != 1:
                    raise Stuck("keys")
                return r[0][1]
            if v[0] == "i" and w[0] == "i":
                d = sub(v[1], w[1])
                return SAME if s.need(("eq", d)) else MORE if s.need(("ge", d)) else LESS
            r = M["core::str::traits::{impl str}::cmp"](Call(eng, s, {"path": "cmp", "name": "cmp"}, [v, w], None, None, None, None))
            if r is NotImplemented:
                raise Stuck("keys")
            return sign(eng, s, r)

        def c(st, x, y):
            return [(s3, r) for s, kx in key(st, x) for s2, ky in key(s, y) for s3, r in splitting(eng, s2, lambda z: order(z, kx, ky)) if r is not None]

        return self.arrange(cx, self.place(cx), c)

    def arrange(self, cx, cur, cmp, dedup=False):
        eng, st = self.eng, cx.st
        q = eng.load(st, cur)
        t = self.tag(q)
        if t is not None:
            if cmp is not self.cmp and cmp != self.cmp:
                how = self.like(cmp)
                if how != 1:
                    eng.store(st, cur, self.tagged(st, "reversed" if how == -1 else "by-another-order"))
                    return UNIT
            eng.store(st, cur, self.tagged(st, "distinct" if dedup or t == "distinct" else "sorted" if t in ("given", "sorted", "reversed") else t))
            return UNIT
        if q[0] != "q" or any(x[0] != "1" for x in q[1]):
            raise Stuck("sort of an unknown list")
        done = []
        for _, x in q[1]:
            i = len(done)
            skip = False
            while i > 0:
                g = self.one(cmp, st, done[i - 1], x)
                if g == SAME and dedup:
                    skip = True
                if g != MORE:
                    break
                i -= 1
            if not skip:
                done.insert(i, x)
        eng.store(st, cur, ("q", tuple(("1", x) for x in done)))
        return UNIT

    def one(self, cmp, st, x, y):
        outs = cmp(st.copy(), x, y)
        if len(outs) != 1 or outs[0][0].taint:
            raise Stuck("comparison")
        return outs[0][1]

    def like(self, cmp):
        """does another comparison order the elements as Ord does?  1: on every pair; -1: the other way round; 0: neither"""
        st = St()
        x, y = self.eng.sym(st, self.elem, "left"), self.eng.sym(st, self.elem, "right")
        seen = set()
        try:
            firsts = cmp(st, x, y)
        except Split:
            raise Stuck("comparison")
        for s, a in firsts:
            if s.taint:
                raise Stuck("comparison")
            for s2, b in self.cmp(s, x, y):
                if s2.taint:
                    raise Stuck("comparison")
                if a != SAME or b != SAME:
                    seen.add(1 if a == b else -1 if a == -b else 0)
        if len(seen) > 1:
            return 0
        return seen.pop() if seen else 1

    def binary_search(self, cx):
        eng, st = self.eng, cx.st
        ref = seq_ref(cx, cx.args[0])
        q = eng.load(st, eng.deref_val(st, ref)) if ref[0] in ("r", "rv") else ("?",)
        if q[0] != "q" or any(x[0] != "1" for x in q[1]):
            raise Stuck("binary search")
        w = eng.strip_refs(st, cx.args[1])
        i = 0
        for _, x in q[1]:
            g = self.one(self.cmp, st, x, w)
            if g == SAME:
                return ("a", cx.rt, eng.p.variant(cx.rt, "Ok"), (("i", K(i)),))
            if g == MORE:
                break
            i += 1
        return ("a", cx.rt, eng.p.variant(cx.rt, "Err"), (("i", K(i)),))

    def reverse(self, cx):
        eng, st = self.eng, cx.st
        cur = self.place(cx)
        q = eng.load(st, cur)
        t = self.tag(q)
        if t is not None:
            eng.store(st, cur, self.tagged(st, {"given": "given", "sorted": "reversed", "reversed": "sorted"}.get(t, "other")))
            return UNIT
        if q[0] != "q" or any(x[0] != "1" for x in q[1]):
            raise Stuck("reverse")
        eng.store(st, cur, ("q", q[1][::-1]))
        return UNIT

    def dedup(self, cx):
        from .values import same_val

        eng, st = self.eng, cx.st
        cur = seq_place(cx, cx.args[0])
        q = eng.load(st, cur)
        t = self.tag(q)
        if t is not None:
            eng.store(st, cur, self.tagged(st, "distinct" if t in GOOD else "deduped-unsorted"))
            return UNIT
        if q[0] != "q" or any(x[0] != "1" for x in q[1]):
            raise Stuck("dedup")
        out = []
        for x in q[1]:
            r = same_val(eng, st, out[-1][1], x[1]) if out else False
            if r is None:
                raise Stuck("dedup")
            if not r:
                out.append(x)
        eng.store(st, cur, ("q", tuple(out)))
        return UNIT


def signs(eng, st, v):
    from .lexcheck import splitting

    return [(s, r) for s, r in splitting(eng, st, lambda z: sign(eng, z, v)) if r is not None]


def sign(eng, st, v):
    if v[0] in ("a", "y"):
        vi = eng.variant_of(st, v)
        t = eng.ty(v[1] if v[0] == "a" else v[2])
        return {"Less": LESS, "Equal": SAME, "Greater": MORE}[t["variants"][vi]["name"]]
    raise Stuck("an ordering")
