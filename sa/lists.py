"""Lists of unknown length and content, looked at for one value only: each element read is that value or
one that differs from it.  The ghost `key.in` says what is known: 0 nothing yet, 1 it is in the list,
2 it is not; `key.lo` and `key.hi` bound the elements read so far."""
from .engine import Outcomes
from .harness import *
from .models import struct_eq, seq_ref, SL
from .state import Stuck

COW = "alloc::borrow::Cow"


class OneOf:
    def __init__(self, eng, key, elem, want):
        self.eng = eng
        self.key = key
        self.elem = elem
        self.want = want
        self.ghost = key + ".in"
        self.len = V(key + ".len")
        eng.gen_elems[key] = self.elems
        self.lo = key + ".lo"
        self.hi = key + ".hi"
        self.odd = key + ".odd"
        eng.hooks[SL + "contains"] = self.contains
        eng.hooks[SL + "binary_search"] = self.binary_search

    def value(self, st):
        st.num.add_ge(self.len)
        st.num.add_ge(V(self.key + ".len", -1, 2 ** 62))
        st.ext[self.ghost] = ("i", ZERO)
        st.ext[self.lo] = ("i", ZERO)  # the elements lo..hi were read
        st.ext[self.hi] = ("i", ZERO)
        st.ext[self.odd] = ("b", False)  # others were read as well
        return ("q", (("g", self.key, self.len),))

    def known(self, st):
        g = st.num.norm(st.ext[self.ghost][1])
        return g[0] if is_const(g) else None

    def decided(self, st):
        """1: in the list; 2: not in it; 0: both are possible; None: not known to this analysis"""
        k = self.known(st)
        if k == 0:
            if st.ge(st.ext[self.hi][1], self.len) and st.same(st.ext[self.lo][1], ZERO):
                return 2
            if st.ext[self.odd] != FALSE or self.ordered():
                return None
        return k

    def ordered(self):
        """were members compared by their order?  Then a sorted list may need no look at the rest"""
        for i in self.eng.visited:
            d = self.eng.p.bodies[i].d if i in self.eng.p.bodies else {}
            if d.get("impl_self") == self.elem and d.get("trait") in ("core::cmp::Ord", "core::cmp::PartialOrd"):
                return True
        return False

    def elems(self, eng, st, ix, fact):
        """alternatives for the element at ix"""
        w = eng.strip_refs(st, self.want)
        lo, hi = st.ext[self.lo][1], st.ext[self.hi][1]
        first = st.same(lo, hi)
        before, after = st.same(addc(lo, -1), ix), st.same(hi, ix)
        again = st.ge(ix, lo) and st.gt(hi, ix)

        def put(f):
            def g(s):
                f(s)
                if not s.ok():
                    return
                if first:
                    s.ext[self.lo], s.ext[self.hi] = ("i", ix), ("i", addc(ix, 1))
                elif before:
                    s.ext[self.lo] = ("i", ix)
                elif after:
                    s.ext[self.hi] = ("i", addc(ix, 1))
                elif not again:
                    s.ext[self.odd] = TRUE

            return g

        def hit(s):
            k = self.known(s)
            if k == 2:
                s.dead = True
            s.ext[self.ghost] = ("i", ONE)
            s.facts[fact] = w

        def miss(vi):
            def g(s):
                x = eng.expand(s, ("y", fresh(), self.elem), vi)
                s.assume(struct_eq(eng, s, x, w), False)
                s.facts[fact] = x

            return g

        t = eng.ty(self.elem)
        for v in range(len(t["variants"])):  # ask about the value sought first
            struct_eq(eng, st.copy(), eng.expand(st.copy(), ("y", "#probe", self.elem), v), w)
        return [put(miss(v)) for v in range(len(t["variants"]))] + [put(hit)]

    def mark(self, st, n):
        """whether the value is in the list becomes known; None when it is known to be otherwise"""
        k = self.known(st)
        if k not in (0, n):
            return None
        s = st.copy()
        s.ext[self.ghost] = ("i", K(n))
        if n == 1:
            s.num.add_ge(addc(self.len, -1))
        return s if s.ok() and s.num.check_feasible() else None

    def is_mine(self, cx):
        eng, st = self.eng, cx.st
        ref = seq_ref(cx, cx.args[0])
        if ref[0] not in ("r", "rv"):
            return False
        q = eng.load(st, eng.deref_val(st, ref))
        return q[0] == "q" and len(q[1]) == 1 and q[1][0][0] == "g" and q[1][0][1] == self.key

    def same_value(self, cx):
        from .values import same_val

        if same_val(self.eng, cx.st, self.eng.strip_refs(cx.st, cx.args[1]), self.want) is not True:
            raise Stuck("a search for another value")

    def contains(self, cx):
        if not self.is_mine(cx):
            return NotImplemented
        self.same_value(cx)
        raise Outcomes([(s, ("b", n == 1)) for n in (1, 2) for s in [self.mark(cx.st, n)] if s is not None])

    def binary_search(self, cx):
        if not self.is_mine(cx):
            return NotImplemented
        self.same_value(cx)
        outs = []
        for n, name, top in ((1, "Ok", -1), (2, "Err", 0)):
            s = self.mark(cx.st, n)
            if s is not None:
                i = V(fresh())
                s.num.add_ge(i)
                s.num.add_ge(sub(addc(self.len, top), i))
                outs.append((s, ("a", cx.rt, self.eng.p.variant(cx.rt, name), (("i", i),))))
        raise Outcomes(outs)


def elem_type(p, ty, depth=6):
    """the element type of the list a type wraps"""
    t = p.types[ty]
    if t["k"] in ("slice", "array"):
        return t["elem"]
    if t["k"] == "ref":
        return elem_type(p, t["elem"], depth)
    if t["k"] == "adt":
        if t["path"] in ("alloc::vec::Vec", "smallvec::SmallVec", "alloc::boxed::Box", COW):
            return elem_type(p, t["args"][-1], depth) if p.types[t["args"][-1]]["k"] in ("slice", "array") or t["path"] != "alloc::vec::Vec" else t["args"][0]
        if len(t["variants"]) == 1 and len(t["variants"][0]["fields"]) == 1 and depth:
            return elem_type(p, t["variants"][0]["fields"][0]["ty"], depth - 1)
    return None


def list_values(eng, st, ty, gen, depth=6):
    """[(state, value)]: every representation of the list `gen` at type ty"""
    p = eng.p
    t = p.types[ty]
    if t["k"] == "ref":
        out = []
        for s, v in list_values(eng, st, t["elem"], gen, depth):
            o = ("H", fresh())
            s.heap[o] = v
            out.append((s, ("r", o, ())))
        return out
    if t["k"] in ("slice", "array"):
        s = st.copy()
        return [(s, gen.value(s))]
    if t["k"] == "adt" and t["path"] in ("alloc::vec::Vec", "smallvec::SmallVec", "alloc::boxed::Box"):
        s = st.copy()
        return [(s, gen.value(s))]
    if t["k"] == "adt" and depth:
        out = []
        for vi, v in enumerate(t["variants"]):
            if len(v["fields"]) != 1:
                raise Stuck("representation of " + t["s"])
            for s, x in list_values(eng, st, v["fields"][0]["ty"], gen, depth - 1):
                out.append((s, ("a", ty, vi, (x,))))
        return out
    raise Stuck("representation of " + t["s"])
