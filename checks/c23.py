"""C23: equality, ordering and hashing of the public types agree.

Every PartialEq, Ord, PartialOrd and Hash impl of the library is interpreted on two symbolic values of its
type; what it answers is compared with the equality of all contents.  Lists (of families, atomics, expected
terms) are opaque: two lists are equal or not, and one is before the other or not."""
import itertools
import time

from sa.common import Report, dump
from sa.engine import Outcomes, UNIT
from sa.harness import *
from sa.lists import elem_type, list_values
from sa.loops import loops_end
from sa.models import M, S_of, norm_s, struct_eq
from sa.engine import Call, Limit
from sa.sorts import sign
from sa.state import Split, Stuck, c_and, c_not
from sa.values import paths

T = "cfg_expr::targets::"
COW = "alloc::borrow::Cow"
EQ, ORD, PORD, HASH = "core::cmp::PartialEq", "core::cmp::Ord", "core::cmp::PartialOrd", "core::hash::Hash"
FIELDS = ["Triple", "Abi", "Arch", "Vendor", "Os", "Family", "Env", "Panic"]
LISTS = ["Families", "HasAtomics"]
# Expression: equality is that of the texts (C19)
SKIP = {"cfg_expr::expr::Expression"}
NAMES = {EQ: {"eq"}, ORD: {"cmp"}, PORD: {"partial_cmp"}, HASH: {"hash"}}


def run():
    rep = Report("C23", "proof")
    p = dump()
    ids, n, tys = set(), 0, []
    for b in p.bodies.values():
        d = b.d
        tr = d.get("trait")
        if not b.local or tr not in NAMES:
            continue
        if d["name"] not in NAMES[tr]:
            rep.open("implementation", "%s at %s" % (b.path, d["span"]), "overrides %s::%s" % (tr, d["name"]))
        elif d["impl_self"] not in tys and p.types[d["impl_self"]].get("path") not in SKIP:
            tys.append(d["impl_self"])
    for ty in tys:
        n += Type(rep, p, ty, ids).run()
    rep.check("types", len(tys) > 0, "cfg_expr", "no implementations") if tys else rep.open("types", "cfg_expr", "no implementations found")
    # a panic is no wrong answer
    for v in [v for v in rep.viol if v[0] == "panic free"]:
        rep.viol.remove(v)
        rep.open(*v[:3])
    loops_end(rep, p, ids)
    rep.extra["analysed"] = {"types": [p.types[t]["s"] for t in tys], "paths_judged": n, "functions": sorted({p.bodies[i].path for i in ids if i in p.bodies and p.bodies[i].local})}
    return rep


class Type:
    def __init__(self, rep, p, ty, ids):
        self.rep, self.p, self.ty, self.ids = rep, p, ty, ids
        self.name = p.types[ty]["s"]
        self.path = p.types[ty].get("path", "")
        self.n = self.tried = 0
        self.lists = {t for nm in LISTS for t in p.type_by_path(T + nm)}
        self.fields = {t for nm in FIELDS for t in p.type_by_path(T + nm)}

    def find(self, trait, name):
        """the impl for comparing with (or hashing) the type itself"""
        bs = []
        for b in self.p.find_impl(trait, name, lambda t: t == self.ty):
            ta = b.d.get("trait_args")
            if b.local and (trait == HASH or not ta or len(ta) < 2 or ta[1] == self.ty) and not (trait == HASH and b.d.get("mono")):
                bs.append(b)
        seen = {}
        for b in bs:
            seen.setdefault(b.d["span"], b)
        if len(seen) > 1:
            self.rep.open(trait, self.name, "%d implementations" % len(seen))
        return next(iter(seen.values())) if seen else None

    def run(self):
        eq, cmp, pcmp, hsh = (self.find(t, n) for t, n in ((EQ, "eq"), (ORD, "cmp"), (PORD, "partial_cmp"), (HASH, "hash")))
        try:
            if eq:
                self.equal(eq)
            if cmp:
                self.order(cmp, pcmp)
            if hsh:
                self.hashed(hsh)
        except Stuck as e:
            self.rep.open("values", self.name, e.why)
        return self.n

    # ---- two values
    def engine(self):
        eng = engine(self.p, 120)
        eng.fine, eng.short = False, None
        sym_elem = eng.sym_elem

        def elem(*a):
            eng.fine = True
            return sym_elem(*a)

        eng.sym_elem = elem
        for w in ("core::slice::cmp::{impl [T]}::", "alloc::vec::partial_eq::{impl Vec}::", "alloc::borrow::{impl Cow}::", "alloc::vec::{impl Vec}::", "smallvec::{impl SmallVec}::",
                  "core::array::equality::{impl [T; N]}::", "core::array::equality::{impl [T]}::"):
            for k in ("eq", "ne", "cmp", "partial_cmp"):
                self.hook(eng, w + k, k)
        for b in self.p.bodies.values():
            d = b.d
            if b.local and d.get("impl_self") in self.lists and d["impl_self"] != self.ty and d.get("trait") in NAMES and d["name"] in NAMES[d["trait"]]:
                k = d["name"]
                eng.body_hooks[b.id] = (lambda cx, k=k: self.relate(cx, k)) if k != "hash" else self.feed_list
            if b.local and d.get("impl_self") in self.fields and d["impl_self"] != self.ty and d.get("trait") == HASH:
                eng.body_hooks[b.id] = self.feed_text
        return eng

    def hook(self, eng, path, k):
        old = eng.hooks.get(path) or eng.models.get(path)

        def go(cx):
            r = self.relate(cx, k)
            if r is NotImplemented and old is not None:
                return old(cx)
            return r

        eng.hooks[path] = go

    def key(self, eng, st, v):
        """which list a value is or holds"""
        for _ in range(8):
            while v[0] in ("r", "rv"):
                v = eng.load(st, eng.deref_val(st, v))
            if v[0] == "sl":
                q = eng.load(st, eng.deref_val(st, v[1]))
                if q[0] == "q" and len(q[1]) == 1 and q[1][0][0] == "g" and st.num.norm(v[2]) == ZERO and st.same(v[3], q[1][0][2]):
                    return q[1][0][1]
                return None
            if v[0] == "q":
                return v[1][0][1] if len(v[1]) == 1 and v[1][0][0] == "g" else None
            if v[0] == "y":
                t = eng.ty(v[2])
                return v[1] if v[2] in self.lists or t["k"] == "slice" else None
            if v[0] == "a" and len(v[3]) == 1:
                v = v[3][0]
                continue
            return None
        return None

    def relate(self, cx, k):
        a, b = (self.key(cx.eng, cx.st, x) for x in cx.args[:2])
        if a is None or b is None:
            return NotImplemented
        return relation(cx.eng, cx.st, a, b, k)

    def same(self, eng, st, x, y):
        """are all contents equal? (as a condition; may split)"""
        while x[0] in ("r", "rv"):
            x = eng.load(st, eng.deref_val(st, x))
        while y[0] in ("r", "rv"):
            y = eng.load(st, eng.deref_val(st, y))
        a, b = self.key(eng, st, x), self.key(eng, st, y)
        if a is not None and b is not None:
            return lists_same(eng, st, a, b)
        if x[0] == y[0] == "q" and all(i[0] == "1" for i in x[1] + y[1]):
            if len(x[1]) != len(y[1]):
                return False
            c = True
            for (_, v), (_, w) in zip(x[1], y[1]):
                c = c_and(c, self.same(eng, st, v, w))
            return c
        tx = eng.ty(x[1] if x[0] == "a" else x[2]) if x[0] in ("a", "y") else None
        if tx is None or tx.get("path") == COW or y[0] not in ("a", "y"):
            return struct_eq(eng, st, x, y)
        vx, vy = eng.variant_of(st, x), eng.variant_of(st, y)
        if vx != vy:
            return False
        c, ask = True, None
        for i in range(len(tx["variants"][vx]["fields"])):
            # a difference that is known already comes first: nothing else needs to be asked
            try:
                d = self.same(eng, st, eng.field(st, x, i, variant=vx), eng.field(st, y, i, variant=vy))
            except Split as e:
                ask = ask or e
                continue
            if d is not True and st.decide(d) is False:
                return False
            c = c_and(c, d)
        if ask:
            raise ask
        return c

    def pairs(self, twin):
        """[(engine, state, x, y)]: two values; twin: representations of one value"""
        if self.ty in self.lists:
            eng0 = self.engine()
            for s, x in list_values(eng0, St(), self.ty, Gen("lx")):
                for s2, y in list_values(eng0, s, self.ty, Gen("lx" if twin else "ly")):
                    yield self.put(self.engine(), s2, x, y)
        elif self.ty in self.fields:
            for a in (0, 1):
                for b in (0, 1):
                    eng = self.engine()
                    st = St()
                    S = st.newtext("x")
                    yield self.put(eng, st, self.cow(eng, st, a, S), self.cow(eng, st, b, S if twin else st.newtext("y")))
        else:
            eng = self.engine()
            st = St()
            yield self.put(eng, st, eng.sym(st, self.ty, "x"), eng.sym(st, self.ty, "x" if twin else "y"))

    def cow(self, eng, st, which, S):
        fs = self.p.types[self.ty]["variants"]
        if len(fs) != 1 or len(fs[0]["fields"]) != 1 or self.p.types[fs[0]["fields"][0]["ty"]].get("path") != COW:
            raise Stuck("representation of " + self.name)
        ct = fs[0]["fields"][0]["ty"]
        vi = [v["name"] for v in self.p.types[ct]["variants"]].index(("Borrowed", "Owned")[which])
        return ("a", self.ty, 0, (("a", ct, vi, (("s", S) if which == 0 else ("S", S),)),))

    def put(self, eng, st, x, y):
        st.heap[("H", "x")], st.heap[("H", "y")] = x, y
        return eng, st, x, y

    def judge(self, rule, eng, body, args, st, j):
        self.n += paths(self.rep, rule, eng, body, args, st, j)
        self.ids |= eng.visited

    def values(self, rule, body, judge):
        """judge the answers for one value (in every representation), and for two that differ"""
        rep = self.rep
        n = len(rep.undecided)
        for twin in (True, False):
            for eng, st, x, y in self.pairs(twin):
                self.judge(rule, eng, body, [X, Y], st, self.judge2(rule, eng, body, judge, x, y, twin))
        if len(rep.undecided) > n:
            # members are looked at: short lists of any members settle some of what is open
            until = time.time() + 40
            for m, k, twin in SHORT:
                for eng, st, x, y in self.short(m, k, twin):
                    if time.time() > until:
                        return
                    eng.short = (m, k)
                    tmp = Report("C23", "proof")
                    paths(tmp, rule, eng, body, [X, Y], st, self.judge2(rule, eng, body, judge, x, y, twin))
                    for v in tmp.viol:
                        if v not in rep.viol:
                            rep.violation(*v)

    def short(self, m, k, twin):
        """the values with lists of m and k members"""
        if self.ty in self.lists:
            el = elem_type(self.p, self.ty)
            eng0 = self.engine()
            for s, x in list_values(eng0, St(), self.ty, Short("x", el, m)):
                for s2, y in list_values(eng0, s, self.ty, Short("x" if twin else "y", el, k)):
                    yield self.put(self.engine(), s2, x, y)
            return
        for eng, st, x, y in self.pairs(twin):
            sym = eng.sym

            def listed(st, ty, sid, sym=sym):
                t = self.p.types[ty]
                if t["k"] != "slice":
                    return sym(st, ty, sid)
                return ("q", tuple(("1", sym(st, t["elem"], "%s[%d]" % (sid, i))) for i in range(m if sid[0] == "x" else k)))

            eng.sym = listed
            if x[0] == "y":
                yield eng, st, x, y

    def judge2(self, rule, eng, body, judge, x, y, twin):
        def j(s, v):
            if not twin:
                if s.need(self.same(eng, s, x, y)):
                    return None  # one value: judged elsewhere
                if impossible(s):
                    return None
            r = judge(eng, s, v, twin)
            if r[0] is not False:
                return r
            if eng.fine and not eng.short:
                return None, r[1] + ", by their elements"
            if s.lossy or any(t.ch or t.cls for t in s.tx.values()):
                # characters were read: what they have to do with the texts' equality is settled by examples
                w = self.witness(rule, eng, body, s, judge, x, y, twin)
                return (False, r[1] + w) if w else (None, r[1] + ", by their characters")
            return r

        return j

    def witness(self, rule, eng, body, s, judge, x, y, twin):
        """texts that fit the facts of s and get the wrong answer when they are known from the start"""
        ids = sorted(s.tx)
        if not 0 < len(ids) <= 4:
            return None
        self.tried += 1
        if self.tried > 12:
            return None
        for ws in itertools.product(("", "a", "b", "ab", " a"), repeat=len(ids)):
            z = St()
            z.heap.update(s.heap)
            z.var.update(s.var)
            for t, w in zip(ids, ws):
                S = z.newtext(t)
                z.assume(("seq", S, ("k", w)), True)
            if not z.ok():
                continue
            for k, v in s.facts.items():
                if k[0] != "seq":
                    z.facts[k] = v
            try:
                if z.decide(self.same(eng, z, x, y)) is not twin:
                    continue
                for s2, v in eng.call_body(z, body, [X, Y]):
                    if not s2.doubt() and judge(eng, s2, v, twin)[0] is False:
                        return " (%s)" % ", ".join(map(repr, ws))
            except (Split, Limit):
                pass
        return None

    # ---- rules
    def equal(self, b):
        def judge(eng, s, v, e):
            g = s.need(v[1])
            return g == e, "%s values compare as %s" % ("equal" if e else "different", "equal" if g else "different")

        self.values("equality", b, judge)

    def order(self, b, pb):
        def again(eng, s, body, args):
            res = []
            for s2, w in eng.call_body(s.copy(), body, args):
                if s2.taint:
                    return None
                if body is not b:
                    w = eng.expand(s2, w)
                    if self.p.types[w[1]]["variants"][w[2]]["name"] != "Some":
                        return ["None"]
                    w = w[3][0]
                res.append(sign(eng, s2, w))
            return res

        def judge(eng, s, v, e):
            a = sign(eng, s, v)
            if e != (a == 0):
                return False, "cmp gives %s for %s values" % (WORD[a], "equal" if e else "different")
            r = again(eng, s, b, [Y, X])
            if r is None:
                return None, "the order of swapped values"
            if any(q != -a for q in r):
                return False, "cmp gives %s, and %s with its arguments swapped" % (WORD[a], WORD[next(q for q in r if q != -a)])
            if pb is not None:
                r = again(eng, s, pb, [X, Y])
                if r is None:
                    return None, "the answer of partial_cmp"
                if any(q != a for q in r):
                    q = next(q for q in r if q != a)
                    return False, "cmp gives %s, partial_cmp %s" % (WORD[a], WORD.get(q, q))
            if self.ty in self.fields:
                x, y = s.heap[("H", "x")], s.heap[("H", "y")]
                A, B = (norm_s(s, S_of(eng, s, eng.field(s, z, 0))) for z in (x, y))
                w = M["core::str::traits::{impl str}::cmp"](Call(eng, s, {"path": "cmp", "name": "cmp"}, [("s", A), ("s", B)], None, None, None, None))
                if sign(eng, s, w) != a:
                    return False, "cmp gives %s where the text is %s" % (WORD[a], WORD[sign(eng, s, w)])
            return True, ""

        self.values("order", b, judge)

    # ---- hashing
    def feed_text(self, cx):
        v = cx.eng.expand(cx.st, cx.eng.strip_refs(cx.st, cx.args[0]))
        feed(cx.st, ("tu", (("T", "text"), ("s", norm_s(cx.st, S_of(cx.eng, cx.st, v[3][0]))))))
        return UNIT

    def feed_list(self, cx):
        k = self.key(cx.eng, cx.st, cx.args[0])
        if k is None:
            return NotImplemented
        feed(cx.st, ("tu", (("T", "list", k),)))
        return UNIT

    def hashed(self, b):
        for eng, st, x, y in self.pairs(True):
            st.ext["fed"] = ("q", ())
            st.heap[("H", "hasher")] = ("tu", (("T", "hasher"),))
            h = ("r", ("H", "hasher"), ())

            def text(cx):
                feed(cx.st, ("tu", (("T", "text"), ("s", norm_s(cx.st, S_of(cx.eng, cx.st, cx.args[0]))))))
                return UNIT

            def data(cx):
                v = cx.eng.strip_refs(cx.st, cx.args[0])
                if v[0] not in ("i", "b", "c"):
                    return NotImplemented
                feed(cx.st, v)
                return UNIT

            def write(cx):
                v = cx.eng.strip_refs(cx.st, cx.args[1])
                if v[0] in ("s", "S", "sb"):
                    v = ("tu", (("T", "text"), ("s", norm_s(cx.st, v[1]))))
                elif v[0] not in ("i", "b", "c"):
                    k = self.key(cx.eng, cx.st, v)
                    if k is None:
                        raise Stuck("what a hasher is given")
                    v = ("tu", (("T", "list", k),))
                feed(cx.st, ("tu", (("T", cx.rec.get("name")), v)))
                return UNIT

            def lst(cx):
                if cx.rec.get("impl_self") in self.lists or self.key(cx.eng, cx.st, cx.args[0]) is not None:
                    return self.feed_list(cx)
                return NotImplemented

            eng.hooks["core::hash::impls::{impl str}::hash"] = text
            eng.hooks["alloc::string::{impl String}::hash"] = text
            for k in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char"):
                eng.hooks["core::hash::impls::{impl %s}::hash" % k] = data
                eng.trait_hooks[("core::hash::Hasher", "write_" + k)] = write
            for k in ("write", "write_str", "write_length_prefix"):
                eng.trait_hooks[("core::hash::Hasher", k)] = write
            for k in ("core::hash::impls::{impl [T]}::hash", "alloc::vec::{impl Vec}::hash", "core::hash::Hash::hash_slice"):
                eng.hooks[k] = lst

            def j(s, _):
                a = s.ext["fed"]
                for s2, _ in eng.call_body(fresh_feed(s), b, [Y, h]):
                    if s2.taint:
                        return None, "hashing an equal value"
                    r = fed_same(self, eng, s2, a, s2.ext["fed"])
                    if r is not True:
                        return r, "equal values give the hasher different input: %s and %s" % (show(a), show(s2.ext["fed"]))
                return True, ""

            self.judge("hash", eng, b, [X, h], st, j)


X, Y = ("r", ("H", "x"), ()), ("r", ("H", "y"), ())
WORD = {-1: "Less", 0: "Equal", 1: "Greater", "None": "None"}


class Gen:
    """a list of any length and content"""

    def __init__(self, key):
        self.key = key

    def value(self, st):
        n = V(self.key + ".len")
        st.num.add_ge(n)
        st.num.add_ge(V(self.key + ".len", -1, 2 ** 62))
        return ("q", (("g", self.key, n),))


SHORT = [(n, n, True) for n in range(4)] + [(m, k, False) for m in range(4) for k in range(4)]


class Short:
    """a list of n members"""

    def __init__(self, key, elem, n):
        self.key, self.elem, self.n = key, elem, n

    def value(self, st):
        return ("q", tuple(("1", ("y", "%s%d" % (self.key, i), self.elem)) for i in range(self.n)))


def listeq(a, b):
    a, b = sorted((a, b))
    return ("atom", ("listeq", a, b))


def lists_same(eng, st, a, b):
    """are two lists equal? (as a condition; may split)"""
    if a == b:
        return True
    c = listeq(a, b)
    d = st.decide(c)
    la, lb = (V(x + ".len") for x in (a, b))
    if d is None and a[:1] == "l" and b[:1] == "l":
        if st.decide(("eq", sub(la, lb))) is False:
            return False
        raise Split([lambda s: (s.assume(c, True), s.num.add_eq(sub(la, lb))), lambda s: s.assume(c, False)], c)
    return c if d is None else d


def impossible(s):
    """lists that differ are not both empty"""
    return s.decide(listeq("lx", "ly")) is False and all(s.same(V(x + ".len"), ZERO) for x in ("lx", "ly"))


def relation(eng, st, a, b, k):
    """the answer of eq, ne, cmp or partial_cmp for two lists"""
    same = st.need(lists_same(eng, st, a, b))
    if k in ("eq", "ne"):
        return ("b", same == (k == "eq"))
    if same:
        r = eng.ordering(0)
    else:
        lo, hi = sorted((a, b))
        lt = st.need(("atom", ("listlt", lo, hi)))
        r = eng.ordering(-1 if lt == (a == lo) else 1)
    if k == "partial_cmp":
        rt = next(i for i, t in enumerate(eng.p.types) if t["k"] == "adt" and t.get("path") == "core::option::Option" and eng.ty(t["args"][0]).get("path") == "core::cmp::Ordering")
        return opt(eng.p, rt, r)
    return r


def feed(st, v):
    st.ext["fed"] = ("q", st.ext["fed"][1] + (("1", v),))


def fresh_feed(s):
    s = s.copy()
    s.ext["fed"] = ("q", ())
    return s


def fed_same(me, eng, s, a, b):
    if len(a[1]) != len(b[1]):
        return False
    for (_, v), (_, w) in zip(a[1], b[1]):
        r = same_piece(me, eng, s, v, w)
        if r is not True:
            return r
    return True


def same_piece(me, eng, s, v, w):
    if v == w:
        return True
    if v[0] == "tu" and w[0] == "tu":
        if len(v[1]) != len(w[1]):
            return False
        x, y = v[1][0], w[1][0]
        if x != y:
            if x[:2] == y[:2] == ("T", "list"):
                return s.decide(listeq(x[2], y[2]))
            return False
        return all(same_piece(me, eng, s, p, q) is True for p, q in zip(v[1][1:], w[1][1:])) or False
    if v[0] == "s" and w[0] == "s":
        return s.seq_decide(v[1], w[1])
    if v[0] == w[0] == "i":
        return True if s.same(v[1], w[1]) else False if s.decide(("eq", sub(v[1], w[1]))) is False else None
    if v[0] == w[0] == "b":
        return s.need(v[1]) == s.need(w[1])
    return None if v[0] == w[0] else False


def show(q):
    return "[" + ", ".join("%s" % (v if v[0] != "tu" else v[1][0][1]) if v[0] != "i" else "number" for _, v in q[1]) + "]"
