"""Models of the std / smallvec functions the analysed code is built on."""
import ast
from . import chars as C
from .num import V, K, ZERO, ONE, add, sub, neg, addc, is_const, scale
from .state import Split, Stuck, fresh, c_not, c_and, c_or, ISIZE_MAX
from .engine import UNIT, TRUE, FALSE, Forks, Outcomes, Dead, Call, INTS, lead, lead_inv

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f

    return d


# ---- helpers -------------------------------------------------------------------------------

def variant(eng, ty, name):
    t = eng.ty(ty)
    if t["k"] != "adt":
        raise Stuck("variant %s of %s" % (name, t["s"]))
    for i, v in enumerate(t["variants"]):
        if v["name"] == name:
            return i
    raise Stuck("variant %s of %s" % (name, t["s"]))


def some(cx, v, rt=None):
    rt = cx.rt if rt is None else rt
    return ("a", rt, variant(cx.eng, rt, "Some"), (v,))


def none(cx, rt=None):
    rt = cx.rt if rt is None else rt
    return ("a", rt, variant(cx.eng, rt, "None"), ())


def okv(cx, v, rt=None):
    rt = cx.rt if rt is None else rt
    return ("a", rt, variant(cx.eng, rt, "Ok"), (v,))


def errv(cx, v, rt=None):
    rt = cx.rt if rt is None else rt
    return ("a", rt, variant(cx.eng, rt, "Err"), (v,))


def field_ty(eng, ty, var, i):
    return eng.ty(ty)["variants"][var]["fields"][i]["ty"]


def S_of(eng, st, v):
    while True:
        k = v[0]
        if k in ("s", "S", "sb"):
            return v[1]
        if k in ("r", "rv"):
            v = eng.load(st, eng.deref_val(st, v))
            continue
        if k == "a":
            t = eng.ty(v[1])
            if t["path"] == "alloc::borrow::Cow":
                v = v[3][0]
                continue
        if k == "y":
            t = eng.ty(v[2])
            if t["k"] == "adt" and t["path"] == "alloc::borrow::Cow":
                return cow_text(eng, st, v)
        raise Stuck("a string is needed, got a %s value" % k)


def cow_text(eng, st, v):
    sid = v[1] + ".str"
    if sid not in st.tx:
        st.newtext(sid)
    return ("t", sid, ZERO, st.tx[sid].n)


def sub_str(S, lo, hi):
    if S[0] == "k":
        return ("k", S[1].encode()[lo[0]:hi[0]].decode())
    return ("t", S[1], add(S[2], lo), add(S[2], hi))


def norm_s(st, S):
    if S[0] == "k":
        return S
    return ("t", S[1], st.num.norm(S[2]), st.num.norm(S[3]))


def known_str(st, S):
    """the constant a text is known to be, if any"""
    if S[0] == "t":
        k = st.str_const(S)
        if k is not None:
            return ("k", k)
    return S


def intv(st, v):
    if v[0] == "i":
        return v[1]
    if v[0] in ("c", "ci") and isinstance(v[1], int):
        return K(v[1])
    raise Stuck("an integer is needed, got " + v[0])


def b(c):
    return ("b", c)


# ---- char classes of patterns ----------------------------------------------------------------

def pred_set(cx, f, by_ref=False):
    """the characters for which a predicate is true"""
    T = ()
    for cs, end, q in pred_step(cx.eng, cx.st, f, None, by_ref):
        if q is not None:
            raise Stuck("predicate with a memory of its own")
        if end:
            T = C.union(T, cs)
    return T


def reach(st, v, seen):
    """the heap cells a value refers to"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "r" and isinstance(v[2], tuple):
            if v[1] not in seen and v[1] in st.heap:
                seen.add(v[1])
                reach(st, st.heap[v[1]], seen)
            return
        for x in v:
            reach(st, x, seen)


def leaves(a, b_, out):
    """the parts of b_ that differ from a"""
    if a == b_:
        return
    if isinstance(a, tuple) and isinstance(b_, tuple) and len(a) == len(b_) and a[:1] == b_[:1] and a[0] not in ("b", "i", "c", "ci"):
        for x, y in zip(a, b_):
            leaves(x, y, out)
    else:
        out.append(b_)


def is_plain(v):
    if isinstance(v, tuple):
        if v[:1] == ("i",):
            return is_const(v[1])
        if v[:1] == ("b",):
            return v[1] in (True, False)
        return all(is_plain(x) for x in v)
    return not isinstance(v, str) or not v.startswith("#")


def put_bools(v, m):
    if isinstance(v, tuple):
        if v[:1] == ("b",) and v[1] in m:
            return ("b", m[v[1]])
        return tuple(put_bools(x, m) for x in v)
    return v


def pred_step(eng, st0, f, mem, by_ref=False):
    """one call of a character predicate: [(characters, result, the memory it leaves or None)]; mem: the memory it is
    called with, as a tuple of (cell, value)"""
    st = st0.copy()
    o = f[1] if f[0] == "r" and not f[2] else None
    if o is None:
        o = ("H", "pred")
        st.heap[o] = f
    seen = {o}
    reach(st, st.heap[o], seen)
    for k, v in mem or ():
        st.heap[k] = v
    before = {k: st.heap[k] for k in seen}
    c = fresh()
    st.chars[c] = C.FULL
    st.num.add_ge(V(c + ".w", 1, -1))
    st.num.add_ge(V(c + ".w", -1, 4))
    arg = ("c", c)
    if by_ref:
        a = ("H", fresh())
        st.heap[a] = arg
        arg = ("r", a, ())
    res = []
    for s, v in eng.call_value(st, ("r", o, ()) if f[0] == "cl" else f, [arg], rt=eng.find_ty("bool")):
        if v[0] != "b":
            raise Stuck("predicate result")
        out = []
        changed = [k for k in before if s.heap.get(k) != before[k]]
        for k in changed:
            leaves(before[k], s.heap.get(k), out)
        conds = [v[1]] + [x[1] for x in out if isinstance(x, tuple) and x[:1] == ("b",)]
        parts = [(s.cset(c), {})]
        for cd in conds:
            nx = []
            for cs, m in parts:
                if cd in m:
                    nx.append((cs, m))
                    continue
                d = s.decide(cd)
                t, fa = (cs, ()) if d is True else ((), cs) if d is False else cond_set(s, cd, c, cs)
                if C.inter(t, fa):
                    raise Stuck("predicate depends on more than the character")
                if t:
                    nx.append((t, {**m, cd: True}))
                if fa:
                    nx.append((fa, {**m, cd: False}))
            parts = nx
        for cs, m in parts:
            q = None
            if changed:
                q = []
                for k in changed:
                    x = put_bools(s.heap[k], m)
                    d = []
                    leaves(before[k], x, d)
                    if not all(is_plain(y) for y in d):
                        raise Stuck("predicate with an unknown memory")
                    q.append((k, x))
            res.append((cs, m[v[1]], tuple(q) if q is not None else None))
    got = ()
    for cs, e, q in res:
        if C.inter(got, cs):
            raise Stuck("predicate depends on more than the character")
        got = C.union(got, cs)
    if C.diff(C.FULL, got):
        raise Stuck("predicate not total")
    return res


class Auto:
    """a character predicate with a memory: a finite automaton"""

    def __init__(self, cx, f):
        self.cells = {}
        self.st = cx.st
        self.delta = {}
        todo = [()]
        while todo:
            q = todo.pop()
            if q in self.delta:
                continue
            if len(self.delta) > 24:
                raise Stuck("predicate with too large a memory")
            l = []
            for cs, e, ch in pred_step(cx.eng, cx.st, f, q):
                nq = dict(q)
                for k, v in ch or ():
                    if k == ("H", "pred"):
                        nq[k] = v
                    elif cx.st.heap.get(k) == v:
                        nq.pop(k, None)
                    else:
                        nq[k] = v
                n = tuple(sorted(nq.items(), key=repr))
                l.append((cs, e, n))
                if not e:
                    todo.append(n)
            self.delta[q] = l
        self.scc = {}
        reachable = {}
        for q in self.delta:
            s, w = set(), [q]
            while w:
                x = w.pop()
                for cs, e, n in self.delta[x]:
                    if not e and n not in s:
                        s.add(n)
                        w.append(n)
            reachable[q] = s
        for q in self.delta:
            self.scc[q] = frozenset(n for n in reachable[q] if q in reachable[n])

    def stateless(self):
        return len(self.delta) == 1

    def ends(self, qs):
        r = ()
        for q in qs:
            for cs, e, n in self.delta[q]:
                if e:
                    r = C.union(r, cs)
        return r

    def stay(self, qs):
        r = ()
        for q in qs:
            for cs, e, n in self.delta[q]:
                if not e and n in qs:
                    r = C.union(r, cs)
        return r


def auto_search(S, A, found, missing):
    """forks of a search with a predicate that remembers: one round (a cycle of the automaton) at a time"""
    def put(s, q):
        for k, v in q:
            if k != ("H", "pred"):
                s.heap[k] = v

    def go(s, q, lo, out, depth):
        if depth > 12:
            raise Stuck("predicate with too large a memory")
        comp = A.scc[q]
        rest = (S[0], S[1], lo, S[3])
        if comp:
            # stays in the cycle until the end, or until a character that leaves it
            N = A.stay(comp)
            m = s.copy()
            narrow(m, rest, N)
            if m.ok():
                for q2 in sorted(comp, key=repr):
                    m2 = m.copy()
                    put(m2, q2)
                    out.append((m2, missing(m2)))
            for q2 in sorted(comp, key=repr):
                for cs, e, n in A.delta[q2]:
                    if e or n not in comp:
                        m = s.copy()
                        p = first_in(m, rest, cs, N)
                        if p is None or not m.ok():
                            continue
                        leave(m, p, cs, e, n, out, depth)
        else:
            m = s.copy()
            m.num.add_eq(sub(S[3], lo))
            if m.ok():
                put(m, q)
                out.append((m, missing(m)))
            for cs, e, n in A.delta[q]:
                m = s.copy()
                m.num.add_ge(addc(sub(S[3], lo), -1))
                if not m.ok():
                    continue
                c = m.char_at(S[1], lo, S[3])
                m.refine_char(c, cs)
                if m.ok():
                    leave(m, lo, cs, e, n, out, depth)

    def leave(m, p, cs, e, n, out, depth):
        if e:
            put(m, n)
            out.append((m, found(m, sub(p, S[2]))))
        else:
            c = m.char_at(S[1], p, S[3])
            go(m, n, m.num.norm(add(p, m.cwidth(c))), out, depth + 1)

    def narrow(m, R, N):
        m.add_cls(R[1], R[2], R[3], N)
        for q, c in m.tx[R[1]].ch:
            if m.ge(q, R[2]) and m.gt(R[3], q):
                m.refine_char(c, N)

    return go


def cond_set(st, c, ch, cs):
    if c is True:
        return cs, ()
    if c is False:
        return (), cs
    if c[0] == "in" and c[1] == ch:
        t = C.inter(cs, c[2])
        return t, C.diff(cs, t)
    if c[0] == "not":
        t, f = cond_set(st, c[1], ch, cs)
        return f, t
    if c[0] in ("and", "or"):
        parts = [cond_set(st, x, ch, cs) for x in c[1:]]
        t = parts[0][0]
        for p in parts[1:]:
            t = C.inter(t, p[0]) if c[0] == "and" else C.union(t, p[0])
        return t, C.diff(cs, t)
    raise Stuck("predicate condition " + c[0])


def pattern(cx, v, auto=False):
    """('set', charset) or ('str', S)"""
    eng, st = cx.eng, cx.st
    while v[0] in ("r", "rv"):
        x = eng.load(st, eng.deref_val(st, v))
        if x[0] in ("cl", "f"):
            break
        v = x
    if v[0] == "c":
        cs = st.cset(v[1])
        if C.single(cs) is None:
            raise Stuck("search for an unknown character")
        return ("set", cs)
    if v[0] in ("s", "S"):
        k = st.str_const(v[1])
        if k is None:
            raise Stuck("search for an unknown string")
        if len(k) == 1:
            return ("set", ((ord(k), ord(k)),))
        return ("str", k)
    if v[0] == "q":
        cs = ()
        for it in v[1]:
            if it[0] != "1" or it[1][0] != "c" or not isinstance(it[1][1], int):
                raise Stuck("character set pattern")
            cs = C.union(cs, ((it[1][1], it[1][1]),))
        return ("set", cs)
    if v[0] in ("cl", "f", "r", "rv"):
        if auto:
            A = Auto(cx, v)
            if not A.stateless():
                return ("auto", A)
        return ("set", pred_set(cx, v))
    raise Stuck("pattern " + v[0])


# ---- text search -------------------------------------------------------------------------------

def first_in(st, S, cs, N=None):
    """(st) has S's first character of cs at a position; returns the position (refines st);
    N: the characters that may stand before it, if not simply the others"""
    if N is None:
        N = C.compl(cs)
    tid, lo, hi = S[1], S[2], S[3]
    p = V(fresh())
    st.num.add_ge(sub(p, lo))
    st.num.add_ge(addc(sub(hi, p), -1))
    t = st.tx[tid]
    for a, b_, k in t.cls:
        if not C.inter(k, cs) and st.ge(lo, a):
            st.num.add_ge(sub(p, b_))
    for a, b_, s in t.eqs:
        d = st.num.norm(sub(lo, a))
        e = s.encode()
        if is_const(d) and 0 <= d[0] < len(e) and st.ge(hi, b_):
            off = d[0]
            first = stop = None
            for x in e[off:].decode(errors="ignore"):
                if first is None and C.has(cs, ord(x)):
                    first = off
                if not C.has(N, ord(x)):
                    stop = off
                    break
                off += C.u8len(ord(x))
            st.num.add_ge(sub(p, b_ if first is None else addc(a, first)))
            if stop is not None:
                st.num.add_ge(sub(addc(a, stop), p))
    for q, c in t.ch:
        if st.ge(q, lo) and st.gt(hi, q):
            k = st.cset(c)
            if not C.inter(k, N):
                st.num.add_ge(sub(q, p))
            elif not C.inter(k, cs) and st.same(q, lo):
                st.num.add_ge(sub(p, add(q, st.cwidth(c))))
    if not st.ok():
        return None
    p = st.num.norm(p)
    st.add_cls(tid, lo, p, N)
    c = st.char_at(tid, p, hi)
    st.refine_char(c, cs)
    return p


def last_in(st, S, cs):
    """(st) has S's last character of cs at a position; returns the position (refines st)"""
    tid, lo, hi = S[1], S[2], S[3]
    N = C.compl(cs)
    p = V(fresh())
    st.num.add_ge(sub(p, lo))
    st.num.add_ge(addc(sub(hi, p), -1))
    t = st.tx[tid]
    for a, b_, k in t.cls:
        if not C.inter(k, cs) and st.ge(b_, hi):
            st.num.add_ge(addc(sub(a, p), -1))
    for a, b_, s in t.eqs:
        if not (st.ge(a, lo) and st.ge(hi, b_)):
            continue
        off = 0
        at = None
        for x in s:
            if C.has(cs, ord(x)):
                at = off
            off += C.u8len(ord(x))
        if at is not None:
            st.num.add_ge(sub(p, addc(a, at)))
        elif st.same(b_, hi):
            st.num.add_ge(addc(sub(a, p), -1))
    for q, c in t.ch:
        if st.ge(q, lo) and st.gt(hi, q):
            k = st.cset(c)
            if not C.inter(k, N):
                st.num.add_ge(sub(p, q))
            elif not C.inter(k, cs) and st.same(add(q, st.cwidth(c)), hi):
                st.num.add_ge(addc(sub(q, p), -1))
    if not st.ok():
        return None
    p = st.num.norm(p)
    c = st.char_at(tid, p, hi)
    st.refine_char(c, cs)
    if not st.ok():
        return None
    e = add(p, st.cwidth(c))
    st.add_cls(tid, e, hi, N)
    return p


def search(cx, S, pat, found, missing, last=False):
    """forks of a search: found(st, position) / missing(st)"""
    st = cx.st
    if pat[0] == "auto":
        if S[0] == "k":
            raise Stuck("predicate with a memory on a constant text")
        out = []
        auto_search(S, pat[1], found, missing)(st.copy(), (), S[2], out, 0)
        raise Outcomes([x for x in out if x[0].ok()])
    if pat[0] == "set":
        cs = pat[1]
        if S[0] == "k":
            best = None
            off = 0
            for x in S[1]:
                if C.has(cs, ord(x)):
                    best = off
                    if not last:
                        break
                off += C.u8len(ord(x))
            return found(st, K(best)) if best is not None else missing(st)

        def f(s):
            p = (last_in if last else first_in)(s, S, cs)
            if p is None or not s.ok():
                s.dead = True
                return UNIT
            return found(s, sub(p, S[2]))

        def g(s):
            s.add_cls(S[1], S[2], S[3], C.compl(cs))
            for q, c in s.tx[S[1]].ch:
                if s.ge(q, S[2]) and s.gt(S[3], q):
                    s.refine_char(c, C.compl(cs))
            return missing(s)

        raise Forks([(None, g), (None, f)])
    k = pat[1]
    if S[0] == "k":
        i = S[1].encode().rfind(k.encode()) if last else S[1].encode().find(k.encode())
        return found(st, K(i)) if i >= 0 else missing(st)
    L = len(k.encode())

    def f2(s):
        p = V(fresh())
        s.num.add_ge(sub(p, S[2]))
        s.num.add_ge(addc(sub(S[3], p), -L))
        s.add_eqs(S[1], p, addc(p, L), k)
        return found(s, sub(p, S[2]))

    def g2(s):
        if s.sw_decide(S, k, True) is True:
            s.dead = True
        return missing(s)

    raise Forks([(None, g2), (None, f2)])


P = "core::str::{impl str}::"


@model(P + "find", P + "rfind")
def _(cx):
    S = S_of(cx.eng, cx.st, cx.args[0])
    last = cx.rec["path"].endswith("rfind")
    pat = pattern(cx, cx.args[1], auto=not last)
    return search(cx, S, pat, lambda s, p: some(cx, ("i", p)), lambda s: none(cx), last)


@model(P + "contains")
def _(cx):
    S = S_of(cx.eng, cx.st, cx.args[0])
    pat = pattern(cx, cx.args[1], auto=True)
    return search(cx, S, pat, lambda s, p: TRUE, lambda s: FALSE)


@model("core::slice::memchr::memchr", "core::slice::memchr::memrchr")
def _(cx):
    S = S_of(cx.eng, cx.st, cx.args[1])
    x = intv(cx.st, cx.args[0])
    if not is_const(x) or x[0] > 127:
        raise Stuck("memchr of a non ASCII byte")
    return search(cx, S, ("set", ((x[0], x[0]),)), lambda s, p: some(cx, ("i", p)), lambda s: none(cx), cx.rec["path"].endswith("memrchr"))


def trims(cx, S, cs, start, end):
    """trim characters of cs"""
    keep = C.compl(cs)
    if S[0] == "k":
        t = S[1]
        if start:
            while t and C.has(cs, ord(t[0])):
                t = t[1:]
        if end:
            while t and C.has(cs, ord(t[-1])):
                t = t[:-1]
        return ("s", ("k", t))

    # already trimmed in the same way on this path?
    st = cx.st
    tid = S[1]
    if st.in_cls(tid, S[2], S[3], cs):
        e = S[3] if start and not end else S[2]
        return ("s", norm_s(st, ("t", tid, e, e)))
    inside = [(q, c) for q, c in st.tx[tid].ch if not C.inter(st.cset(c), cs) and st.ge(q, S[2]) and st.gt(S[3], q)]
    lo, hi = None if start else S[2], None if end else S[3]
    for q, c in inside:
        if lo is None and st.in_cls(tid, S[2], q, cs):
            lo = q
        if hi is None:
            e = add(q, st.cwidth(c))
            if st.in_cls(tid, e, S[3], cs):
                hi = e
    if lo is not None and hi is not None and inside:
        return ("s", norm_s(st, ("t", tid, lo, hi)))

    def none_(s):
        s.add_cls(S[1], S[2], S[3], cs)
        for q, c in s.tx[S[1]].ch:
            if s.ge(q, S[2]) and s.gt(S[3], q):
                s.refine_char(c, cs)
        e = S[3] if start and not end else S[2]
        return ("s", norm_s(s, ("t", S[1], e, e)))

    def some_(s):
        lo, hi = S[2], S[3]
        if start:
            lo = first_in(s, S, keep)
            if lo is None or not s.ok():
                s.dead = True
                return UNIT
        if end:
            p = last_in(s, ("t", S[1], lo, S[3]), keep)
            if p is None or not s.ok():
                s.dead = True
                return UNIT
            hi = add(p, s.cwidth(s.char_at(S[1], p, S[3])))
            s.add_bnd(S[1], hi)
        return ("s", norm_s(s, ("t", S[1], lo, hi)))

    raise Forks([(None, none_), (None, some_)])


@model(P + "trim", P + "trim_start", P + "trim_end", P + "trim_left", P + "trim_right")
def _(cx):
    S = S_of(cx.eng, cx.st, cx.args[0])
    n = cx.rec["path"].rsplit("::", 1)[1]
    return trims(cx, S, C.WS, n in ("trim", "trim_start", "trim_left"), n in ("trim", "trim_end", "trim_right"))


@model(P + "trim_matches", P + "trim_start_matches", P + "trim_end_matches")
def _(cx):
    S = S_of(cx.eng, cx.st, cx.args[0])
    pat = pattern(cx, cx.args[1])
    if pat[0] != "set":
        raise Stuck("trim of a string pattern")
    n = cx.rec["path"].rsplit("::", 1)[1]
    return trims(cx, S, pat[1], n != "trim_end_matches", n != "trim_start_matches")


@model("core::str::{impl str}::len", "alloc::string::{impl String}::len", "core::str::{impl str}::as_bytes::len")
def _(cx):
    return ("i", cx.st.slen(S_of(cx.eng, cx.st, cx.args[0])))


@model("core::str::{impl str}::is_empty", "alloc::string::{impl String}::is_empty")
def _(cx):
    l = cx.st.num.norm(cx.st.slen(S_of(cx.eng, cx.st, cx.args[0])))
    return b(l[0] == 0 if is_const(l) else ("eq", l))


@model(P + "starts_with", P + "ends_with")
def _(cx):
    st = cx.st
    S = known_str(st, norm_s(st, S_of(cx.eng, st, cx.args[0])))
    front = cx.rec["path"].endswith("starts_with")
    pv = cx.eng.strip_refs(st, cx.args[1])
    if pv[0] in ("s", "S") and S[0] == "k" and len(S[1]) < 80 and st.str_const(pv[1]) is None:
        # an unknown pattern: it is one of the affixes of the constant, or none of them
        Q = norm_s(st, S_of(cx.eng, st, pv))
        for i in range(len(S[1]) + 1):
            if st.need(("seq", Q, ("k", S[1][:i] if front else S[1][i:]))):
                return TRUE
        return FALSE
    if pv[0] in ("s", "S") and S[0] == "t" and st.str_const(pv[1]) is None:
        # two unknown texts: it is longer, equally long, or a proper affix or not
        Q = norm_s(st, S_of(cx.eng, st, pv))
        if not st.need(("ge", sub(st.slen(S), st.slen(Q)))):
            return FALSE
        if st.need(("eq", sub(st.slen(S), st.slen(Q)))):
            return b(("seq", S, Q))
        return b(("atom", ("affix", front, repr(S), repr(Q))))
    pat = pattern(cx, cx.args[1])
    if pat[0] == "set":
        one = C.single(pat[1])
        if one is not None:
            pat = ("str", chr(one))
    if pat[0] == "str":
        if S[0] == "k":
            return b(S[1].startswith(pat[1]) if front else S[1].endswith(pat[1]))
        d = st.sw_decide(S, pat[1], front)
        return b(d if d is not None else ("sw" if front else "ew", S, pat[1]))
    if S[0] == "k":
        return b(bool(S[1]) and C.has(pat[1], ord(S[1][0 if front else -1])))
    if not st.need(("ge", addc(st.slen(S), -1))):
        return FALSE
    if front:
        c = st.char_at(S[1], S[2], S[3])
        return b(C.has(pat[1], c) if isinstance(c, int) else ("in", c, pat[1]))
    raise Stuck("ends_with a set")


@model(P + "strip_prefix", P + "strip_suffix")
def _(cx):
    st = cx.st
    S = norm_s(st, S_of(cx.eng, st, cx.args[0]))
    pat = pattern(cx, cx.args[1])
    front = cx.rec["path"].endswith("strip_prefix")
    k = pat[1] if pat[0] == "str" else None
    if pat[0] == "set":
        one = C.single(pat[1])
        if one is None:
            raise Stuck("strip of a set")
        k = chr(one)
    L = len(k.encode())
    if S[0] == "k":
        ok = S[1].startswith(k) if front else S[1].endswith(k)
        if not ok:
            return none(cx)
        t = S[1][len(k):] if front else S[1][: len(S[1]) - len(k)]
        return some(cx, ("s", ("k", t)))
    if st.need(("sw" if front else "ew", S, k)):
        if front:
            return some(cx, ("s", norm_s(st, ("t", S[1], addc(S[2], L), S[3]))))
        return some(cx, ("s", norm_s(st, ("t", S[1], S[2], addc(S[3], -L)))))
    return none(cx)


@model("core::str::{impl str}::as_str", "alloc::string::{impl String}::as_str", "alloc::string::{impl String}::deref", "alloc::string::{impl String}::borrow", "alloc::str::{impl String}::borrow", "alloc::string::{impl String}::as_ref", "core::str::traits::{impl str}::as_ref", "alloc::string::{impl String}::into_boxed_str", "core::convert::{impl str}::as_ref", "alloc::string::{impl String}::as_mut_str", "core::str::{impl str}::borrow")
def _(cx):
    S = S_of(cx.eng, cx.st, cx.args[0])
    return ("S" if cx.rec["path"].endswith("into_boxed_str") else "s", S)


@model("core::str::{impl str}::as_bytes", "alloc::string::{impl String}::as_bytes")
def _(cx):
    return ("sb", S_of(cx.eng, cx.st, cx.args[0]))


@model("alloc::str::{impl str}::to_owned", "alloc::str::{impl str}::into_string", "alloc::string::{impl String}::from", "alloc::str::{impl str}::to_string", "alloc::string::{impl str}::to_string", "alloc::string::{impl T}::to_string", "alloc::string::{impl String}::clone", "alloc::string::{impl str}::spec_to_string", "alloc::string::{impl String}::to_string", "alloc::string::SpecToString::spec_to_string")
def _(cx):
    return ("S", S_of(cx.eng, cx.st, cx.args[0]))


@model("core::convert::{impl str}::into", "core::convert::{impl &str}::into")
def _(cx):
    return NotImplemented


@model("alloc::string::{impl String}::new", "alloc::string::{impl String}::with_capacity", "alloc::string::{impl String}::default")
def _(cx):
    return ("S", ("k", ""))


@model("core::str::traits::{impl str}::eq", "alloc::string::{impl String}::eq", "core::str::traits::{impl str}::ne", "alloc::string::{impl String}::ne", "alloc::string::{impl str}::eq", "alloc::string::{impl &str}::eq", "alloc::borrow::{impl Cow}::eq", "alloc::string::{impl Cow}::eq", "alloc::borrow::{impl Cow}::ne")
def _(cx):
    st = cx.st
    try:
        A = norm_s(st, S_of(cx.eng, st, cx.args[0]))
        B = norm_s(st, S_of(cx.eng, st, cx.args[1]))
    except Stuck:
        if "Cow" in (cx.rec.get("rpath") or ""):
            return NotImplemented
        raise
    d = st.seq_decide(A, B)
    r = d if d is not None else ("seq", A, B)
    if cx.rec["path"].endswith("::ne") or cx.rec.get("name") == "ne":
        r = c_not(r)
    return b(r)


@model("core::str::{impl str}::eq_ignore_ascii_case")
def _(cx):
    st = cx.st
    A = S_of(cx.eng, st, cx.args[0])
    B = S_of(cx.eng, st, cx.args[1])
    if A[0] == "k" and B[0] == "k":
        return b(A[1].lower() == B[1].lower())
    d = st.seq_decide(A, B)
    if d:
        return TRUE
    # the exact text, or another spelling of it
    if st.need(("seq", norm_s(st, A), norm_s(st, B))):
        return TRUE
    if st.num.entails_ne(sub(st.slen(A), st.slen(B))):
        return FALSE
    key = ("atom", ("eqic", repr(norm_s(st, A)), repr(norm_s(st, B))))
    return b(key)


@model("alloc::str::{impl str}::to_ascii_lowercase", "alloc::str::{impl str}::to_ascii_uppercase")
def _(cx):
    st = cx.st
    S = known_str(st, norm_s(st, S_of(cx.eng, st, cx.args[0])))
    low = "lower" in (cx.rec.get("name") or cx.rec["path"])
    if S[0] == "k":
        return ("S", ("k", "".join((c.lower() if low else c.upper()) if c.isascii() else c for c in S[1])))
    cs = C.UPPER if low else C.LOWER
    keep = C.compl(cs)
    if st.in_cls(S[1], S[2], S[3], keep):
        return ("S", S)
    name = "%s~%s:%r" % (S[1], "low" if low else "up", (S[2], S[3])) if not S[1].startswith("#") else fresh()
    if name in st.tx:
        return ("S", ("t", name, ZERO, st.tx[name].n))

    def same_(s):
        s.add_cls(S[1], S[2], S[3], keep)
        for q, c in s.tx[S[1]].ch:
            if s.ge(q, S[2]) and s.gt(S[3], q):
                s.refine_char(c, keep)
        return ("S", S)

    def other_(s):
        p = first_in(s, S, cs)
        if p is None or not s.ok():
            s.dead = True
            return UNIT
        T = s.newtext(name)
        s.num.add_eq(sub(T[3], s.slen(S)))
        s.add_cls(name, ZERO, T[3], keep)
        return ("S", T)

    raise Forks([(None, same_), (None, other_)])


@model("alloc::str::{impl str}::to_lowercase", "alloc::str::{impl str}::to_uppercase")
def _(cx):
    st = cx.st
    S = known_str(st, norm_s(st, S_of(cx.eng, st, cx.args[0])))
    low = "lower" in (cx.rec.get("name") or cx.rec["path"])
    if S[0] == "k":
        return ("S", ("k", S[1].lower() if low else S[1].upper()))
    cs = C.UPPER if low else C.LOWER
    if st.in_cls(S[1], S[2], S[3], C.inter(C.ASCII, C.compl(cs))):
        return ("S", S)

    def same_(s):
        s.add_cls(S[1], S[2], S[3], C.compl(cs))
        for q, c in s.tx[S[1]].ch:
            if s.ge(q, S[2]) and s.gt(S[3], q):
                s.refine_char(c, C.compl(cs))
        return ("S", S)

    def other(which):
        def f(s):
            p = first_in(s, S, which)
            if p is None or not s.ok():
                s.dead = True
                return UNIT
            T = s.newtext(fresh())
            s.assume(("seq", T, S), False)
            return ("S", T)

        return f

    raise Forks([(None, same_), (None, other(cs)), (None, other(C.compl(C.ASCII)))])


@model("alloc::string::{impl String}::pop")
def _(cx):
    st = cx.st
    cur = seq_place(cx, cx.args[0])
    S = S_of(cx.eng, st, cx.eng.load(st, cur))
    if S[0] == "k":
        if not S[1]:
            return none(cx)
        cx.eng.store(st, cur, ("S", ("k", S[1][:-1])))
        return some(cx, ("c", ord(S[1][-1])))
    if not st.need(("ge", addc(st.slen(S), -1))):
        return none(cx)
    p = last_in(st, S, C.FULL)
    if p is None:
        raise Dead()
    c = st.char_at(S[1], p, S[3])
    st.num.add_eq(sub(add(p, st.cwidth(c)), S[3]))
    cx.eng.store(st, cur, ("S", ("t", S[1], S[2], p)))
    return some(cx, ("c", c))


@model("alloc::string::{impl String}::truncate")
def _(cx):
    st = cx.st
    cur = seq_place(cx, cx.args[0])
    S = S_of(cx.eng, st, cx.eng.load(st, cur))
    n = intv(st, cx.args[1])
    if not st.need(("ge", sub(st.slen(S), n))):
        return UNIT
    cx.eng.store(st, cur, ("S", str_slice(cx, S, ZERO, n)))
    return UNIT


def cat(st, A, B):
    """the text A followed by the text B"""
    for x, y in ((A, B), (B, A)):
        if (x[1] if x[0] == "k" else st.str_const(x)) == "":
            return y
    if A[0] == "k" and B[0] == "k":
        return ("k", A[1] + B[1])
    T = st.newtext(fresh())
    n = add(st.slen(A), st.slen(B))
    st.num.add_eq(sub(T[3], n))
    cs = []
    for S in (A, B):
        for cl in cat_parts(st, S):
            cs.append(cl)
    st.facts[("cat", T[1])] = tuple(cs)
    return T


def cat_parts(st, S):
    """the texts a text was put together from"""
    if S[0] == "t" and ("cat", S[1]) in st.facts and st.same(S[2], ZERO) and st.same(S[3], st.tx[S[1]].n):
        return st.facts[("cat", S[1])]
    return (S,)


@model("alloc::string::{impl String}::push_str", "alloc::string::{impl String}::add_assign")
def _(cx):
    cur = seq_place(cx, cx.args[0])
    A = S_of(cx.eng, cx.st, cx.eng.load(cx.st, cur))
    cx.eng.store(cx.st, cur, ("S", cat(cx.st, A, S_of(cx.eng, cx.st, cx.args[1]))))
    return UNIT


@model("alloc::string::{impl String}::push")
def _(cx):
    v = cx.args[1]
    if v[0] != "c" or not isinstance(v[1], int):
        raise Stuck("push of an unknown character")
    cur = seq_place(cx, cx.args[0])
    A = S_of(cx.eng, cx.st, cx.eng.load(cx.st, cur))
    cx.eng.store(cx.st, cur, ("S", cat(cx.st, A, ("k", chr(v[1])))))
    return UNIT


@model("alloc::string::{impl String}::add")
def _(cx):
    return ("S", cat(cx.st, S_of(cx.eng, cx.st, cx.args[0]), S_of(cx.eng, cx.st, cx.args[1])))


@model("alloc::str::{impl str}::repeat")
def _(cx):
    st = cx.st
    S = known_str(st, norm_s(st, S_of(cx.eng, st, cx.args[0])))
    n = intv(st, cx.args[1])
    if S[0] == "k":
        if not S[1]:
            return ("S", S)
        w = len(S[1].encode())
        st.num.add_ge(sub(K(2 ** 63 - 1), scale(n, w)))  # memory is taken to suffice
        m = st.num.norm(n)
        if is_const(m) and m[0] <= 4096:
            return ("S", ("k", S[1] * m[0]))
        T = st.newtext(fresh())
        st.num.add_eq(sub(T[3], scale(n, w)))
        cs = set(S[1])
        if len(cs) == 1 and w == 1:
            st.add_cls(T[1], ZERO, T[3], C.ch(S[1][0]) if hasattr(C, "ch") else C.mk(S[1][0]))
        return ("S", T)
    m = st.num.norm(n)
    if m == ZERO:
        return ("S", ("k", ""))
    if m == ONE:
        return ("S", S)
    raise Stuck("repetition of an unknown text")


@model("alloc::string::{impl String}::clear")
def _(cx):
    cx.eng.store(cx.st, seq_place(cx, cx.args[0]), ("S", ("k", "")))
    return UNIT


def ord_result(cx, n):
    r = cx.eng.ordering(n)
    if (cx.rec.get("name") or "").startswith("partial"):
        return some(cx, r)
    return r


def str_bounds(st, T):
    """the constants a text is known to lie strictly between, from recorded comparisons"""
    me = repr(T)
    lo, hi = None, None
    for k, v in st.facts.items():
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "atom":
            k = k[1]
        if not (isinstance(k, tuple) and len(k) == 3 and k[0] == "strlt"):
            continue
        _, a, b_ = k
        other = b_ if a == me else a if b_ == me else None
        if other is None or not other.startswith("('k', "):
            continue
        c = ast.literal_eval(other)[1].encode()
        if v == (a == me):
            hi = c if hi is None or c < hi else hi
        else:
            lo = c if lo is None or c > lo else lo
    return lo, hi


@model("core::str::traits::{impl str}::cmp", "core::str::traits::{impl str}::partial_cmp", "alloc::string::{impl String}::cmp", "alloc::borrow::{impl Cow}::cmp")
def _(cx):
    st = cx.st
    try:
        A = norm_s(st, S_of(cx.eng, st, cx.args[0]))
        B = norm_s(st, S_of(cx.eng, st, cx.args[1]))
    except Stuck:
        return NotImplemented
    A, B = known_str(st, A), known_str(st, B)
    if A[0] == "k" and B[0] == "k":
        x, y = A[1].encode(), B[1].encode()
        r = cx.eng.ordering(-1 if x < y else 1 if x > y else 0)
    else:
        if st.need(("seq", A, B)):
            r = cx.eng.ordering(0)
        else:
            lt = ("atom", ("strlt", repr(A), repr(B)))
            for X, Y, sg in ((A, B, -1), (B, A, 1)):
                if X[0] == "t" and Y[0] == "k":
                    lo, hi = str_bounds(st, X)
                    y = Y[1].encode()
                    if hi is not None and y >= hi:
                        return ord_result(cx, sg)
                    if lo is not None and y <= lo:
                        return ord_result(cx, -sg)
            if repr(A) <= repr(B):
                r = cx.eng.ordering(-1 if st.need(lt) else 1)
            else:
                r = cx.eng.ordering(1 if st.need(("atom", ("strlt", repr(B), repr(A)))) else -1)
    if (cx.rec.get("name") or "").startswith("partial"):
        return some(cx, r)
    return r


@model(P + "is_char_boundary")
def _(cx):
    st = cx.st
    S = S_of(cx.eng, st, cx.args[0])
    i = intv(st, cx.args[1])
    if S[0] == "t":
        if st.decide(("ge", sub(st.slen(S), i))) and st.is_bnd(S[1], add(S[2], i)):
            return TRUE
        if st.decide(("ge", addc(sub(i, st.slen(S)), -1))):
            return FALSE
    raise Stuck("is_char_boundary")


def range_bounds(cx, r, n):
    """(lo, hi) of a range value over a sequence of length n"""
    eng, st = cx.eng, cx.st
    r = eng.strip_refs(st, r)
    if r[0] == "i":
        return None
    if r[0] == "y":
        r = eng.expand(st, r)
    if r[0] != "a":
        raise Stuck("range " + r[0])
    nm = eng.ty(r[1])["path"].rsplit("::", 1)[1]
    f = r[3]
    if nm == "Range":
        return intv(st, f[0]), intv(st, f[1])
    if nm == "RangeFrom":
        return intv(st, f[0]), n
    if nm == "RangeTo":
        return ZERO, intv(st, f[0])
    if nm == "RangeToInclusive":
        return ZERO, addc(intv(st, f[0]), 1)
    if nm == "RangeInclusive":
        return intv(st, f[0]), addc(intv(st, f[1]), 1)
    if nm == "RangeFull":
        return ZERO, n
    raise Stuck("range " + nm)


def str_slice(cx, S, lo, hi, panic=True):
    """the slice S[lo..hi]; in panic mode proves or reports, else returns cond-like decision"""
    st = cx.st
    n = st.slen(S)
    if S[0] == "k":
        lo, hi = st.num.norm(lo), st.num.norm(hi)
        if is_const(lo) and is_const(hi):
            e = S[1].encode()
            good = 0 <= lo[0] <= hi[0] <= len(e)
            if good:
                try:
                    return ("k", e[lo[0]:hi[0]].decode())
                except UnicodeDecodeError:
                    good = False
            if panic:
                cx.require(False, "slice out of bounds")
            return None
        raise Stuck("slice of a constant at an unknown offset")
    if panic:
        cx.require(("ge", sub(hi, lo)), "slice start after its end")
        cx.require(("ge", sub(n, hi)), "slice end out of range")
        cx.require(("ge", lo), "slice start out of range")
    a, z = st.num.norm(add(S[2], lo)), st.num.norm(add(S[2], hi))
    for p, w in ((a, "start"), (z, "end")):
        if not st.is_bnd(S[1], p):
            if panic:
                cx.eng.panic(st, "slice %s may be inside a character" % w, cx.span, "boundary")
                st.add_bnd(S[1], p)
            else:
                return None
    return ("t", S[1], a, z)


@model("core::str::traits::{impl str}::index", "alloc::string::{impl String}::index", "core::str::traits::{impl str}::index_mut")
def _(cx):
    st = cx.st
    S = S_of(cx.eng, st, cx.args[0])
    lo, hi = range_bounds(cx, cx.args[1], st.slen(S))
    return ("s", str_slice(cx, S, lo, hi))


@model(P + "get")
def _(cx):
    st = cx.st
    S = S_of(cx.eng, st, cx.args[0])
    lo, hi = range_bounds(cx, cx.args[1], st.slen(S))
    if not st.need(("ge", sub(hi, lo))) or not st.need(("ge", sub(st.slen(S), hi))):
        return none(cx)
    r = str_slice(cx, S, lo, hi, panic=False)
    if r is None:
        if S[0] == "k":
            return none(cx)
        raise Stuck("get at an unknown boundary")
    return some(cx, ("s", r))


@model(P + "get_unchecked")
def _(cx):
    st = cx.st
    S = S_of(cx.eng, st, cx.args[0])
    lo, hi = range_bounds(cx, cx.args[1], st.slen(S))
    return ("s", str_slice(cx, S, lo, hi))


@model(P + "split_at", P + "split_at_checked")
def _(cx):
    st = cx.st
    S = S_of(cx.eng, st, cx.args[0])
    i = intv(st, cx.args[1])
    n = st.slen(S)
    if cx.rec["path"].endswith("checked"):
        if not st.need(("ge", sub(n, i))):
            return none(cx)
        r = str_slice(cx, S, ZERO, i, panic=False)
        if r is None:
            raise Stuck("split_at at an unknown boundary")
    else:
        r = str_slice(cx, S, ZERO, i)
    r2 = str_slice(cx, S, i, n)
    t = ("tu", (("s", r), ("s", r2)))
    return some(cx, t) if cx.rec["path"].endswith("checked") else t


@model(P + "split_once", P + "rsplit_once")
def _(cx):
    st = cx.st
    S = S_of(cx.eng, st, cx.args[0])
    pat = pattern(cx, cx.args[1])
    if pat[0] == "set":
        one = C.single(pat[1])
        if one is None:
            raise Stuck("split_once at a set")
        L = C.u8len(one)
    else:
        L = len(pat[1].encode())

    def f(s, p):
        if S[0] == "k":
            e = S[1].encode()
            return some(cx, ("tu", (("s", ("k", e[: p[0]].decode())), ("s", ("k", e[p[0] + L:].decode())))))
        q = add(S[2], p)
        return some(cx, ("tu", (("s", norm_s(s, ("t", S[1], S[2], q))), ("s", norm_s(s, ("t", S[1], addc(q, L), S[3]))))))

    return search(cx, S, pat, f, lambda s: none(cx), cx.rec["path"].endswith("rsplit_once"))


@model(P + "split", P + "splitn", P + "split_terminator", P + "split_inclusive", P + "rsplit", P + "rsplitn")
def _(cx):
    n = cx.rec["path"].rsplit("::", 1)[1]
    st = cx.st
    lim = -1
    if n in ("splitn", "rsplitn"):
        k = st.num.norm(intv(st, cx.args[1]))
        if not is_const(k):
            raise Stuck("splitn of an unknown number")
        lim = k[0]
    pat = pattern(cx, cx.args[-1])
    if pat[0] == "str" and not pat[1]:
        raise Stuck("split at the empty string")
    return ("it", "split", ("s", norm_s(st, S_of(cx.eng, st, cx.args[0]))), 0, lim, n, pat[0], pat[1])


SPLIT_NEXT = "core::str::iter::{impl Split}::next"


@model(SPLIT_NEXT, "core::str::iter::{impl SplitN}::next", "core::str::iter::{impl SplitTerminator}::next", "core::str::iter::{impl SplitInclusive}::next",
       "core::str::iter::{impl RSplit}::next", "core::str::iter::{impl RSplitN}::next", "core::str::iter::{impl RSplit<'a, P>}::next", "core::str::iter::{impl RSplitN<'a, P>}::next",
       "core::str::iter::{impl Split<'a, P>}::next", "core::str::iter::{impl SplitN<'a, P>}::next", "core::str::iter::{impl SplitTerminator<'a, P>}::next", "core::str::iter::{impl SplitInclusive<'a, P>}::next")
def _(cx):
    eng, st = cx.eng, cx.st
    cur, v = it_load(cx, ("split",))
    _, _, sv, done, lim, kind, pk, pv = v
    S = sv[1]
    back = kind in ("rsplit", "rsplitn")
    if done or lim == 0:
        return none(cx)
    rest = lambda s, S2, d: eng.store(s, cur, ("it", "split", ("s", S2), d, lim - 1 if lim > 0 else lim, kind, pk, pv))
    if kind in ("split_terminator", "split_inclusive") and not st.need(("ge", addc(st.slen(S), -1))):
        rest(st, S, 1)
        return none(cx)

    def missing(s):
        rest(s, S, 1)
        return some(cx, ("s", S))

    if lim == 1:
        return missing(st)

    def found(s, p):
        if S[0] == "k":
            e = S[1].encode()
            L = len(pv.encode()) if pk == "str" else C.u8len(ord(e[p[0]:].decode()[0]))
            a = ("k", e[: p[0] + (L if kind == "split_inclusive" else 0)].decode())
            b_ = ("k", e[p[0] + L:].decode())
            if back:
                a, b_ = b_, a
        else:
            q = add(S[2], p)
            L = K(len(pv.encode())) if pk == "str" else s.cwidth(s.char_at(S[1], q, S[3]))
            e = add(q, L)
            a = norm_s(s, ("t", S[1], S[2], e if kind == "split_inclusive" else q))
            b_ = norm_s(s, ("t", S[1], e, S[3]))
            if back:
                a, b_ = b_, a
        rest(s, b_, 0)
        return some(cx, ("s", a))

    return search(cx, S, (pk, pv), found, missing, back)


# iterators over text
@model(P + "chars")
def _(cx):
    return ("it", "chars", ("s", norm_s(cx.st, S_of(cx.eng, cx.st, cx.args[0]))))


@model(P + "char_indices")
def _(cx):
    S = norm_s(cx.st, S_of(cx.eng, cx.st, cx.args[0]))
    return ("it", "cidx", ("s", S), ("i", S[2] if S[0] == "t" else ZERO))


@model(P + "bytes")
def _(cx):
    return ("it", "bytes", ("s", norm_s(cx.st, S_of(cx.eng, cx.st, cx.args[0]))))


def it_load(cx, kinds):
    eng, st = cx.eng, cx.st
    cur = eng.deref_val(st, cx.args[0])
    v = eng.load(st, cur)
    while v[0] == "r":
        cur = eng.deref_val(st, v)
        v = eng.load(st, cur)
    if v[0] != "it" or (kinds and v[1] not in kinds):
        raise Stuck("iterator " + str(v[:2]))
    return cur, v


def text_next(cx, st, S, what):
    """(char value, rest) or None"""
    if S[0] == "k":
        if not S[1]:
            return None
        c = S[1][0]
        if what == "bytes":
            if ord(c) > 127:
                raise Stuck("bytes of a non ASCII constant")
            return ("i", K(ord(c))), ("k", S[1][1:])
        return ("c", ord(c)), ("k", S[1][1:])
    if not st.need(("ge", addc(st.slen(S), -1))):
        return None
    c = st.char_at(S[1], S[2], S[3])
    if what == "bytes":
        w = st.cwidth(c)
        if not C.subset(st.cset(c), C.ASCII):
            # the bytes of a longer character are not followed
            if st.need(("in", c, C.ASCII)):
                c = st.char_at(S[1], S[2], S[3])
            else:
                raise Stuck("bytes of a non ASCII character")
        return ("by", c), ("t", S[1], addc(S[2], 1), S[3])
    return ("c", c), ("t", S[1], st.num.norm(add(S[2], st.cwidth(c))), S[3])


@model("core::str::iter::{impl Chars}::next", "core::str::iter::{impl CharIndices}::next", "core::str::iter::{impl Bytes}::next")
def _(cx):
    st = cx.st
    cur, v = it_load(cx, ("chars", "cidx", "bytes"))
    S = v[2][1]
    if v[1] == "bytes" and S[0] == "t":
        left = v[3][1] if len(v) > 3 else ZERO
        if left != ZERO and not st.need(("eq", left)):
            # inside a longer character
            cx.eng.store(st, cur, ("it", "bytes", v[2], ("i", addc(left, -1))))
            return some(cx, ("i", st.newint(0x80, 0xBF)))
        if not st.need(("ge", addc(st.slen(S), -1))):
            return none(cx)

        def one(s):
            c = s.char_at(S[1], S[2], S[3])
            s.refine_char(c, C.ASCII)
            cx.eng.store(s, cur, ("it", "bytes", ("s", ("t", S[1], addc(S[2], 1), S[3])), ("i", ZERO)))
            return some(cx, ("by", c))

        def longer(s):
            c = s.char_at(S[1], S[2], S[3])
            s.refine_char(c, C.compl(C.ASCII))
            if not s.ok():
                return UNIT
            w = s.cwidth(c)
            cx.eng.store(s, cur, ("it", "bytes", ("s", ("t", S[1], s.num.norm(add(S[2], w)), S[3])), ("i", addc(w, -1))))
            return some(cx, ("i", s.newint(0xC2, 0xF4)))

        raise Forks([(None, longer), (None, one)])
    if v[1] == "cidx" and S[0] == "k":
        off = v[3][1]
        r = text_next(cx, st, S, "chars")
        if r is None:
            return none(cx)
        cx.eng.store(st, cur, ("it", "cidx", ("s", r[1]), ("i", addc(off, C.u8len(r[0][1])))))
        return some(cx, ("tu", (("i", off), r[0])))
    r = text_next(cx, st, S, v[1])
    if r is None:
        return none(cx)
    cx.eng.store(st, cur, ("it", v[1], ("s", r[1])) + v[3:])
    if v[1] == "cidx":
        return some(cx, ("tu", (("i", st.num.norm(sub(S[2], v[3][1]))), r[0])))
    return some(cx, r[0])


@model("core::str::iter::{impl Chars}::as_str", "core::str::iter::{impl CharIndices}::as_str")
def _(cx):
    cur, v = it_load(cx, ("chars", "cidx"))
    return v[2]


@model("core::str::iter::{impl CharIndices}::offset")
def _(cx):
    cur, v = it_load(cx, ("cidx",))
    return ("i", sub(v[2][1][2], v[3][1]) if v[2][1][0] == "t" else v[3][1])


@model("core::str::iter::{impl Chars}::next_back")
def _(cx):
    st = cx.st
    cur, v = it_load(cx, ("chars",))
    S = v[2][1]
    if S[0] == "k":
        if not S[1]:
            return none(cx)
        cx.eng.store(st, cur, ("it", "chars", ("s", ("k", S[1][:-1]))))
        return some(cx, ("c", ord(S[1][-1])))
    if not st.need(("ge", addc(st.slen(S), -1))):
        return none(cx)
    s2 = last_in(st, S, C.FULL)
    if s2 is None:
        raise Dead()
    c = st.char_at(S[1], s2, S[3])
    st.num.add_eq(sub(add(s2, st.cwidth(c)), S[3]))
    cx.eng.store(st, cur, ("it", "chars", ("s", ("t", S[1], S[2], s2))))
    return some(cx, ("c", c))


# ---- characters --------------------------------------------------------------------------------

CH = {
    "is_whitespace": C.WS,
    "is_ascii_lowercase": C.LOWER,
    "is_ascii_uppercase": C.UPPER,
    "is_ascii_digit": C.DIGIT,
    "is_ascii_hexdigit": C.HEX,
    "is_ascii_alphabetic": C.ALPHA,
    "is_ascii_alphanumeric": C.ALNUM,
    "is_ascii_punctuation": C.PUNCT,
    "is_ascii_whitespace": C.ASCII_WS,
    "is_ascii_control": C.CONTROL,
    "is_ascii_graphic": C.mk((0x21, 0x7E)),
    "is_ascii": C.ASCII,
}
UNI = {"is_alphabetic": "alphabetic", "is_numeric": "numeric", "is_alphanumeric": "alphanumeric", "is_lowercase": "lowercase", "is_uppercase": "uppercase", "is_control": "control"}


def ch_class(cx):
    eng, st = cx.eng, cx.st
    v = eng.strip_refs(st, cx.args[0])
    n = cx.rec["path"].rsplit("::", 1)[1]
    cs = CH[n] if n in CH else C.unicode_class(UNI[n])
    if v[0] in ("c", "ci", "by"):
        if v[0] == "by":
            # only ASCII classes exist for bytes
            pass
        if isinstance(v[1], int):
            return b(C.has(cs, v[1]))
        d = st.decide(("in", v[1], cs))
        return b(d if d is not None else ("in", v[1], cs))
    if v[0] == "i":
        l = st.num.norm(v[1])
        if is_const(l):
            return b(C.has(cs, l[0]) and l[0] < 128)
        if C.subset(cs, C.ASCII) and st.ge(l, K(128)):
            return FALSE
    raise Stuck("character class of " + v[0])


for _n in list(CH) + list(UNI):
    M["core::char::methods::{impl char}::" + _n] = ch_class
    if _n.startswith("is_ascii"):
        M["core::num::{impl u8}::" + _n] = ch_class


@model("core::char::methods::{impl char}::len_utf8")
def _(cx):
    v = cx.args[0]
    return ("i", cx.st.cwidth(v[1]))


@model("core::char::methods::{impl char}::len_utf16")
def _(cx):
    v = cx.args[0]
    if isinstance(v[1], int):
        return ("i", K(1 if v[1] < 0x10000 else 2))
    cs = cx.st.cset(v[1])
    bmp, rest = C.inter(cs, ((0, 0xFFFF),)), C.inter(cs, ((0x10000, 0x10FFFF),))
    if not rest:
        return ("i", K(1))
    if not bmp:
        return ("i", K(2))
    raise Forks([(lambda s: s.refine_char(v[1], bmp), ("i", K(1))), (lambda s: s.refine_char(v[1], rest), ("i", K(2)))])


@model("core::char::methods::{impl char}::eq_ignore_ascii_case", "core::num::{impl u8}::eq_ignore_ascii_case")
def _(cx):
    st = cx.st
    x = cx.eng.strip_refs(st, cx.args[0])
    y = cx.eng.strip_refs(st, cx.args[1])
    k = None
    for p, q in ((x, y), (y, x)):
        kk = p[1] if p[0] == "c" and isinstance(p[1], int) else (p[1][0] if p[0] == "i" and is_const(p[1]) else None)
        if kk is not None:
            k, o = kk, q
    if k is None:
        raise Stuck("eq_ignore_ascii_case")
    cs = C.mk(ord(chr(k).lower()) if k < 128 else k, ord(chr(k).upper()) if k < 128 else k)
    if isinstance(o[1], int):
        return b(C.has(cs, o[1]))
    return b(("in", o[1], cs))


@model("core::char::methods::{impl char}::is_digit")
def _(cx):
    v = cx.args[0]
    r = cx.st.num.norm(intv(cx.st, cx.args[1]))
    if r == K(10):
        cs = C.DIGIT
    elif r == K(16):
        cs = C.HEX
    else:
        raise Stuck("is_digit")
    return b(C.has(cs, v[1]) if isinstance(v[1], int) else ("in", v[1], cs))


@model("core::char::methods::{impl char}::to_digit")
def _(cx):
    st = cx.st
    v = cx.args[0]
    r = st.num.norm(intv(st, cx.args[1]))
    if r != K(10):
        raise Stuck("to_digit")
    if not st.need(("in", v[1], C.DIGIT) if not isinstance(v[1], int) else C.has(C.DIGIT, v[1])):
        return none(cx)
    one = C.single(st.cset(v[1]))
    return some(cx, ("i", K(one - 48) if one is not None else st.newint(0, 9)))


@model("core::char::methods::{impl char}::eq", "core::cmp::impls::{impl char}::eq", "core::cmp::impls::{impl char}::ne")
def _(cx):
    st = cx.st
    x = cx.eng.strip_refs(st, cx.args[0])
    y = cx.eng.strip_refs(st, cx.args[1])
    return b(cx.eng.compare(st, "Ne" if cx.rec["path"].endswith("ne") else "Eq", x, y))


@model("core::char::convert::{impl u32}::from", "core::char::convert::{impl char}::from")
def _(cx):
    v = cx.args[0]
    if v[0] == "c":
        return ("ci", v[1]) if not isinstance(v[1], int) else ("i", K(v[1]))
    if v[0] in ("by", "ci"):
        if isinstance(v[1], int) and v[1] < 128 or not isinstance(v[1], int) and cx.st.need(("in", v[1], C.ASCII)):
            return ("c", v[1])
        if v[0] == "by":
            cx.st.lossy = True
            return ("c", cx.st.newchar(C.mk((0xC2, 0xF4))))
    if v[0] == "i" and is_const(v[1]):
        return ("c", v[1][0])
    raise Stuck("char conversion")


# ---- integers ----------------------------------------------------------------------------------

def parse_fact(st, S, nm):
    """what is known about the integer the text S stands for, read as type nm: False (it is none that fits) |
    ("is", value) | ("above", least): if it is one, it is at least that | None"""
    r = None
    for key, val in list(st.facts.items()):
        if key[0] != "parsed" or key[1] != nm and (key[1][0] != "u" or nm[0] != "u") or st.seq_decide(key[2], S) is not True:
            continue
        if key[1] == nm:
            return False if val is False else ("is", V(val))
        m, mine = int_max(key[1]), int_max(nm)
        if val is False:
            if mine <= m:
                return False
            r = ("above", max(m + 1, r[1] if r else 0))
        elif st.need(("ge", V(val, -1, mine))):
            return ("is", V(val))
        else:
            return False
    return r


def int_max(nm):
    n = 64 if nm[1:] == "size" else int(nm[1:])
    return 2 ** n - 1 if nm[0] == "u" else 2 ** (n - 1) - 1


def parse_int(cx):
    st = cx.st
    S = norm_s(st, S_of(cx.eng, st, cx.args[0]))
    rt = cx.rt
    t = cx.eng.ty(rt)
    ok = variant(cx.eng, rt, "Ok")
    ity = field_ty(cx.eng, rt, ok, 0)
    ety = field_ty(cx.eng, rt, variant(cx.eng, rt, "Err"), 0)
    lo, hi = cx.eng.intk[ity]
    nm = cx.eng.ty(ity)["s"]
    k = st.str_const(S)
    if k is not None:
        x = k[1:] if k[:1] in ("+",) or (k[:1] == "-" and lo < 0) else k
        if x.isascii() and x.isdigit():
            v = int(x) * (-1 if k[:1] == "-" else 1)
            if lo <= v <= hi:
                return okv(cx, ("i", K(v)))
        return errv(cx, cx.eng.sym(st, ety, fresh()))
    known = parse_fact(st, S, nm)
    if known is False:
        return errv(cx, cx.eng.sym(st, ety, fresh()))
    if known is not None and known[0] == "is":
        return okv(cx, ("i", known[1]))
    least = known[1] if known else lo

    def good(s):
        x = fresh()
        s.num.add_ge(V(x, 1, -least))
        s.num.add_ge(V(x, -1, hi))
        s.num.add_ge(addc(s.slen(S), -1))
        cs = C.union(C.DIGIT, C.mk("+") if lo >= 0 else C.mk("+-"))
        s.add_cls(S[1], S[2], S[3], cs)
        if s.ok():
            s.refine_char(s.char_at(S[1], S[2], S[3]), cs)
        s.facts[("parsed", nm, S)] = x
        return okv(cx, ("i", V(x)))

    def bad(s):
        s.facts[("parsed", nm, S)] = False
        return errv(cx, cx.eng.sym(s, ety, fresh()))

    raise Forks([(None, bad), (None, good)])


for _n in INTS:
    M["core::num::{impl %s}::from_str" % _n] = parse_int


def int_ty(cx, i=0):
    return cx.at[i] if cx.at else cx.rt


def _arith(name, op, mode):
    def f(cx):
        st = cx.st
        a_, b_ = intv(st, cx.args[0]), intv(st, cx.args[1])
        na, nb = st.num.norm(a_), st.num.norm(b_)
        rt = cx.rt
        t = cx.eng.ty(rt)
        if mode == "checked":
            ity = field_ty(cx.eng, rt, variant(cx.eng, rt, "Some"), 0)
        elif mode == "overflowing":
            ity = t["elems"][0]
        else:
            ity = rt
        lo, hi = cx.eng.intk[ity]
        if op == "add":
            x = add(na, nb)
        elif op == "sub":
            x = sub(na, nb)
        elif op == "mul" and (is_const(na) or is_const(nb)):
            from .num import scale

            x = scale(nb, na[0]) if is_const(na) else scale(na, nb[0])
        else:
            raise Stuck(name)
        if mode == "unchecked":
            return ("i", x)
        below = st.need(("ge", addc(neg(addc(x, -lo)), -1)))
        above = False if below else st.need(("ge", addc(x, -hi - 1)))
        if mode == "checked":
            return none(cx) if below or above else some(cx, ("i", x))
        if mode == "saturating":
            return ("i", K(lo) if below else K(hi) if above else x)
        if mode == "wrapping":
            return ("i", addc(x, hi - lo + 1) if below else addc(x, -(hi - lo + 1)) if above else x)
        if mode == "overflowing":
            return ("tu", (("i", addc(x, hi - lo + 1) if below else addc(x, -(hi - lo + 1)) if above else x), b(below or above)))

    return f


for _n in INTS:
    for _m in ("checked", "saturating", "wrapping", "overflowing", "unchecked"):
        for _o in ("add", "sub", "mul"):
            M["core::num::{impl %s}::%s_%s" % (_n, _m, _o)] = _arith("%s_%s" % (_m, _o), _o, _m)


@model("core::num::{impl u8}::cmp", "core::cmp::impls::{impl usize}::cmp")
def _(cx):
    return NotImplemented


def minmax(cx):
    st = cx.st
    n = cx.rec.get("name") or cx.rec["path"].rsplit("::", 1)[1]
    if cx.args[0][0] != "i" or cx.args[1][0] != "i":
        return NotImplemented
    x, y = cx.args[0][1], cx.args[1][1]
    le = st.need(("ge", sub(y, x)))
    return ("i", (x if le else y) if n.endswith("min") else (y if le else x))


M["core::cmp::Ord::min"] = minmax
M["core::cmp::Ord::max"] = minmax
M["core::cmp::min"] = minmax
M["core::cmp::max"] = minmax
M["core::intrinsics::integer_min"] = minmax
M["core::intrinsics::integer_max"] = minmax


# ---- memory --------------------------------------------------------------------------------------

@model("core::mem::replace")
def _(cx):
    eng, st = cx.eng, cx.st
    cur = eng.deref_val(st, cx.args[0])
    v = eng.load(st, cur)
    eng.store(st, cur, cx.args[1])
    return v


@model("core::mem::take")
def _(cx):
    eng, st = cx.eng, cx.st
    cur = eng.deref_val(st, cx.args[0])
    v = eng.load(st, cur)
    eng.store(st, cur, default_of(eng, st, cx.rt, v))
    return v


def default_of(eng, st, ty, like=None):
    t = eng.ty(ty)
    k = t["k"]
    if k == "int":
        return ("i", ZERO)
    if k == "bool":
        return FALSE
    if k == "ref" and eng.ty(t["elem"])["k"] == "str":
        return ("s", ("k", ""))
    if k == "adt":
        p = t["path"]
        if p == "core::option::Option":
            return ("a", ty, variant(eng, ty, "None"), ())
        if p == "alloc::string::String":
            return ("S", ("k", ""))
        if p in ("alloc::vec::Vec", "smallvec::SmallVec"):
            return ("q", ())
    if k == "tuple":
        return ("tu", tuple(default_of(eng, st, e) for e in t["elems"]))
    raise Stuck("default of " + t["s"])


@model("core::option::{impl Option}::default", "alloc::vec::{impl Vec}::default", "core::default::{impl usize}::default", "core::default::{impl bool}::default", "core::str::{impl str}::default", "core::str::{impl &str}::default", "smallvec::{impl SmallVec}::default")
def _(cx):
    return default_of(cx.eng, cx.st, cx.rt)


@model("core::mem::swap")
def _(cx):
    eng, st = cx.eng, cx.st
    x = eng.deref_val(st, cx.args[0])
    y = eng.deref_val(st, cx.args[1])
    vx, vy = eng.load(st, x), eng.load(st, y)
    eng.store(st, x, vy)
    eng.store(st, y, vx)
    return UNIT


@model("core::mem::drop", "core::mem::forget", "core::ptr::drop_in_place")
def _(cx):
    return UNIT


@model("core::option::{impl Option}::take")
def _(cx):
    eng, st = cx.eng, cx.st
    cur = eng.deref_val(st, cx.args[0])
    v = eng.load(st, cur)
    eng.store(st, cur, none(cx))
    return v


@model("core::option::{impl Option}::replace")
def _(cx):
    eng, st = cx.eng, cx.st
    cur = eng.deref_val(st, cx.args[0])
    v = eng.load(st, cur)
    eng.store(st, cur, some(cx, cx.args[1]))
    return v


@model("core::option::{impl Option}::insert", "core::option::{impl Option}::get_or_insert")
def _(cx):
    return NotImplemented


@model("alloc::boxed::{impl Box}::new")
def _(cx):
    o = ("H", fresh())
    cx.st.heap[o] = cx.args[0]
    return ("r", o, ())


def clone_model(cx):
    """Clone of a type of another crate: a copy of the value"""
    inst = cx.rec.get("inst", -1)
    bd = cx.eng.p.bodies.get(inst)
    if bd is not None and bd.local:
        return NotImplemented
    if cx.rec.get("kind") == "unresolved":
        return NotImplemented
    v = cx.eng.load(cx.st, cx.eng.deref_val(cx.st, cx.args[0]))
    # containers and options of local types: their Clone impls must be looked at as well
    return cx.eng.on_clone(cx.st, v) if cx.eng.on_clone else v


# ---- sequences -------------------------------------------------------------------------------------

def seq_place(cx, v):
    """the place holding the 'q' (or symbolic) sequence behind a reference"""
    eng, st = cx.eng, cx.st
    while True:
        cur = eng.deref_val(st, v)
        if cur[0] == "D":
            return cur
        x = eng.load(st, cur)
        if x[0] in ("r", "rv", "sl", "sb", "s"):
            v = x
            continue
        return cur


def seq_ref(cx, v):
    """a slice reference for v: ('r',..) | ('rv',..) | ('sl',..) | ('sb',..)"""
    eng, st = cx.eng, cx.st
    if v[0] in ("sl", "sb"):
        return v
    if v[0] == "s":
        return ("sb", v[1])
    cur = seq_place(cx, v)
    if cur[0] == "D":
        return cur[1]
    if cur[0] == "V":
        return ("rv", cur[1])
    x = eng.load(st, cur)
    if x[0] == "y":
        t = eng.ty(x[2])
        if t["k"] == "adt" and t["path"] in ("alloc::vec::Vec", "smallvec::SmallVec", "alloc::boxed::Box"):
            return ("r", cur[1], cur[2])
    if x[0] == "S":
        return ("sb", x[1])
    return ("r", cur[1], cur[2])


def get_q(cx, v):
    cur = seq_place(cx, v)
    q = cx.eng.load(cx.st, cur)
    if q[0] != "q":
        raise Stuck("sequence operation on a %s value" % q[0])
    return cur, q


VEC = ("alloc::vec::{impl Vec}::", "smallvec::{impl SmallVec}::")
SL = "core::slice::{impl [T]}::"


def vm(*names):
    def d(f):
        for n in names:
            for p in VEC:
                M[p + n] = f
        return f

    return d


@vm("new", "with_capacity", "new_const")
def _(cx):
    return ("q", ())


@vm("reserve", "shrink_to_fit", "reserve_exact", "grow")
def _(cx):
    return UNIT


@vm("push")
def _(cx):
    cur, q = get_q(cx, cx.args[0])
    v = cx.args[1]
    cx.eng.store(cx.st, cur, ("q", q[1] + (("1", v),)))
    return UNIT


def ix_at(v, off):
    """element `off` of a run: runs of ("T", "ix", base) stand for the distinct elements base, base+1, ..."""
    if v[0] == "T" and v[1] == "ix":
        return ("T", "at", ("i", add(v[2][1], off)))
    return v


def ix_from(v, off):
    if v[0] == "T" and v[1] == "ix":
        return ("T", "ix", ("i", add(v[2][1], off)))
    return v


def pop_back(cx, q):
    """(value, rest) or None"""
    st = cx.st
    items = q[1]
    while items:
        it = items[-1]
        if it[0] == "1":
            return it[1], ("q", items[:-1])
        if it[0] == "L":
            cx.eng.unfold_item(st, it)
        n = st.num.norm(it[1])
        if st.need(("ge", addc(n, -1))):
            n = st.num.norm(addc(n, -1))
            rest = items[:-1] + ((("n", n, it[2]),) if n != ZERO else ())
            return ix_at(it[2], n), ("q", rest)
        items = items[:-1]
    return None


def pop_front(cx, q):
    st = cx.st
    items = q[1]
    while items:
        it = items[0]
        if it[0] == "1":
            return it[1], ("q", items[1:])
        if it[0] == "L":
            raise Stuck("front of a folded group")
        n = st.num.norm(it[1])
        if st.need(("ge", addc(n, -1))):
            n = st.num.norm(addc(n, -1))
            rest = ((("n", n, ix_from(it[2], ONE)),) if n != ZERO else ()) + items[1:]
            return ix_at(it[2], ZERO), ("q", rest)
        items = items[1:]
    return None


@vm("pop")
def _(cx):
    cur, q = get_q(cx, cx.args[0])
    r = pop_back(cx, q)
    if r is None:
        if q[1]:
            cx.eng.store(cx.st, cur, ("q", ()))
        return none(cx)
    cx.eng.store(cx.st, cur, r[1])
    return some(cx, r[0])


@vm("clear")
def _(cx):
    cur, q = get_q(cx, cx.args[0])
    cx.eng.store(cx.st, cur, ("q", ()))
    return UNIT


@vm("truncate")
def _(cx):
    st = cx.st
    cur, q = get_q(cx, cx.args[0])
    k = intv(st, cx.args[1])
    items = q[1]
    while items:
        n = cx.eng.qlen(st, ("q", items))
        if not st.need(("ge", addc(sub(n, k), -1))):
            break
        it = items[-1]
        if it[0] == "1":
            items = items[:-1]
            continue
        if it[0] == "L":
            cx.eng.unfold_item(st, it)
        m = it[1]
        rest = sub(n, m)
        if st.need(("ge", sub(k, rest))):
            items = items[:-1] + (("n", st.num.norm(sub(k, rest)), it[2]),)
            break
        items = items[:-1]
    cx.eng.store(st, cur, ("q", items))
    return UNIT


@vm("append")
def _(cx):
    cur, q = get_q(cx, cx.args[0])
    c2, q2 = get_q(cx, cx.args[1])
    cx.eng.store(cx.st, cur, ("q", q[1] + q2[1]))
    cx.eng.store(cx.st, c2, ("q", ()))
    return UNIT


@vm("extend_from_slice")
def _(cx):
    cur, q = get_q(cx, cx.args[0])
    c2, q2 = get_q(cx, cx.args[1])
    cx.eng.store(cx.st, cur, ("q", q[1] + q2[1]))
    return UNIT


@vm("extend", "from_iter")
def _(cx):
    st = cx.st
    new = cx.rec["path"].endswith("from_iter") or cx.rec.get("name") == "from_iter"
    it = cx.args[0] if new else cx.args[1]
    items = iter_items(cx, it)
    if new:
        return ("q", items)
    cur, q = get_q(cx, cx.args[0])
    cx.eng.store(st, cur, ("q", q[1] + items))
    return UNIT


def iter_items(cx, it):
    """the items an iterator (or collection) yields, as sequence items"""
    eng, st = cx.eng, cx.st
    if it[0] == "q":
        return it[1]
    if it[0] == "it" and it[1] == "own":
        return it[2][1]
    if it[0] == "it" and it[1] == "drain":
        return it[2][1]
    if it[0] == "a":
        p = eng.ty(it[1])["path"]
        if p == "core::option::Option":
            return (("1", it[3][0]),) if it[3] else ()
        if p == "core::iter::adapters::map::Map":
            inner = iter_items(cx, it[3][0])
            out = []
            for x in inner:
                if x[0] == "L":
                    raise Stuck("map over a folded group")
                v = x[1] if x[0] == "1" else x[2]
                outs = eng.call_value(st.copy(), it[3][1], [v])
                if len(outs) != 1:
                    raise Stuck("map closure forks")
                s2, r = outs[0]
                if x[0] == "n" and r[0] != "a" and r[0] != "T":
                    raise Stuck("map over a run")
                out.append(("1", r) if x[0] == "1" else ("n", x[1], r))
            return tuple(out)
    if it[0] in ("r", "rv"):
        q = eng.load(st, eng.deref_val(st, it))
        if q[0] == "q":
            return q[1]
    raise Stuck("iteration over a %s value" % str(it[:2] if it[0] == "it" else it[0]))


@vm("len")
def _(cx):
    st = cx.st
    n = st.num.norm(cx.eng.seq_len(st, seq_ref(cx, cx.args[0])))
    if not is_const(n) and not st.num.entails_ge(sub((2 ** 63 - 1, ()), n)):
        st.num.add_ge(sub((2 ** 63 - 1, ()), n))  # no allocation has more elements
    return ("i", n)


@vm("is_empty")
def _(cx):
    n = cx.st.num.norm(cx.eng.seq_len(cx.st, seq_ref(cx, cx.args[0])))
    return b(n[0] == 0 if is_const(n) else ("eq", n))


M[SL + "len"] = M[VEC[0] + "len"]
M[SL + "is_empty"] = M[VEC[0] + "is_empty"]


@vm("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "borrow_mut")
def _(cx):
    return seq_ref(cx, cx.args[0])


M["alloc::slice::{impl Vec}::borrow"] = M[VEC[0] + "deref"]
M["core::convert::{impl [T]}::as_ref"] = M[VEC[0] + "deref"]
M["core::array::{impl [T; N]}::as_slice"] = M[VEC[0] + "deref"]
M["core::array::{impl [T; N]}::as_ref"] = M[VEC[0] + "deref"]
M["core::array::{impl [T; N]}::borrow"] = M[VEC[0] + "deref"]


def elem_ref(eng, st, ref, ix):
    """reference to element ix (a lin) of a slice reference"""
    if ref[0] == "sl":
        return elem_ref(eng, st, ref[1], add(ref[2], ix))
    ix = st.num.norm(ix)
    cur = eng.deref_val(st, ref)
    if cur[0] == "P":
        return ("r", cur[1], cur[2] + (("e", ix),))
    if cur[0] == "V":
        return ("rv", eng.elem(st, cur[1], ("e", ix)))
    raise Stuck("element reference")


def last_ref(cx, mut=False):
    eng, st = cx.eng, cx.st
    ref = seq_ref(cx, cx.args[0])
    if ref[0] == "sb":
        n = st.slen(ref[1])
        if not st.need(("ge", addc(n, -1))):
            return none(cx)
        return some(cx, ("rv", eng.byte_at(st, ref[1], addc(n, -1))))
    if ref[0] == "sl":
        n = sub(ref[3], ref[2])
        if not st.need(("ge", addc(n, -1))):
            return none(cx)
        return some(cx, elem_ref(eng, st, ref, addc(n, -1)))
    q = eng.load(st, eng.deref_val(st, ref))
    if q[0] == "q":
        while q[1]:
            it = q[1][-1]
            if it[0] == "1":
                break
            if it[0] == "g":
                if not st.need(("ge", addc(it[2], -1))):
                    return none(cx)
                return some(cx, elem_ref(eng, st, ref, addc(eng.qlen(st, q), -1)))
            if it[0] == "L":
                eng.unfold_item(st, it)
            if st.need(("ge", addc(it[1], -1))):
                break
            q = ("q", q[1][:-1])
            if ref[0] == "r":
                eng.store(st, eng.deref_val(st, ref), q)
        if not q[1]:
            return none(cx)
        if ref[0] == "rv":
            it = q[1][-1]
            return some(cx, ("rv", it[1] if it[0] == "1" else ix_at(it[2], addc(it[1], -1))))
        cur = eng.deref_val(st, ref)
        return some(cx, ("r", cur[1], cur[2] + (("el", 0),)))
    n = eng.seq_len(st, ref)
    if not st.need(("ge", addc(n, -1))):
        return none(cx)
    return some(cx, elem_ref(eng, st, ref, addc(n, -1)))


M[SL + "last"] = last_ref
M[SL + "last_mut"] = last_ref


@model(SL + "first", SL + "first_mut")
def _(cx):
    eng, st = cx.eng, cx.st
    ref = seq_ref(cx, cx.args[0])
    n = eng.seq_len(st, ref)
    if not st.need(("ge", addc(n, -1))):
        return none(cx)
    if ref[0] == "sb":
        return some(cx, ("rv", eng.byte_at(st, ref[1], ZERO)))
    return some(cx, elem_ref(eng, st, ref, ZERO))


@model(SL + "get", SL + "get_mut")
def _(cx):
    eng, st = cx.eng, cx.st
    ref = seq_ref(cx, cx.args[0])
    n = eng.seq_len(st, ref)
    r = range_bounds(cx, cx.args[1], n) if cx.args[1][0] != "i" else None
    if r is None:
        i = intv(st, cx.args[1])
        if not st.need(("ge", addc(sub(n, i), -1))):
            return none(cx)
        if ref[0] == "sb":
            return some(cx, ("rv", eng.byte_at(st, ref[1], i)))
        return some(cx, elem_ref(eng, st, ref, i))
    lo, hi = r
    if not st.need(("ge", sub(hi, lo))) or not st.need(("ge", sub(n, hi))):
        return none(cx)
    return some(cx, sub_slice(ref, lo, hi))


def sub_slice(ref, lo, hi):
    if ref[0] == "sl":
        return ("sl", ref[1], add(ref[2], lo), add(ref[2], hi))
    if ref[0] == "sb":
        S = ref[1]
        return ("sb", sub_str(S, lo, hi))
    return ("sl", ref, lo, hi)


@model("core::slice::index::{impl [T]}::index", "core::slice::index::{impl [T]}::index_mut", "alloc::vec::{impl Vec}::index", "alloc::vec::{impl Vec}::index_mut", "smallvec::{impl SmallVec}::index", "smallvec::{impl SmallVec}::index_mut", "core::array::{impl [T; N]}::index", "core::array::{impl [T; N]}::index_mut")
def _(cx):
    eng, st = cx.eng, cx.st
    ref = seq_ref(cx, cx.args[0])
    n = eng.seq_len(st, ref)
    if cx.args[1][0] == "i":
        i = intv(st, cx.args[1])
        cx.require(("ge", addc(sub(n, i), -1)), "index out of bounds")
        if ref[0] == "sb":
            return ("rv", eng.byte_at(st, ref[1], i))
        # keep a reference from the end when the index is the last element
        d = st.num.norm(sub(addc(n, -1), i))
        if ref[0] == "r" and is_const(d) and 0 <= d[0] < 4 and not is_const(st.num.norm(i)):
            cur = eng.deref_val(st, ref)
            return ("r", cur[1], cur[2] + (("el", d[0]),))
        return elem_ref(eng, st, ref, i)
    lo, hi = range_bounds(cx, cx.args[1], n)
    cx.require(("ge", sub(hi, lo)), "slice start after its end")
    cx.require(("ge", sub(n, hi)), "slice end out of range")
    return sub_slice(ref, lo, hi)


def slice_iter(cx, ref):
    return ("it", "sl", ref, ("i", ZERO), ("i", cx.eng.seq_len(cx.st, ref)))


@model(SL + "iter", SL + "iter_mut", "core::slice::iter::{impl &[T]}::into_iter", "core::slice::iter::{impl &mut [T]}::into_iter", "alloc::vec::{impl &Vec}::into_iter", "alloc::vec::{impl &mut Vec}::into_iter", "smallvec::{impl &SmallVec}::into_iter", "smallvec::{impl &mut SmallVec}::into_iter", "core::array::{impl &[T; N]}::into_iter", "core::slice::iter::{impl &'a [T]}::into_iter", "core::array::{impl &'a [T; N]}::into_iter")
def _(cx):
    ref = seq_ref(cx, cx.args[0])
    if ref[0] == "sb":
        return ("it", "bytes_ref", ("s", ref[1]))
    if ref[0] in ("r", "rv"):
        q = cx.eng.load(cx.st, cx.eng.deref_val(cx.st, ref))
        if q[0] == "q" and len(q[1]) == 1 and q[1][0][0] == "g" and q[1][0][1] in cx.eng.gens:
            return ("it", "gen", q[1][0][1])
    return slice_iter(cx, ref)


M["alloc::vec::{impl Vec}::iter"] = M[SL + "iter"]


@model("core::slice::iter::{impl Iter}::next", "core::slice::iter::{impl IterMut}::next", "core::slice::iter::{impl Iter}::next_back")
def _(cx):
    eng, st = cx.eng, cx.st
    cur, v = it_load(cx, ("sl", "gen", "bytes_ref"))
    if v[1] == "gen":
        return eng.gens[v[2]](cx, cur, v)
    if v[1] == "bytes_ref":
        r = text_next(cx, st, v[2][1], "bytes")
        if r is None:
            return none(cx)
        eng.store(st, cur, ("it", "bytes_ref", ("s", r[1])))
        return some(cx, ("rv", r[0]))
    lo, hi = v[3][1], v[4][1]
    if not st.need(("ge", addc(sub(hi, lo), -1))):
        return none(cx)
    if cx.rec.get("name") == "next_back":
        eng.store(st, cur, ("it", "sl", v[2], ("i", lo), ("i", addc(hi, -1))))
        return some(cx, elem_ref(eng, st, v[2], addc(hi, -1)))
    eng.store(st, cur, ("it", "sl", v[2], ("i", addc(lo, 1)), ("i", hi)))
    return some(cx, elem_ref(eng, st, v[2], lo))


@model("core::slice::iter::{impl Iter}::nth", "core::slice::iter::{impl IterMut}::nth")
def _(cx):
    eng, st = cx.eng, cx.st
    cur, v = it_load(cx, ("sl",))
    lo, hi, n = v[3][1], v[4][1], intv(st, cx.args[1])
    if not st.need(("ge", addc(sub(sub(hi, lo), n), -1))):
        eng.store(st, cur, ("it", "sl", v[2], ("i", hi), ("i", hi)))
        return none(cx)
    eng.store(st, cur, ("it", "sl", v[2], ("i", addc(add(lo, n), 1)), ("i", hi)))
    return some(cx, elem_ref(eng, st, v[2], add(lo, n)))


@model("synth::next")
def _(cx):
    cur, v = it_load(cx, None)
    k = {"sl": "core::slice::iter::{impl Iter}::next", "gen": "core::slice::iter::{impl Iter}::next", "bytes_ref": "core::slice::iter::{impl Iter}::next",
         "split": SPLIT_NEXT, "chars": "core::str::iter::{impl Chars}::next", "cidx": "core::str::iter::{impl Chars}::next", "bytes": "core::str::iter::{impl Chars}::next"}.get(v[1])
    if k is None:
        k = "alloc::vec::into_iter::{impl IntoIter}::next"
    return M[k](cx)


@model("core::slice::iter::{impl Iter}::len", "core::slice::iter::{impl Iter}::count")
def _(cx):
    v = cx.args[0]
    if v[0] == "r":
        _, v = it_load(cx, ("sl",))
    return ("i", sub(v[4][1], v[3][1]))


@model("core::slice::iter::{impl Iter}::size_hint")
def _(cx):
    _, v = it_load(cx, ("sl",))
    n = ("i", sub(v[4][1], v[3][1]))
    t = cx.eng.ty(cx.rt)
    if t["k"] != "tuple":
        raise Stuck("size_hint")
    return ("tu", (n, some(cx, n, t["elems"][1])))


@model("core::slice::iter::{impl Iter}::as_slice")
def _(cx):
    _, v = it_load(cx, ("sl",))
    return sub_slice(v[2], v[3][1], v[4][1])


@model("alloc::vec::{impl Vec}::into_iter", "smallvec::{impl SmallVec}::into_iter", "core::array::iter::{impl [T; N]}::into_iter", "core::array::iter::{impl IntoIter}::new")
def _(cx):
    v = cx.args[0]
    if v[0] in ("r", "rv"):
        return M[SL + "iter"](cx)
    if v[0] == "it":
        return v
    if v[0] != "q":
        raise Stuck("into_iter of a %s value" % v[0])
    return ("it", "own", v)


@vm("drain")
def _(cx):
    eng, st = cx.eng, cx.st
    cur, q = get_q(cx, cx.args[0])
    n = eng.qlen(st, q)
    lo, hi = range_bounds(cx, cx.args[1], n)
    if not (st.same(hi, n)):
        raise Stuck("drain of a middle part")
    if st.same(lo, ZERO):
        eng.store(st, cur, ("q", ()))
        return ("it", "own", q)
    # split at lo
    cx.require(("ge", sub(n, lo)), "drain start out of range")
    items = q[1]
    tail = ()
    m = sub(n, lo)  # number to take from the back
    while items:
        if st.need(("eq", m)):
            break
        it = items[-1]
        if it[0] == "L":
            eng.unfold_item(st, it)
        k = eng.item_len(st, it)
        if st.need(("ge", sub(m, k))):
            tail = (it,) + tail
            items = items[:-1]
            m = st.num.norm(sub(m, k))
            continue
        tail = (("n", m, ix_from(it[2], sub(k, m))),) + tail
        items = items[:-1] + (("n", st.num.norm(sub(k, m)), it[2]),)
        break
    eng.store(st, cur, ("q", items))
    return ("it", "own", ("q", tail))


@vm("split_off")
def _(cx):
    r = M[VEC[0] + "drain"]
    eng, st = cx.eng, cx.st
    cur, q = get_q(cx, cx.args[0])
    n = eng.qlen(st, q)
    fake = Call(eng, st, cx.rec, [cx.args[0], ("a", range_from_ty(eng), 0, (cx.args[1],))], None, cx.rt, cx.span, cx.fr)
    return r(fake)[2]


def range_from_ty(eng):
    for i, t in enumerate(eng.p.types):
        if t.get("path") == "core::ops::range::RangeFrom":
            return i
    raise Stuck("RangeFrom type")


@model("alloc::vec::into_iter::{impl IntoIter}::next", "alloc::vec::into_iter::{impl IntoIter}::next_back", "smallvec::{impl IntoIter}::next_back", "core::array::iter::{impl IntoIter}::next_back", "alloc::vec::drain::{impl Drain}::next_back", "smallvec::{impl Drain}::next_back", "smallvec::{impl IntoIter}::next", "core::array::iter::{impl IntoIter}::next", "alloc::vec::drain::{impl Drain}::next", "smallvec::{impl Drain}::next", "core::array::iter::iter_inner::{impl PolymorphicIter}::next")
def _(cx):
    eng, st = cx.eng, cx.st
    cur, v = it_load(cx, ("own",))
    r = (pop_back if cx.rec.get("name") == "next_back" else pop_front)(cx, v[2])
    if r is None:
        return none(cx)
    eng.store(st, cur, ("it", "own", r[1]))
    return some(cx, r[0])


@vm("remove", "swap_remove")
def _(cx):
    eng, st = cx.eng, cx.st
    cur, q = get_q(cx, cx.args[0])
    i = st.num.norm(intv(st, cx.args[1]))
    n = eng.qlen(st, q)
    cx.require(("ge", addc(sub(n, i), -1)), "index out of bounds")
    if st.same(i, addc(n, -1)):
        r = pop_back(cx, q)
        eng.store(st, cur, r[1])
        return r[0]
    if st.same(i, ZERO) and not cx.rec["path"].endswith("swap_remove"):
        r = pop_front(cx, q)
        eng.store(st, cur, r[1])
        return r[0]
    raise Stuck("remove")


@vm("insert")
def _(cx):
    eng, st = cx.eng, cx.st
    cur, q = get_q(cx, cx.args[0])
    i = st.num.norm(intv(st, cx.args[1]))
    n = eng.qlen(st, q)
    if st.same(i, n):
        eng.store(st, cur, ("q", q[1] + (("1", cx.args[2]),)))
        return UNIT
    if i == ZERO:
        eng.store(st, cur, ("q", (("1", cx.args[2]),) + q[1]))
        return UNIT
    if is_const(i) and all(x[0] == "1" for x in q[1]):
        cx.require(("ge", sub(n, i)), "insertion past the end")
        eng.store(st, cur, ("q", q[1][:i[0]] + (("1", cx.args[2]),) + q[1][i[0]:]))
        return UNIT
    raise Stuck("insert")


@vm("from", "from_slice", "from_vec", "from_elem", "into_vec", "from_buf", "from_buf_and_len")
def _(cx):
    v = cx.args[0]
    if v[0] == "q" and not cx.rec["path"].endswith("from_elem"):
        return v
    if v[0] in ("r", "rv"):
        q = cx.eng.load(cx.st, cx.eng.deref_val(cx.st, v))
        if q[0] == "q":
            return q
    raise Stuck("from")


@model("alloc::slice::{impl [T]}::to_vec", "alloc::slice::{impl [T]}::to_owned", "alloc::slice::{impl [T]}::into_vec")
def _(cx):
    v = cx.args[0]
    if v[0] in ("r", "rv"):
        q = cx.eng.load(cx.st, cx.eng.deref_val(cx.st, v))
        if q[0] in ("q", "y"):
            return q
    raise Stuck("to_vec of " + v[0])


# ---- equality / membership -----------------------------------------------------------------------

def struct_eq(eng, st, x, y, depth=0):
    """equality of two values of types with structural equality, as a cond"""
    if depth > 40:
        raise Stuck("equality depth")
    if x == y and x[0] not in ("f", "cl"):
        return True
    while x[0] in ("r", "rv"):
        x = eng.load(st, eng.deref_val(st, x))
    while y[0] in ("r", "rv"):
        y = eng.load(st, eng.deref_val(st, y))
    if x == y and x[0] not in ("f", "cl"):
        return True
    for z in (x, y):
        if z[0] in ("s", "S") or (z[0] in ("a", "y") and eng.ty(z[1] if z[0] == "a" else z[2]).get("path") == "alloc::borrow::Cow"):
            try:
                A, B = norm_s(st, S_of(eng, st, x)), norm_s(st, S_of(eng, st, y))
            except Stuck:
                break
            d = st.seq_decide(A, B)
            return d if d is not None else ("seq", A, B)
    if x[0] == "i" and y[0] == "i":
        return eng.compare(st, "Eq", x, y)
    if x[0] in ("b", "c", "ci", "by") and y[0] in ("b", "c", "ci", "by", "i"):
        return eng.compare(st, "Eq", x, y)
    if x[0] in ("a", "y") and y[0] in ("a", "y"):
        tx = x[1] if x[0] == "a" else x[2]
        t = eng.ty(tx)
        if t.get("path") == "alloc::borrow::Cow":
            x = eng.expand(st, x)[3][0]
            y = eng.expand(st, y)[3][0]
            return struct_eq(eng, st, x, y, depth + 1)
        vx, vy = eng.variant_of(st, x), eng.variant_of(st, y)
        if vx != vy:
            return False
        c = True
        for i in range(len(t["variants"][vx]["fields"])):
            c = c_and(c, struct_eq(eng, st, eng.field(st, x, i, variant=vx), eng.field(st, y, i, variant=vy), depth + 1))
            if c is False:
                return False
        return c
    if x[0] == "tu" and y[0] == "tu":
        c = True
        for p, q in zip(x[1], y[1]):
            c = c_and(c, struct_eq(eng, st, p, q, depth + 1))
        return c
    if x[0] == "q" and y[0] == "q":
        nx, ny = eng.qlen(st, x), eng.qlen(st, y)
        if not st.need(("eq", sub(nx, ny))):
            return False
        if all(i[0] == "1" for i in x[1] + y[1]):
            c = True
            for p, q in zip(x[1], y[1]):
                c = c_and(c, struct_eq(eng, st, p[1], q[1], depth + 1))
                if c is False:
                    return False
            return c
    if x[0] == y[0] == "sb" and whole_bytes(st, x) and whole_bytes(st, y):
        return ("seq", norm_s(st, x[1]), norm_s(st, y[1])) if st.seq_decide(x[1], y[1]) is None else st.seq_decide(x[1], y[1])
    raise Stuck("equality of %s and %s" % (x[0], y[0]))


@model(SL + "contains")
def _(cx):
    eng, st = cx.eng, cx.st
    ref = seq_ref(cx, cx.args[0])
    v = eng.strip_refs(st, cx.args[1])
    if ref[0] in ("r", "rv"):
        q = eng.load(st, eng.deref_val(st, ref))
        if q[0] == "q" and all(i[0] == "1" for i in q[1]):
            c = False
            for it in q[1]:
                c = c_or(c, struct_eq(eng, st, it[1], v))
                if c is True:
                    break
            return b(c)
        if q[0] == "y":
            return b(("atom", ("memb", q[1], val_key(eng, st, v))))
    raise Stuck("contains")


def val_key(eng, st, v):
    if v[0] == "y":
        return v[1]
    if v[0] == "a":
        t = eng.ty(v[1])
        if t.get("path") == "alloc::borrow::Cow":
            return val_key(eng, st, v[3][0])
        return "%s::%d(%s)" % (t.get("path"), v[2], ",".join(val_key(eng, st, x) for x in v[3]))
    if v[0] in ("s", "S"):
        return repr(norm_s(st, v[1]))
    if v[0] == "i":
        return repr(st.num.norm(v[1]))
    return repr(v)


@model("core::slice::cmp::{impl [T]}::eq", "alloc::vec::partial_eq::{impl Vec}::eq", "core::slice::cmp::{impl [T]}::ne", "smallvec::{impl SmallVec}::eq", "core::array::equality::{impl [T; N]}::eq", "core::array::equality::{impl [T]}::eq")
def _(cx):
    eng, st = cx.eng, cx.st
    c = struct_eq(eng, st, cx.args[0], cx.args[1])
    if cx.rec.get("name") == "ne":
        c = c_not(c)
    return b(c)


@model("core::slice::{impl [T]}::starts_with", "core::slice::{impl [T]}::ends_with")
def _(cx):
    raise Stuck("slice prefix")


# ---- Cow -------------------------------------------------------------------------------------------

@model("alloc::borrow::{impl Cow}::deref", "alloc::borrow::{impl Cow}::as_ref", "alloc::borrow::{impl Cow}::borrow", "core::borrow::{impl Cow}::borrow")
def _(cx):
    eng, st = cx.eng, cx.st
    cur = eng.deref_val(st, cx.args[0])
    v = eng.load(st, cur)
    while v[0] in ("r", "rv"):
        cur = eng.deref_val(st, v)
        v = eng.load(st, cur)
    if v[0] == "y":
        t = eng.ty(v[2])
        e = t["args"][0]
        if eng.ty(e)["k"] == "str":
            return ("s", cow_text(eng, st, v))
        if eng.ty(e)["k"] == "slice":
            o = ("Y", v[1] + ".slice")
            if o not in st.heap:
                st.heap[o] = ("y", v[1] + ".slice", e)
            return ("r", o, ())
    if v[0] == "a":
        x = v[3][0]
        if x[0] in ("s", "S"):
            return ("s", x[1])
        if x[0] in ("r", "rv", "sl"):
            return x
        if x[0] in ("q", "y"):
            if cur[0] == "P":
                return ("r", cur[1], cur[2] + (("f", 0),))
            return ("rv", x)
    raise Stuck("deref of a Cow")


@model("alloc::string::{impl Cow}::from", "alloc::borrow::{impl Cow}::from")
def _(cx):
    v = cx.args[0]
    if v[0] == "s":
        return ("a", cx.rt, variant(cx.eng, cx.rt, "Borrowed"), (v,))
    if v[0] in ("S", "q"):
        return ("a", cx.rt, variant(cx.eng, cx.rt, "Owned"), (v,))
    if v[0] in ("r", "rv", "sl"):
        return ("a", cx.rt, variant(cx.eng, cx.rt, "Borrowed"), (v,))
    return NotImplemented


@model("alloc::borrow::{impl Cow}::into_owned")
def _(cx):
    eng, st = cx.eng, cx.st
    v = cx.args[0]
    if v[0] == "a" and v[3][0][0] in ("s", "S"):
        return ("S", v[3][0][1])
    if v[0] == "y" and eng.ty(eng.ty(v[2])["args"][0])["k"] == "str":
        return ("S", cow_text(eng, st, v))
    raise Stuck("into_owned")


# ---- ranges ----------------------------------------------------------------------------------------

@model("core::iter::range::{impl Range}::next", "core::iter::range::{impl Range}::spec_next")
def _(cx):
    eng, st = cx.eng, cx.st
    cur = eng.deref_val(st, cx.args[0])
    v = eng.load(st, cur)
    if v[0] == "y":
        v = eng.expand(st, v)
    lo, hi = intv(st, v[3][0]), intv(st, v[3][1])
    if not st.need(("ge", addc(sub(hi, lo), -1))):
        return none(cx)
    eng.store(st, cur, ("a", v[1], v[2], (("i", st.num.norm(addc(lo, 1))), v[3][1])))
    return some(cx, ("i", lo))


@model("core::ops::range::{impl RangeInclusive}::new")
def _(cx):
    return ("a", cx.rt, 0, (cx.args[0], cx.args[1], FALSE))


@model("core::ops::range::{impl RangeInclusive}::start", "core::ops::range::{impl RangeInclusive}::end")
def _(cx):
    return NotImplemented


@model("core::ops::range::{impl Range}::is_empty")
def _(cx):
    v = cx.eng.strip_refs(cx.st, cx.args[0])
    return b(("ge", sub(intv(cx.st, v[3][0]), intv(cx.st, v[3][1]))))


@model("core::ops::range::{impl Range}::contains")
def _(cx):
    st = cx.st
    v = cx.eng.strip_refs(st, cx.args[0])
    x = intv(st, cx.eng.strip_refs(st, cx.args[1]))
    return b(c_and(("ge", sub(x, intv(st, v[3][0]))), ("ge", addc(sub(intv(st, v[3][1]), x), -1))))


@model("core::hint::black_box", "core::hint::must_use", "core::intrinsics::likely", "core::intrinsics::unlikely")
def _(cx):
    return cx.args[0]


@model("core::hint::select_unpredictable")
def _(cx):
    d = cx.st.need(cx.args[0][1])
    return cx.args[1] if d else cx.args[2]


@model("core::intrinsics::cold_path", "core::hint::cold_path", "core::hint::assert_unchecked")
def _(cx):
    return UNIT


def install(eng):
    eng.models.update(M)
    eng.trait_hooks.setdefault(("core::clone::Clone", "clone"), clone_model)


# what is printed (or panicked with) matters only where a formatter is monitored (sa/sink.py)
M["core::fmt::{impl Arguments}::new"] = lambda cx: ("tu", (("T", "arguments"), cx.args[0], cx.args[1]))
for _k in ("from_str", "from_str_nonconst"):
    M["core::fmt::{impl Arguments}::" + _k] = lambda cx: ("tu", (("T", "argstr"), cx.args[0]))
for _k in ("display", "debug", "lower_hex", "upper_hex", "lower_exp", "upper_exp", "octal", "binary", "pointer"):
    M["core::fmt::rt::{impl Argument}::new_" + _k] = lambda cx, k=_k: ("tu", (("T", "fmtarg", k, cx.rec["args"][0] if cx.rec.get("args") else None), cx.args[0]))


def whole_bytes(st, v):
    """the bytes of a text (not of a part that may begin or end inside a character)"""
    S = v[1]
    return S[0] == "k" or st.same(S[2], ZERO) and st.same(S[3], st.tx[S[1]].n)


def bytes_order(old, text):
    def go(cx):
        v, w = (cx.eng.strip_refs(cx.st, x) for x in cx.args[:2])
        if v[0] == w[0] == "sb" and whole_bytes(cx.st, v) and whole_bytes(cx.st, w):
            cx.args = [("s", v[1]), ("s", w[1])]
            return text(cx)
        return old(cx) if old else NotImplemented

    return go


for _k in ("cmp", "partial_cmp"):
    _p = "core::slice::cmp::{impl [T]}::" + _k
    M[_p] = bytes_order(M.get(_p), M["core::str::traits::{impl str}::" + _k])
