"""C16: field types keep their text; text forms of atomics and endianness agree."""
from sa import chars as C
from sa.common import Report, dump
from sa.engine import Forks
from sa.harness import *
from sa.loops import loops_end
from sa.models import S_of, parse_int
from sa.sink import Sink, pieces
from sa.state import Stuck
from sa.values import paths, same_val

T = "cfg_expr::targets::"
FIELDS = ["Triple", "Abi", "Arch", "Vendor", "Os", "Family", "Env", "Panic"]
DISPLAY = "core::fmt::Display"
FROM_STR = "core::str::traits::FromStr"


def run():
    rep = Report("C16", "proof")
    p = dump()
    ids, n = set(), 0
    for name in FIELDS:
        n += field(rep, p, name, ids)
    n += atomic(rep, p, ids)
    n += endian(rep, p, ids)
    loops_end(rep, p, ids)
    rep.extra["analysed"] = {"paths_judged": n, "functions": sorted({p.bodies[i].path for i in ids if i in p.bodies and p.bodies[i].local})}
    return rep


def one(rep, p, rule, bs, what):
    if len(bs) != 1:
        rep.open(rule, what, "%d implementations found" % len(bs))
        return None
    return bs[0]


def field(rep, p, name, ids):
    path = T + name
    ts = p.type_by_path(path)
    if len(ts) != 1:
        rep.open("field type", path, "type not found")
        return 0
    ty = ts[0]
    mine = lambda t: t == ty
    n = 0

    def text_of(eng, s, v):
        v = eng.expand(s, eng.strip_refs(s, v))
        return S_of(eng, s, v[3][0])

    def same(s, a, b):
        r = s.seq_decide(a, b)
        if r is None:
            r = s.need(("seq", a, b))
        return r

    # constructors: every inherent function that returns the type
    made = 0
    for b in p.bodies.values():
        d = b.d
        if not (b.local and "trait" not in d and d.get("impl_self") == ty and b.argc == 1 and b.locals[0] == ty):
            continue
        made += 1
        eng = engine(p, 60)
        st = St()
        want = {}
        at = b.locals[1]
        if p.types[at]["k"] == "ref" and p.types[p.types[at]["elem"]]["k"] == "str":
            want["S"] = st.newtext("given")
            arg = ("s", want["S"])
        else:
            arg = ("y", "#given", at)

            def into(cx):
                # what the caller's value becomes is the text it stands for
                if cx.eng.strip_refs(cx.st, cx.args[0]) != ("y", "#given", at):
                    return NotImplemented
                v = cx.eng.sym(cx.st, cx.rt, "given")
                want["S"] = S_of(cx.eng, cx.st, v)
                return v

            eng.trait_hooks[("core::convert::Into", "into")] = into
            eng.trait_hooks[("core::convert::From", "from")] = into

        def judge(s, r):
            if "S" not in want:
                return None, "the given value is not used in a way that is followed"
            return same(s, text_of(eng, s, r), want["S"]), "%s::%s keeps another text than it was given" % (name, d["name"])

        n += paths(rep, "constructor", eng, b, [arg], st, judge)
        ids |= eng.visited
    rep.check("has constructors", made > 0, path, "no constructor found") if made else rep.open("has constructors", path, "none found")

    # what gives the text back
    back = [b for b in p.bodies.values() if b.local and b.d.get("impl_self") == ty and b.argc == 1 and p.types[b.locals[0]]["k"] == "ref"
            and p.types[p.types[b.locals[0]]["elem"]]["k"] == "str"]
    kinds = {b.d["name"] for b in back}
    for w in ("as_str", "as_ref"):
        if w not in kinds:
            rep.open("text back", path, "no " + w)
    for b in back:
        eng = engine(p, 60)
        st = St()
        me = eng.sym(st, ty, "me")
        st.heap[("H", "me")] = me

        def judge(s, r):
            return same(s, S_of(eng, s, r), text_of(eng, s, me)), "%s of %s gives another text than it holds" % (b.d["name"], name)

        n += paths(rep, "text back", eng, b, [("r", ("H", "me"), ())], st, judge)
        ids |= eng.visited
    b = one(rep, p, "Display", p.find_impl(DISPLAY, "fmt", mine), path)
    if b:
        eng = engine(p, 60)
        st = St()
        sink = Sink(eng)
        f = sink.start(st)
        me = eng.sym(st, ty, "me")
        st.heap[("H", "me")] = me

        def judge(s, r):
            w = written(eng, s, r)
            if w is not None:
                return w
            return shows(eng, s, text_of(eng, s, me)), "Display of %s does not write exactly its text" % name

        n += paths(rep, "Display", eng, b, [("r", ("H", "me"), ()), f], st, judge)
        ids |= eng.visited
    b = one(rep, p, "equality", p.find_impl("core::cmp::PartialEq", "eq", mine), path)
    if b:
        eng = engine(p, 60)
        st = St()
        x, y = eng.sym(st, ty, "x"), eng.sym(st, ty, "y")
        st.heap[("H", "x")], st.heap[("H", "y")] = x, y

        def judge(s, r):
            q = same(s, text_of(eng, s, x), text_of(eng, s, y))
            return s.need(r[1]) == q, "two %s with %s text compare as %s" % (name, "the same" if q else "different", "different" if q else "equal")

        n += paths(rep, "equality", eng, b, [("r", ("H", "x"), ()), ("r", ("H", "y"), ())], st, judge)
        ids |= eng.visited
    return n


def written(eng, s, r):
    """None when the result and the writes agree; else a judgement"""
    vi = eng.variant_of(s, r)
    t = eng.ty(r[1] if r[0] == "a" else r[2])
    if s.ext["failed"] == ("b", True):
        return True, ""
    if t["variants"][vi]["name"] != "Ok":
        return False, "gives an error although every write succeeded"
    return None


def shows(eng, s, S):
    """do the pieces written make up exactly the text S?  True, False or None"""
    ps = pieces(s)
    if any(x[0] == "any" for x in ps):
        return None
    k = s.str_const(S) if S[0] == "t" else S[1]
    if k is not None:
        S = ("k", k)
    if not ps:
        return s.need(("eq", s.slen(S)))
    if len(ps) == 1:
        x = ps[0]
        if x[0] == "t" or x[0] == "k":
            o = x[1] if x[0] == "t" else ("k", x[1])
            r = s.seq_decide(o, S)
            return s.need(("seq", o, S)) if r is None else r
        if x[0] == "rep":
            return None
        return False
    return False if all(x[0] == "k" or x[0] == "t" for x in ps) and S[0] == "t" and [x for x in ps if x[0] == "t" and x[1] == S] else None


def atomic(rep, p, ids):
    path = T + "HasAtomic"
    ts = p.type_by_path(path)
    if len(ts) != 1 or {v["name"] for v in p.types[ts[0]]["variants"]} != {"IntegerSize", "Pointer"}:
        rep.open("atomics", path, "the type is not the expected one")
        return 0
    ty = ts[0]
    mine = lambda t: t == ty
    iv, pv = p.variant(ty, "IntegerSize"), p.variant(ty, "Pointer")
    ity = p.types[ty]["variants"][iv]["fields"][0]["ty"]
    n = 0
    b = one(rep, p, "reading an atomic", p.find_impl(FROM_STR, "from_str", mine), path)
    if b:
        eng = engine(p, 60)
        st = St()
        S = st.newtext("t")
        rt = b.locals[0]

        def judge(s, r):
            r = eng.expand(s, r)
            got = p.types[rt]["variants"][r[2]]["name"]
            a = eng.expand(s, r[3][0]) if got == "Ok" else None
            k = s.str_const(S)
            if k is None and s.need(("seq", S, ("k", "ptr"))) or k == "ptr":
                if part_reads(s, S, "ptr"):
                    return True, ""
                return a is not None and a[2] == pv, '"ptr" is not read as Pointer'
            want, num = u16(eng, s, S, ity)
            if want is None:
                return None, "the number is not read in a way that is followed"
            if not want:
                return a is None, "reads a text that is neither a u16 nor ptr"
            if a is None:
                return False, "refuses a u16"
            if a[2] != iv:
                return False, "reads a number as Pointer"
            return s.need(("eq", sub(num, a[3][0][1]))), "reads a number as another number"

        n += paths(rep, "reading an atomic", eng, b, [("s", S)], st, judge)
        ids |= eng.visited
    b = one(rep, p, "printing an atomic", p.find_impl(DISPLAY, "fmt", mine), path)
    if b:
        for vi in (iv, pv):
            eng = engine(p, 60)
            st = St()
            sink = Sink(eng)
            f = sink.start(st)
            num = eng.sym(st, ity, "n") if vi == iv else None
            st.heap[("H", "me")] = ("a", ty, vi, (num,) if vi == iv else ())

            def judge(s, r):
                w = written(eng, s, r)
                if w is not None:
                    return w
                if vi == pv:
                    return shows(eng, s, ("k", "ptr")), "Pointer is not printed as ptr"
                ps = pieces(s)
                if any(x[0] == "any" for x in ps):
                    return None, "the number is printed in a way that is not followed"
                if len(ps) == 1 and ps[0][0] == "int":
                    return s.need(("eq", sub(ps[0][1], num[1]))), "prints another number"
                if len(ps) == 1 and ps[0][0] == "k" and ps[0][1].isdigit() and str(int(ps[0][1])) == ps[0][1]:
                    return s.need(("eq", sub(K(int(ps[0][1])), num[1]))), "prints another number"
                return False, "an integer size is printed as %s" % (ps,)

            n += paths(rep, "printing an atomic", eng, b, [("r", ("H", "me"), ()), f], st, judge)
            ids |= eng.visited
    return n


def part_reads(s, S, k):
    """is this path one on which a part of the text was read as a number, which no part of k is?"""
    return any(key[0] == "parsed" and v is not False and key[2][0] == "t" and key[2][1] == S[1] for key, v in s.facts.items()) and not any(c.isdigit() for c in k)


def u16(eng, s, S, ity):
    """(is S a u16, its value) as far as this path knows; (None, _) when it does not"""
    k = s.str_const(S)
    if k is not None:
        x = k[1:] if k[:1] == "+" else k
        ok = x.isascii() and x.isdigit() and int(x) < 65536
        return ok, K(int(x)) if ok else None
    facts = {key[1]: v for key, v in s.facts.items() if key[0] == "parsed" and s.seq_decide(key[2], S) is True}
    if "u16" in facts:
        return (False, None) if facts["u16"] is False else (True, V(facts["u16"]))
    for t in ("u32", "u64", "u128", "usize"):
        if t in facts:
            if facts[t] is False:
                return False, None
            if s.need(("ge", sub(K(65535), V(facts[t])))):
                return True, V(facts[t])
            return False, None
    if "u8" in facts and facts["u8"] is not False:
        return True, V(facts["u8"])
    number = C.mk("+", ("0", "9"))
    for key, v in s.facts.items():
        if key[0] == "parsed" and key[2][0] == "t" and key[2][1] == S[1]:
            # a part of the text was read: what is around it decides
            _, _, a, b = key[2]
            for lo, hi in ((S[2], a), (b, S[3])):
                if s.need(("ge", addc(sub(hi, lo), -1))):
                    if s.in_cls(S[1], lo, hi, C.compl(number)):
                        return False, None
                    return None, None
            if key[1] == "u16":
                return (False, None) if v is False else (True, V(v))
    if s.tx[S[1]].cls or s.tx[S[1]].ch:
        return None, None
    # nothing was asked about the text: it may be any number, and may be none
    if "u8" in facts:
        return True, K(256)
    return (True, V("a number")) if s.need(("atom", "a number")) else (False, None)


def endian(rep, p, ids):
    path = T + "Endian"
    ts = p.type_by_path(path)
    if len(ts) != 1 or {v["name"] for v in p.types[ts[0]]["variants"]} != {"big", "little"}:
        rep.open("endian", path, "the type is not the expected one")
        return 0
    ty = ts[0]
    b = one(rep, p, "reading an endian", p.find_impl(FROM_STR, "from_str", lambda t: t == ty), path)
    if not b:
        return 0
    eng = engine(p, 60)
    st = St()
    S = st.newtext("t")
    rt = b.locals[0]

    def judge(s, r):
        r = eng.expand(s, r)
        got = None
        if p.types[rt]["variants"][r[2]]["name"] == "Ok":
            a = eng.expand(s, r[3][0])
            got = p.types[ty]["variants"][a[2]]["name"]
        for w in ("big", "little"):
            if s.need(("seq", S, ("k", w))):
                return got == w, "%r is read as %s" % (w, got)
        return got is None, "a text that is neither big nor little is read as %s" % got

    n = paths(rep, "reading an endian", eng, b, [("s", S)], st, judge)
    ids |= eng.visited
    return n
