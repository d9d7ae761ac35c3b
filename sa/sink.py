"""What a formatter is given: the pieces written are kept, in order, as the ghost `out` (a sequence of
texts, runs of one character with their length, integers, values formatted by another Display, and
`any` where pieces of a loop were merged).  Every write can also fail, once (`failed`)."""
from . import chars as C
from .engine import Outcomes, UNIT
from .harness import *
from .models import S_of, cat, cat_parts, intv, sub_str, variant
from .state import Stuck, Split

DISPLAY = "core::fmt::Display"
FMT = "core::fmt::{impl Formatter}::"
ANY = ("tu", (("T", "any"),))
USIZE_MAX = 2 ** 64 - 1


def rep(c, n):
    return ("tu", (("T", "rep", c), ("i", n)))


class Sink:
    def __init__(self, eng, atomic=()):
        """atomic: bodies of Display impls kept as one piece (with the value formatted)"""
        self.eng = eng
        self.atomic = {b.id for b in atomic}
        e = eng
        e.hooks[FMT + "write_str"] = lambda cx: self.texts(cx, cx.args[1])
        e.hooks[FMT + "pad"] = lambda cx: self.texts(cx, cx.args[1])
        e.hooks[FMT + "write_char"] = lambda cx: self.outs(cx, self.put(cx.st, self.char(cx.st, cx.args[1])))
        e.hooks[FMT + "write_fmt"] = lambda cx: self.outs(cx, self.arguments(cx, cx.st, cx.args[1]))
        e.hooks["core::fmt::{impl Arguments}::new"] = lambda cx: ("tu", (("T", "arguments"), cx.args[0], cx.args[1]))
        e.hooks["core::fmt::{impl Arguments}::from_str"] = lambda cx: ("tu", (("T", "argstr"), cx.args[0]))
        e.hooks["core::fmt::{impl Arguments}::from_str_nonconst"] = e.hooks["core::fmt::{impl Arguments}::from_str"]
        for k in ("display", "debug", "lower_hex", "upper_hex", "lower_exp", "upper_exp", "octal", "binary", "pointer"):
            e.hooks["core::fmt::rt::{impl Argument}::new_" + k] = lambda cx, k=k: ("tu", (("T", "fmtarg", k, cx.rec["args"][0] if cx.rec.get("args") else None), cx.args[0]))
        e.hooks["core::fmt::rt::{impl Argument}::from_usize"] = self.width
        e.hooks["alloc::fmt::format"] = self.format
        e.hooks["alloc::string::{impl String}::write_str"] = lambda cx: self.into_string(cx, "push_str")
        e.hooks["alloc::string::{impl String}::write_char"] = lambda cx: self.into_string(cx, "push")
        e.hooks["core::fmt::Write::write_fmt"] = self.string_fmt
        e.trait_hooks[("alloc::string::ToString", "to_string")] = self.to_string
        e.trait_hooks[(DISPLAY, "fmt")] = self.display
        e.at_head = self.at_head
        self.bodies = {}
        for b in e.p.bodies.values():
            if b.d.get("trait") == DISPLAY and b.d.get("name") == "fmt":
                self.bodies.setdefault(b.d["impl_self"], b)
            if b.id in self.atomic:
                e.body_hooks[b.id] = self.whole

    def start(self, st):
        st.ext["out"] = ("q", ())
        st.ext["failed"] = ("b", False)
        if ("H", "fmt") not in st.heap:
            st.heap[("H", "fmt")] = ("tu", (("T", "formatter"),))
        return ("r", ("H", "fmt"), ())

    # ---- pieces
    def append(self, st, piece):
        its = st.ext["out"][1]
        if its and piece[0] == "tu" and piece[1][0][:2] == ("T", "rep") and its[-1][1][0] == "tu" and its[-1][1][1][0] == piece[1][0]:
            its, n = its[:-1], its[-1][1][1][1][1]
            piece = rep(piece[1][0][2], add(n, piece[1][1][1]))
        st.ext["out"] = ("q", its + (("1", piece),))

    def piece(self, st, S):
        """the pieces of a text"""
        if S[0] == "t":
            k = st.str_const(S)
            if k is not None:
                S = ("k", k)
        if S[0] == "k":
            if not S[1]:
                return []
            if len(set(S[1])) == 1:
                return [rep(S[1][0], K(len(S[1])))]
        else:
            c = run_of(st, S)
            if c is not None:
                return [rep(c, sub(S[3], S[2]))]
            ps = cat_parts(st, S)
            if len(ps) > 1:
                return [x for S in ps for x in self.piece(st, S)]
            w = st.facts.get(("written", S[1]))
            if w is not None and st.same(S[2], ZERO) and st.same(S[3], st.tx[S[1]].n):
                return [w]
        return [("s", S)]

    def char(self, st, v):
        if v[0] == "c" and isinstance(v[1], int):
            return [rep(chr(v[1]), ONE)]
        return [ANY]

    def put(self, st, pieces):
        """[(state, written?)]"""
        out = []
        if st.ext["failed"] == ("b", False):
            bad = st.copy()
            bad.ext["failed"] = ("b", True)
            out.append((bad, False))
        for x in pieces:
            self.append(st, x)
        out.append((st, True))
        return out

    def texts(self, cx, v):
        S = S_of(cx.eng, cx.st, v)
        return self.outs(cx, self.put(cx.st, self.piece(cx.st, S)))

    def outs(self, cx, outs):
        rt = cx.rt
        ok, err = variant(self.eng, rt, "Ok"), variant(self.eng, rt, "Err")
        ety = self.eng.ty(rt)["variants"][err]["fields"][0]["ty"]
        res = []
        for s, good in outs:
            if not isinstance(good, bool):
                res.append((s, good))
            elif good:
                res.append((s, ("a", rt, ok, (UNIT,))))
            else:
                res.append((s, ("a", rt, err, (self.eng.sym(s, ety, fresh()),))))
        raise Outcomes(res)

    # ---- texts put together before they are written
    def collect(self, cx, st, write):
        """[(state, text)]: what is written, as a text"""
        keep = st.ext["out"], st.ext["failed"]
        st.ext["out"], st.ext["failed"] = ("q", ()), ("b", True)  # memory does not fail
        res = []
        for s, good in write(st):
            if not good:
                continue
            S = ("k", "")
            for x in pieces(s):
                if x[0] == "k":
                    T = ("k", x[1])
                elif x[0] == "t":
                    T = x[1]
                elif x[0] == "rep" and ord(x[1]) < 128:
                    T = s.newtext(fresh())
                    s.num.add_eq(sub(T[3], x[2]))
                    s.add_cls(T[1], ZERO, T[3], C.mk(x[1]))
                elif x[0] in ("int", "shown"):
                    T = s.newtext(fresh())
                    if x[0] == "int":
                        s.num.add_ge(addc(T[3], -1))
                    s.facts[("written", T[1])] = ("tu", (("T", "int"), ("i", x[1]))) if x[0] == "int" else ("tu", (("T", "shown", x[1]), x[2]))
                else:
                    raise Stuck("formatting into a String")
                S = cat(s, S, T)
            s.ext["out"], s.ext["failed"] = keep
            res.append((s, S))
        return res

    def format(self, cx):
        raise Outcomes([(s, ("S", S)) for s, S in self.collect(cx, cx.st, lambda st: self.arguments(cx, st, cx.args[0]))])

    def to_string(self, cx):
        v = self.eng.strip_refs(cx.st, cx.args[0])
        if v[0] in ("s", "S"):
            return NotImplemented
        ty = cx.rec.get("impl_self")
        if ty is None and cx.rec.get("args"):
            ty = cx.rec["args"][0]
        raise Outcomes([(s, ("S", S)) for s, S in self.collect(cx, cx.st, lambda st: self.shown(cx, st, cx.args[0], ty))])

    def into_string(self, cx, what):
        from .models import M

        M["alloc::string::{impl String}::" + what](cx)
        return ("a", cx.rt, variant(self.eng, cx.rt, "Ok"), (UNIT,))

    def string_fmt(self, cx):
        v = cx.args[0]
        cur = self.eng.strip_refs(cx.st, v)
        if cur[0] != "S":
            return NotImplemented
        from .models import seq_place

        place = seq_place(cx, v)
        res = []
        for s, S in self.collect(cx, cx.st, lambda st: self.arguments(cx, st, cx.args[1])):
            self.eng.store(s, place, ("S", cat(s, S_of(self.eng, s, self.eng.load(s, place)), S)))
            res.append((s, ("a", cx.rt, variant(self.eng, cx.rt, "Ok"), (UNIT,))))
        raise Outcomes(res)

    # ---- format_args!
    def width(self, cx):
        n = intv(cx.st, self.eng.strip_refs(cx.st, cx.args[0]))
        if not cx.st.need(("ge", sub(K(65535), n))):
            self.eng.panic(cx.st, "a width above 65535 given to a format string", cx.span, "format width")
            from .engine import Dead
            raise Dead()
        return ("tu", (("T", "width"), ("i", n)))

    def arguments(self, cx, st, v):
        while v[0] in ("r", "rv"):
            v = self.eng.load(st, self.eng.deref_val(st, v))
        if v[0] == "tu" and v[1][0] == ("T", "argstr"):
            return self.put(st, self.piece(st, S_of(self.eng, st, v[1][1])))
        if v[0] != "tu" or v[1][0] != ("T", "arguments"):
            raise Stuck("format arguments")
        tmpl = raw(self.eng, st, v[1][1])
        args = self.eng.strip_refs(st, v[1][2])
        if args[0] != "q" or any(x[0] != "1" for x in args[1]):
            raise Stuck("format arguments")
        args = [x[1] for x in args[1]]
        work = [(st, True)]
        for kind, what in parts(tmpl):
            nxt = []
            for s, good in work:
                if not good:
                    nxt.append((s, good))
                elif kind == "text":
                    nxt.extend(self.put(s, self.piece(s, ("k", what))))
                else:
                    nxt.extend(self.placeholder(cx, s, args, *what))
            work = nxt
        return work

    def placeholder(self, cx, st, args, ix, flags, width, prec):
        a = args[ix]
        if a[0] != "tu" or a[1][0][:2] != ("T", "fmtarg"):
            raise Stuck("format argument")
        kind, ty = a[1][0][2:]
        if prec is not None or kind != "display":
            return self.put(st, [ANY])
        if width is None:
            return self.shown(cx, st, a[1][1], ty)
        w = K(width[1]) if width[0] == "const" else intv(st, args[width[1]][1][1])
        v = self.eng.strip_refs(st, a[1][1])
        fill = chr(flags & 0x1FFFFF) if flags is not None else " "
        if v[0] in ("s", "S") and v[1] == ("k", ""):
            return self.put(st, [rep(fill, w)])
        return self.put(st, [ANY])

    def shown(self, cx, st, ref, ty):
        """Display::fmt of the value behind ref"""
        eng = self.eng
        v = eng.strip_refs(st, ref)
        while ty is not None and eng.ty(ty)["k"] == "ref":
            ty = eng.ty(ty)["elem"]
        if v[0] in ("s", "S"):
            return self.put(st, self.piece(st, v[1]))
        if v[0] == "i":
            n = st.num.norm(v[1])
            if n == K(n[0]):
                return self.put(st, self.piece(st, ("k", str(n[0]))))
            return self.put(st, [("tu", (("T", "int"), v))])
        if v[0] == "c":
            return self.put(st, self.char(st, v))
        t = eng.ty(ty) if ty is not None else {"k": "?"}
        if t["k"] == "adt" and t.get("path") == "alloc::borrow::Cow":
            return self.put(st, self.piece(st, S_of(eng, st, v)))
        b = self.bodies.get(ty)
        if b is None:
            return self.put(st, [ANY])
        while ref[0] in ("r", "rv"):
            nx = eng.load(st, eng.deref_val(st, ref))
            if nx[0] not in ("r", "rv"):
                break
            ref = nx
        if b.id in self.atomic:
            return self.put(st, [("tu", (("T", "shown", b.id), v))])
        out = []
        for s, r in eng.call_body(st, b, [ref, ("r", ("H", "fmt"), ())], loops=True):
            out.extend(self.result(s, r))
        return out

    def result(self, s, r):
        vi = self.eng.variant_of(s, r)
        t = self.eng.ty(r[1] if r[0] == "a" else r[2])
        return [(s, t["variants"][vi]["name"] == "Ok")]

    def display(self, cx):
        """a direct call of Display::fmt"""
        b = self.eng.p.bodies.get(cx.rec.get("inst", -1))
        if b is not None and b.local:
            return NotImplemented
        return self.outs(cx, self.shown(cx, cx.st, cx.args[0], cx.rec.get("impl_self")))

    def whole(self, cx):
        v = self.eng.strip_refs(cx.st, cx.args[0])
        bid = [b for b in self.atomic if self.eng.p.bodies[b].path == cx.rec.get("rpath", cx.rec.get("path"))]
        bid = cx.rec.get("inst", bid[0] if bid else -1)
        return self.outs(cx, self.put(cx.st, [("tu", (("T", "shown", bid), v))]))

    # ---- loops: what an iteration writes is folded into one piece at the loop's head
    def at_head(self, st):
        if "out" not in st.ext:
            return None
        fr = st.frames[-1]
        mark = "loop%d.%d" % (fr.body.id, fr.bb)
        its = st.ext["out"][1]
        at = None
        for i in range(len(its) - 1, -1, -1):
            x = its[i][1]
            if x[0] == "tu" and x[1][0][:2] == ("T", "loop") and x[1][0][2] == mark:
                at = i
                break
        if at is None or fr.vis.get(fr.bb) is None:
            st.ext["out"] = ("q", its + (("1", ("tu", (("T", "loop", mark, None), ("i", ZERO)))),))
            return st
        c, n = its[at][1][1][0][3], its[at][1][1][1][1]
        for _, x in its[at + 1:]:
            if x[0] == "tu" and x[1][0][0] == "T" and x[1][0][1] in ("rep", "loop"):
                d = x[1][0][2] if x[1][0][1] == "rep" else x[1][0][3]
                if d is None:
                    continue
                if c is None or c == d:
                    c, n = d, add(n, x[1][1][1])
                    continue
            c, n = "any", ZERO
            break
        if c == "any":
            n = ZERO
        st.ext["out"] = ("q", its[:at] + (("1", ("tu", (("T", "loop", mark, c), ("i", n)))),))
        return st


def run_of(st, S):
    """the one character a text consists of"""
    for a, b, k in st.tx[S[1]].cls:
        if len(k) == 1 and k[0][0] == k[0][1] < 128 and st.ge(S[2], a) and st.ge(b, S[3]):
            return chr(k[0][0])
    return None


def raw(eng, st, v):
    v = eng.strip_refs(st, v)
    if v[0] in ("s", "S") and v[1][0] == "k":
        return v[1][1].encode()
    if v[0] == "q":
        out = []
        for k, x in v[1]:
            n = x[1]
            if isinstance(n, int):
                out.append(n)
            elif is_const(n):
                out.append(n[0])
            else:
                raise Stuck("format template")
        return bytes(out)
    raise Stuck("format template")


def parts(t):
    i = arg = 0
    while i < len(t):
        n = t[i]
        i += 1
        if n == 0:
            return
        if n < 0x80:
            yield "text", t[i:i + n].decode()
            i += n
        elif n == 0x80:
            n = t[i] + 256 * t[i + 1]
            yield "text", t[i + 2:i + 2 + n].decode()
            i += 2 + n
        else:
            flags = width = prec = None
            if n & 1:
                flags = int.from_bytes(t[i:i + 4], "little")
                i += 4
            if n & 2:
                width = ("arg" if n & 16 else "const", t[i] + 256 * t[i + 1])
                i += 2
            if n & 4:
                prec = t[i] + 256 * t[i + 1]
                i += 2
            if n & 8:
                arg = t[i] + 256 * t[i + 1]
                i += 2
            yield "arg", (arg, flags, width, prec)
            arg += 1


def pieces(st):
    """the pieces written, runs and constants merged: [("k", str) | ("rep", c, n) | ("t", S) | ("int", n) |
    ("shown", body, value) | ("any",)]"""
    out = []
    for _, x in st.ext["out"][1]:
        if x[0] == "s":
            out.append(("k", x[1][1]) if x[1][0] == "k" else ("t", x[1]))
        elif x[1][0][1] in ("rep", "loop"):
            c = x[1][0][2] if x[1][0][1] == "rep" else x[1][0][3]
            n = st.num.norm(x[1][1][1])
            if c is None or n == ZERO and c != "any":
                continue
            if c == "any":
                out.append(("any",))
            elif is_const(n):
                out.append(("k", c * n[0]))
            else:
                out.append(("rep", c, n))
        elif x[1][0][1] == "int":
            out.append(("int", x[1][1][1]))
        elif x[1][0][1] == "shown":
            out.append(("shown", x[1][0][2], x[1][1]))
        else:
            out.append(("any",))
    res = []
    for x in out:
        if res and x[0] == "k" and res[-1][0] == "k":
            res[-1] = ("k", res[-1][1] + x[1])
        elif res and x[0] == "rep" and res[-1][0] == "rep" and res[-1][1] == x[1]:
            res[-1] = ("rep", x[1], add(res[-1][2], x[2]))
        else:
            res.append(x)
    return res
