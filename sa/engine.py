"""Abstract interpreter for the MIR of the analysed crate.

Values are immutable tuples:
  ('i', lin)            integer                       ('b', cond)          bool
  ('c', csym)           char                          ('ci', csym)         integer value of a char
  ('s', S)              &str; S = ('k', text) | ('t', tid, lo, hi)
  ('S', S)              String (and Box<str>)         ('sb', S)            &[u8] of a str
  ('q', items)          Vec/SmallVec/array; items: ('1', v) | ('n', lin, v) | ('L', key)
  ('r', obj, path)      reference to a place          ('rv', v)            reference to a constant
  ('sl', ref, lo, hi)   sub-slice of a 'q'
  ('a', ty, var, fs)    struct / enum                 ('tu', fs)           tuple
  ('cl', ty, fs)        closure                       ('f', rec)           function item / pointer
  ('y', id, ty)         symbolic value, expanded on demand
  ('it', kind, ...)     iterator modelled directly    ('T', ...)           opaque token of a check
"""
from . import chars as C
from .num import V, K, ZERO, ONE, add, sub, neg, addc, scale, is_const, show as lshow
from .synth import Synth, ITER, NAMES
from .state import St, Frame, Split, Stuck, fresh, c_not, c_and, c_or, ISIZE_MAX

UNIT = ("tu", ())
TRUE = ("b", True)
FALSE = ("b", False)

INTS = {}
for _n, _b in (("8", 8), ("16", 16), ("32", 32), ("64", 64), ("128", 128), ("size", 64)):
    INTS["u" + _n] = (0, 2 ** _b - 1)
    INTS["i" + _n] = (-(2 ** (_b - 1)), 2 ** (_b - 1) - 1)

FN_TRAITS = {
    "core::ops::function::FnOnce": "call_once",
    "core::ops::function::FnMut": "call_mut",
    "core::ops::function::Fn": "call",
    "core::ops::async_function::AsyncFn": "x",
}


class Dead(Exception):
    pass


class Forks(Exception):
    """alternatives of a call's result: [(refine(st) or None, value or function of st)]"""

    def __init__(self, alts):
        self.alts = alts


class Outcomes(Exception):
    """complete successor states of a call, with its result: [(state, value)]"""

    def __init__(self, outs):
        self.outs = outs


class Panic:
    __slots__ = ("st", "msg", "span", "where", "kind")

    def __init__(self, st, msg, span, where, kind):
        self.st = st
        self.msg = msg
        self.span = span
        self.where = where
        self.kind = kind

    def doubt(self, strict=False):
        """why this panic may be impossible all the same; a 64-bit count that joined states know nothing about is not
        reported to overflow"""
        d = self.st.doubt(strict or self.kind == "overflow of 64 bits")
        return d[0] if d else None


class Limit(Exception):
    pass


class Call:
    __slots__ = ("eng", "st", "rec", "args", "at", "rt", "span", "fr")

    def __init__(self, eng, st, rec, args, at, rt, span, fr):
        self.eng = eng
        self.st = st
        self.rec = rec
        self.args = args
        self.at = at
        self.rt = rt
        self.span = span
        self.fr = fr

    def require(self, cond, msg):
        self.eng.require(self.st, cond, msg, self.span)


def place_key(p):
    return p


class Engine:
    def __init__(self, prog):
        self.p = prog
        self.hooks = {}  # rpath or path -> fn(call)
        self.models = {}
        self.trait_hooks = {}  # (trait, name) -> fn
        self.body_hooks = {}  # body id -> fn
        self.panics = []
        self.stucks = {}
        self.at_head = None
        self.unfold = None
        self.no_join = None
        self.on_clone = None
        self.read_item = None
        self.gens = {}
        self.gen_elems = {}
        self.mute = False
        self.max_steps = 3_000_000
        self.steps = 0
        self.visited = set()
        self.ncalls = {}
        self.nhead = 0
        self.const_cache = {}
        self.intk = {}
        for i, t in enumerate(prog.types):
            if t["k"] == "int":
                self.intk[i] = INTS[t["name"]]
        self.rets_seen = 0
        self.deadline = None
        self.base = 0
        self.max_unroll = 3000
        self.max_heads = 4000
        self.dropped = False
        self.synth = Synth(prog)
        self.join_first = lambda st: False

    # ---- types ------------------------------------------------------------------------------
    def ty(self, i):
        return self.p.types[i]

    def find_ty(self, s):
        if not hasattr(self, "_tys"):
            self._tys = {}
            for i, t in enumerate(self.p.types):
                self._tys.setdefault(t["s"], i)
        return self._tys.get(s)

    # ---- symbolic values --------------------------------------------------------------------
    def sym(self, st, ty, sid):
        t = self.ty(ty)
        k = t["k"]
        if k == "int":
            lo, hi = self.intk[ty]
            st.num.add_ge(V(sid, 1, -lo))
            st.num.add_ge(V(sid, -1, hi))
            return ("i", V(sid))
        if k == "bool":
            return ("b", ("atom", sid))
        if k == "char":
            if sid not in st.chars:
                st.chars[sid] = C.FULL
                st.num.add_ge(V(sid + ".w", 1, -1))
                st.num.add_ge(V(sid + ".w", -1, 4))
            return ("c", sid)
        if k == "ref" or (k == "adt" and t["path"] == "alloc::boxed::Box"):
            e = t["elem"] if k == "ref" else t["args"][0]
            ek = self.ty(e)["k"]
            if ek == "str":
                if sid not in st.tx:
                    st.newtext(sid)
                return ("s" if k == "ref" else "S", ("t", sid, ZERO, st.tx[sid].n))
            o = ("Y", sid)
            if o not in st.heap:
                st.heap[o] = self.sym(st, e, sid + "*")
            return ("r", o, ())
        if k == "adt" and t["path"] == "alloc::string::String":
            if sid not in st.tx:
                st.newtext(sid)
            return ("S", ("t", sid, ZERO, st.tx[sid].n))
        if k == "tuple":
            return ("tu", tuple(self.sym(st, e, "%s.%d" % (sid, i)) for i, e in enumerate(t["elems"])))
        if k == "slice":
            return ("y", sid, ty)
        if k == "fndef":
            return ("f", t["fn"])
        if k == "closure":
            return ("cl", ty, tuple(self.sym(st, e, "%s.%d" % (sid, i)) for i, e in enumerate(t["upvars"])))
        return ("y", sid, ty)

    def variant_of(self, st, v):
        """variant index of an enum/struct value; splits when unknown"""
        if v[0] == "a":
            return v[2]
        if v[0] == "y":
            t = self.ty(v[2])
            if t["k"] != "adt":
                raise Stuck("variant of " + t["s"])
            vs = t["variants"]
            if len(vs) == 1:
                return 0
            sid = v[1]
            k = st.var.get(sid)
            if isinstance(k, int):
                return k
            cand = [i for i in range(len(vs)) if not (k and i in k)]

            def setter(i):
                def f(s):
                    s.var[sid] = i

                return f

            raise Split([setter(i) for i in cand], ("variant", sid))
        raise Stuck("variant of a %s value" % v[0])

    def field(self, st, v, i, fty=None, variant=None):
        k = v[0]
        if k == "a" or k == "cl":
            fs = v[3] if k == "a" else v[2]
            if i >= len(fs):
                raise Stuck("field out of range")
            return fs[i]
        if k == "tu":
            return v[1][i]
        if k in ("r", "rv", "S") and i == 0:
            return v  # the pointer inside a Box
        if k == "y":
            t = self.ty(v[2])
            if t["k"] == "adt":
                vi = variant if variant is not None else 0
                if variant is None and len(t["variants"]) > 1:
                    vi = self.variant_of(st, v)
                f = t["variants"][vi]["fields"][i]
                nm = "%s.%d" % (v[1], i) if len(t["variants"]) == 1 else "%s@%d.%d" % (v[1], vi, i)
                return self.sym(st, f["ty"], nm)
        raise Stuck("field %d of a %s value" % (i, k))

    def expand(self, st, v, variant=None):
        """a symbolic aggregate as an explicit one"""
        if v[0] != "y":
            return v
        t = self.ty(v[2])
        if t["k"] != "adt":
            raise Stuck("expand " + t["s"])
        vi = variant if variant is not None else self.variant_of(st, v)
        n = len(t["variants"][vi]["fields"])
        return ("a", v[2], vi, tuple(self.field(st, v, i, variant=vi) for i in range(n)))

    # ---- constants --------------------------------------------------------------------------
    def const(self, v, ty):
        if isinstance(v, bool):
            return ("b", v)
        if isinstance(v, int):
            k = self.ty(ty)["k"]
            if k == "bool":
                return ("b", bool(v))
            if k == "char":
                return ("c", v)
            if k == "int":
                return ("i", K(v))
            if k == "ptr":
                return ("T", "ptr", v)
            return ("i", K(v))
        if isinstance(v, dict):
            if "str" in v:
                return ("s", ("k", v["str"]))
            t = self.ty(ty)
            if "ref" in v:
                if t["k"] in ("ref", "ptr"):
                    return ("rv", self.const(v["ref"], t["elem"]))
                return ("rv", self.const(v["ref"], ty))
            if "seq" in v:
                if t["k"] in ("array", "slice"):
                    e = t["elem"]
                    return ("q", tuple(("1", self.const(x, e)) for x in v["seq"]))
                raise Stuck("const seq of " + t["s"])
            if "tuple" in v:
                if t["k"] == "tuple":
                    return ("tu", tuple(self.const(x, e) for x, e in zip(v["tuple"], t["elems"])))
                return ("tu", tuple(self.const(x, 0) for x in v["tuple"]))
            if "adt" in v:
                a = v["adt"]
                tt = self.ty(a)
                fs = tt["variants"][v["variant"]]["fields"]
                return ("a", a, v["variant"], tuple(self.const(x, f["ty"]) for x, f in zip(v["fields"], fs)))
            if "closure" in v:
                tt = self.ty(v["closure"])
                return ("cl", v["closure"], tuple(self.const(x, e) for x, e in zip(v["fields"], tt["upvars"])))
            if "fn" in v:
                return ("f", v["fn"])
            if "bytes" in v:
                return ("rv", ("q", tuple(("1", ("i", K(x))) for x in v["bytes"])))
        raise Stuck("constant " + str(v)[:80])

    # ---- places -----------------------------------------------------------------------------
    def deref_val(self, st, v):
        """the place a reference points to: ('P', obj, path) | ('V', value) | ('D', fat)"""
        k = v[0]
        if k == "r":
            return ("P", v[1], v[2])
        if k == "rv":
            return ("V", v[1])
        if k in ("s", "sb", "sl", "f", "cl", "T", "it"):
            return ("D", v)
        if k == "S":
            return ("D", ("s", v[1]))
        if k == "y":
            # a symbolic reference-like thing
            t = self.ty(v[2])
            if t["k"] == "adt" and t["path"] == "alloc::boxed::Box":
                o = ("Y", v[1])
                if o not in st.heap:
                    st.heap[o] = self.sym(st, t["args"][0], v[1] + "*")
                return ("P", o, ())
            if t["k"] == "param":
                return ("D", v)
        raise Stuck("deref of a %s value" % k)

    def place(self, st, fr, p):
        cur = ("P", (fr.depth, p[0]), ())
        for e in p[1]:
            if e == "*":
                v = self.load(st, cur)
                cur = self.deref_val(st, v)
            else:
                k = e[0]
                if k == "f":
                    el = ("f", e[1])
                elif k == "d":
                    el = ("d", e[1])
                elif k == "i":
                    v = self.load(st, ("P", (fr.depth, e[1]), ()))
                    el = ("e", st.num.norm(v[1]))
                elif k == "ci":
                    el = ("el", e[1] - 1) if e[3] else ("e", K(e[1]))
                elif k == "ss":
                    el = ("ss", e[1], e[2], e[3])
                else:
                    raise Stuck("projection " + str(k))
                if cur[0] == "P":
                    cur = ("P", cur[1], cur[2] + (el,))
                elif cur[0] == "V":
                    cur = ("V", self.proj(st, cur[1], el))
                else:
                    f = cur[1]
                    if el[0] in ("e", "el") and f[0] == "sl":
                        if el[0] == "e":
                            ix = add(f[2], el[1])
                        else:
                            ix = addc(f[3], -1 - el[1])
                        b = self.deref_val(st, f[1])
                        if b[0] == "P":
                            cur = ("P", b[1], b[2] + (("e", st.num.norm(ix)),))
                        else:
                            cur = ("V", self.proj(st, b[1], ("e", st.num.norm(ix))))
                    elif f[0] == "sb":
                        ix = el[1] if el[0] == "e" else addc(st.slen(f[1]), -1 - el[1])
                        cur = ("V", self.byte_at(st, f[1], ix))
                    else:
                        raise Stuck("projection of " + f[0])
        return cur

    def byte_at(self, st, S, ix):
        if S[0] == "k":
            ix = st.num.norm(ix)
            if not is_const(ix):
                raise Stuck("byte at unknown offset of a constant")
            return ("i", K(S[1].encode()[ix[0]]))
        p = add(S[2], ix)
        if st.is_bnd(S[1], p):
            return ("by", st.char_at(S[1], p, S[3]))
        return ("i", st.newint(0, 255))

    # sequences
    def qlen(self, st, q):
        n = ZERO
        for it in q[1]:
            n = add(n, self.item_len(st, it))
        return n

    def item_len(self, st, it):
        if it[0] == "1":
            return ONE
        if it[0] == "n":
            return it[1]
        if it[0] in ("L", "g"):
            return it[2]
        raise Stuck("length of item " + it[0])

    def qfind(self, st, q, el):
        """(item index, offset inside the item) of an element"""
        items = q[1]
        if el[0] == "el":
            k = K(el[1])
            i = len(items) - 1
            while i >= 0:
                it = items[i]
                if it[0] == "L":
                    self.unfold_item(st, it)
                n = self.item_len(st, it)
                if st.need(("ge", sub(addc(n, -1), k))):
                    return i, sub(addc(n, -1), k)
                k = sub(k, n)
                i -= 1
            raise Stuck("element past the start")
        k = el[1]
        for i, it in enumerate(items):
            n = self.item_len(st, it)
            if i == len(items) - 1 and it[0] != "L":
                return i, k
            if st.need(("ge", sub(addc(n, -1), k))):
                if it[0] == "L":
                    raise Stuck("element inside a folded group")
                return i, k
            k = sub(k, n)
        raise Stuck("element past the end")

    def unfold_item(self, st, it):
        if self.unfold is None:
            raise Stuck("folded group")
        self.unfold(st, it)
        raise Stuck("unfold returned")

    def elem(self, st, q, el):
        if q[0] == "y":
            return self.sym_elem(st, q, el)
        if q[0] == "S" or q[0] == "s":
            raise Stuck("element of a string")
        if q[0] != "q":
            raise Stuck("element of " + q[0])
        i, off = self.qfind(st, q, el)
        it = q[1][i]
        if it[0] == "1":
            return it[1]
        if it[0] == "g":
            return self.gen_elem(st, it, off if el[0] == "e" else sub(addc(it[2], -1), K(el[1])))
        if it[2][0] == "T" and it[2][1] == "ix":
            return ("T", "at", ("i", add(it[2][2][1], off)))
        return it[2]

    def gen_elem(self, st, it, ix):
        f = self.gen_elems.get(it[1])
        if f is None:
            raise Stuck("element of an unknown list")
        for k, v in st.facts.items():
            if k[0] == "gelem" and k[1] == it[1] and st.same(k[2], ix):
                return v
        ix = st.num.norm(ix)
        raise Split([g for g in f(self, st, ix, ("gelem", it[1], ix))], "element")

    def sym_elem(self, st, q, el):
        t = self.ty(q[2])
        if t["k"] == "slice" or t["k"] == "array":
            return self.sym(st, t["elem"], "%s[%s]" % (q[1], lshow(st.num.norm(el[1])) if el[0] == "e" else "-%d" % el[1]))
        raise Stuck("element of " + t["s"])

    def proj(self, st, v, el):
        k = el[0]
        if k == "f":
            return self.field(st, v, el[1])
        if k == "d":
            if v[0] == "y" and not isinstance(st.var.get(v[1]), int):
                return self.expand(st, v, el[1])
            return v
        if k in ("e", "el"):
            return self.elem(st, v, el)
        raise Stuck("projection " + k)

    def load(self, st, cur):
        if cur[0] == "P":
            try:
                v = st.heap[cur[1]]
            except KeyError:
                raise Stuck("read of an unset place %r" % (cur[1],))
            for i, el in enumerate(cur[2]):
                if v[0] == "y" and el[0] == "f":
                    # remember symbolic children lazily; reading is pure
                    v = self.field(st, v, el[1])
                    continue
                v = self.proj(st, v, el)
            return v
        return cur[1]

    def store(self, st, cur, val):
        if cur[0] != "P":
            raise Stuck("write through a constant")
        obj, path = cur[1], cur[2]
        if not path:
            st.heap[obj] = val
            return
        if obj not in st.heap:
            raise Stuck("partial write of an unset place")
        st.heap[obj] = self.upd(st, st.heap[obj], path, 0, val)

    def upd(self, st, v, path, i, val):
        if i == len(path):
            return val
        el = path[i]
        k = el[0]
        if k == "d":
            if v[0] == "y":
                v = self.expand(st, v, el[1])
            return self.upd(st, v, path, i + 1, val)
        if k == "f":
            if v[0] == "y":
                v = self.expand(st, v)
            if v[0] == "a":
                fs = v[3]
                n = self.upd(st, fs[el[1]], path, i + 1, val)
                return (v[0], v[1], v[2], fs[:el[1]] + (n,) + fs[el[1] + 1:])
            if v[0] == "tu":
                fs = v[1]
                n = self.upd(st, fs[el[1]], path, i + 1, val)
                return ("tu", fs[:el[1]] + (n,) + fs[el[1] + 1:])
            if v[0] == "cl":
                fs = v[2]
                n = self.upd(st, fs[el[1]], path, i + 1, val)
                return ("cl", v[1], fs[:el[1]] + (n,) + fs[el[1] + 1:])
            raise Stuck("write to a field of " + v[0])
        if k in ("e", "el"):
            if v[0] != "q":
                raise Stuck("write to an element of " + v[0])
            ix, off = self.qfind(st, v, el)
            it = v[1][ix]
            if it[0] == "1":
                n = self.upd(st, it[1], path, i + 1, val)
                return ("q", v[1][:ix] + (("1", n),) + v[1][ix + 1:])
            from .models import ix_at, ix_from

            off = st.num.norm(off)
            n = self.upd(st, ix_at(it[2], off), path, i + 1, val)
            parts = []
            if off != ZERO:
                parts.append(("n", off, it[2]))
            parts.append(("1", n))
            rest = st.num.norm(sub(addc(it[1], -1), off))
            if rest != ZERO:
                parts.append(("n", rest, ix_from(it[2], addc(off, 1))))
            return ("q", v[1][:ix] + tuple(parts) + v[1][ix + 1:])
        raise Stuck("write projection " + k)

    def ref_of(self, cur):
        if cur[0] == "P":
            return ("r", cur[1], cur[2])
        if cur[0] == "V":
            return ("rv", cur[1])
        return cur[1]

    # ---- operands / rvalues -----------------------------------------------------------------
    def operand(self, st, fr, o):
        if "c" in o:
            p = o["c"]
        elif "m" in o:
            p = o["m"]
        elif "fn" in o:
            return ("f", o["fn"])
        elif "rt" in o:
            return FALSE
        else:
            if "static" in o:
                raise Stuck("static " + str(o["static"]))
            key = id(o)
            r = self.const_cache.get(key)
            if r is None:
                t = self.ty(o["k"])
                if t["k"] == "fndef":
                    r = ("f", t["fn"])
                else:
                    r = self.const(o["v"], o["k"])
                self.const_cache[key] = r
            return r
        if not p[1]:
            try:
                return st.heap[(fr.depth, p[0])]
            except KeyError:
                raise Stuck("read of an unset local _%d" % p[0])
        return self.load(st, self.place(st, fr, p))

    def int_of(self, st, v):
        """a value as a linear expression"""
        if v[0] == "i":
            return v[1]
        if v[0] == "b":
            return ONE if st.need(v[1]) else ZERO
        if v[0] in ("c", "ci"):
            cs = st.cset(v[1])
            one = C.single(cs)
            if one is not None:
                return K(one)
            return None
        return None

    def cmp_char(self, st, op, a, b):
        """comparison with at least one char-like side; returns a cond"""
        flip = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}

        def constof(v):
            if v[0] == "i" and is_const(st.num.norm(v[1])):
                return st.num.norm(v[1])[0]
            if v[0] in ("c", "ci") and isinstance(v[1], int):
                return v[1]
            return None

        by = a[0] == "by" or b[0] == "by"
        ka, kb = constof(a), constof(b)
        if a[0] == "by" and isinstance(a[1], int) and b[0] == "by" and isinstance(b[1], int):
            ka, kb = lead(a[1]), lead(b[1])
            by = False
        if kb is None and ka is not None:
            a, b, ka, kb = b, a, kb, ka
            op = flip[op]
        if kb is not None:
            if ka is not None and not by:
                return {"Lt": ka < kb, "Le": ka <= kb, "Gt": ka > kb, "Ge": ka >= kb, "Eq": ka == kb, "Ne": ka != kb}[op]
            if by:
                lo = lead_inv(kb)
                hi = lead_inv(kb + 1)
            else:
                lo, hi = kb, kb + 1
            rng = {
                "Eq": ((lo, hi - 1),),
                "Ne": ((0, lo - 1), (hi, 0x10FFFF)),
                "Lt": ((0, lo - 1),),
                "Ge": ((lo, 0x10FFFF),),
                "Le": ((0, hi - 1),),
                "Gt": ((hi, 0x10FFFF),),
            }[op]
            cs = C.inter(C.norm(rng), C.FULL)
            if a[0] in ("c", "ci", "by"):
                if isinstance(a[1], int):
                    return C.has(cs, a[1])
                return ("in", a[1], cs)
        if a[0] in ("c", "ci") and b[0] in ("c", "ci"):
            if a[1] == b[1]:
                return op in ("Eq", "Le", "Ge")
            if op in ("Eq", "Ne"):
                if not C.inter(st.cset(a[1]), st.cset(b[1])):
                    return op == "Ne"
                c = ("atom", ("ceq",) + tuple(sorted((str(a[1]), str(b[1])))))
                return c if op == "Eq" else c_not(c)
            return ("atom", ("ccmp", op, str(a[1]), str(b[1])))
        raise Stuck("comparison of %s and %s" % (a[0], b[0]))

    def is_variant(self, v, c):
        vs = self.ty(v[2])["variants"]
        for i, x in enumerate(vs):
            if x["discr"] == c or x["discr"] < 0 and x["discr"] % 2 ** 128 in (c, c % 2 ** 128):
                return ("var", v[1], i, len(vs))
        return False

    def compare(self, st, op, a, b):
        if op in ("Eq", "Ne") and a[0] == "dv" and b[0] == "dv" and a[1] == b[1]:
            return op == "Eq"
        if a[0] == "dv" or b[0] == "dv":
            if op in ("Eq", "Ne"):
                x, y = (a, b) if a[0] == "dv" else (b, a)
                if y[0] == "i" and is_const(st.num.norm(y[1])):
                    c = self.is_variant(x, st.num.norm(y[1])[0])
                    return c if op == "Eq" else c_not(c)
            a, b = self.plain(st, a), self.plain(st, b)
            if op in ("Eq", "Ne"):
                return self.compare(st, op, a, b)
        if a[0] in ("c", "ci", "by") or b[0] in ("c", "ci", "by"):
            return self.cmp_char(st, op, a, b)
        if a[0] == "b" and b[0] == "b":
            x, y = a[1], b[1]
            if op in ("Eq", "Ne"):
                if y is True or y is False:
                    r = x if y else c_not(x)
                elif x is True or x is False:
                    r = y if x else c_not(y)
                else:
                    r = c_or(c_and(x, y), c_and(c_not(x), c_not(y)))
                return r if op == "Eq" else c_not(r)
            raise Stuck("ordering of bools")
        if a[0] == "i" and b[0] == "i":
            d = st.num.norm(sub(a[1], b[1]))
            if op == "Eq":
                c = ("eq", d)
            elif op == "Ne":
                c = ("not", ("eq", d))
            elif op == "Lt":
                c = ("ge", addc(neg(d), -1))
            elif op == "Le":
                c = ("ge", neg(d))
            elif op == "Gt":
                c = ("ge", addc(d, -1))
            else:
                c = ("ge", d)
            if is_const(d):
                return st.decide(c)
            return c
        if a[0] == "T" and b[0] == "T" and a == b:
            return op in ("Eq", "Le", "Ge")
        raise Stuck("comparison of %s and %s" % (a[0], b[0]))

    def plain(self, st, v):
        """a discriminant as a number (splits)"""
        if v[0] == "dv":
            return ("i", K(self.ty(v[2])["variants"][self.variant_of(st, ("y", v[1], v[2]))]["discr"]))
        return v

    def binop(self, st, r, fr):
        op = r["op"]
        a = self.operand(st, fr, r["a"])
        b = self.operand(st, fr, r["b"])
        if a[0] == "dv" and b[0] == "dv" and op in ("Eq", "Ne") and a[1] != b[1]:
            a = self.plain(st, a)
        elif op not in ("Eq", "Ne"):
            a, b = self.plain(st, a), self.plain(st, b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return ("b", self.compare(st, op, a, b))
        if op == "Cmp":
            lt = st.need(self.compare(st, "Lt", a, b))
            if lt:
                return self.ordering(-1)
            return self.ordering(0 if st.need(self.compare(st, "Eq", a, b)) else 1)
        if a[0] == "b" and b[0] == "b":
            if op == "BitAnd":
                return ("b", c_and(a[1], b[1]))
            if op == "BitOr":
                return ("b", c_or(a[1], b[1]))
            if op == "BitXor":
                return ("b", self.compare(st, "Ne", a, b))
        la, lb = self.int_of(st, a), self.int_of(st, b)
        ty = self.optype(fr, r["a"])
        if ty not in self.intk:
            raise Stuck("arithmetic on " + self.ty(ty)["s"])
        lo, hi = self.intk[ty]
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if a[0] in ("ci", "by", "c") or b[0] in ("ci", "by", "c"):
            if la is None or lb is None:
                if base == "Sub" and a[0] in ("ci",) and lb is not None and is_const(lb):
                    pass
                la = la if la is not None else st.newint(0, 0x10FFFF)
                lb = lb if lb is not None else st.newint(0, 0x10FFFF)
        if la is None or lb is None:
            raise Stuck("arithmetic on %s, %s" % (a[0], b[0]))
        na, nb = st.num.norm(la), st.num.norm(lb)
        if base == "Add":
            x = add(na, nb)
        elif base == "Sub":
            x = sub(na, nb)
        elif base == "Mul":
            if is_const(na):
                x = scale(nb, na[0])
            elif is_const(nb):
                x = scale(na, nb[0])
            else:
                x = None
        else:
            x = None
        if base in ("Add", "Sub", "Mul"):
            if x is None:
                x = st.newint(None if False else -(2 ** 130), 2 ** 130)
            if op.endswith("WithOverflow"):
                inr = c_and(self.rng(st, addc(x, -lo)), self.rng(st, addc(neg(x), hi)))
                return ("tu", (("i", x), ("b", c_not(inr))))
            if op.endswith("Unchecked"):
                return ("i", x)
            if st.decide(("ge", addc(x, -lo))) and st.decide(("ge", addc(neg(x), hi))):
                return ("i", x)
            if is_const(x):
                return ("i", K((x[0] - lo) % (hi - lo + 1) + lo))
            return ("i", st.newint(lo, hi))
        if is_const(na) and is_const(nb):
            p, q = na[0], nb[0]
            bits = (hi - lo + 1).bit_length() - 1
            if base in ("Div", "Rem"):
                if q == 0:
                    raise Dead()
                d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                return ("i", K(d if base == "Div" else p - d * q))
            if base == "Shl":
                v = p << (q % bits)
                return ("i", K((v - lo) % (hi - lo + 1) + lo))
            if base == "Shr":
                return ("i", K(p >> (q % bits)))
            if base == "BitAnd":
                return ("i", K(p & q))
            if base == "BitOr":
                return ("i", K(p | q))
            if base == "BitXor":
                return ("i", K(p ^ q))
        if base == "Div" and is_const(nb) and nb[0] > 0:
            q = st.newint(lo, hi)
            # q*n <= a < q*n + n   (a >= 0)
            if st.decide(("ge", na)):
                d = sub(na, scale(q, nb[0]))
                st.num.add_ge(d)
                st.num.add_ge(addc(neg(d), nb[0] - 1))
            return ("i", q)
        if base == "Rem" and is_const(nb) and nb[0] > 0 and st.decide(("ge", na)):
            x = st.newint(0, nb[0] - 1)
            return ("i", x)
        if base == "BitAnd" and is_const(nb) and nb[0] >= 0:
            return ("i", st.newint(0, nb[0]))
        return ("i", st.newint(lo, hi))

    def rng(self, st, l):
        d = st.decide(("ge", l))
        return d if d is not None else ("ge", l)

    def optype(self, fr, o):
        if "k" in o:
            return o["k"]
        p = o.get("c") or o.get("m")
        return self.place_ty(fr.body, p)

    def place_ty(self, body, p):
        t = body.locals[p[0]]
        for e in p[1]:
            if e == "*":
                x = self.ty(t)
                t = x["elem"] if "elem" in x else x["args"][0]
            elif e[0] == "f":
                t = e[2]
            elif e[0] == "d":
                pass
            elif e[0] in ("i", "ci"):
                x = self.ty(t)
                t = x["elem"]
        return t

    def ordering(self, n):
        if not hasattr(self, "_ord"):
            self._ord = None
            for i, t in enumerate(self.p.types):
                if t.get("path") == "core::cmp::Ordering":
                    self._ord = (i, {v["discr"]: k for k, v in enumerate(t["variants"])})
        if self._ord is None:
            raise Stuck("Ordering type")
        i, m = self._ord
        d = n if n in m else n % 256
        return ("a", i, m[d], ())

    def cast(self, st, fr, r):
        k = r["kind"]
        v = self.plain(st, self.operand(st, fr, r["o"]))
        if k == "IntToInt":
            if r["ty"] in self.intk:
                lo, hi = self.intk[r["ty"]]
                if v[0] == "c":
                    if r["ty"] in self.intk and hi >= 0x10FFFF:
                        return ("i", K(v[1])) if isinstance(v[1], int) else ("ci", v[1])
                    cs = st.cset(v[1])
                    if isinstance(v[1], int):
                        return ("i", K(v[1] & 255))
                    if C.subset(cs, ((0, hi),)):
                        return ("ci", v[1])
                    return ("i", st.newint(lo, hi))
                if v[0] == "ci":
                    if C.subset(st.cset(v[1]), ((0, hi),)):
                        return v
                    return ("i", st.newint(lo, hi))
                if v[0] == "by":
                    if C.subset(st.cset(v[1]), C.ASCII):
                        return ("ci", v[1])
                    return v
                if v[0] == "b":
                    return ("i", ONE if st.need(v[1]) else ZERO)
                if v[0] == "i":
                    l = st.num.norm(v[1])
                    if is_const(l):
                        return ("i", K((l[0] - lo) % (hi - lo + 1) + lo))
                    if st.decide(("ge", addc(l, -lo))) and st.decide(("ge", addc(neg(l), hi))):
                        return ("i", l)
                    return ("i", st.newint(lo, hi))
            if self.ty(r["ty"])["k"] == "char":
                if v[0] in ("ci",):
                    return ("c", v[1])
                if v[0] == "by":
                    if isinstance(v[1], int) and v[1] < 128 or st.need(("in", v[1], C.ASCII)):
                        return ("c", v[1])
                    st.lossy = True
                    return ("c", st.newchar(C.mk((0xC2, 0xF4))))
                if v[0] == "i" and is_const(st.num.norm(v[1])):
                    return ("c", st.num.norm(v[1])[0])
            raise Stuck("cast to %s of %r" % (self.ty(r["ty"])["s"], v[0]))
        if k.startswith("PointerCoercion"):
            return v
        if k == "Transmute" and v[0] in ("i", "c", "ci"):
            tk = self.ty(r["ty"])["k"]
            if tk == "char":
                return ("c", v[1] if v[0] != "i" else (v[1][0] if is_const(v[1]) else st.newchar(C.FULL)))
            if tk == "int" and v[0] == "i":
                return v
        if k in ("Transmute", "BoxDerefTransmute") and v[0] in ("r", "rv", "S"):
            return v
        if k == "PtrToPtr" and v[0] in ("r", "rv", "s", "sl", "sb"):
            return v
        raise Stuck("cast " + k)

    def rvalue(self, st, fr, r):
        k = r["r"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k == "ref" or k == "rawptr":
            cur = self.place(st, fr, r["p"])
            if cur[0] == "P" and cur[2] and cur[2][-1][0] == "ss":
                el = cur[2][-1]
                base = ("r", cur[1], cur[2][:-1])
                n = self.seq_len(st, base)
                hi = sub(n, K(el[2])) if el[3] else K(el[2])
                return ("sl", base, K(el[1]), hi)
            return self.ref_of(cur)
        if k == "bin":
            return self.binop(st, r, fr)
        if k == "un":
            v = self.operand(st, fr, r["o"])
            op = r["op"]
            if op == "Not":
                if v[0] == "b":
                    return ("b", c_not(v[1]))
                ty = self.optype(fr, r["o"])
                if v[0] == "i" and ty in self.intk:
                    lo, hi = self.intk[ty]
                    l = st.num.norm(v[1])
                    return ("i", sub(K(hi + lo), l))
            if op == "Neg" and v[0] == "i":
                return ("i", neg(v[1]))
            if op == "PtrMetadata":
                return ("i", self.seq_len(st, v))
            raise Stuck("unary " + op)
        if k == "discr":
            cur = self.place(st, fr, r["p"])
            if not r["p"][1] and cur[0] == "P" and cur[1] not in st.heap:
                d = self.only_variant(fr.body.locals[r["p"][0]])
                if d is not None:
                    return ("i", K(d))
            v = self.load(st, cur)
            if v[0] == "y" and not isinstance(st.var.get(v[1]), int) and len(self.ty(v[2]).get("variants", ())) > 2:
                return ("dv", v[1], v[2])
            vi = self.variant_of(st, v)
            ty = v[1] if v[0] == "a" else v[2]
            return ("i", K(self.ty(ty)["variants"][vi]["discr"]))
        if k == "agg":
            kd = r["kind"]
            ops = tuple(self.operand(st, fr, o) for o in r["ops"])
            if kd == "tuple":
                return ("tu", ops)
            if kd == "array":
                return ("q", tuple(("1", v) for v in ops))
            if isinstance(kd, dict):
                if "adt" in kd:
                    return ("a", kd["adt"], kd["variant"], ops)
                if "closure" in kd:
                    return ("cl", kd["closure"], ops)
            raise Stuck("aggregate " + str(kd))
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "repeat":
            v = self.operand(st, fr, r["o"])
            return ("q", tuple(("1", v) for _ in range(r["n"])) if r["n"] <= 64 else (("n", K(r["n"]), v),))
        raise Stuck("rvalue " + k)

    def only_variant(self, ty):
        """the discriminant of an enum with one inhabited variant, which has no fields (rustc drops its writes)"""
        vs = [v for v in self.ty(ty).get("variants", ()) if not any(self.ty(f["ty"])["k"] == "never" for f in v["fields"])]
        return vs[0]["discr"] if len(vs) == 1 and not vs[0]["fields"] else None

    def seq_len(self, st, v):
        """number of elements (bytes for a str) behind a reference"""
        if v[0] == "s" or v[0] == "sb":
            return st.slen(v[1])
        if v[0] == "sl":
            return sub(v[3], v[2])
        if v[0] in ("r", "rv"):
            q = self.load(st, self.deref_val(st, v))
            if q[0] == "q":
                return self.qlen(st, q)
            if q[0] == "S":
                return st.slen(q[1])
            if q[0] == "y":
                s = q[1] + ".len"
                st.num.add_ge(V(s))
                st.num.add_ge(V(s, -1, ISIZE_MAX))
                return V(s)
        raise Stuck("length of a %s value" % v[0])

    # ---- panics -----------------------------------------------------------------------------
    def local_span(self, st, span=None):
        for f in reversed(st.frames):
            if f.body.local and f.body.d.get("span", "").startswith(("src/", "update/")):
                return self.cur_span(f)
        return span or "?"

    def cur_span(self, f):
        t = f.body.blocks[f.bb]["t"]
        sp = t.get("sp", "")
        if f.si < len(f.body.blocks[f.bb]["s"]):
            s = f.body.blocks[f.bb]["s"][f.si]
            if s[0] == "=" and len(s) > 3 and s[3]:
                sp = s[3]
        return sp or f.body.d.get("span", "")

    def panic(self, st, msg, span, kind="panic"):
        if self.mute or not st.ok() or not st.num.check_feasible():
            return
        sp = self.local_span(st, span)
        where = st.frames[-1].body.path if st.frames else ""
        for f in reversed(st.frames):
            if f.body.local:
                where = f.body.path
                break
        self.panics.append(Panic(st, msg, sp, where, kind))

    def require(self, st, cond, msg, span=None, kind="panic"):
        d = st.decide(cond)
        if d is True:
            return
        if d is False:
            self.panic(st, msg, span, kind)
            raise Dead()
        bad = st.copy()
        try:
            bad.assume(cond, False)
            self.panic(bad, msg, span, kind)
        except Split:
            self.panic(st, msg, span, kind)
        st.assume(cond, True)
        if not st.ok():
            raise Dead()

    # ---- calls ------------------------------------------------------------------------------
    def enter(self, st, body, args, dest, ret):
        if len(st.frames) > 80:
            raise Stuck("call depth")
        if sum(1 for f in st.frames if f.body is body) > 8:
            raise Stuck("recursion in " + body.path)
        depth = st.frames[-1].depth + 1 if st.frames else 1
        fr = Frame(body, depth, dest, ret)
        st.frames.append(fr)
        sp = body.d.get("spread")
        if sp is not None:
            # the last declared argument is a tuple of the remaining ones
            fixed = list(args[: sp - 1])
            rest = args[sp - 1:]
            fixed.append(("tu", tuple(rest)))
            args = fixed
        if len(args) != body.argc:
            raise Stuck("argument count of %s: %d vs %d" % (body.path, len(args), body.argc))
        for i, a in enumerate(args):
            st.heap[(depth, i + 1)] = a
        self.visited.add(body.id)
        self.ncalls[body.id] = self.ncalls.get(body.id, 0) + 1

    def strip_refs(self, st, v):
        while v[0] in ("r", "rv"):
            v = self.load(st, self.deref_val(st, v))
        return v

    def invoke_value(self, st, f, args, dest, ret, cx):
        """call a closure / function value with the given argument list"""
        ref = None
        v = f
        while v[0] in ("r", "rv"):
            ref = v
            v = self.load(st, self.deref_val(st, v))
        if v[0] == "cl":
            t = self.ty(v[1])
            b = self.p.bodies.get(t["inst"])
            if b is None:
                raise Stuck("closure body of " + t["s"])
            h = self.body_hooks.get(b.id)
            if h is not None:
                return h(Call(self, st, {"path": b.path}, [f] + list(args), None, cx.rt, cx.span, cx.fr))
            self_ty = self.ty(b.locals[1])
            if self_ty["k"] == "ref":
                if ref is None:
                    o = ("H", fresh())
                    st.heap[o] = v
                    ref = ("r", o, ())
                me = ref
            else:
                me = v
            self.enter(st, b, [me] + list(args), dest, ret)
            return None
        if v[0] == "f":
            return self.call_rec(st, v[1], list(args), None, dest, ret, cx)
        if v[0] == "T":
            h = self.trait_hooks.get(("call", v[1]))
            if h is not None:
                return h(Call(self, st, {"path": "call"}, [v] + list(args), None, cx.rt, cx.span, cx.fr))
        if v[0] == "y":
            h = self.trait_hooks.get(("call", "y"))
            if h is not None:
                return h(Call(self, st, {"path": "call"}, [v] + list(args), None, cx.rt, cx.span, cx.fr))
        raise Stuck("call of a %s value" % v[0])

    def call_rec(self, st, rec, args, at, dest, ret, cx):
        """returns a value, or None when a frame was pushed"""
        if rec.get("ctor"):
            c = rec["ctor"]
            return ("a", c["ty"], c["variant"], tuple(args))
        rp = rec.get("rpath")
        inst = rec.get("inst", -1)
        h = None
        if inst in self.body_hooks:
            h = self.body_hooks[inst]
        if h is None and rp is not None:
            h = self.hooks.get(rp)
        if h is None:
            h = self.hooks.get(rec["path"])
        if h is None and "trait" in rec:
            h = self.trait_hooks.get((rec["trait"], rec["name"]))
        if h is None and rp is not None:
            h = self.models.get(rp)
        if h is None:
            h = self.models.get(rec["path"])
        if h is not None:
            c = Call(self, st, rec, args, at, cx.rt, cx.span, cx.fr)
            r = h(c)
            if r is not NotImplemented:
                return r
        tr = rec.get("trait")
        if tr == ITER and rec["name"] in NAMES and args:
            v = args[0]
            while v[0] in ("r", "rv"):
                v = self.load(st, self.deref_val(st, v))
            if v[0] == "it":
                b = self.synth.body(rec["name"], cx.rt)
                if b is not None:
                    self.enter(st, b, args, dest, ret)
                    return None
        if tr in FN_TRAITS and FN_TRAITS[tr] == rec.get("name"):
            tup = args[-1]
            b = self.p.bodies.get(inst)
            if b is not None and "spread" in b.d and not (b.d.get("spread") is None):
                rest = tup[1] if tup[0] == "tu" else None
                if rest is None:
                    raise Stuck("call arguments")
                self.enter(st, b, [args[0]] + list(rest), dest, ret)
                return None
            if tup[0] != "tu":
                raise Stuck("call arguments")
            return self.invoke_value(st, args[0], tup[1], dest, ret, cx)
        if rec.get("kind") == "clone":
            return self.load(st, self.deref_val(st, args[0]))
        if inst >= 0:
            b = self.p.bodies.get(inst)
            if b is not None:
                self.enter(st, b, args, dest, ret)
                return None
        if rec.get("kind") == "shim" and "drop" in rec["path"]:
            return UNIT
        raise Stuck("call of " + (rp or rec["path"]))

    # ---- stepping ---------------------------------------------------------------------------
    def goto(self, st, fr, b):
        fr.bb = b
        fr.si = 0
        fr.tag = None

    def finish_call(self, st, dest, ret, val):
        """write the result of a call in the caller (top frame)"""
        if dest is not None:
            self.store(st, dest, val)
        fr = st.frames[-1]
        fr.bb = ret
        fr.si = 0
        fr.tag = None

    def havoc(self, st, v, why, seen=None):
        """forget what mutable references in v point to"""
        if v[0] == "r":
            o = ("P", v[1], v[2])
            try:
                cur = self.load(st, o)
                t = self.val_ty(cur)
                if t is not None:
                    self.store(st, o, self.sym(st, t, fresh()))
            except (Stuck, Split):
                pass
        elif v[0] in ("a", "cl", "tu"):
            fs = v[3] if v[0] == "a" else v[2] if v[0] == "cl" else v[1]
            for f in fs:
                self.havoc(st, f, why)

    def val_ty(self, v):
        if v[0] == "a":
            return v[1]
        if v[0] == "y":
            return v[2]
        return None

    def step(self, st):
        """one MIR step; returns None to go on with st, or a list of successor states"""
        fr = st.frames[-1]
        blk = fr.body.blocks[fr.bb]
        ss = blk["s"]
        n = len(ss)
        while fr.si < n:
            s = ss[fr.si]
            if s[0] == "=":
                try:
                    val = self.rvalue(st, fr, s[2])
                except Stuck as e:
                    self.stuck(st, e.why)
                    val = self.sym(st, self.place_ty(fr.body, s[1]), fresh())
                p = s[1]
                if not p[1]:
                    st.heap[(fr.depth, p[0])] = val
                else:
                    self.store(st, self.place(st, fr, p), val)
            elif s[0] == "sd":
                cur = self.place(st, fr, s[1])
                v = self.load(st, cur)
                v = self.expand(st, v)
                t = self.ty(v[1])
                self.store(st, cur, ("a", v[1], s[2], v[3][: len(t["variants"][s[2]]["fields"])]))
            fr.si += 1
        t = blk["t"]
        k = t["t"]
        if k == "goto" or k == "drop":
            self.goto(st, fr, t["b"])
            return None
        if k == "switch":
            v = self.operand(st, fr, t["o"])
            if v[0] == "b":
                d = st.need(v[1])
                d = 1 if d else 0
                for c, b in t["cases"]:
                    if c == d:
                        self.goto(st, fr, b)
                        return None
                self.goto(st, fr, t["else"])
                return None
            if v[0] in ("c", "ci", "by"):
                for c, b in t["cases"]:
                    if st.need(self.cmp_char(st, "Eq", v, ("i", K(c)))):
                        self.goto(st, fr, b)
                        return None
                self.goto(st, fr, t["else"])
                return None
            if v[0] == "dv":
                for c, b in t["cases"]:
                    if st.need(self.is_variant(v, c)):
                        self.goto(st, fr, b)
                        return None
                self.goto(st, fr, t["else"])
                return None
            if v[0] != "i":
                raise Stuck("switch on " + v[0])
            l = st.num.norm(v[1])
            if is_const(l):
                x = l[0]
                for c, b in t["cases"]:
                    if c == x:
                        self.goto(st, fr, b)
                        return None
                # negative discriminants are dumped as unsigned bit patterns
                if x < 0:
                    for c, b in t["cases"]:
                        if c in (x % 2 ** 8, x % 2 ** 16, x % 2 ** 32, x % 2 ** 64, x % 2 ** 128):
                            self.goto(st, fr, b)
                            return None
                self.goto(st, fr, t["else"])
                return None
            for c, b in t["cases"]:
                if st.need(("eq", addc(l, -c))):
                    self.goto(st, fr, b)
                    return None
            self.goto(st, fr, t["else"])
            return None
        if k == "assert":
            v = self.operand(st, fr, t["o"])
            c = v[1] if t["exp"] else c_not(v[1])
            self.require(st, c, self.assert_msg(t), t.get("sp"), overflow_kind(t.get("msg"), c))
            self.goto(st, fr, t["b"])
            return None
        if k == "call":
            return self.step_call(st, fr, t)
        if k == "ret":
            v = st.heap.get((fr.depth, 0), UNIT)
            st.frames.pop()
            d = fr.depth
            for key in [x for x in st.heap if x[0] == d]:
                del st.heap[key]
            if len(st.frames) <= self.base:
                return [("ret", st, v)]
            self.finish_call(st, fr.dest, fr.ret, v)
            return None
        if k == "unreachable" or k == "unwind":
            raise Dead()
        raise Stuck("terminator " + k)

    def assert_msg(self, t):
        m = t.get("msg")
        return m if isinstance(m, str) else str(m)

    def step_call(self, st, fr, t):
        snap = None
        f = self.operand(st, fr, t["f"])
        args = [self.operand(st, fr, a) for a in t["a"]]
        snap = st.copy()
        cx = Call(self, st, None, args, t.get("at"), t["dt"], t.get("sp"), fr)
        try:
            if t["b"] < 0:
                # a diverging call: a panic, unless it is modelled
                rec = f[1] if f[0] == "f" else {"path": "?"}
                self.panic(st, "reaches %s" % rec.get("rpath", rec["path"]), t.get("sp"))
                raise Dead()
            dest = self.place(st, fr, t["d"])
            try:
                if f[0] == "f":
                    val = self.call_rec(st, f[1], args, t.get("at"), dest, t["b"], cx)
                else:
                    val = self.invoke_value(st, f, args, dest, t["b"], cx)
            except Stuck as e:
                # restore: the failed attempt may have changed the state
                return self.stuck_call(snap, e.why, args, t)
            if val is None:
                return None
            self.finish_call(st, dest, t["b"], val)
            return None
        except Split as sp:
            raise SplitAt(snap, sp)
        except Outcomes as oc:
            out = []
            for s, val in oc.outs:
                if not s.ok():
                    continue
                d = self.place(s, s.frames[-1], t["d"])
                self.finish_call(s, d, t["b"], val)
                out.append(s)
            return out
        except Forks as fk:
            out = []
            for ref, val in fk.alts:
                s = snap.copy()
                if len(fk.alts) > 1:
                    s.nsplit += 1
                if ref is not None:
                    ref(s)
                if not s.ok():
                    continue
                if callable(val):
                    val = val(s)
                    if not s.ok():
                        continue
                d = self.place(s, s.frames[-1], t["d"])
                self.finish_call(s, d, t["b"], val)
                out.append(s)
            if len(out) == 1:
                out[0].nsplit = snap.nsplit
            return out

    def stuck(self, st, why):
        sp = self.local_span(st)
        key = "%s at %s" % (why, sp)
        self.stucks[key] = self.stucks.get(key, 0) + 1
        st.add_taint(key)

    def stuck_call(self, st, why, args, t):
        self.stuck(st, why)
        for a in args:
            self.havoc(st, a, why)
        fr = st.frames[-1]
        try:
            dest = self.place(st, fr, t["d"])
            val = self.sym(st, t["dt"], fresh())
            self.finish_call(st, dest, t["b"], val)
        except Stuck as e:
            raise Dead()
        return [st]

    def run(self, starts, base=None, loops=True, max_out=None):
        """explore from the given states until the frame count drops to `base`;
        returns [(state, value)]"""
        import time

        old_base = self.base
        if base is not None:
            self.base = base
        outs = []
        table = {}
        work = list(starts)
        try:
            while work:
                st = work.pop()
                while True:
                    self.steps += 1
                    if self.steps > self.max_steps or (self.deadline and self.steps % 256 == 0 and time.time() > self.deadline):
                        raise Limit("step limit")
                    if not st.ok():
                        break
                    fr = st.frames[-1]
                    if loops and fr.si == 0 and fr.tag != fr.bb and fr.bb in fr.body.loop_heads():
                        st = self.head(st, table)
                        if st is None:
                            break
                    snap = None
                    try:
                        r = self.step(st)
                    except Dead:
                        break
                    except SplitAt as e:
                        work.extend(self.do_split(e.snap, e.split))
                        break
                    except Split as e:
                        work.extend(self.do_split(st, e))
                        break
                    except Stuck as e:
                        self.stuck(st, e.why)
                        self.stucks["path dropped: " + e.why] = 1
                        self.dropped = True
                        break
                    if r is None:
                        continue
                    if r and isinstance(r[0], tuple) and r[0][0] == "ret":
                        outs.append((r[0][1], r[0][2]))
                        if max_out and len(outs) > max_out:
                            raise Limit("too many outcomes")
                        break
                    if len(r) == 1:
                        st = r[0]
                        continue
                    work.extend(reversed(r))
                    break
        finally:
            self.base = old_base
        return outs

    def do_split(self, st, sp):
        out = []
        for alt in sp.alts:
            s = st.copy()
            alt(s)
            if s.ok():
                out.append(s)
        if len(out) > 1:
            for s in out:
                s.nsplit += 1
        out.reverse()
        return out

    def head(self, st, table):
        from .join import head_visit

        return head_visit(self, st, table)

    # ---- running a function from a model or a check -------------------------------------------
    def call_body(self, st, body, args, loops=True):
        """all outcomes of a call of `body`: [(state, value)]"""
        base = len(st.frames)
        self.enter(st, body, args, None, 0)
        return self.run([st], base=base, loops=loops)

    def call_value(self, st, f, args, rt=None, span=None, loops=True):
        base = len(st.frames)
        cx = Call(self, st, None, args, None, rt, span, st.frames[-1] if st.frames else None)
        snap = st.copy()
        try:
            v = self.invoke_value(st, f, args, None, 0, cx)
        except Split as sp:
            out = []
            for s in self.do_split(snap, sp):
                out.extend(self.call_value(s, f, args, rt, span, loops))
            return out
        except Forks as fk:
            out = []
            for ref, val in fk.alts:
                s = snap.copy()
                if ref is not None:
                    ref(s)
                if s.ok():
                    if callable(val):
                        val = val(s)
                    out.append((s, val))
            return out
        except Outcomes as oc:
            return [x for x in oc.outs if x[0].ok()]
        except Dead:
            return []
        if v is not None:
            return [(st, v)]
        return self.run([st], base=base, loops=loops)


class SplitAt(Exception):
    def __init__(self, snap, split):
        self.snap = snap
        self.split = split


def overflow_kind(msg, c):
    msg = str(msg)
    if "verflow" not in msg:
        return "panic"
    if ("Add" in msg or "Mul" in msg) and any(x in repr(c) for x in ("18446744073709551615", "9223372036854775807")):
        return "overflow of 64 bits"
    return "overflow"


def lead(code):
    return chr(code).encode()[0]


def lead_inv(b):
    """smallest code whose first UTF-8 byte is >= b"""
    if b <= 0x80:
        return b if b <= 0x7F else 0x80
    if b <= 0xC2:
        return 0x80
    if b <= 0xDF:
        return (b & 0x1F) << 6
    if b == 0xE0:
        return 0x800
    if b <= 0xEF:
        return (b & 0x0F) << 12
    if b == 0xF0:
        return 0x10000
    if b <= 0xF4:
        return (b & 7) << 18
    return 0x110000
