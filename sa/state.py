"""Abstract states: frames, heap, numeric facts, character sets, facts about texts."""
from . import chars as C
from .num import Num, K, V, ZERO, ONE, add, sub, neg, addc, is_const, subst, show as lshow

ISIZE_MAX = 2**63 - 1


class Split(Exception):
    """the current step cannot be decided: redo it in each refinement of the state"""

    def __init__(self, alts, why=""):
        self.alts = alts
        self.why = why


class Stuck(Exception):
    """the step uses a construct the analysis has no model for"""

    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


_ctr = [0]


def fresh(prefix="#"):
    _ctr[0] += 1
    return "#%d" % _ctr[0]


class TextFacts:
    """facts about one text; positions are byte offsets (linear expressions)"""

    __slots__ = ("n", "cls", "ch", "bnd", "eqs", "neqs")

    def __init__(self, n):
        self.n = n
        self.cls = ()
        self.ch = ()
        self.bnd = ()
        self.eqs = ()
        self.neqs = ()

    def copy(self):
        t = TextFacts(self.n)
        t.cls = self.cls
        t.ch = self.ch
        t.bnd = self.bnd
        t.eqs = self.eqs
        t.neqs = self.neqs
        return t


class Frame:
    __slots__ = ("body", "bb", "si", "dest", "ret", "depth", "tag", "vis")

    def __init__(self, body, depth, dest, ret):
        self.body = body
        self.bb = 0
        self.si = 0
        self.dest = dest
        self.ret = ret
        self.depth = depth
        self.tag = None
        self.vis = {}

    def copy(self):
        f = Frame.__new__(Frame)
        f.body = self.body
        f.bb = self.bb
        f.si = self.si
        f.dest = self.dest
        f.ret = self.ret
        f.depth = self.depth
        f.tag = self.tag
        f.vis = self.vis
        return f


import os
STRICT = os.environ.get("SA_STRICT") == "1"


class St:
    __slots__ = ("frames", "heap", "num", "chars", "tx", "var", "facts", "tr", "taint", "dead", "nsplit", "ext", "fuel", "lossy")

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.num = Num()
        self.chars = {}
        self.tx = {}
        self.var = {}
        self.facts = {}
        self.tr = None
        self.taint = ()
        self.dead = False
        self.nsplit = 0
        self.ext = {}
        self.fuel = 0
        self.lossy = False

    def copy(self):
        s = St.__new__(St)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.num = self.num.copy()
        s.chars = dict(self.chars)
        s.tx = dict(self.tx)
        s.var = dict(self.var)
        s.facts = dict(self.facts)
        s.tr = self.tr
        s.taint = self.taint
        s.dead = self.dead
        s.nsplit = self.nsplit
        s.ext = dict(self.ext)
        s.fuel = self.fuel
        s.lossy = self.lossy
        return s

    def note(self, *what):
        self.tr = (what, self.tr)

    def trace(self):
        out = []
        t = self.tr
        while t:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out

    def add_taint(self, why):
        if why not in self.taint:
            self.taint = self.taint + (why,)

    def doubt(self, strict=False):
        """why an obligation that fails here may hold all the same: something was not modelled, or (strict)
        facts were given up where states were joined"""
        if self.lossy and (strict or STRICT):
            return self.taint + ("states were joined",)
        return self.taint

    def ok(self):
        return not (self.dead or self.num.dead)

    # ---- integers --------------------------------------------------------------------------
    def newint(self, lo, hi):
        self.lossy = True  # an approximation: what the number has to do with others is not known
        s = fresh()
        self.num.add_ge(V(s, 1, -lo))
        if hi is not None:
            self.num.add_ge(V(s, -1, hi))
        return V(s)

    # ---- texts -----------------------------------------------------------------------------
    def newtext(self, tid):
        n = tid + ".n"
        self.tx[tid] = TextFacts(V(n))
        self.num.add_ge(V(n))
        self.num.add_ge(V(n, -1, ISIZE_MAX))
        return ("t", tid, ZERO, V(n))

    def _tx(self, tid):
        t = self.tx[tid].copy()
        self.tx[tid] = t
        return t

    def slen(self, S):
        if S[0] == "k":
            return K(len(S[1].encode()))
        return sub(S[3], S[2])

    def cwidth(self, c):
        if isinstance(c, int):
            return K(C.u8len(c))
        r = C.wrange(self.chars.get(c, C.FULL))
        if r[0] == r[1]:
            return K(r[0])
        return V(c + ".w")

    def newchar(self, cs):
        one = C.single(cs)
        if one is not None:
            return one
        c = fresh()
        self.chars[c] = cs
        lo, hi = C.wrange(cs)
        if lo != hi:
            self.num.add_ge(V(c + ".w", 1, -lo))
            self.num.add_ge(V(c + ".w", -1, hi))
        return c

    def cset(self, c):
        if isinstance(c, int):
            return ((c, c),)
        return self.chars.get(c, C.FULL)

    def refine_char(self, c, cs):
        if isinstance(c, int):
            if not C.has(cs, c):
                self.dead = True
            return
        old = self.chars.get(c, C.FULL)
        n = C.inter(old, cs)
        if not n:
            self.dead = True
            return
        if n == old:
            return
        self.chars[c] = n
        o = C.wrange(old)
        r = C.wrange(n)
        if o != r:
            w = V(c + ".w")
            if r[0] == r[1]:
                self.num.add_eq(addc(w, -r[0]))
            else:
                self.num.add_ge(addc(w, -r[0]))
                self.num.add_ge(addc(neg(w), r[1]))

    def same(self, a, b):
        return self.num.entails_eq(sub(a, b))

    def ge(self, a, b):
        return self.num.entails_ge(sub(a, b))

    def gt(self, a, b):
        return self.num.entails_ge(addc(sub(a, b), -1))

    def char_at(self, tid, p, hi=None, create=True):
        """the character that starts at boundary p (p < length known)"""
        t = self.tx[tid]
        p = self.num.norm(p)
        for q, c in t.ch:
            if self.same(q, p):
                return c
        for a, b, s in t.eqs:
            d = self.num.norm(sub(p, a))
            if is_const(d) and 0 <= d[0]:
                e = s.encode()
                if d[0] < len(e):
                    try:
                        return ord(e[d[0]:].decode()[0])
                    except UnicodeDecodeError:
                        pass
        if not create:
            return None
        cs = C.FULL
        for a, b, k in t.cls:
            if self.ge(p, a) and self.gt(b, p):
                cs = C.inter(cs, k)
        if not cs:
            self.dead = True
            return 0
        c = self.newchar(cs)
        self.put_char(tid, p, c, hi)
        return c

    def put_char(self, tid, p, c, hi=None):
        t = self._tx(tid)
        t.ch = t.ch + ((p, c),)
        e = add(p, self.cwidth(c))
        self.num.add_ge(sub(t.n, e))
        if hi is not None:
            self.num.add_ge(sub(hi, e))

    def is_bnd(self, tid, p):
        t = self.tx[tid]
        p = self.num.norm(p)
        if p == ZERO or self.same(p, t.n):
            return True
        for q in t.bnd:
            if self.same(q, p):
                return True
        for q, c in t.ch:
            if self.same(q, p) or self.same(add(q, self.cwidth(c)), p):
                return True
        for a, b, k in t.cls:
            if self.same(a, p) or self.same(b, p):
                return True
            if C.subset(k, C.ASCII) and self.ge(p, a) and self.ge(b, p):
                return True
        for a, b, s in t.eqs:
            d = self.num.norm(sub(p, a))
            e = s.encode()
            if is_const(d) and 0 <= d[0] <= len(e) and (d[0] == len(e) or (e[d[0]] & 0xC0) != 0x80):
                return True
            if all(x < 0x80 for x in e) and self.ge(p, a) and self.ge(b, p):
                return True
        for a, b, s in t.neqs:
            if self.same(a, p) or self.same(b, p):
                return True
        return False

    def add_bnd(self, tid, p):
        if not self.is_bnd(tid, p):
            t = self._tx(tid)
            t.bnd = t.bnd + (p,)

    def add_cls(self, tid, lo, hi, cs):
        """every character in [lo,hi) is in cs"""
        if self.same(lo, hi) or cs == C.FULL:
            return
        t = self._tx(tid)
        for q, c in t.ch:
            if self.ge(q, lo) and self.gt(hi, q):
                self.refine_char(c, cs)
        for a, b, s in t.eqs:
            e = s
            off = 0
            for x in e:
                p = addc(a, off)
                if not C.has(cs, ord(x)) and self.ge(p, lo) and self.gt(hi, p):
                    self.dead = True
                off += C.u8len(ord(x))
        out = []
        done = False
        for a, b, k in t.cls:
            if not done and self.same(a, lo) and self.same(b, hi):
                k = C.inter(k, cs)
                if not k:
                    self.num.add_ge(sub(lo, hi))
                done = True
            out.append((a, b, k))
        if not done:
            out.append((lo, hi, cs))
            for a, b, k in t.cls:
                if not C.inter(k, cs):
                    # two overlapping disjoint classes cannot share a character
                    if self.ge(lo, a) and self.gt(b, lo):
                        self.num.add_ge(sub(lo, hi))
        t.cls = tuple(out)

    def in_cls(self, tid, lo, hi, cs, depth=40):
        """is every character of [lo,hi) known to be in cs?"""
        if not depth:
            return False
        depth -= 1
        t = self.tx[tid]
        if self.ge(lo, hi):
            return True
        for a, b, k in t.cls:
            if self.ge(lo, a) and self.ge(b, hi) and C.subset(k, cs):
                return True
        for a, b, s in t.eqs:
            if self.ge(lo, a) and self.ge(b, hi) and all(C.has(cs, ord(x)) for x in s):
                return True
        # step over a known first / last piece
        for q, c in t.ch:
            if self.same(q, lo) and C.subset(self.cset(c), cs):
                nx = add(q, self.cwidth(c))
                if self.gt(nx, lo) and not self.same(nx, lo) and self.in_cls(tid, nx, hi, cs, depth):
                    return True
                break
        for a, b, k in t.cls:
            if C.subset(k, cs) and self.ge(lo, a) and self.gt(b, lo) and self.in_cls(tid, b, hi, cs, min(depth, 12)):
                return True
        for a, b, s in t.eqs:
            if self.same(a, lo) and s and all(C.has(cs, ord(x)) for x in s) and self.in_cls(tid, b, hi, cs, min(depth, 12)):
                return True
        return False

    # ---- strings ---------------------------------------------------------------------------
    def seq_decide(self, A, B):
        """A == B as strings: True / False / None"""
        if A[0] == "k" and B[0] == "k":
            return A[1] == B[1]
        if A[0] == "k":
            A, B = B, A
        n = self.num
        if B[0] == "k":
            s = B[1]
            L = len(s.encode())
            ln = self.slen(A)
            if n.entails_ne(addc(ln, -L)):
                return False
            t = self.tx[A[1]]
            for a, b, k in t.eqs:
                if self.same(a, A[2]) and self.same(b, A[3]):
                    return k == s
            for a, b, k in t.neqs:
                if k == s and self.same(a, A[2]) and self.same(b, A[3]):
                    return False
            if L == 0:
                return True if n.entails_eq(ln) else None
            # character by character
            off = 0
            allk = n.entails_eq(addc(ln, -L))
            for x in s:
                c = self.char_at(A[1], addc(A[2], off), create=False)
                if c is None:
                    allk = False
                    for a, b, k in t.cls:
                        p = addc(A[2], off)
                        if not C.has(k, ord(x)) and self.ge(p, a) and self.gt(b, p):
                            return False
                else:
                    cs = self.cset(c)
                    if not C.has(cs, ord(x)):
                        return False
                    if C.single(cs) is None:
                        allk = False
                off += C.u8len(ord(x))
            if allk:
                return True
            return None
        if A[1] == B[1] and self.same(A[2], B[2]) and self.same(A[3], B[3]):
            return True
        if n.entails_ne(sub(self.slen(A), self.slen(B))):
            return False
        ta, tb = self.tx[A[1]], self.tx[B[1]]
        ka = self.str_const(A)
        kb = self.str_const(B)
        if ka is not None and kb is not None:
            return ka == kb
        r = None
        if ka is not None:
            r = self.seq_decide(B, ("k", ka))
        elif kb is not None:
            r = self.seq_decide(A, ("k", kb))
        if r is not None:
            return r
        r = self.facts.get(("seq",) + tuple(sorted((A, B))))
        if r is not None:
            return r
        for k, v in self.facts.items():
            if k[0] == "seq" and (self.same_S(k[1], A) and self.same_S(k[2], B) or self.same_S(k[1], B) and self.same_S(k[2], A)):
                return v
        return None

    def same_S(self, A, B):
        return A[0] == B[0] == "t" and A[1] == B[1] and self.same(A[2], B[2]) and self.same(A[3], B[3])

    def str_const(self, A):
        """the constant the string is known to equal, if any"""
        if A[0] == "k":
            return A[1]
        t = self.tx[A[1]]
        if self.num.entails_eq(self.slen(A)):
            return ""
        for a, b, s in t.eqs:
            if self.same(a, A[2]) and self.same(b, A[3]):
                return s
        for a, b, s in t.eqs:
            d = self.num.norm(sub(A[2], a))
            e = self.num.norm(sub(A[3], a))
            if is_const(d) and is_const(e) and 0 <= d[0] <= e[0] <= len(s.encode()):
                try:
                    return s.encode()[d[0]:e[0]].decode()
                except UnicodeDecodeError:
                    return None
        return None

    def seq_assume(self, A, B, truth):
        d = self.seq_decide(A, B)
        if d is not None:
            if d != truth:
                self.dead = True
            return
        if A[0] == "k":
            A, B = B, A
        if B[0] == "k":
            s = B[1]
            L = len(s.encode())
            if truth:
                self.num.add_eq(addc(self.slen(A), -L))
                self.add_eqs(A[1], A[2], A[3], s)
            else:
                if L == 0:
                    self.num.add_ge(addc(self.slen(A), -1))
                else:
                    t = self._tx(A[1])
                    t.neqs = t.neqs + ((A[2], A[3], s),)
                    # one character strings say something about the character
                    if len(s) == 1 and self.num.entails_eq(addc(self.slen(A), -L)):
                        c = self.char_at(A[1], A[2], A[3])
                        self.refine_char(c, C.compl(((ord(s), ord(s)),)))
            return
        ka, kb = self.str_const(A), self.str_const(B)
        if ka is not None or kb is not None:
            self.seq_assume(B if ka is not None else A, ("k", ka if ka is not None else kb), truth)
        if truth:
            self.num.add_eq(sub(self.slen(A), self.slen(B)))
        self.facts[("seq",) + tuple(sorted((A, B)))] = truth

    def add_eqs(self, tid, lo, hi, s):
        if not s:
            return
        t = self._tx(tid)
        e = s.encode()
        # known characters / classes must agree
        off = 0
        for x in s:
            p = addc(lo, off)
            for q, c in t.ch:
                if self.same(q, p):
                    self.refine_char(c, ((ord(x), ord(x)),))
            for a, b, k in t.cls:
                if not C.has(k, ord(x)) and self.ge(p, a) and self.gt(b, p):
                    self.dead = True
            off += C.u8len(ord(x))
        for a, b, k in t.neqs:
            if k == s and self.same(a, lo) and self.same(b, hi):
                self.dead = True
        # overlap with other constant pieces: exclude the impossible offsets
        for a, b, k in t.eqs:
            f = k.encode()
            for d in range(-len(e) + 1, len(f)):
                # lo - a == d
                lo_ = max(d, 0)
                hi_ = min(len(f), d + len(e))
                if f[lo_:hi_] != e[lo_ - d:hi_ - d]:
                    self.num.add_ne(addc(sub(lo, a), -d))
        t.eqs = t.eqs + ((lo, hi, s),)
        for a, b, k in t.neqs:
            if (self.ge(lo, a) and self.ge(b, hi) or self.ge(a, lo) and self.ge(hi, b)) and self.spelled(tid, a, b, k):
                self.dead = True
        l, h, w = lo, hi, s
        for _ in range(4):
            for a, b, k in t.eqs:
                if self.same(b, l):
                    l, w = a, k + w
                    break
                if self.same(a, h):
                    h, w = b, w + k
                    break
            else:
                break
        self.pin(tid, l, h, w)
        for c, v in self.facts.items():
            if v is False and c[0] in ("sw", "ew") and c[1][0] == "t" and c[1][1] == tid and self.same(c[1][2], lo) and self.same(c[1][3], hi):
                if s.startswith(c[2]) if c[0] == "sw" else s.endswith(c[2]):
                    self.dead = True

    def pin(self, tid, lo, hi, s):
        """where in a text that is now known to be s the characters stand whose position is not known"""
        t = self.tx[tid]
        at = {}
        off = 0
        for x in s:
            at[off] = ord(x)
            off += C.u8len(ord(x))
        moved = False
        for q, c in t.ch:
            if len(at) > 40 or is_const(self.num.norm(sub(q, lo))) or not (self.ge(q, lo) and self.gt(hi, q)):
                continue
            cs = self.cset(c)
            fits = []
            for o, x in at.items():
                if not C.has(cs, x):
                    continue
                n = self.num.copy()
                n.add_eq(sub(q, addc(lo, o)))
                if n.dead:
                    continue
                for a, b, k in t.cls:
                    if any(not C.has(k, y) and n.entails_ge(sub(addc(lo, j), a)) and n.entails_ge(addc(sub(b, addc(lo, j)), -1)) for j, y in at.items()):
                        break
                else:
                    fits.append(o)
            if not fits:
                self.dead = True
                return
            if len(fits) == 1:
                self.num.add_eq(sub(q, addc(lo, fits[0])))
                self.refine_char(c, ((at[fits[0]],) * 2,))
                moved = True
            else:
                self.num.add_ge(sub(q, addc(lo, fits[0])))
                self.num.add_ge(sub(addc(lo, fits[-1]), q))
        if moved:
            for a, b, k in t.neqs:
                if self.str_const(("t", tid, a, b)) == k:
                    self.dead = True

    def spelled(self, tid, a, b, k):
        """are the characters of [a,b) known one by one to be k?"""
        if not self.same(sub(b, a), K(len(k.encode()))):
            return False
        off = 0
        for x in k:
            c = self.char_at(tid, addc(a, off), create=False)
            if c is None or C.single(self.cset(c)) != ord(x):
                return False
            off += C.u8len(ord(x))
        return True

    # ---- conditions ------------------------------------------------------------------------
    def decide(self, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == "ge":
            if self.num.entails_ge(c[1]):
                return True
            if self.num.entails_ge(addc(neg(c[1]), -1)):
                return False
            return None
        if k == "eq":
            if self.num.entails_eq(c[1]):
                return True
            if self.num.entails_ne(c[1]):
                return False
            return None
        if k == "in":
            cs = self.cset(c[1])
            if C.subset(cs, c[2]):
                return True
            if not C.inter(cs, c[2]):
                return False
            return None
        if k == "var":
            v = self.var.get(c[1])
            if isinstance(v, int):
                return v == c[2]
            if v and c[2] in v:
                return False
            return None
        if k == "seq":
            return self.seq_decide(c[1], c[2])
        if k == "sw":
            return self.sw_decide(c[1], c[2], True)
        if k == "ew":
            return self.sw_decide(c[1], c[2], False)
        if k == "not":
            d = self.decide(c[1])
            return None if d is None else not d
        if k == "and":
            un = False
            for x in c[1:]:
                d = self.decide(x)
                if d is False:
                    return False
                if d is None:
                    un = True
            return None if un else True
        if k == "or":
            un = False
            for x in c[1:]:
                d = self.decide(x)
                if d is True:
                    return True
                if d is None:
                    un = True
            return None if un else False
        if k == "atom":
            return self.facts.get(c)
        raise AssertionError(c)

    def sw_decide(self, S, s, front):
        if S[0] == "k":
            return S[1].startswith(s) if front else S[1].endswith(s)
        L = len(s.encode())
        ln = self.slen(S)
        if L == 0:
            return True
        if self.num.entails_ge(addc(neg(ln), L - 1)):
            return False
        lo = S[2] if front else addc(S[3], -L)
        k = self.str_const(S)
        if k is not None:
            return k.startswith(s) if front else k.endswith(s)
        t = self.tx[S[1]]
        for a, b, x in t.eqs:
            d = self.num.norm(sub(lo, a))
            if is_const(d) and 0 <= d[0] and d[0] + L <= len(x.encode()) and self.ge(lo, S[2]) and self.ge(S[3], addc(lo, L)):
                return x.encode()[d[0]:d[0] + L] == s.encode()
        if front:
            off = 0
            for x in s:
                c = self.char_at(S[1], addc(lo, off), create=False)
                if c is not None and not C.has(self.cset(c), ord(x)):
                    return False
                if c is None:
                    for a, b, kk in t.cls:
                        p = addc(lo, off)
                        if not C.has(kk, ord(x)) and self.ge(p, a) and self.gt(b, p) and self.gt(S[3], p):
                            return False
                off += C.u8len(ord(x))
            if len(s) == 1 and self.gt(S[3], lo):
                c = self.char_at(S[1], lo, create=False)
                if c is not None and C.single(self.cset(c)) == ord(s):
                    return True
        f = self.facts.get(("sw" if front else "ew", S, s))
        if f is None:
            for R in self.negatives("sw" if front else "ew", S, s):
                if self.ge(self.slen(R), K(L)) or self.ge(self.slen(R), self.slen(S)):
                    return False
        return f

    def negatives(self, k, S, s):
        """other ranges that start (end) where S does and are known not to start (end) with s"""
        for f, v in self.facts.items():
            if v is False and f[0] == k and f[2] == s and f[1][0] == "t" and f[1][1] == S[1]:
                i = 2 if k == "sw" else 3
                if self.same(f[1][i], S[i]):
                    yield f[1]

    def assume(self, c, truth):
        if c is True or c is False:
            if c != truth:
                self.dead = True
            return
        k = c[0]
        if k in ("seq", "sw", "ew"):
            for X in c[1:3]:
                # the text may have been made up by the attempt that asked for this
                if X[0] == "t" and X[1] not in self.tx:
                    self.newtext(X[1])
        if k == "ge":
            if truth:
                self.num.add_ge(c[1])
            else:
                self.num.add_ge(addc(neg(c[1]), -1))
        elif k == "eq":
            if truth:
                self.num.add_eq(c[1])
            else:
                self.num.add_ne(c[1])
        elif k == "in":
            self.refine_char(c[1], c[2] if truth else C.compl(c[2]))
        elif k == "var":
            v = self.var.get(c[1])
            if isinstance(v, int):
                if (v == c[2]) != truth:
                    self.dead = True
            elif truth:
                if v and c[2] in v:
                    self.dead = True
                self.var[c[1]] = c[2]
            else:
                v = tuple(sorted(set(v or ()) | {c[2]}))
                left = [i for i in range(c[3]) if i not in v]
                if not left:
                    self.dead = True
                self.var[c[1]] = left[0] if len(left) == 1 else v
        elif k == "seq":
            self.seq_assume(c[1], c[2], truth)
        elif k in ("sw", "ew"):
            d = self.sw_decide(c[1], c[2], k == "sw")
            if d is not None:
                if d != truth:
                    self.dead = True
                return
            S, s = c[1], c[2]
            L = len(s.encode())
            if truth:
                self.num.add_ge(addc(self.slen(S), -L))
                if k == "sw":
                    self.add_eqs(S[1], S[2], addc(S[2], L), s)
                else:
                    self.add_eqs(S[1], addc(S[3], -L), S[3], s)
            else:
                self.facts[c] = False
                # a constant this text is later found to equal must not start with it; single
                # characters are known directly
                if k == "sw" and len(s) == 1 and self.gt(S[3], S[2]):
                    ch = self.char_at(S[1], S[2], S[3])
                    self.refine_char(ch, C.compl(((ord(s), ord(s)),)))
        elif k == "not":
            self.assume(c[1], not truth)
        elif k == "and" and truth:
            for x in c[1:]:
                self.assume(x, True)
        elif k == "or" and not truth:
            for x in c[1:]:
                self.assume(x, False)
        elif k in ("and", "or"):
            # and == False / or == True: only sound refinement when a single part is open
            want = k == "or"
            open_ = [x for x in c[1:] if self.decide(x) is None]
            if any(self.decide(x) is want for x in c[1:]):
                return
            if not open_:
                self.dead = True
            elif len(open_) == 1:
                self.assume(open_[0], want)
        elif k == "atom":
            o = self.facts.get(c)
            if o is None:
                self.facts[c] = truth
            elif o != truth:
                self.dead = True
        else:
            raise AssertionError(c)

    def need(self, c):
        """the truth of c; splits when it is open"""
        d = self.decide(c)
        if d is not None:
            return d
        l = self.leaf(c)
        if l[0] in ("sw", "ew") and l[1][0] == "t":
            for R in self.negatives(l[0], l[1], l[2]):
                # what is known of R says nothing when R is too short
                g = ("ge", addc(self.slen(R), -len(l[2].encode())))
                if self.decide(g) is None:
                    raise Split([lambda s: s.assume(g, True), lambda s: s.assume(g, False)], g)
        raise Split([lambda s: s.assume(l, True), lambda s: s.assume(l, False)], l)

    def leaf(self, c):
        while c[0] in ("not", "and", "or"):
            if c[0] == "not":
                c = c[1]
            else:
                for x in c[1:]:
                    if self.decide(x) is None:
                        c = x
                        break
        return c

    def after_sw_false(self, S):
        return None


def c_not(c):
    if c is True or c is False:
        return not c
    if c[0] == "not":
        return c[1]
    return ("not", c)


def c_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ("and", a, b)


def c_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ("or", a, b)
