"""Joining abstract states: a state is cut into a skeleton (shape, constants, variants) and numeric
holes; states with the same skeleton are joined by the affine hull of their holes, the inequalities
that hold on both sides, and the text facts that hold on both sides."""
from fractions import Fraction
from . import chars as C
from .num import Num, K, V, ZERO, add, sub, neg, addc, scale, is_const, subst, affine_hull
from .state import St, TextFacts, fresh, Stuck

HOLE = "?"


def rigid(sym):
    return not sym.startswith("#")


class Mapper:
    """structural map over values; subclasses give the leaf functions"""

    def lin(self, l):
        return l

    def char(self, c):
        return c

    def tid(self, t):
        return t

    def obj(self, o):
        return o

    def yid(self, y):
        return y

    def boolean(self, v):
        return v

    def val(self, v):
        k = v[0]
        if k == "i":
            return ("i", self.lin(v[1]))
        if k == "b":
            return self.boolean(v)
        if k in ("c", "ci", "by"):
            return (k, self.char(v[1]))
        if k in ("s", "S", "sb"):
            return (k, self.S(v[1]))
        if k == "a":
            return ("a", v[1], v[2], tuple(self.val(x) for x in v[3]))
        if k == "tu":
            return ("tu", tuple(self.val(x) for x in v[1]))
        if k == "cl":
            return ("cl", v[1], tuple(self.val(x) for x in v[2]))
        if k == "q":
            return ("q", self.items(v[1]))
        if k == "r":
            return ("r", self.obj(v[1]), self.path(v[2]))
        if k == "rv":
            return self.rv(v)
        if k == "sl":
            return ("sl", self.val(v[1]), self.lin(v[2]), self.lin(v[3]))
        if k == "y":
            return ("y", self.yid(v[1]), v[2])
        if k == "it" or k == "T":
            return (k,) + tuple(self.val(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in TAGS else x for x in v[1:])
        if k == "f":
            return v
        raise Stuck("join of a %s value" % k)

    def rv(self, v):
        return v

    def S(self, S):
        if S[0] == "k":
            return S
        return ("t", self.tid(S[1]), self.lin(S[2]), self.lin(S[3]))

    def path(self, p):
        if not p:
            return p
        out = []
        for e in p:
            if e[0] == "e":
                out.append(("e", self.lin(e[1])))
            else:
                out.append(e)
        return tuple(out)

    def items(self, its):
        out = []
        for it in its:
            if it[0] == "1":
                out.append(("1", self.val(it[1])))
            elif it[0] == "n":
                out.append(("n", self.lin(it[1]), self.val(it[2])))
            elif it[0] == "L":
                out.append(("L", it[1], self.lin(it[2])))
            else:
                out.append(it)
        return tuple(out)


TAGS = {"i", "b", "c", "ci", "by", "s", "S", "sb", "a", "tu", "cl", "q", "r", "rv", "sl", "y", "it", "T", "f"}


class Fn:
    """hashable stand-in for a function record"""


def fkey(rec):
    return (rec.get("rpath") or rec["path"], rec.get("inst", -1), tuple(rec.get("rargs", rec.get("args", ()))))


class Canon(Mapper):
    def __init__(self, eng, st):
        self.eng = eng
        self.st = st
        self.holes = []
        self.chars = []
        self.cidx = {}
        self.tids = []
        self.tidx = {}
        self.objs = []
        self.oidx = {}
        self.ys = []
        self.yidx = {}
        self.keep = {}
        self.bools = 0
        self.frecs = []

    def lin(self, l):
        self.holes.append(self.st.num.norm(l))
        return HOLE

    def char(self, c):
        if isinstance(c, int):
            return c
        cs = self.st.cset(c)
        one = C.single(cs)
        if one is not None:
            return one
        i = self.cidx.get(c)
        if i is None:
            i = len(self.chars)
            self.cidx[c] = i
            self.chars.append(c)
        return ("?c", i)

    def tid(self, t):
        if rigid(t):
            if t not in self.tidx:
                self.tidx[t] = t
                self.tids.append(t)
            return t
        i = self.tidx.get(t)
        if i is None:
            i = "?t%d" % len(self.tids)
            self.tidx[t] = i
            self.tids.append(t)
        return i

    def obj(self, o):
        if isinstance(o[0], int) or o[0] not in ("H", "Y") or rigid(str(o[1])):
            if o[0] in ("H", "Y", "G") and o not in self.oidx:
                self.oidx[o] = o
                self.objs.append(o)
            return o
        i = self.oidx.get(o)
        if i is None:
            i = (o[0], "?%d" % len(self.objs))
            self.oidx[o] = i
            self.objs.append(o)
        return i

    def yid(self, y):
        if rigid(y):
            return y
        i = self.yidx.get(y)
        if i is None:
            i = "?y%d" % len(self.ys)
            self.yidx[y] = i
            self.ys.append(y)
        return i

    def boolean(self, v):
        d = self.st.decide(v[1])
        if d is not None:
            return ("b", d)
        c = v[1]
        if c[0] == "atom" and isinstance(c[1], str) and rigid(c[1]):
            return v
        return ("b", ("?b",))

    def rv(self, v):
        x = v[1]
        if small(x):
            return v
        k = id(x)
        self.eng.keep = getattr(self.eng, "keep", {})
        self.eng.keep[k] = v
        return ("rv", ("id", k))

    def val(self, v):
        if v[0] == "f":
            self.frecs.append(v)
            return ("f", fkey(v[1]))
        return Mapper.val(self, v)

    def items(self, its):
        st = self.st
        # merge neighbours that are the same opaque token
        m = []
        for it in its:
            if it[0] == "n":
                l = st.num.norm(it[1])
                if is_const(l) and l[0] == 0 and not (it[2][0] == "T" and len(its) == 1):
                    continue
                it = ("n", l, it[2])
            elif it[0] == "1" and opaque(it[1]):
                it = ("n", K(1), it[1])
            if m and it[0] == "n" and m[-1][0] == "n" and m[-1][2] == it[2]:
                m[-1] = ("n", st.num.norm(add(m[-1][1], it[1])), it[2])
            else:
                m.append(it)
        return Mapper.items(self, tuple(m))


def opaque(v):
    """a token of a check, possibly wrapped in constructors"""
    if v[0] == "T":
        return True
    return v[0] == "a" and len(v[3]) == 1 and opaque(v[3][0])


def small(v, n=None):
    n = n if n is not None else [60]
    n[0] -= 1
    if n[0] < 0:
        return False
    for x in v:
        if isinstance(x, tuple) and not small(x, n):
            return False
        if isinstance(x, dict):
            return False
    return True


class Rebuild(Mapper):
    def __init__(self, lins, chars, tids, objs, ys, keep, frecs):
        self.lins = iter(lins)
        self.chars = chars
        self.tids = tids
        self.objs = objs
        self.ys = ys
        self.keep = keep
        self.frecs = iter(frecs)

    def lin(self, l):
        return next(self.lins)

    def char(self, c):
        if isinstance(c, tuple):
            return self.chars[c[1]]
        return c

    def tid(self, t):
        return self.tids.get(t, t)

    def obj(self, o):
        return self.objs.get(o, o)

    def yid(self, y):
        return self.ys.get(y, y)

    def boolean(self, v):
        if v[1] == ("?b",):
            return ("b", ("atom", fresh()))
        return v

    def rv(self, v):
        if isinstance(v[1], tuple) and v[1] and v[1][0] == "id":
            return self.keep[v[1][1]]
        return v

    def val(self, v):
        if v[0] == "f":
            return next(self.frecs)
        return Mapper.val(self, v)


def canon_roots(cn, roots):
    """roots: [(label, value)]; also follows references into the heap.  Returns the skeleton."""
    st = cn.st
    sk = []
    for lab, v in roots:
        sk.append((lab, cn.val(v)))
    i = 0
    while i < len(cn.objs):
        o = cn.objs[i]
        if o in st.heap and not isinstance(o[0], int):
            sk.append((cn.oidx[o], cn.val(st.heap[o])))
        i += 1
    return tuple(sk)


def frame_roots(st, base):
    """live locals of every frame"""
    roots = []
    need = set()
    for i, f in enumerate(st.frames):
        top = i == len(st.frames) - 1
        if top:
            live = f.body.live_in()[f.bb]
        else:
            nxt = st.frames[i + 1]
            live = set(f.body.live_in()[nxt.ret]) if nxt.ret is not None else set(range(len(f.body.locals)))
            if nxt.dest is None:
                # the call of a model: everything the caller has may still be used
                live = set(range(len(f.body.locals)))
        for l in live:
            need.add((f.depth, l))
    # locals reachable through references
    seen = set()
    todo = sorted(need)
    order = []
    while todo:
        k = todo.pop(0)
        if k in seen:
            continue
        seen.add(k)
        if k not in st.heap:
            continue
        order.append(k)
        for o in refs(st, st.heap[k], set()):
            if o not in seen:
                todo.append(o)
    for f in st.frames:
        if f.dest is not None and f.dest[0] == "P" and f.dest[2] and f.dest[1] in st.heap and f.dest[1] not in seen:
            order.append(f.dest[1])
            seen.add(f.dest[1])
    order = sorted(k for k in order if isinstance(k[0], int))
    return [(k, st.heap[k]) for k in order]


def refs(st, v, seen):
    """frame-local objects reachable from a value"""
    out = []
    k = v[0]
    if k == "r":
        o = v[1]
        if isinstance(o[0], int):
            out.append(o)
        elif o not in seen and o in st.heap:
            seen.add(o)
            out += refs(st, st.heap[o], seen)
        return out
    if k in ("a", "tu", "cl"):
        for x in v[3] if k == "a" else v[1] if k == "tu" else v[2]:
            out += refs(st, x, seen)
    elif k == "q":
        for it in v[1]:
            if it[0] == "1":
                out += refs(st, it[1], seen)
            elif it[0] == "n":
                out += refs(st, it[2], seen)
    elif k in ("it", "T", "sl"):
        for x in v[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in TAGS:
                out += refs(st, x, seen)
    return out


THRESH = [1000, 256, 128, 64, 16, 8, 5, 4, 3, 2, 1, 0, -1, -2, -3, -4, -5, -8, -16, -64, -128, -256, -1000, -65536, -(2 ** 32), -(2 ** 63), -(2 ** 64)]


BIG = [-(2 ** 32), -(2 ** 63), -(2 ** 64)]


def widen(old, new, table=THRESH):
    """old, new: lower bounds (new < old possible); the bound to keep, or None"""
    if old is None or new is None:
        return None
    if new >= old:
        return old
    for t in table:
        if t <= new:
            return t
    return None


class Side:
    """one side of a join"""

    def __init__(self, st, cn, extra):
        self.st = st
        self.cn = cn
        self.holes = [V(s) for s in extra] + cn.holes


def symbols_of(st, holes):
    out = set()
    for l in holes:
        for s, _ in l[1]:
            if rigid(s):
                out.add(s)
    return out


class Joined:
    pass


def join(eng, A, ca, B, cb, first, hard=None):
    """returns (changed, lins, num, chars, tx, facts): the join of two states with equal skeletons.
    A is the stored state; `first` when A was stored as it arrived;
    `hard`: the only bounds that are kept when they change."""
    ex = sorted(symbols_of(A, ca.holes) | symbols_of(B, cb.holes) | {t + ".n" for t in ca.tids if rigid(t)} | {"CUR"} & symbols_of(A, ca.holes))
    # what the lengths of given lists are known to equal
    lens = [s for s in A.num.eqs if s in B.num.eqs and s.endswith(".len") and rigid(s) and s not in ex]
    if lens:
        ex = sorted(set(ex) | set(lens) | symbols_of(A, [A.num.norm(V(s)) for s in lens]) | symbols_of(B, [B.num.norm(V(s)) for s in lens]))
    nr = len(ex)
    HA = [V(s) for s in ex] + ca.holes
    HB = [V(s) for s in ex] + cb.holes
    # lengths of canonical (renamed) texts are holes too
    ta = [t for t in ca.tids if not rigid(t)]
    tb = [t for t in cb.tids if not rigid(t)]
    HA = HA + [A.num.norm(A.tx[t].n) for t in ta]
    HB = HB + [B.num.norm(B.tx[t].n) for t in tb]
    HA = [A.num.norm(x) for x in HA]
    HB = [B.num.norm(x) for x in HB]
    piv, exprs = affine_hull(HA, HB, nr)
    changed = grown = first
    if not first:
        p0, _ = affine_hull(HA, HA, nr)
        if len(p0) != len(piv):
            changed = grown = True
    new = {}
    for p in piv:
        new[p] = V(ex[p]) if p < nr else V(fresh())
    # a pivot whose expression cannot be integral elsewhere gets its own parameter
    lins = []
    for i in range(len(HA)):
        e = exprs[i]
        if e[0] == "p" and isinstance(e[1], int) and i in new:
            lins.append(new[i])
            continue
        c, co = e
        ok = Fraction(c).denominator == 1 and all(x.denominator == 1 for x in co.values())
        if not ok:
            new[i] = V(fresh())
            lins.append(new[i])
            continue
        l = K(int(c))
        for p, x in co.items():
            l = add(l, scale(new[p], int(x)))
        lins.append(l)
    num = Num()
    for i in range(nr):
        if lins[i] != V(ex[i]) and i not in new:
            num.add_eq(sub(V(ex[i]), lins[i]))
    n = len(HA)
    # a place in a text may be the sum of two numbers: where a part starts, and an offset into it
    all_lins = lins
    if not hard and n <= 24:
        pos = set()
        ends = set()
        for t in A.tx.values():
            for q, c in t.ch:
                pos.add(A.num.norm(q))
                ends.add(A.num.norm(add(q, A.cwidth(c))))
            for a, b, _ in t.cls + t.eqs + t.neqs:
                pos.add(A.num.norm(a))
                ends.add(A.num.norm(b))
        ends |= pos
        ends -= set(HA)
        sums = []
        seen = set()
        for i in range(nr, n):
            if HA[i] in pos and not is_const(HA[i]):
                for j in range(nr, n):
                    if j != i and A.num.norm(add(HA[i], HA[j])) in ends:
                        k = (HA[i], HB[i], HA[j], HB[j])
                        if k not in seen:
                            seen.add(k)
                            sums.append((i, j))
        if sums and len(sums) <= 60:
            HA = HA + [A.num.norm(add(HA[i], HA[j])) for i, j in sums]
            HB = HB + [B.num.norm(add(HB[i], HB[j])) for i, j in sums]
            all_lins = lins + [add(lins[i], lins[j]) for i, j in sums]
    # candidate facts
    if grown:
        idx = {}
        for i in range(len(HA)):
            key = (HA[i], HB[i])
            if key not in idx:
                idx[key] = i
        ids = [None] + sorted(idx.values())
        w = {}
        for x in ids:
            for y in ids:
                if x == y:
                    continue
                ax = HA[x] if x is not None else ZERO
                ay = HA[y] if y is not None else ZERO
                bx = HB[x] if x is not None else ZERO
                by = HB[y] if y is not None else ZERO
                la = A.num.lower(sub(ax, ay))
                if la is None:
                    continue
                lb = B.num.lower(sub(bx, by))
                r = widen(la, lb, (hard + BIG if x is None or y is None else hard) if hard else THRESH)
                if r is None:
                    continue
                w[(x, y)] = r
        # drop what follows from two others
        for (x, y), c in sorted(w.items(), key=lambda t: (t[1], str(t[0]))):
            red = False
            for z in (ids if not hard else (None,)) if x is not None and y is not None else ():
                if z == x or z == y:
                    continue
                a, b = w.get((x, z)), w.get((z, y))
                if a is not None and b is not None and a + b >= c:
                    if a + b > c or True:
                        red = True
                        break
            if red and not cyc(w, x, y, ids, c):
                continue
            lx = all_lins[x] if x is not None else ZERO
            ly = all_lins[y] if y is not None else ZERO
            num.add_ge(addc(sub(lx, ly), -c))
    if not first:
        sub_a = {}
        sub_b = {}
        for i in range(n):
            l = HA[i]
            if len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1:
                s = l[1][0][0]
                if s not in sub_a:
                    sub_a[s] = lins[i]
                    sub_b[s] = HB[i]
        for t, c in A.num.ineqs.items():
            if any(s not in sub_a and not rigid(s) for s, _ in t):
                continue
            if all(rigid(s) for s, _ in t):
                continue
            lb = B.num.lower(subst((0, t), sub_b))
            if lb is None and B.num.entails_ge(subst((c, t), sub_b)):
                lb = -c
            if lb is not None and lb < -c and B.num.entails_ge(subst((c, t), sub_b)):
                lb = -c
            r = widen(-c, lb, (hard + BIG if len(t) == 1 else hard) if hard else THRESH)
            if r is None:
                changed = True
                continue
            if r != -c:
                changed = True
            num.add_ge(subst((-r, t), sub_a))
    # facts among rigid symbols
    for t, c in A.num.ineqs.items():
        if all(rigid(s) for s, _ in t):
            if B.num.entails_ge((c, t)):
                num.add_ge((c, t))
            else:
                changed = True
    # characters
    newchars = {}
    names = []
    for x, y in zip(ca.chars, cb.chars):
        u = C.union(A.cset(x), B.cset(y))
        if not C.subset(u, A.cset(x)):
            changed = True
        c = fresh()
        names.append(c)
        newchars[c] = u
        lo, hi = C.wrange(u)
        if lo != hi:
            num.add_ge(V(c + ".w", 1, -lo))
            num.add_ge(V(c + ".w", -1, hi))
    # texts
    tx = {}
    tmap = {}
    k = 0
    base = nr + len(ca.holes)
    off = len(lins) - len(ta)
    for t1, t2 in zip(ca.tids, cb.tids):
        if rigid(t1):
            nt = t1
            ln = A.tx[t1].n
        else:
            nt = fresh()
            ln = lins[off + k]
            k += 1
            tmap[ca.tidx[t1]] = nt
        f = TextFacts(ln)
        tx[nt] = f
        lost = join_text(A, B, t1, t2, HA, HB, all_lins, f, ca, cb, names, newchars, num, hard)
        if lost:
            changed = True
    # rigid texts that occur in no value keep their common facts
    for t1 in A.tx:
        if rigid(t1) and t1 not in tx and t1 in B.tx:
            f = TextFacts(A.tx[t1].n)
            tx[t1] = f
            if join_text(A, B, t1, t1, HA, HB, all_lins, f, ca, cb, names, newchars, num, hard):
                changed = True
    facts = {}
    for kx, v in A.facts.items():
        if "#" in repr(kx):
            continue
        if B.facts.get(kx) == v:
            facts[kx] = v
        else:
            changed = True
    return changed, lins, nr, num, names, newchars, tx, tmap, facts


def cyc(w, x, y, ids, c):
    """is the two-step derivation of (x,y) circular (through equalities)?  keep the fact then"""
    for z in ids:
        if z == x or z == y:
            continue
        a, b = w.get((x, z)), w.get((z, y))
        if a is not None and b is not None and a + b >= c:
            # z equal (up to a constant) to x or to y makes the derivation circular
            zx, yz = w.get((z, x)), w.get((y, z))
            if (zx is not None and zx + a == 0) or (yz is not None and yz + b == 0):
                continue
            return False
    return True


def class_of(st, tid, lo, hi, chars=False):
    """the characters [lo,hi) is known to consist of (chars: and it contains one that is known by itself)"""
    t = st.tx[tid]
    out = ()
    used = set()
    for _ in range(16):
        if st.ge(lo, hi):
            return None if chars else out
        nx = None
        for q, c in t.ch:
            if st.same(q, lo):
                w = st.cwidth(c)
                if is_const(w):
                    nx = add(q, w)
                    out = C.union(out, st.cset(c))
                    chars = False
                break
        if nx is None:
            for a, b, s in t.eqs:
                if st.same(a, lo) and s:
                    out = C.union(out, C.norm(tuple((ord(x), ord(x)) for x in s)))
                    nx = b
                    break
        if nx is None:
            best = None
            for a, b, k in t.cls:
                if (a, b) in used or not st.ge(lo, a) or st.ge(lo, b) or not st.ge(b, lo):
                    continue
                if st.ge(b, hi) and st.gt(hi, lo) or best is None or C.subset(k, best[2]):
                    if best is None or not C.subset(best[2], k):
                        best = a, b, k
            if best is not None:
                used.add(best[:2])
                out = C.union(out, best[2])
                nx = best[1]
        if nx is None:
            return None
        lo = nx
    return None


def join_text(A, B, t1, t2, HA, HB, lins, f, ca, cb, names, newchars, num, hard=None):
    TA, TB = A.tx[t1], B.tx[t2]
    lost = False

    def locate(p):
        """p as (hole index or None, offset); None when it is no hole"""
        p = A.num.norm(p)
        if is_const(p):
            return [(None, p[0])]
        out = []
        for i, h in enumerate(HA):
            d = sub(p, h)
            if is_const(d):
                out.append((i, d[0]))
        if not out:
            for i, h in enumerate(HA):
                d = A.num.norm(sub(p, h))
                if is_const(d):
                    out.append((i, d[0]))
        return out

    def inB(r):
        return K(r[1]) if r[0] is None else addc(HB[r[0]], r[1])

    def inJ(r):
        return K(r[1]) if r[0] is None else addc(lins[r[0]], r[1])

    def pairs(lo, hi):
        for r in locate(lo)[:6]:
            for q in locate(hi)[:6]:
                yield r, q

    for lo, hi, cs in TA.cls:
        ok = False
        for r, q in pairs(lo, hi):
            if B.in_cls(t2, inB(r), inB(q), cs):
                f.cls = f.cls + ((inJ(r), inJ(q), cs),)
                ok = True
                break
        if not ok and not hard:
            for r, q in pairs(lo, hi):
                k = class_of(B, t2, inB(r), inB(q))
                if k is not None:
                    k = C.union(k, cs)
                    if k != C.FULL:
                        f.cls = f.cls + ((inJ(r), inJ(q), k),)
                        break
        lost |= not ok
    if not hard:
        # pieces between two known places, character by character: their class holds in general
        pos = {A.num.norm(x) for q, c in TA.ch for x in (q, add(q, A.cwidth(c)))}
        pos |= {A.num.norm(x) for a, b, _ in TA.cls + TA.eqs for x in (a, b)}
        pos = [i for i, h in enumerate(HA) if h in pos]
        for i in pos:
            for j in pos:
                h, g = HA[i], HA[j]
                if i == j or A.num.entails_ge(sub(h, g)):
                    continue
                k = class_of(A, t1, h, g, True)
                if not k or k == C.FULL:
                    continue
                kb = class_of(B, t2, HB[i], HB[j])
                if kb is None:
                    continue
                k = C.union(k, kb)
                lo, hi = lins[i], lins[j]
                if k != C.FULL and not any(C.subset(z, k) and num.entails_ge(sub(lo, a)) and num.entails_ge(sub(b, hi)) for a, b, z in f.cls):
                    f.cls = f.cls + ((lo, hi, k),)
    for lo, hi, s in TA.eqs:
        ok = False
        for r, q in pairs(lo, hi):
            if B.seq_decide(("t", t2, inB(r), inB(q)), ("k", s)) is True:
                f.eqs = f.eqs + ((inJ(r), inJ(q), s),)
                ok = True
                break
        lost |= not ok
    for lo, hi, s in TA.neqs:
        ok = False
        for r, q in pairs(lo, hi):
            if B.seq_decide(("t", t2, inB(r), inB(q)), ("k", s)) is False:
                f.neqs = f.neqs + ((inJ(r), inJ(q), s),)
                ok = True
                break
        lost |= not ok
    for p in TA.bnd:
        ok = False
        for r in locate(p)[:6]:
            if B.is_bnd(t2, inB(r)):
                f.bnd = f.bnd + (inJ(r),)
                ok = True
                break
        lost |= not ok
    for p, c in TA.ch:
        ok = False
        cand = []
        for r in locate(p)[:6]:
            x = B.char_at(t2, inB(r), create=False)
            if x is None:
                continue
            if isinstance(c, int) and isinstance(x, int) and c == x:
                cand.append((r, c, True))
            elif c in ca.cidx and x in cb.cidx and ca.cidx[c] == cb.cidx[x]:
                cand.append((r, names[ca.cidx[c]], True))
            else:
                u = C.union(A.cset(c), B.cset(x))
                cand.append((r, u, C.subset(u, A.cset(c))))
        keep = [x for x in cand if not isinstance(x[1], tuple)][:1] or [x for x in cand if x[2]][:1] or cand[:1]
        if not hard:
            # the same place may be known in several ways that part from now on
            keep += [x for x in cand if x[2] and x[0][1] == 0 and x not in keep]
        for r, nm, good in keep:
            ok |= good
            if any(num.entails_eq(sub(q, inJ(r))) for q, _ in f.ch):
                continue
            if isinstance(nm, tuple):
                u = nm
                nm = C.single(u)
                if nm is None:
                    nm = fresh()
                    newchars[nm] = u
                    lo, hi = C.wrange(u)
                    if lo != hi:
                        num.add_ge(V(nm + ".w", 1, -lo))
                        num.add_ge(V(nm + ".w", -1, hi))
                e = add(inJ(r), K(C.u8len(nm)) if isinstance(nm, int) else (K(C.wrange(u)[0]) if C.wrange(u)[0] == C.wrange(u)[1] else V(nm + ".w")))
                num.add_ge(sub(f.n, e))
            f.ch = f.ch + ((inJ(r), nm),)
        lost |= not ok
    return lost


def canonical(eng, st, base):
    st.num.close()
    cn = Canon(eng, st)
    roots = frame_roots(st, base)
    roots += [(k, v) for k, v in sorted(st.ext.items())]
    sk = canon_roots(cn, roots)
    fr = tuple((f.body.id, f.bb, f.si if i < len(st.frames) - 1 else 0) for i, f in enumerate(st.frames))
    yv = tuple(sorted((k, v) for k, v in st.var.items() if rigid(k)))
    return cn, (fr, sk, yv, tuple(len(x) for x in (cn.chars, cn.tids, cn.ys)), bool(st.taint))


STILL = "a loop comes back to the state it started from and never ends"


def snapshot(st):
    """everything the rest of the path depends on: equal at two visits of a loop's head means that the
    values that take this path take it forever"""
    r = frame_roots(st, 0)
    out = dict(r)
    todo = [v for _, v in r] + list(st.ext.values())
    while todo:
        v = todo.pop()
        if not isinstance(v, tuple):
            continue
        if len(v) > 1 and v[0] == "r" and isinstance(v[1], tuple) and v[1] in st.heap:
            if v[1] not in out:
                out[v[1]] = st.heap[v[1]]
                todo.append(st.heap[v[1]])
            continue
        todo.extend(v)
    return out, dict(st.ext)


def head_visit(eng, st, table):
    fr = st.frames[-1]
    if fr.tag == fr.bb:
        return st
    if eng.no_join is not None and eng.no_join(st):
        return st
    if eng.at_head is not None:
        r = eng.at_head(st)
        if r is not None:
            if r is False:
                return None
            st = r
            fr = st.frames[-1]
    fr.tag = fr.bb
    vis = fr.vis.get(fr.bb)
    fr.vis = dict(fr.vis)
    if vis is None:
        fr.vis[fr.bb] = (st.nsplit, 1, None)
        if not eng.join_first(st):
            return st
    elif vis[0] == st.nsplit and vis[1] < eng.max_unroll:
        sn = None
        if vis[1] in (8, 9) and not eng.gens:
            sn = snapshot(st)
            if sn == vis[2] and sn is not None:
                eng.panic(st, STILL, eng.cur_span(fr), "loop")
                return None
        fr.vis[fr.bb] = (st.nsplit, vis[1] + 1, sn)
        return st
    sn = None if eng.gens else snapshot(st)
    if vis is not None and sn is not None and vis[2] == sn:
        eng.panic(st, STILL, eng.cur_span(fr), "loop")
        return None
    fr.vis[fr.bb] = (st.nsplit, 1, sn)
    eng.nhead += 1
    try:
        cn, key = canonical(eng, st, eng.base)
        hash(key)
    except Stuck as e:
        eng.stuck(st, "join: " + e.why)
        eng.dropped = True
        return None
    ent = table.get(key)
    if ent is None:
        if len(table) > eng.max_heads:
            eng.stuck(st, "too many loop states")
            eng.dropped = True
            return None
        table[key] = [st.copy(), cn, True, 1]
        return st
    A, ca, first, cnt = ent
    changed, lins, nr, num, names, newchars, tx, tmap, facts = join(eng, A, ca, st, cn, first)
    if not changed:
        return None
    if cnt > 200:
        eng.stuck(st, "no fixpoint")
        eng.dropped = True
        return None
    new = rebuild_state(eng, st, cn, key, lins[nr:], num, names, newchars, tx, tmap, facts)
    new.lossy = True
    f2 = new.frames[-1]
    f2.vis = dict(f2.vis)
    f2.vis[f2.bb] = (new.nsplit, 1, None if eng.gens else snapshot(new))
    c2, k2 = canonical(eng, new, eng.base)
    if k2 != key:
        # the join made a part constant (or merged two parts): store it under its own shape
        ent2 = table.get(k2)
        if ent2 is not None and ent2 is not ent:
            return new
        table[k2] = [new.copy(), c2, False, cnt + 1]
        if ent2 is None:
            table[key] = [new.copy(), c2, False, cnt + 1] if shape_eq(k2, key) else ent
        return new
    table[key] = [new.copy(), c2, False, cnt + 1]
    return new


def shape_eq(a, b):
    return a == b


def rebuild_state(eng, st, cn, key, lins, num, names, newchars, tx, tmap, facts):
    sk = key[1]
    rb = Rebuild(lins, names, tmap, {}, {}, getattr(eng, "keep", {}), cn.frecs)
    omap = {}
    for o in cn.objs:
        k = cn.oidx[o]
        if k != o:
            omap[k] = (o[0], fresh())
    rb.objs = omap
    rb.ys = {i: fresh() for i in cn.yidx.values() if isinstance(i, str) and i.startswith("?y")}
    new = St()
    new.frames = [f.copy() for f in st.frames]
    new.num = num
    new.chars = newchars
    new.tx = tx
    new.facts = facts
    new.var = {k: v for k, v in st.var.items() if rigid(k)}
    new.tr = st.tr
    new.taint = st.taint
    new.nsplit = st.nsplit
    new.ext = {}
    for lab, s in sk:
        v = rb.val(s)
        if isinstance(lab, str):
            new.ext[lab] = v
        elif lab in omap:
            new.heap[omap[lab]] = v
        else:
            new.heap[lab] = v
    # destinations of pending calls may point at renamed objects
    inv = {o: omap[cn.oidx[o]] for o in cn.objs if cn.oidx[o] != o}
    for f in new.frames:
        if f.dest is not None and f.dest[0] == "P" and f.dest[1] in inv:
            f.dest = ("P", inv[f.dest[1]], f.dest[2])
    return new
