"""Numeric domain: linear expressions over integer symbols, a store of linear equalities,
inequalities and disequalities with an entailment test (difference-bound closure, with a bounded
Fourier-Motzkin elimination for the rest).  Everything here is sound for "entailed": a True answer
is a proof; a False answer only means "not shown"."""
from fractions import Fraction
from math import gcd

# A linear expression is a tuple (const, ((sym, coef), ...)) with syms sorted and coefs non-zero.


def K(c):
    return (c, ())


ZERO = K(0)
ONE = K(1)


def V(sym, coef=1, c=0):
    return (c, ((sym, coef),))


def is_const(l):
    return not l[1]


def add(a, b):
    if not b[1]:
        return (a[0] + b[0], a[1])
    if not a[1]:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for s, k in b[1]:
        n = d.get(s, 0) + k
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return (a[0] + b[0], tuple(sorted(d.items())))


def neg(a):
    return (-a[0], tuple((s, -k) for s, k in a[1]))


def sub(a, b):
    if not b[1]:
        return (a[0] - b[0], a[1])
    return add(a, neg(b))


def addc(a, c):
    return (a[0] + c, a[1])


def scale(a, k):
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((s, x * k) for s, x in a[1]))


def subst(l, m):
    """substitute symbols by linear expressions"""
    out = K(l[0])
    hit = False
    rest = []
    for s, k in l[1]:
        r = m.get(s)
        if r is None:
            rest.append((s, k))
        else:
            hit = True
            out = add(out, scale(r, k))
    if not hit:
        return l
    return add(out, (0, tuple(rest)))


def show(l):
    out = []
    for s, k in l[1]:
        n = s if isinstance(s, str) else str(s)
        if k == 1:
            out.append("+" + n)
        elif k == -1:
            out.append("-" + n)
        else:
            out.append("%+d*%s" % (k, n))
    if l[0] or not out:
        out.append("%+d" % l[0])
    r = "".join(out)
    return r[1:] if r.startswith("+") else r


def tighten(l):
    """l >= 0 over integers"""
    if not l[1]:
        return l
    g = 0
    for _, k in l[1]:
        g = gcd(g, abs(k))
    if g > 1:
        return (l[0] // g, tuple((s, k // g) for s, k in l[1]))
    return l


class Num:
    __slots__ = ("eqs", "ineqs", "neqs", "dead", "memo", "dbm", "mods", "nond")

    def __init__(self):
        self.eqs = {}
        self.ineqs = {}  # terms -> min const   (const + terms >= 0)
        self.neqs = ()
        self.dead = False
        self.memo = {}
        self.dbm = None
        self.mods = None  # some solutions of the facts (they refute entailments quickly)
        self.nond = None

    def copy(self):
        n = Num.__new__(Num)
        n.eqs = self.eqs
        n.ineqs = self.ineqs
        n.neqs = self.neqs
        n.dead = self.dead
        n.memo = self.memo
        n.dbm = self.dbm
        n.mods = self.mods
        n.nond = self.nond
        return n

    def _touch(self):
        self.memo = {}
        self.dbm = None
        self.nond = None

    def norm(self, l):
        if not l[1] or not self.eqs:
            return l
        e = self.eqs
        for s, _ in l[1]:
            if s in e:
                return subst(l, e)
        return l

    def add_ge(self, l):
        """assert l >= 0"""
        l = tighten(self.norm(l))
        if not l[1]:
            if l[0] < 0:
                self.dead = True
            return
        old = self.ineqs.get(l[1])
        if old is not None and old <= l[0]:
            return
        n = tuple((s, -k) for s, k in l[1])
        o = self.ineqs.get(n)
        if o is not None:
            if l[0] + o < 0:
                self.dead = True
                return
            if l[0] + o == 0:
                self.add_eq(l)
                return
        self.ineqs = dict(self.ineqs)
        self.ineqs[l[1]] = l[0]
        self._filter(l, False)
        self.nond = None
        self._dbm_add(l)
        if self.neqs:
            self._neq_tighten()

    def _filter(self, l, eq):
        """keep the sample solutions that satisfy a new fact (l >= 0, or l == 0)"""
        if not self.mods:
            self.mods = None
            return
        out = []
        for i, m in enumerate(self.mods):
            v = l[0]
            miss = None
            bad = False
            for s, k in l[1]:
                x = m.get(s)
                if x is None:
                    if miss is not None:
                        bad = True
                        break
                    miss = (s, k)
                else:
                    v += k * x
            if bad:
                continue
            if miss is not None:
                s, k = miss
                if eq:
                    if v % k:
                        continue
                    x = -v // k
                elif k > 0:
                    x = -(v // k) + i  # k*x >= -v
                else:
                    x = v // -k - i
                m = dict(m)
                m[s] = x
                v += k * x
            if v == 0 or v > 0 and not eq:
                out.append(m)
        self.mods = tuple(out) or None

    def _nondiff(self):
        """the symbols that are connected to a fact that is no difference bound"""
        if self.nond is None:
            seen = set()
            for t in self.ineqs:
                if not is_diff(t):
                    seen.update(s for s, _ in t)
            if seen:
                facts = [tuple(s for s, _ in t) for t in self.ineqs]
                ch = True
                while ch:
                    ch = False
                    rest = []
                    for f in facts:
                        if any(s in seen for s in f):
                            for s in f:
                                seen.add(s)
                            ch = True
                        else:
                            rest.append(f)
                    facts = rest
            self.nond = seen
        return self.nond

    def _models(self):
        if self.mods is None:
            out = []
            for i in range(6):
                m = self._model(i)
                if m is not None and m not in out:
                    out.append(m)
                if len(out) == 4:
                    break
            self.mods = tuple(out)
        return self.mods

    def _model(self, i):
        d = self._dbm()
        syms = sorted({s for t in self.ineqs for s, _ in t}, key=lambda s: (s in self._nondiff(), s) if i % 2 else (s not in self._nondiff(), s[::-1]))
        nd = [(c, t) for t, c in self.ineqs.items() if not is_diff(t)]
        m = {}
        for s in syms:
            lo, hi = None, None
            r = d.get(s, {})
            for y, w in r.items():
                v = 0 if y is None else m.get(y)
                if v is not None and (lo is None or v + w > lo):
                    lo = v + w
            for y, dy in d.items():
                w = dy.get(s)
                if w is None:
                    continue
                v = 0 if y is None else m.get(y)
                if v is not None and (hi is None or v - w < hi):
                    hi = v - w
            for c, t in nd:
                v, kk = c, None
                for x, k in t:
                    if x == s:
                        kk = k
                    elif x in m:
                        v += k * m[x]
                    else:
                        kk = None
                        break
                if kk is None:
                    continue
                if kk > 0:
                    b = -(v // kk)
                    if lo is None or b > lo:
                        lo = b
                else:
                    b = v // -kk
                    if hi is None or b < hi:
                        hi = b
            if lo is not None and hi is not None and lo > hi:
                return None
            if lo is None and hi is None:
                x = 7 * i
            elif lo is None:
                x = hi - (i * len(m)) % 11
            elif hi is None:
                x = lo + (i * (1 + len(m))) % 13
            else:
                x = min(hi, lo + (i * (1 + len(m))) % 13)
            m[s] = x
        for c, t in nd:
            if c + sum(k * m[x] for x, k in t) < 0:
                return None
        return m

    def _refuted(self, l):
        """does a sample solution make l negative?"""
        for m in self._models():
            v = l[0]
            for s, k in l[1]:
                x = m.get(s)
                if x is None:
                    # an unbounded symbol: any value will do
                    v = None
                    break
                v += k * x
            if v is not None and v < 0:
                return True
        return False

    def _dbm_add(self, l):
        """add one fact to the closed difference bounds"""
        self.memo = {}
        d = self.dbm
        if d is None:
            return
        e = as_diff(l)
        if e is None:
            return
        x, y, w = e
        o = d.get(x, {}).get(y)
        if o is not None and o >= w:
            return
        n = {k: v for k, v in d.items()}
        # all a -> x and y -> b
        ins = [(a, r[x]) for a, r in d.items() if x in r]
        ins.append((x, 0))
        outs = list(d.get(y, {}).items())
        outs.append((y, 0))
        for a, wa in ins:
            row = dict(n.get(a, {}))
            for b, wb in outs:
                if a == b:
                    if wa + w + wb > 0:
                        self.dead = True
                    continue
                t = wa + w + wb
                ob = row.get(b)
                if ob is None or ob < t:
                    row[b] = t
            n[a] = row
        self.dbm = n

    def _neq_tighten(self):
        for q in self.neqs:
            q = self.norm(q)
            if not q[1]:
                if q[0] == 0:
                    self.dead = True
                continue
            c = self.ineqs.get(q[1])
            if c is not None and c == q[0]:
                # q >= 0 known and q != 0
                self.ineqs = dict(self.ineqs)
                del self.ineqs[q[1]]
                self.neqs = tuple(x for x in self.neqs if self.norm(x) != q)
                self.add_ge(addc(q, -1))
                return
            nq = neg(q)
            c = self.ineqs.get(nq[1])
            if c is not None and c == nq[0]:
                self.ineqs = dict(self.ineqs)
                del self.ineqs[nq[1]]
                self.neqs = tuple(x for x in self.neqs if self.norm(x) != q)
                self.add_ge(addc(nq, -1))
                return

    def add_eq(self, l):
        """assert l == 0"""
        l = self.norm(l)
        if not l[1]:
            if l[0] != 0:
                self.dead = True
            return
        # choose a symbol with coefficient +-1, preferring the youngest (non rigid names last)
        pick = None
        for s, k in l[1]:
            if abs(k) == 1:
                if pick is None or rank(s) > rank(pick[0]):
                    pick = (s, k)
        if pick is None:
            g = 0
            for _, k in l[1]:
                g = gcd(g, abs(k))
            if l[0] % g:
                self.dead = True
                return
            self._raw_ge(l)
            self._raw_ge(neg(l))
            return
        s, k = pick
        # k*s + rest == 0 -> s = -rest/k
        rest = (l[0], tuple(t for t in l[1] if t[0] != s))
        val = scale(rest, -k)
        m = {s: val}
        self.eqs = {x: subst(e, m) for x, e in self.eqs.items()}
        self.eqs[s] = val
        old = self.ineqs
        self.ineqs = {}
        self._filter(l, True)
        mods = self.mods
        self.mods = None
        self._touch()
        eqs = self.eqs
        for t, c in old.items():
            if self.eqs is not eqs or any(x == s for x, _ in t):
                self.add_ge((c, t))
            else:
                o = self.ineqs.get(t)
                if o is None or c < o:
                    self.ineqs[t] = c
        self._touch()
        self.mods = mods if self.eqs is eqs else None
        if self.neqs:
            self._neq_tighten()

    def _raw_ge(self, l):
        l = tighten(l)
        old = self.ineqs.get(l[1])
        if old is None or l[0] < old:
            self.ineqs = dict(self.ineqs)
            self.ineqs[l[1]] = l[0]
            self._filter(l, False)
            self.nond = None
            self._dbm_add(l)

    def add_ne(self, l):
        l = self.norm(l)
        if not l[1]:
            if l[0] == 0:
                self.dead = True
            return
        if self.entails_ge(l):
            self.add_ge(addc(l, -1))
            return
        if self.entails_ge(neg(l)):
            self.add_ge(addc(neg(l), -1))
            return
        self.neqs = self.neqs + (l,)
        self._neq_tighten()

    # -- queries -----------------------------------------------------------------------------
    def _dbm(self):
        """shortest-path closure of difference constraints; node None is zero.
        d[(x,y)] = w means x - y >= w"""
        if self.dbm is not None:
            return self.dbm
        d = {}
        nodes = {None}
        for t, c in self.ineqs.items():
            e = as_diff((c, t))
            if e is None:
                continue
            x, y, w = e
            nodes.add(x)
            nodes.add(y)
            dx = d.setdefault(x, {})
            if y not in dx or dx[y] < w:
                dx[y] = w
        for k in nodes:
            dk = d.get(k)
            if not dk:
                continue
            for i in nodes:
                di = d.get(i)
                if not di:
                    continue
                w = di.get(k)
                if w is None:
                    continue
                for j, w2 in dk.items():
                    if j == i:
                        continue
                    n = w + w2
                    o = di.get(j)
                    if o is None or o < n:
                        di[j] = n
        self.dbm = d
        return d

    def close(self):
        """turn pairs of bounds that meet into equalities"""
        again = True
        while again and not self.dead:
            again = False
            d = self._dbm()
            for x, r in d.items():
                for y, w in r.items():
                    b = d.get(y, {}).get(x)
                    if b is not None and w + b == 0 and x != y:
                        l = K(-w)
                        if x is not None:
                            l = add(l, V(x))
                        if y is not None:
                            l = sub(l, V(y))
                        self.add_eq(l)
                        again = True
                        break
                if again:
                    break

    def diff_lb(self, x, y):
        """greatest known w with x - y >= w (None if unknown); x,y symbols or None for zero"""
        if x == y:
            return 0
        return self._dbm().get(x, {}).get(y)

    def lower(self, l):
        """a lower bound of l or None"""
        l = self.norm(l)
        if not l[1]:
            return l[0]
        t = l[1]
        if len(t) == 1 and abs(t[0][1]) == 1:
            s, k = t[0]
            w = self.diff_lb(s, None) if k == 1 else self.diff_lb(None, s)
            return None if w is None else w + l[0]
        if len(t) == 2 and t[0][1] == -t[1][1] and abs(t[0][1]) == 1:
            x, y = (t[0][0], t[1][0]) if t[0][1] == 1 else (t[1][0], t[0][0])
            w = self.diff_lb(x, y)
            return None if w is None else w + l[0]
        tot = l[0]
        for s, k in t:
            w = self.diff_lb(s, None) if k > 0 else self.diff_lb(None, s)
            if w is None:
                return None
            tot += w * abs(k)
        return tot

    def entails_ge(self, l):
        l = self.norm(l)
        if not l[1]:
            return l[0] >= 0
        r = self.memo.get(l)
        if r is not None:
            return r
        r = self._entails(l)
        self.memo[l] = r
        return r

    def _entails(self, l):
        c = self.ineqs.get(l[1])
        if c is not None and c <= l[0]:
            return True
        lb = self.lower(l)
        if lb is not None and lb >= 0:
            return True
        t = l[1]
        if (len(t) == 1 or (len(t) == 2 and t[0][1] == -t[1][1])) and self._only_diff(t):
            return False
        if self._refuted(l):
            return False
        return self._refute(addc(neg(l), -1))

    def _only_diff(self, t):
        """True if every fact connected to these symbols is a difference constraint"""
        nd = self._nondiff()
        return not nd or not any(s in nd for s, _ in t)

    def _refute(self, extra):
        """are the facts together with extra >= 0 unsatisfiable (over the rationals)?"""
        cur = {}

        def put(c, t):
            if not t:
                return c < 0
            o = cur.get(t)
            if o is None or c < o:
                cur[t] = c
            return False

        l = tighten(extra)
        if put(l[0], l[1]):
            return True
        seen = set(s for s, _ in l[1])
        facts = list(self.ineqs.items())
        ch = True
        while ch:
            ch = False
            rest = []
            for f in facts:
                if any(s in seen for s, _ in f[0]):
                    put(f[1], f[0])
                    for s, _ in f[0]:
                        seen.add(s)
                    ch = True
                else:
                    rest.append(f)
            facts = rest
        while True:
            cnt = {}
            for t in cur:
                for s, k in t:
                    p, n = cnt.get(s, (0, 0))
                    if k > 0:
                        p += 1
                    else:
                        n += 1
                    cnt[s] = (p, n)
            if not cnt:
                return False
            s = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], str(x)))
            pos, ng, rest = [], [], {}
            for t, c in cur.items():
                k = 0
                for x, kk in t:
                    if x == s:
                        k = kk
                        break
                if k > 0:
                    pos.append((k, c, t))
                elif k < 0:
                    ng.append((-k, c, t))
                else:
                    rest[t] = c
            cur = rest
            for k1, c1, t1 in pos:
                for k2, c2, t2 in ng:
                    l = add(scale((c1, t1), k2), scale((c2, t2), k1))
                    l = tighten(l)
                    if put(l[0], l[1]):
                        return True
            if len(cur) > 600:
                return False

    def entails_eq(self, l):
        l = self.norm(l)
        if not l[1]:
            return l[0] == 0
        return self.entails_ge(l) and self.entails_ge(neg(l))

    def entails_ne(self, l):
        l = self.norm(l)
        if not l[1]:
            return l[0] != 0
        if self.entails_ge(addc(l, -1)) or self.entails_ge(addc(neg(l), -1)):
            return True
        nl = neg(l)
        for q in self.neqs:
            q = self.norm(q)
            if q == l or q == nl:
                return True
        return False

    def feasible(self):
        if self.dead:
            return False
        return True

    def check_feasible(self):
        """a stronger feasibility test (used when a path would raise an alarm)"""
        if self.dead:
            return False
        for q in self.neqs:
            q = self.norm(q)
            if not q[1] and q[0] == 0:
                return False
            if q[1] and self.entails_eq(q):
                return False
        d = self._dbm()
        for x in d:
            for y, w in d[x].items():
                b = d.get(y, {}).get(x)
                if b is not None and w + b > 0:
                    return False
        n = Num()
        n.ineqs = self.ineqs
        for t, c in self.ineqs.items():
            if len(t) > 1:
                if n._refute((c, t)):
                    return False
        return True


def is_diff(t):
    return len(t) == 1 and abs(t[0][1]) == 1 or len(t) == 2 and t[0][1] == -t[1][1] and abs(t[0][1]) == 1


def as_diff(l):
    """l >= 0 as (x, y, w) meaning x - y >= w, or None"""
    c, t = l
    if len(t) == 1:
        s, k = t[0]
        if k == 1:
            return (s, None, -c)
        if k == -1:
            return (None, s, -c)
        return None
    if len(t) == 2:
        if t[0][1] == 1 and t[1][1] == -1:
            return (t[0][0], t[1][0], -c)
        if t[0][1] == -1 and t[1][1] == 1:
            return (t[1][0], t[0][0], -c)
    return None


def rank(s):
    """symbols with a higher rank are eliminated first; rigid inputs are kept"""
    if s[0] == "#":
        d = s[1:].split(".")[0]
        return int(d) + 10 if d.isdigit() else 1
    return 0


# ---- affine hull ---------------------------------------------------------------------------

def affine_hull(A, B, nrigid):
    """A, B: equal-length lists of linear expressions (each over its own symbols).
    Returns (pivots, exprs): pivots = indices chosen as free parameters, exprs[i] = either
    ('p', i) for a pivot or (const Fraction, {pivot: Fraction}).  The first nrigid holes are
    tried first as pivots."""
    uniq = {}
    cols = []
    for x in zip(A, B):
        if x not in uniq:
            uniq[x] = len(cols)
            cols.append(len(uniq) - 1)
    rep = []
    first = {}
    for i, x in enumerate(zip(A, B)):
        u = uniq[x]
        rep.append(u)
        first.setdefault(u, i)
    back = [first[u] for u in range(len(uniq))]
    UA = [A[i] for i in back]
    UB = [B[i] for i in back]
    n = len(UA)

    def gens(H):
        syms = {}
        for i, l in enumerate(H):
            for s, k in l[1]:
                syms.setdefault(s, [0] * n)[i] += k
        return list(syms.values())

    dirs = gens(UA)
    if B is not A:
        dirs += gens(UB)
        d = [b[0] - a[0] for a, b in zip(UA, UB)]
        if any(d):
            dirs.append(d)
    # reduced row echelon form over the integers (row r has its pivot entry r[p] > 0)
    rows = []
    pivcols = []
    for v in dirs:
        for r, p in zip(rows, pivcols):
            x = v[p]
            if x:
                q = r[p]
                v = [q * e - x * f for e, f in zip(v, r)]
        p = next((i for i, x in enumerate(v) if x), None)
        if p is None:
            continue
        g = gcd(*v)
        if v[p] < 0:
            g = -g
        if g != 1:
            v = [x // g for x in v]
        for i in range(len(rows)):
            x = rows[i][p]
            if x:
                q = v[p]
                r = [q * e - x * f for e, f in zip(rows[i], v)]
                g = gcd(*r)
                rows[i] = [e // g for e in r] if g > 1 else r
        rows.append(v)
        pivcols.append(p)
    exprs = [None] * n
    for p in pivcols:
        exprs[p] = ("p", back[p])
    for j in range(n):
        if exprs[j] is not None:
            continue
        c = Fraction(UA[j][0])
        co = {}
        for r, p in zip(rows, pivcols):
            if r[j]:
                f = Fraction(r[j], r[p])
                co[back[p]] = f
                c -= f * UA[p][0]
        exprs[j] = (c, co)
    out = []
    for i, u in enumerate(rep):
        e = exprs[u]
        if e[0] == "p" and back[u] != i:
            e = (Fraction(0), {back[u]: Fraction(1)})
        out.append(e)
    return [back[p] for p in pivcols], out
