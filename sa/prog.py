"""The analysed program: the MIR dump of a crate, indexed."""
import json


class Body:
    __slots__ = ("id", "d", "blocks", "locals", "argc", "path", "local", "heads", "_live", "preds", "_succ")

    def __init__(self, d):
        self.d = d
        self.id = d["id"]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.argc = d["argc"]
        self.path = d["path"]
        self.local = d["local"]
        self._live = None
        self._succ = None
        self.heads = None

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t["t"]
        if k in ("goto", "drop", "assert"):
            return [t["b"]]
        if k == "call":
            return [t["b"]] if t["b"] >= 0 else []
        if k == "switch":
            return [c[1] for c in t["cases"]] + [t["else"]]
        return []

    def loop_heads(self):
        if self.heads is not None:
            return self.heads
        heads = set()
        state = {}
        stack = [(0, iter(self.succs(0)))]
        state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state.get(s, 0) == 0:
                    state[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    break
                elif state[s] == 1:
                    heads.add(s)
            else:
                state[b] = 2
                stack.pop()
        self.heads = heads
        return heads

    # -- liveness (a borrowed local stays reachable through the reference, so borrows are uses)
    def live_in(self):
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]

        def u(i, l):
            if l not in dfn[i]:
                use[i].add(l)

        def place_use(i, p):
            u(i, p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i":
                    u(i, e[1])

        def op_use(i, o):
            if "c" in o:
                place_use(i, o["c"])
            elif "m" in o:
                place_use(i, o["m"])

        def assign(i, p):
            if not p[1]:
                dfn[i].add(p[0])
            else:
                place_use(i, p)

        for i, b in enumerate(self.blocks):
            for s in b["s"]:
                if s[0] == "=":
                    r = s[2]
                    for k in ("o", "a", "b"):
                        if k in r and isinstance(r[k], dict):
                            op_use(i, r[k])
                    if "ops" in r:
                        for o in r["ops"]:
                            op_use(i, o)
                    if "p" in r:
                        place_use(i, r["p"])
                    assign(i, s[1])
                elif s[0] == "sd":
                    place_use(i, s[1])
            t = b["t"]
            k = t["t"]
            if k in ("switch", "assert"):
                op_use(i, t["o"])
            elif k == "call":
                op_use(i, t["f"])
                for o in t["a"]:
                    op_use(i, o)
                if t["d"][1]:
                    place_use(i, t["d"])
                # the destination is defined on the edge; treat it as a definition of this block
                else:
                    dfn[i].add(t["d"][0])
            elif k == "ret":
                u(i, 0)
        live = [set(x) for x in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in self.succs(i):
                    out |= live[s]
                new = use[i] | (out - dfn[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        self._live = live
        return live


class Program:
    def __init__(self, path):
        self.d = json.load(open(path))
        self.types = self.d["types"]
        self.crate = self.d["crate"]
        self.bodies = {}
        for x in self.d["insts"]:
            if x:
                self.bodies[x["id"]] = Body(x)
        self.fns = []  # callee records referenced from values
        self._fnids = {}
        self.items = self.d["items"]
        self.consts = self.d["consts"]

    def ty(self, i):
        return self.types[i]

    def fnrec(self, rec):
        k = id(rec)
        i = self._fnids.get(k)
        if i is None:
            i = len(self.fns)
            self.fns.append(rec)
            self._fnids[k] = i
        return i

    # -- lookups -----------------------------------------------------------------------------
    def adt_path(self, t):
        t = self.types[t]
        return t.get("path") if t["k"] == "adt" else None

    def is_adt(self, t, path):
        return self.adt_path(t) == path

    def find_impl(self, trait, name, self_pred):
        """bodies of `name` in impls of `trait` (def path) whose self type satisfies self_pred"""
        out = []
        for b in self.bodies.values():
            d = b.d
            if d.get("trait") == trait and d.get("name") == name and self_pred(d["impl_self"]):
                out.append(b)
        return out

    def find_inherent(self, adt_path, name):
        out = []
        for b in self.bodies.values():
            d = b.d
            if d.get("name") == name and "trait" not in d and "impl_self" in d and b.local and self.adt_path(d["impl_self"]) == adt_path:
                out.append(b)
        return out

    def find_path(self, path):
        return [b for b in self.bodies.values() if b.path == path]

    def item(self, inst):
        for i in self.items:
            if i["inst"] == inst:
                return i
        return None

    def type_by_path(self, path):
        return [i for i, t in enumerate(self.types) if t["k"] == "adt" and t.get("path") == path]

    def variant(self, t, name):
        for i, v in enumerate(self.types[t]["variants"]):
            if v["name"] == name:
                return i
        return None
