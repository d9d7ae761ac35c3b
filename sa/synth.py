"""MIR bodies for the Iterator methods that std overrides with pointer arithmetic, written in terms of
next; used for iterators that are modelled directly."""
from .prog import Body

ITER = "core::iter::traits::iterator::Iterator"
NAMES = {"any", "all", "find", "position", "find_map", "fold", "for_each", "last", "count", "try_for_each"}


class Synth:
    def __init__(self, prog):
        self.p = prog
        self.cache = {}
        self.unit = self.ty(lambda t: t["k"] == "tuple" and not t["elems"], {"k": "tuple", "s": "()", "elems": []})
        self.bool = self.ty(lambda t: t["k"] == "bool", {"k": "bool", "s": "bool"})
        self.usize = self.ty(lambda t: t["k"] == "int" and t.get("name") == "usize", {"k": "int", "s": "usize", "name": "usize"})
        self.nid = -100
        prog.types.append({"k": "adt", "path": "core::option::Option", "s": "Option<?>", "args": [self.unit], "variants": [
            {"name": "None", "discr": 0, "fields": []}, {"name": "Some", "discr": 1, "fields": [{"name": "0", "ty": self.unit}]}]})
        self.opt = len(prog.types) - 1

    def ty(self, f, new):
        for i, t in enumerate(self.p.types):
            if f(t):
                return i
        self.p.types.append(new)
        return len(self.p.types) - 1

    def body(self, name, rt):
        k = (name, rt)
        if k not in self.cache:
            self.cache[k] = self.make(name, rt)
        return self.cache[k]

    def make(self, name, rt):
        P = lambda l, *pr: [l, list(pr)]
        L = []
        blocks = []
        C = lambda l: {"c": P(l)}
        nargs = {"last": 1, "count": 1, "fold": 3}.get(name, 2)
        fn = nargs  # the closure is the last argument
        L = [rt] + [self.unit] * nargs
        new = lambda ty=None: (L.append(self.unit if ty is None else ty), len(L) - 1)[1]
        it, o, d, item = new(), new(self.opt), new(self.usize), new()
        fr, res = new(), new(self.bool)
        idx = new(self.usize)
        asn = lambda pl, rv: ["=", pl, rv, ""]
        use = lambda x: {"r": "use", "o": x}
        const = lambda v, ty: {"k": ty, "v": v}
        ref = lambda l: {"r": "ref", "p": P(l), "mut": True}
        agg = lambda vi, ops: {"r": "agg", "kind": {"adt": rt, "variant": vi}, "ops": ops}
        goto = lambda b: {"t": "goto", "b": b}
        ret = {"t": "ret"}
        nextrec = {"path": "core::iter::traits::iterator::Iterator::next", "rpath": "synth::next", "name": "next", "trait": "synth"}
        call = lambda args, dest, b, ty: {"t": "call", "f": C(fr), "a": args, "d": P(dest), "b": b, "dt": ty, "at": None, "sp": ""}
        # 0: initialise; 1: next; 2: test; 3: item; 4..: per method
        blocks.append({"s": [], "t": goto(1)})
        blocks.append({"s": [asn(P(it), ref(1))], "t": {"t": "call", "f": {"fn": nextrec}, "a": [C(it)], "d": P(o), "b": 2, "dt": self.opt, "at": None, "sp": ""}})
        blocks.append({"s": [asn(P(d), {"r": "discr", "p": P(o)})], "t": {"t": "switch", "o": C(d), "cases": [[0, 4]], "else": 3}})
        blocks.append({"s": [asn(P(item), use({"c": P(o, ["d", 1], ["f", 0, self.unit])})), asn(P(fr), ref(fn))], "t": None})
        none = {"s": [], "t": ret}
        blocks.append(none)
        vi = lambda n: self.p.variant(rt, n)
        sw = lambda l, no, yes: {"t": "switch", "o": C(l), "cases": [[0, no]], "else": yes}
        if name in ("any", "all"):
            none["s"].append(asn(P(0), use(const(name == "all", self.bool))))
            blocks[3]["t"] = call([C(item)], res, 5, self.bool)
            blocks.append({"s": [], "t": sw(res, 1, 6) if name == "any" else sw(res, 6, 1)})
            blocks.append({"s": [asn(P(0), use(const(name == "any", self.bool)))], "t": ret})
        elif name == "find":
            r2 = new()
            none["s"].append(asn(P(0), agg(vi("None"), [])))
            blocks[3]["s"].append(asn(P(r2), {"r": "ref", "p": P(item)}))
            blocks[3]["t"] = call([C(r2)], res, 5, self.bool)
            blocks.append({"s": [], "t": sw(res, 1, 6)})
            blocks.append({"s": [asn(P(0), agg(vi("Some"), [C(item)]))], "t": ret})
        elif name == "position":
            blocks[0]["s"].append(asn(P(idx), use(const(0, self.usize))))
            none["s"].append(asn(P(0), agg(vi("None"), [])))
            blocks[3]["t"] = call([C(item)], res, 5, self.bool)
            blocks.append({"s": [], "t": sw(res, 6, 7)})
            blocks.append({"s": [asn(P(idx), {"r": "bin", "op": "AddUnchecked", "a": C(idx), "b": const(1, self.usize)})], "t": goto(1)})
            blocks.append({"s": [asn(P(0), agg(vi("Some"), [C(idx)]))], "t": ret})
        elif name == "find_map":
            none["s"].append(asn(P(0), agg(vi("None"), [])))
            L[res] = rt
            blocks[3]["t"] = call([C(item)], res, 5, rt)
            blocks.append({"s": [asn(P(d), {"r": "discr", "p": P(res)})], "t": {"t": "switch", "o": C(d), "cases": [[0, 1]], "else": 6}})
            blocks.append({"s": [asn(P(0), use(C(res)))], "t": ret})
        elif name == "for_each":
            none["s"].append(asn(P(0), {"r": "agg", "kind": "tuple", "ops": []}))
            L[res] = self.unit
            blocks[3]["t"] = call([C(item)], res, 1, self.unit)
        elif name == "fold":
            L[2] = rt
            none["s"].append(asn(P(0), use(C(2))))
            blocks[3]["t"] = call([C(2), C(item)], 2, 1, rt)
        elif name == "count":
            blocks[0]["s"].append(asn(P(idx), use(const(0, self.usize))))
            none["s"].append(asn(P(0), use(C(idx))))
            blocks[3]["s"] = [asn(P(idx), {"r": "bin", "op": "AddUnchecked", "a": C(idx), "b": const(1, self.usize)})]
            blocks[3]["t"] = goto(1)
        elif name == "last":
            blocks[0]["s"].append(asn(P(0), agg(vi("None"), [])))
            blocks[3]["s"] = [asn(P(item), use({"c": P(o, ["d", 1], ["f", 0, self.unit])})), asn(P(0), agg(vi("Some"), [C(item)]))]
            blocks[3]["t"] = goto(1)
        else:
            return None
        self.nid -= 1
        return Body({"id": self.nid, "path": "synth::" + name, "local": False, "args": [], "argc": nargs, "span": "", "locals": L, "names": [], "blocks": blocks})

