"""C13: for every builtin triple target-lexicon can parse and every value occurring in the builtin list,
matching the parsed triple and matching the builtin target give the same answer.  Both `matches`
bodies and target-lexicon's own from_str are interpreted on the constants the compiler evaluated."""
import multiprocessing
import os

from sa.common import Report, dump
from sa.engine import Limit
from sa.harness import *
from sa.lexcheck import full
from sa.state import Split, Stuck
from sa.targets import builtins, value, seq

TP = "cfg_expr::expr::TargetPredicate"
TI = "cfg_expr::targets::TargetInfo"
TRAIT = "cfg_expr::expr::TargetMatcher"
FROM_STR = ("core::str::traits::FromStr", "from_str")
# vendor of a triple the two sides are known (and documented) to disagree on
EXCEPT = {("mips64-openwrt-linux-musl", "Vendor")}
EXTRA = {"Env": [""], "Os": ["none"]}

_w = {}


def run():
    rep = Report("C13", "proof")
    p = dump()
    tp = p.type_by_path(TP)
    mt = p.find_impl(TRAIT, "matches", lambda t: (p.adt_path(t) or "").startswith("target_lexicon"))
    mi = p.find_impl(TRAIT, "matches", lambda t: p.adt_path(t) == TI)
    rows = builtins(p)
    if len(tp) != 1 or len(mt) != 1 or len(mi) != 1:
        rep.open("matches", TRAIT, "the two implementations were not found")
        return rep
    tr = p.types[mt[0].locals[1]]["elem"]
    rd = [r["inst"] for r in p.d.get("readers", []) if r["ty"] == tr and r["inst"] in p.bodies]
    allc = value(p, "cfg_expr::targets::builtins::ALL_BUILTINS")
    if len(rd) != 1 or allc is None:
        rep.open("reading a triple", "target_lexicon::Triple", "its FromStr implementation or the builtin list was not found")
        return rep
    _w.update(p=p, tp=tp[0], mt=mt[0], mi=mi[0], rd=p.bodies[rd[0]], rows=rows, dom=domain(p, tp[0], rows), allc=allc)
    if _w["dom"] is None:
        rep.open("values", TP, "the predicate's shape is not the expected one")
        return rep
    n = 0
    unread = []
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for i, out, note in pool.imap(one, range(len(rows)), 4):
            t = rows[i]["triple"]
            if out is None:
                if note:
                    rep.open("reading a triple", t, note)
                else:
                    unread.append(t)
                    rep.ok("not readable by target-lexicon", t)
                continue
            for name, val, a, b, why in out:
                n += 1
                where = "%s(%r) on %s" % (name, val, t)
                rule = "same answer " + name
                if (t, name) in EXCEPT:
                    rep.ok("documented exception", where)
                elif why:
                    rep.open(rule, where, why)
                else:
                    rep.check(rule, a == b, where, "the parsed triple gives %s, the builtin target %s (%s; %s)" % (
                        show(a), show(b), mt[0].d["span"], mi[0].d["span"]))
    rep.extra["analysed"] = {"targets": len(rows), "not readable": unread, "comparisons": n,
                             "values": {k: [str(x[0]) for x in v] for k, v in _w["dom"].items()}}
    return rep


def show(b):
    return "true" if b else "false"


def domain(p, tp, rows):
    """variant name -> [(printed value, builder of the payload)]"""
    vals = {
        "Arch": {r["arch"] for r in rows},
        "Endian": {r["endian"] for r in rows},
        "Env": {r["env"] for r in rows if r["env"] is not None},
        "Family": {f for r in rows for f in r["families"]},
        "Os": {r["os"] for r in rows if r["os"] is not None},
        "PointerWidth": {r["pointer_width"] for r in rows},
        "Vendor": {r["vendor"] for r in rows if r["vendor"] is not None},
    }
    out = {}
    for v in p.types[tp]["variants"]:
        if v["name"] not in vals:
            continue
        if len(v["fields"]) != 1:
            return None
        vs = vals[v["name"]] | set(EXTRA.get(v["name"], ()))
        out[v["name"]] = [(x, payload(p, v["fields"][0]["ty"], x)) for x in sorted(vs, key=str)]
        if any(x[1] is None for x in out[v["name"]]):
            return None
    return out if set(out) == set(vals) else None


def payload(p, ty, x):
    t = p.types[ty]
    if isinstance(x, int):
        return ("i", K(x)) if t["k"] == "int" else None
    if t["k"] != "adt":
        return None
    if t.get("path") == "alloc::borrow::Cow":
        # borrowed or owned makes no difference to a text's value
        b = p.variant(ty, "Borrowed")
        return ("a", ty, b, (("s", ("k", x)),))
    if len(t["variants"]) > 1:
        v = p.variant(ty, x)
        return None if v is None else ("a", ty, v, ())
    if len(t["variants"][0]["fields"]) != 1:
        return None
    f = payload(p, t["variants"][0]["fields"][0]["ty"], x)
    return None if f is None else ("a", ty, 0, (f,))


def only(eng, st, body, args):
    """the one value body(args) gives; raises Stuck when it is not a single known one"""
    out = []
    np = len(eng.panics)
    for s, v in eng.call_body(st, body, args, loops=False):
        out.append((s, full(eng, s, v, 4)))
    if len(out) != 1 or out[0][0].taint or eng.stucks or eng.dropped or len(eng.panics) > np:
        why = out[0][0].taint[0] if out and out[0][0].taint else "panics" if len(eng.panics) > np else "no single result"
        raise Stuck("%s: %s %s" % (body.path, why, list(eng.stucks)[:1]))
    return out[0]


def one(i):
    try:
        return (i,) + answers(i)
    except (Limit, Split, Stuck, KeyError, IndexError, TypeError, AssertionError, RecursionError) as e:
        return i, None, "not followed: %r" % (e,)


def answers(i):
    p = _w["p"]
    memo = _w.setdefault("memo", {})
    t = _w["rows"][i]["triple"]
    s0, v = only(engine(p, 60), St(), _w["rd"], [("s", ("k", t))])
    if p.types[v[1]]["variants"][v[2]]["name"] != "Ok":
        return None, None
    triple = v[3][0]

    def from_str(cx):
        # what a constant text reads as does not depend on the state
        a = cx.args[0]
        if a[0] != "s" or a[1][0] != "k" or cx.rec.get("inst") not in p.bodies:
            return None
        k = (cx.rec["inst"], a[1][1])
        if k not in memo:
            memo[k] = only(engine(p, 60), St(), p.bodies[k[0]], [a])
        s, v = memo[k]
        for place, x in s.heap.items():
            if place not in cx.st.heap:
                cx.st.heap[place] = x
        return v

    eng0 = engine(p, 60)
    elem = eng0.const(_w["allc"]["v"], _w["allc"]["ty"])[1][1][i][1]
    out = []
    for name, vals in _w["dom"].items():
        vi = p.variant(_w["tp"], name)
        for x, pay in vals:
            pred = ("a", _w["tp"], vi, (pay,))
            got, why = [], None
            for body, me in ((_w["mt"], triple), (_w["mi"], elem)):
                eng = engine(p, 30)
                eng.trait_hooks[FROM_STR] = from_str
                st = s0.copy()
                st.heap[("H", "me")] = me
                st.heap[("H", "tp")] = pred
                try:
                    s, v = only(eng, st, body, [("r", ("H", "me"), ()), ("r", ("H", "tp"), ())])
                    got.append(s.need(v[1]))
                except (Limit, Split, Stuck, KeyError, IndexError, TypeError, AssertionError, RecursionError) as e:
                    got.append(None)
                    why = "not followed: %r" % (e,)
            out.append((name, x, got[0], got[1], why))
    return out, None
