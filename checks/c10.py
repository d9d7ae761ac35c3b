"""C10: TargetInfo::matches against the meaning of each predicate, for every target description."""
from sa.common import Report, dump
from sa.harness import *
from sa.lists import OneOf, elem_type, list_values
from sa.loops import loops_end
from sa.models import S_of, struct_eq
from sa.state import Stuck
from sa.values import paths

TI = "cfg_expr::targets::TargetInfo"
TP = "cfg_expr::expr::TargetPredicate"
TRAIT = "cfg_expr::expr::TargetMatcher"
SAME = {"Arch": "arch", "Endian": "endian", "Panic": "panic", "PointerWidth": "pointer_width"}
OPTION = {"Abi": ("abi", ""), "Env": ("env", ""), "Os": ("os", "none"), "Vendor": ("vendor", "unknown")}
MEMBER = {"Family": "families", "HasAtomic": "has_atomics"}


def run():
    rep = Report("C10", "proof")
    p = dump()
    ids = set()
    ti = p.type_by_path(TI)
    tp = p.type_by_path(TP)
    bs = p.find_impl(TRAIT, "matches", lambda t: p.adt_path(t) == TI)
    if len(ti) != 1 or len(tp) != 1 or len(bs) != 1:
        rep.open("matches", TI, "the implementation was not found")
        return rep
    ti, tp, body = ti[0], tp[0], bs[0]
    fields = {f["name"]: i for i, f in enumerate(p.types[ti]["variants"][0]["fields"])}
    n = 0
    for vi, v in enumerate(p.types[tp]["variants"]):
        name = v["name"]
        where = "%s at %s" % (name, body.d["span"])
        if name not in SAME and name not in OPTION and name not in MEMBER:
            rep.open("matches", where, "a predicate this check does not know")
            continue
        field = SAME.get(name) or (OPTION[name][0] if name in OPTION else MEMBER[name])
        if field not in fields or len(v["fields"]) != 1:
            rep.open("matches", where, "no field %s" % field)
            continue
        n += one(rep, p, body, ti, tp, vi, name, fields, field, where, ids)
    rep.check("every predicate", n > 0, TI, "no predicate was judged")
    forwards(rep, p, tp, ids)
    loops_end(rep, p, ids)
    rep.extra["analysed"] = {"paths_judged": n, "functions": sorted({p.bodies[i].path for i in ids if i in p.bodies and p.bodies[i].local})}
    return rep


def one(rep, p, body, ti, tp, vi, name, fields, field, where, ids):
    eng = engine(p, 60)
    st = St()
    payload = eng.sym(st, p.types[tp]["variants"][vi]["fields"][0]["ty"], "pred")
    fs = [None] * len(fields)
    infos = [(st, fs)]
    gen = None
    for f, i in fields.items():
        ty = p.types[ti]["variants"][0]["fields"][i]["ty"]
        et = elem_type(p, ty) if f in MEMBER.values() else None
        nxt = []
        for s, part in infos:
            if f == field and et is not None:
                gen = gen or OneOf(eng, f, et, payload)
                for s2, x in list_values(eng, s, ty, gen):
                    nxt.append((s2, part[:i] + [x] + part[i + 1:]))
            else:
                s2 = s.copy()
                nxt.append((s2, part[:i] + [eng.sym(s2, ty, "ti." + f)] + part[i + 1:]))
        infos = nxt
    if name in MEMBER and gen is None:
        rep.open("matches", where, "%s is not a list" % field)
        return 0
    n = 0
    for s, fs in infos:
        info = ("a", ti, 0, tuple(fs))
        s.heap[("H", "ti")] = info
        s.heap[("H", "tp")] = ("a", tp, vi, (payload,))

        def judge(x, r):
            got = x.need(r[1])
            if name in MEMBER:
                k = gen.decided(x)
                if k is None:
                    return None, "reads %s in an order that is not followed" % field
                if k == 0:
                    return False, "gives %s without looking at every member" % show(got)
                return got == (k == 1), "gives %s although it is %s %s" % (show(got), "in" if k == 1 else "not in", field)
            mine = info[3][fields[field]]
            if name in SAME:
                want = x.need(cond(eng, x, mine, payload))
                return got == want, "gives %s where %s is %s" % (show(got), field, "equal" if want else "different")
            ov = eng.variant_of(x, mine)
            oty = mine[1] if mine[0] == "a" else mine[2]
            if p.types[oty]["variants"][ov]["name"] == "None":
                T = S_of(eng, x, eng.field(x, payload, 0))
                want = x.need(("seq", T, ("k", OPTION[name][1])) if x.seq_decide(T, ("k", OPTION[name][1])) is None else x.seq_decide(T, ("k", OPTION[name][1])))
                return got == want, "gives %s for a missing %s and a value that is %s %r" % (show(got), field, "" if want else "not", OPTION[name][1])
            want = x.need(cond(eng, x, eng.field(x, mine, 0, variant=ov), payload))
            return got == want, "gives %s where %s is present and %s" % (show(got), field, "equal" if want else "different")

        n += paths(rep, "matches " + name, eng, body, [("r", ("H", "ti"), ()), ("r", ("H", "tp"), ())], s, judge, where)
    ids |= eng.visited
    return n


def show(x):
    return "true" if x else "false"


def cond(eng, st, a, b):
    return struct_eq(eng, st, a, b)


def forwards(rep, p, tp, ids):
    """TargetPredicate::matches(target) is target.matches(self)"""
    bs = p.find_inherent(TP, "matches")
    if len(bs) != 1 or bs[0].argc != 2:
        rep.open("forwards", TP, "TargetPredicate::matches not found")
        return
    eng = engine(p, 20)
    st = St()
    st.heap[("H", "tp")] = eng.sym(st, tp, "pred")
    me, tgt = ("r", ("H", "tp"), ()), ("y", "#target", bs[0].locals[2])
    if p.types[bs[0].locals[2]]["k"] == "ref":
        st.heap[("H", "tgt")] = ("y", "#target", p.types[bs[0].locals[2]]["elem"])
        tgt = ("r", ("H", "tgt"), ())

    def hook(cx):
        good = cx.args[0] == tgt and cx.args[1] == me
        return ("b", ("atom", "#answer" if good else fresh()))

    eng.trait_hooks[(TRAIT, "matches")] = hook
    paths(rep, "forwards", eng, bs[0], [me, tgt], st,
          lambda s, v: (s.need(v[1]) == s.need(("atom", "#answer")), "TargetPredicate::matches is not the target's answer for this predicate"))
    ids |= eng.visited
