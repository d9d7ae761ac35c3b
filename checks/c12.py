"""C12: the constant target data, as the compiler evaluates it, against the recorded rustc output."""
import json
import os
import re
from sa.common import Report, dump, REPO, VERIF
from sa.targets import builtins, value, text, seq, atomic, T

STR_TYPES = ("Abi", "Arch", "Vendor", "Os", "Family", "Env", "Panic")


def ident(s):
    return re.sub(r"[^A-Za-z0-9_]", "_", s)


def key(x):
    return (1, 0) if x == "ptr" else (0, x)


def run():
    rep = Report("C12", "proof")
    p = dump()
    rows = builtins(p)
    where0 = "src/targets/builtins.rs"
    # the stated version: what rustc_version() returns
    ver = version(p, rep)
    # README
    if ver is not None:
        try:
            rm = open(os.path.join(REPO, "README.md")).read()
        except OSError:
            rm = None
        if rm is None:
            rep.open("README version", "README.md", "no README.md")
        else:
            vs = re.findall(r"(?:targets(?: known to rustc)? as of \[|Rust%20Targets-|^\[)(\d+\.\d+\.\d+)", rm, re.M)
            rep.check("README names a version", bool(vs), "README.md", "no version of the builtin targets found")
            for x in vs:
                rep.check("README names the same version", x == ver, "README.md", "README says %s, rustc_version() says %s" % (x, ver))
    # the rows
    f = os.path.join(VERIF, "data", "builtins-%s.json" % ver)
    if ver is None or not os.path.exists(f):
        rep.open("target data", where0, "no recorded rustc output for version %s" % ver)
    else:
        want = {r["triple"]: r for r in json.load(open(f))}
        got = {}
        for r in rows:
            rep.check("listed once", r["triple"] not in got, r["triple"], "listed twice")
            got[r["triple"]] = r
        for t in sorted(set(want) | set(got)):
            if t not in got:
                rep.violation("same targets", t, "rustc %s lists it, the builtin list does not" % ver)
                continue
            if t not in want:
                rep.violation("same targets", t, "rustc %s does not list it" % ver)
                continue
            rep.ok("same targets", t)
            for k in sorted(want[t]):
                if k == "triple":
                    continue
                a, b = got[t][k], want[t][k]
                if k == "has_atomics":
                    a, b = sorted(a, key=key), sorted(b, key=key)
                elif k == "families":
                    a, b = sorted(a), sorted(b)
                rep.check("target field " + k, a == b, "%s in %s" % (t, where0), "%s is %r, rustc %s reports %r" % (k, a, ver, b))
    for r in rows:
        rep.check("families sorted", all(x < y for x, y in zip(r["families"], r["families"][1:])), r["triple"], "families are not in sorted order")
        ks = [key(x) for x in r["has_atomics"]]
        rep.check("atomics sorted", all(x < y for x, y in zip(ks, ks[1:])), r["triple"], "atomics are not in sorted order")
    # named constants; '-' may be spelled '_' only where the recorded data says so
    vals = {}
    if ver is not None and os.path.exists(f):
        for r in want.values():
            for o, k in (("Abi", "abi"), ("Arch", "arch"), ("Vendor", "vendor"), ("Os", "os"), ("Env", "env"), ("Panic", "panic")):
                if r[k]:
                    vals.setdefault((o, ident(r[k])), set()).add(r[k])
            for x in r["families"]:
                vals.setdefault(("Family", ident(x)), set()).add(x)
    for c in p.consts:
        if c["owner"] < 0 or c["vis"] != "Public":
            continue
        o = p.types[c["owner"]].get("path", "")
        if not o.startswith(T):
            continue
        o = o[len(T):]
        w = "%s::%s at %s" % (o, c["name"], c["span"])
        if c["v"] is None:
            rep.open("named constant", w, "value not evaluated")
        elif o in STR_TYPES:
            s = text(c["v"])
            n = re.sub("^r#", "", c["name"])
            rep.check("named constant", s is not None and ident(s) == n and s in vals.get((o, n), {s}), w, "holds %r" % s)
        elif o == "Families":
            m = [text(x) for x in seq(c["v"])]
            rep.check("named families group", sorted(m) == sorted(set(m)) and "_".join(sorted(m)) == "_".join(sorted(c["name"].split("_"))), w, "holds %r" % m)
            rep.check("families group sorted", m == sorted(m), w, "not in sorted order: %r" % m)
        elif o == "HasAtomics":
            m = [atomic(p, x) for x in seq(c["v"])]
            nm = c["name"].split("_")
            rep.check("named atomics group", nm[:1] == ["atomic"] and sorted(map(str, m)) == sorted(nm[1:]), w, "holds %r" % m)
            rep.check("atomics group sorted", [key(x) for x in m] == sorted(key(x) for x in m), w, "not in sorted order: %r" % m)
    rep.extra["analysed"] = {"version": ver, "targets": len(rows), "constants": len(p.consts)}
    rep.assumptions.append("data/builtins-1.86.0.json is what rustc 1.86.0 reports; that rustc is not available offline, so the table was recorded from the base commit and cross-checked row by row against the installed rustc (differences: only what rustc changed since)")
    return rep


def version(p, rep):
    from sa.harness import engine, St
    from sa.models import S_of

    bs = p.find_path("cfg_expr::targets::rustc_version")
    if len(bs) == 1:
        eng = engine(p, 30)
        try:
            outs = eng.call_body(St(), bs[0], [])
            if len(outs) == 1 and not outs[0][0].taint:
                st, v = outs[0]
                return st.str_const(S_of(eng, st, v))
        except Exception as e:  # noqa: BLE001
            rep.open("version", "rustc_version", repr(e))
    c = value(p, "cfg_expr::targets::builtins::RUSTC_VERSION")
    return text(c["v"]) if c else None
