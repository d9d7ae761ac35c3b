"""C18: type-level witnesses.  Each witness is a small crate compiled (not run) against the library
built from the current tree: positive ones must type-check, negative ones must be rejected with the
expected error, and each negative one has a twin that differs in the offending line and is accepted."""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
from sa.common import Report, Broken, REPO, scratch

HEAD = "#![allow(dead_code, unused)]\nextern crate cfg_expr;\nuse cfg_expr::{Expression, ParseError, Predicate, TargetPredicate, expr::*, error::*, targets::*};\n"
OWNED = ["Expression", "ParseError", "Reason", "HasAtomicParseError", "TargetInfo", "Triple", "Abi", "Arch", "Vendor", "Os", "Family", "Env", "Panic", "Families",
         "HasAtomics", "HasAtomic", "Endian", "TargetPredicate", "Predicate<'static>"]
POS = []
for t in OWNED:
    POS.append(("%s can be sent to and shared between threads" % t, "fn f<T: Send + Sync>() {} fn w() { f::<%s>() }" % t))
    POS.append(("%s owns its data" % t, "fn f<T: 'static>() {} fn w() { f::<%s>() }" % t))
POS += [
    ("a predicate of any expression can be sent and shared", "fn f<T: Send + Sync>(_: T) {} fn w<'a>(p: Predicate<'a>) { f(p) }"),
    ("an expression outlives the text it was parsed from", 'fn w() -> Expression { let s = String::from("unix"); let e = Expression::parse(&s).unwrap(); drop(s); e }'),
    ("an error outlives the text it was parsed from", 'fn w() -> ParseError { let s = String::from("("); let e = Expression::parse(&s).unwrap_err(); drop(s); e }'),
    ("an expression moves to another thread", "fn w(e: Expression) { std::thread::spawn(move || { e.eval(|_| true) }); }"),
    ("an expression is evaluated from several threads at once", "fn w(e: &Expression) { std::thread::scope(|s| { s.spawn(|| e.eval(|_| true)); s.spawn(|| e.eval(|_| Some(true))); s.spawn(|| { e.predicates().count(); }); }); }"),
    ("eval needs only a shared reference", "fn w(e: &Expression) -> bool { let f: fn(&Predicate<'_>) -> bool = |_| true; e.eval(f) }"),
    ("eval lends its predicates to a callback that keeps state", "fn w(e: &Expression) -> usize { let mut n = 0usize; e.eval(|_| { n += 1; true }); n }"),
    ("original needs only a shared reference", "fn w<'a>(e: &'a Expression) -> &'a str { e.original() }"),
    ("predicates needs only a shared reference and lives as long as it", "fn w<'a>(e: &'a Expression) -> Vec<Predicate<'a>> { e.predicates().collect() }"),
    ("a predicate's text lives as long as the expression", "fn w<'a>(e: &'a Expression) -> Vec<&'a str> { e.predicates().filter_map(|p| match p { Predicate::Feature(f) => Some(f), Predicate::TargetFeature(f) => Some(f), Predicate::Flag(f) => Some(f), Predicate::KeyValue { key, val } => Some(val), _ => None }).collect() }"),
    ("target predicates are owned", "fn w(e: Expression) -> Vec<TargetPredicate> { let v = e.predicates().filter_map(|p| match p { Predicate::Target(t) => Some(t), _ => None }).collect(); drop(e); v }"),
    ("two iterations at once", "fn w(e: &Expression) { let mut a = e.predicates(); let mut b = e.predicates(); a.next(); b.next(); a.next(); }"),
    ("builtin targets are available for the whole program", "static ALL: &[TargetInfo] = ALL_BUILTINS; fn w() -> &'static TargetInfo { &ALL_BUILTINS[0] }"),
    ("a builtin target found by a temporary triple lives for the whole program", 'fn w() -> Option<&\'static TargetInfo> { let s = String::from("x"); let t = get_builtin_target_by_triple(&s); drop(s); t }'),
    ("rustc_version is available for the whole program", "fn w() -> &'static str { rustc_version() }"),
    ("matching needs only shared references", "fn w(t: &TargetPredicate, i: &TargetInfo) -> bool { t.matches(i) }"),
    ("an expression is cloned from a shared reference", "fn w(e: &Expression) -> Expression { e.clone() }"),
    ("a reason's message is available for the whole program", "fn w(e: &Reason) -> String { e.to_string() }"),
]
# (what, offending program, expected error codes, twin)
NEG = [
    ("a predicate cannot outlive its expression",
     "fn w(e: Expression) { let p = e.predicates().next(); drop(e); let _ = p; fn u(p: Option<Predicate<'_>>) {} u(p); }", {"E0505"},
     "fn w(e: Expression) { let p = e.predicates().next(); fn u(p: Option<Predicate<'_>>) {} u(p); drop(e); }"),
    ("original cannot outlive its expression",
     "fn w(e: Expression) { let p = e.original(); drop(e); let _ = p.len(); }", {"E0505"},
     "fn w(e: Expression) { let p = e.original(); let _ = p.len(); drop(e); }"),
    ("the predicate iterator cannot outlive its expression",
     "fn w(e: Expression) { let mut p = e.predicates(); drop(e); p.next(); }", {"E0505"},
     "fn w(e: Expression) { let mut p = e.predicates(); p.next(); drop(p); drop(e); }"),
    ("the text of an expression cannot be changed through original",
     "fn w(e: &mut Expression) { let s: &mut str = e.original(); }", {"E0308"},
     "fn w(e: &mut Expression) { let s: &str = e.original(); }"),
    ("a builtin target cannot be changed",
     'fn w() { get_builtin_target_by_triple("x").unwrap().os = None; }', {"E0594"},
     'fn w() { let mut t = get_builtin_target_by_triple("x").unwrap().clone(); t.os = None; }'),
    ("the builtin list cannot be changed",
     "fn w() { ALL_BUILTINS[0].pointer_width = 0; }", {"E0594"},
     "fn w() { let mut t = ALL_BUILTINS[0].clone(); t.pointer_width = 0; }"),
    ("a set of families cannot be reordered",
     "fn w(mut f: Families) { f.reverse(); }", {"E0596", "E0599"},
     "fn w(mut f: Families) { let mut v = f.to_vec(); v.reverse(); }"),
    ("a set of families is not written element by element",
     'fn w(mut f: Families) { f[0] = Family::new_const("x"); }', {"E0594", "E0596"},
     'fn w(mut f: Families) { let mut f = f.to_vec(); f[0] = Family::new_const("x"); }'),
    ("a set of atomics cannot be reordered",
     "fn w(mut f: HasAtomics) { f.reverse(); }", {"E0596", "E0599"},
     "fn w(mut f: HasAtomics) { let mut v = f.to_vec(); v.reverse(); }"),
    ("a field type does not borrow a short-lived text",
     'fn w() -> Abi { let s = String::from("x"); Abi::new(s.as_str()) }', {"E0515", "E0597", "E0505"},
     'fn w() -> Abi { let s = String::from("x"); Abi::new(s) }'),
    ("a token cannot outlive the lexed text",
     'fn w() { let s = String::from("x"); let t = lexer::Lexer::new(&s).next(); drop(s); fn u<T>(_: T) {} u(t); }', {"E0505"},
     'fn w() { let s = String::from("x"); let t = lexer::Lexer::new(&s).next(); fn u<T>(_: T) {} u(t); drop(s); }'),
]


def run():
    rep = Report("C18", "other")
    tmp = scratch()
    try:
        env = dict(os.environ)
        env["CARGO_NET_OFFLINE"] = "true"
        env["RUSTFLAGS"] = "-Awarnings"
        for k in ("RUSTC_WRAPPER",):
            env.pop(k, None)
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--manifest-path", REPO + "/Cargo.toml", "--lib", "--all-features", "--target-dir", tmp + "/t"],
                           env=env, cwd="/", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        libs = [x for x in glob.glob(tmp + "/t/debug/**/libcfg_expr-*.rmeta", recursive=True)]
        dirs = sorted({os.path.dirname(x) for x in glob.glob(tmp + "/t/debug/**/lib*.rmeta", recursive=True)})
        if r.returncode or len(libs) != 1:
            raise Broken("the crate does not compile: " + r.stdout.decode(errors="replace")[-2000:])

        def comp(i, src):
            f = "%s/w%d.rs" % (tmp, i)
            with open(f, "w") as h:
                h.write(HEAD + src + "\n")
            o = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-Awarnings", "--error-format", "json",
                                "--extern", "cfg_expr=" + libs[0], *[a for d in dirs for a in ("-L", "dependency=" + d)], "-o", "%s/w%d.rmeta" % (tmp, i), f],
                               cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            errs, codes = [], set()
            for l in o.stderr.decode(errors="replace").splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get("level") == "error":
                    if m.get("code"):
                        codes.add(m["code"]["code"])
                        errs.append("%s: %s" % (m["code"]["code"], m["message"]))
                    elif not m["message"].startswith("aborting"):
                        errs.append(m["message"])
            return o.returncode == 0, codes, errs

        jobs = [x[1] for x in POS] + [x[1] for x in NEG] + [x[3] for x in NEG]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda a: comp(*a), enumerate(jobs)))
        np, nn = len(POS), len(NEG)
        for (what, src), (ok, codes, errs) in zip(POS, res[:np]):
            rep.check("accepted witness", ok, what, "; ".join(errs[:3]), src)
        for k, (what, src, exp, twin) in enumerate(NEG):
            ok, codes, errs = res[np + k]
            tok, _, terrs = res[np + nn + k]
            if not tok:
                rep.violation("accepted twin", what, "; ".join(terrs[:3]), twin)
                continue
            rep.ok("accepted twin", what)
            if ok:
                rep.violation("rejected witness", what, "a program that does this compiles", src)
            elif codes and codes <= exp:
                rep.ok("rejected witness", what)
            else:
                rep.open("rejected witness", what, "rejected for another reason: " + "; ".join(errs[:2]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rep.trusted = ["rustc's type and borrow checker"]
    rep.extra["analysed"] = {"accepted_witnesses": len(POS), "rejected_witnesses": len(NEG)}
    return rep
