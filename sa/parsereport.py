"""Runs the analysis of Expression::parse in both worlds (the text stands inside cfg( ), or not), each in its
own process, and puts the obligations a property is about into its report."""
import multiprocessing
import os
import time
import traceback

from .lexcheck import Obs, facts_text

WALL = 780
BUDGET = 700
WORLDS = ("W", "S")
WHAT = {"W": "text without an enclosing cfg( )", "S": "text inside cfg( )"}


def work(prog, world, conn, budget):
    out = {"world": world, "missing": None, "obs": [], "panics": [], "epanics": [], "stucks": [], "cut": 0, "stats": {}}
    try:
        from .parsecheck import ParseRun

        r = ParseRun(prog, world, budget=budget)
        r.run()
        out["missing"] = r.missing
        if hasattr(r, "eng"):
            out["obs"] = [(o.rule, o.ok, o.why, o.taint[0] if o.taint else None, o.where, o.path if not o.ok else "") for o in r.obs]
            for k, l in (("panics", r.eng.panics), ("epanics", r.epanics)):
                out[k] = [(x.msg, x.span, x.where, x.doubt(), facts_text(x.st)) for x in l]
            out["stucks"] = sorted(str(k) for k in r.eng.stucks)
            out["cut"] = r.cut
            out["stats"] = {"control_points": len(r.table), "visits": r.visits, "states": r.states, "tokens_delivered": r.tokens_n,
                            "returns_judged": r.returns, "mir_steps": r.eng.steps, "function_summaries": len(r.alt),
                            "bodies_visited": len(r.eng.visited), "dropped_paths": r.eng.dropped}
            out["visited"] = sorted(r.eng.visited)
    except Exception:
        out["missing"] = "analysis failed: " + traceback.format_exc()[-1500:]
    try:
        conn.send(out)
        conn.close()
    except Exception:
        os._exit(3)


def parse_runs(prog):
    ctx = multiprocessing.get_context("fork")
    jobs = []
    t0 = time.time()
    for w in WORLDS:
        a, b = ctx.Pipe(duplex=False)
        pr = ctx.Process(target=work, args=(prog, w, b, BUDGET))
        pr.start()
        b.close()
        jobs.append((w, pr, a))
    res = []
    for w, pr, a in jobs:
        out = None
        try:
            if a.poll(max(1, WALL - (time.time() - t0))):
                out = a.recv()
        except EOFError:
            pass
        if pr.is_alive():
            pr.join(2)
        if pr.is_alive():
            pr.kill()
        pr.join()
        if out is None:
            out = {"world": w, "missing": "the analysis ended without an answer", "obs": [], "panics": [], "epanics": [], "stucks": [], "cut": 0, "stats": {}}
        res.append(out)
    return res


def put_panics(rep, l):
    for msg, span, where, taint, facts in l:
        w = "%s (in %s)" % (span, where)
        if taint:
            rep.open("panic free", w, "%s (after %s)" % (msg, taint))
        else:
            rep.violation("panic free", w, msg, facts)


def parse_report(rep, prog, rules, panics=False, floors=()):
    """rules: prefixes of the rules wanted; floors: rules that must have obligations in every world"""
    runs = parse_runs(prog)
    for o in runs:
        w = o["world"]
        if o["missing"]:
            rep.open("parse", WHAT[w], o["missing"])
        if o["cut"]:
            rep.open("parse", WHAT[w], "%d paths of texts already known to be invalid were not followed to their end" % o["cut"])
        seen = set()
        for rule, ok, why, taint, where, path in o["obs"]:
            if not any(rule.startswith(x) for x in rules):
                continue
            seen.add(rule)
            rule = rule.split(": ", 1)[1]
            if ok:
                rep.ok(rule, where)
            elif taint:
                rep.open(rule, where, "%s (after %s)" % (why, taint))
            else:
                rep.violation(rule, where, why, "%s\n%s" % (WHAT[w], path))
        for f in floors:
            if f not in seen:
                rep.open(f.split(": ", 1)[1], WHAT[w], "no path reached this obligation")
        if panics:
            put_panics(rep, o["panics"])
        if panics or not rules:
            put_panics(rep, o["epanics"])
        if o["stats"].get("dropped_paths"):
            rep.open("modelled", WHAT[w], "paths were dropped: %s" % (o["stats"]["dropped_paths"],))
        for k in o["stucks"]:
            rep.open("modelled", k, "no model")
    rep.extra["parse"] = {WHAT[o["world"]]: o["stats"] for o in runs}
    return runs
