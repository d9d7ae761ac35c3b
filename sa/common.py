"""What every check needs: the dump of /repo's current tree, obligations, evidence, exit status."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
FLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on -Awarnings"


class Broken(Exception):
    """the check itself cannot run"""


def driver():
    d = os.path.join(VERIF, "build", "mirdump")
    src = os.path.join(VERIF, "mirdump", "main.rs")
    if not os.path.exists(d) or os.path.getmtime(d) < os.path.getmtime(src):
        r = subprocess.run(["bash", os.path.join(VERIF, "setup.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise Broken("building the driver: " + r.stdout.decode()[-2000:])
    return d


_sysroot = []


def nightly_lib():
    if not _sysroot:
        _sysroot.append(subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"]).decode().strip())
    return _sysroot[0] + "/lib"


def scratch():
    return tempfile.mkdtemp(prefix="sa-")


def dump(kind="lib", stop=""):
    """type-checks the crate in /repo with the dumping driver; returns the parsed MIR dump"""
    from .prog import Program

    pre = os.environ.get("SA_DUMP_" + kind.upper())
    if pre:
        return Program(pre)
    drv = driver()
    tmp = scratch()
    try:
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = nightly_lib()
        env["RUSTC_WRAPPER"] = drv
        env["MIRDUMP_OUT"] = tmp + "/out"
        env["MIRDUMP_STOP"] = stop
        env["RUSTFLAGS"] = FLAGS
        env["CARGO_NET_OFFLINE"] = "true"
        os.makedirs(tmp + "/out")
        if kind == "lib":
            crate, man, sel = "cfg_expr", REPO + "/Cargo.toml", ["--lib", "--all-features"]
        else:
            crate, man, sel = "update", REPO + "/update/Cargo.toml", ["--bins"]
        env["MIRDUMP_CRATES"] = crate
        r = subprocess.run(
            ["cargo", "+nightly", "check", "--offline", "--manifest-path", man] + sel + ["--target-dir", tmp + "/tgt"],
            env=env, cwd="/", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        f = tmp + "/out/%s.json" % crate
        if r.returncode or not os.path.exists(f):
            raise Broken("the crate does not compile: " + r.stdout.decode(errors="replace")[-3000:])
        keep = os.environ.get("SA_KEEP_DUMP")
        if keep:
            shutil.copy(f, keep)
        return Program(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Report:
    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.viol = []
        self.undecided = []
        self.obl = 0
        self.dis = 0
        self.rules = {}
        self.samples = {}
        self.extra = {}
        self.trusted = []
        self.assumptions = []

    def ok(self, rule, what=None):
        """an obligation that was discharged"""
        self.obl += 1
        self.dis += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        r[1] += 1
        if what is not None:
            s = self.samples.setdefault(rule, [])
            if len(s) < 6:
                s.append(what)

    def violation(self, rule, where, why, detail=None):
        self.obl += 1
        self.rules.setdefault(rule, [0, 0])[0] += 1
        for v in self.viol:
            if v[0] == rule and v[1] == where and v[2] == why:
                return
        self.viol.append((rule, where, why, detail))

    def open(self, rule, where, why):
        """an obligation this run could not decide (not a violation)"""
        self.obl += 1
        self.rules.setdefault(rule, [0, 0])[0] += 1
        if len(self.undecided) < 200:
            self.undecided.append({"rule": rule, "where": where, "why": why})

    def check(self, rule, good, where, why, detail=None):
        if good:
            self.ok(rule, where)
        else:
            self.violation(rule, where, why, detail)
        return good

    def merge(self, r):
        """what another report of the same property found"""
        self.obl += r.obl - len(r.viol)
        self.dis += r.dis
        for k, (a, b) in r.rules.items():
            x = self.rules.setdefault(k, [0, 0])
            x[0] += a - sum(1 for v in r.viol if v[0] == k)
            x[1] += b
        for k, l in r.samples.items():
            s = self.samples.setdefault(k, [])
            s.extend([x for x in l if x not in s][: 6 - len(s)])
        for u in r.undecided:
            if u not in self.undecided and len(self.undecided) < 200:
                self.undecided.append(u)
        for v in r.viol:
            self.violation(*v)

    def finish(self):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        known = known_findings(self.pid)
        viol = []
        for v in self.viol:
            k = [x for x in known if x[0] == v[0] and x[1] == v[1]]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k[0][2]))
            else:
                viol.append(v)
        cov = {
            "obligations": self.obl,
            "discharged": self.dis,
            "checker_cmd": "python3 /verif/check.py %s" % self.pid,
            "trusted_base": self.trusted or ["rustc MIR construction", "/verif/sa"],
            "rules": {k: {"obligations": v[0], "discharged": v[1], "samples": self.samples.get(k, [])} for k, v in self.rules.items()},
            "undecided": self.undecided,
        }
        cov["explanation"] = "static analysis of the MIR rustc builds from /repo's current source: %d of %d obligations discharged, %d undecided, %d violated" % (
            self.dis, self.obl, len(self.undecided), len(viol))
        cov.update(self.extra)
        out = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(viol),
        }
        with open(os.path.join(ev, self.pid + ".json"), "w") as f:
            json.dump(out, f, indent=1, default=str)
            f.write("\n")
        for u in self.undecided[:20]:
            print("undecided: %s: %s: %s" % (u["rule"], u["where"], u["why"]))
        for i, (rule, where, why, detail) in enumerate(viol[:20]):
            rp = os.path.join(ev, "replay-%s-%d.txt" % (self.pid, i))
            with open(rp, "w") as f:
                f.write("property: %s\nrule: %s\nwhere: %s\nwhat: %s\n" % (self.pid, rule, where, why))
                if detail:
                    f.write("\n%s\n" % detail)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            print("  %s: %s: %s" % (rule, where, why))
        print("%s: %d/%d obligations discharged, %d undecided, %d violations, %.1fs" % (self.pid, self.dis, self.obl, len(self.undecided), len(viol), time.time() - self.t0))
        return 1 if viol else 0


def known_findings(pid):
    """lines `finding: property=<id> rule=<rule> where=<where> -- <what fails>`"""
    out = []
    try:
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
            l = l.rstrip("\n")
            if l.startswith("finding: property=%s " % pid):
                head, what = l.split(" -- ", 1)
                rule = head.split(" rule=", 1)[1].split(" where=")[0]
                out.append((rule, head.split(" where=", 1)[1], what))
    except FileNotFoundError:
        pass
    return out
