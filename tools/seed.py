#!/usr/bin/env python3
"""seed.py SPEC...: makes /verif/seeded/<id>/ from a spec file and confirms it in a scratch copy of /repo.

SPEC is a text file:
  id: s01            property: C07        features: targets (optional)
  needs: ...
  breaks: ...
  FILE path
  <<<<
  old text
  ====
  new text
  >>>>
  DEMO
  rust source of the demonstration (exit status non-zero / panic when broken)
"""
import json, os, re, shutil, subprocess, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/seedscratch"
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
cfg-expr = { path = "$repo"%s }
%s[workspace]
TOML
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run -q --offline
'''

# the update tool: built and run in a scratch directory with a stand-in for rustc and rustfmt
UPDATE = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/update" "$d/bin" "$d/w/src/targets"
cp -r "$repo/update/Cargo.toml" "$repo/update/Cargo.lock" "$repo/update/src" "$d/update/"
CARGO_TARGET_DIR="$d/target" cargo build -q --offline --manifest-path "$d/update/Cargo.toml" || exit 3
cat > "$d/bin/rustc" <<'SH'
#!/bin/bash
# answers like rustc; $FAKE/<target> holds what is printed for a target, $FAKE/<target>.rc its exit status
case "$*" in
  --version) cat "$FAKE/version"; exit $(cat "$FAKE/version.rc" 2>/dev/null || echo 0);;
  *target-list*) cat "$FAKE/list"; exit $(cat "$FAKE/list.rc" 2>/dev/null || echo 0);;
esac
while [ "$1" != --target ]; do shift; done
cat "$FAKE/$2"; exit $(cat "$FAKE/$2.rc" 2>/dev/null || echo 0)
SH
printf '#!/bin/bash\nexit $(cat "$FAKE/rustfmt.rc" 2>/dev/null || echo 0)\n' > "$d/bin/rustfmt"
chmod +x "$d/bin/rustc" "$d/bin/rustfmt"
export PATH="$d/bin:$PATH" RUSTC="$d/bin/rustc" FAKE="$d/fake"
fresh() { # a new working tree, and answers for two targets
  rm -rf "$d/w" "$d/fake"; mkdir -p "$d/w/src/targets" "$d/fake"; cd "$d/w"
  printf 'text\n[Rust 1.0]\n[Rust 1.0]: https://x\n' > README.md; echo '// old' > src/targets/builtins.rs
  echo 'rustc 2.0 (abc)' > "$FAKE/version"; printf 'a-x\nb-x\n' > "$FAKE/list"
  for t in a b; do printf 'debug_assertions\npanic="unwind"\ntarget_abi=""\ntarget_arch="%%s"\ntarget_endian="little"\ntarget_env="gnu"\ntarget_family="unix"\ntarget_has_atomic="8"\ntarget_has_atomic="ptr"\ntarget_os="linux"\ntarget_pointer_width="64"\ntarget_vendor="pc"\n' $t > "$FAKE/$t-x"; done
}
update() { "$d/target/debug/update" > "$d/log" 2>&1; }
untouched() { grep -q '// old' src/targets/builtins.rs && grep -q 'Rust 1.0' README.md; }
die() { echo "$*"; exit 1; }
fresh; update || die "the tool fails"; untouched && die "nothing written"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main(spec):
    t = open(spec).read()
    head, demo = t.split("\nDEMO\n", 1)
    meta = dict(re.findall(r"^(id|property|features|needs|breaks|kind): (.*)$", head, re.M))
    if not os.path.isdir(SC):
        sh(["cp", "-a", "/repo", SC])
    sh(["git", "-C", SC, "fetch", "-q", "/repo"]); sh(["git", "-C", SC, "reset", "-q", "--hard", "FETCH_HEAD"])
    for f, blocks in re.findall(r"^FILE (\S+)\n((?:<<<<\n.*?\n====\n.*?>>>>\n?)+)", head, re.M | re.S):
        s = open(SC + "/" + f).read()
        for old, new in re.findall(r"<<<<\n(.*?)\n====\n(.*?)>>>>\n?", blocks, re.S):
            new = new[:-1] if new.endswith("\n") else new
            if s.count(old) != 1:
                sys.exit("%s: %d matches of\n%s" % (f, s.count(old), old))
            s = s.replace(old, new)
        open(SC + "/" + f, "w").write(s)
    diff = sh(["git", "-C", SC, "diff"]).stdout
    out = D + "/seeded/" + meta["id"]
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "wb").write(diff)
    if meta.get("kind") != "update":
        open(out + "/demo.rs", "w").write(demo)
    ft = ', features = ["targets"]' if meta.get("features") else ""
    dep = 'target-lexicon = "=0.13.2"\n' if meta.get("features") else ""
    open(out + "/demo.sh", "w").write(UPDATE.replace("%%", "%") + demo if meta.get("kind") == "update" else DEMO % (ft, dep))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    # confirm
    ok = True
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base["stable"]
    script = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + SC).replace("/repo/target", SC + "/target")
    open("/tmp/seedtest.sh", "w").write(script)
    r = sh(["bash", "/tmp/seedtest.sh", "/tmp/seedtest.json"])
    res = json.load(open("/tmp/seedtest.json"))
    missing = [x for x in stable if x not in res["passed"]]
    if missing:
        ok = False
        print("TESTS FAIL", missing[:5], r.stdout.decode()[-1500:] if len(missing) > 30 else "")
    r1 = sh(["bash", out + "/demo.sh"], cwd=SC)
    sh(["git", "-C", SC, "checkout", "-q", "--", "."])
    r0 = sh(["bash", out + "/demo.sh"], cwd=SC)
    if r0.returncode != 0:
        ok = False
        print("DEMO FAILS ON CLEAN TREE", r0.stdout.decode()[-1500:])
    if r1.returncode == 0:
        ok = False
        print("DEMO PASSES WITH PATCH")
    print(meta["id"], meta["property"], "CONFIRMED" if ok else "REJECTED", r1.stdout.decode().strip().splitlines()[-3:][:1])
    if not ok:
        shutil.rmtree(out)


for s in sys.argv[1:]:
    main(s)
