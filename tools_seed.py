#!/usr/bin/env python3
"""Development helper: makes and confirms a planted bug.
tools_seed.py ID PROP FILE <<< JSON {"edits":[[old,new],...],"needs":..,"breaks":..,"deps":[crates],"main":"rust source"}
Confirms in a scratch copy: builds, tests pass, demo fails with it and passes without."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__))
DEMO = '''#!/bin/bash
# Runs a small program against the crates in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
sed "s#@REPO@#$repo#g" "$here/main.rs" > "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
@DEPS@
[workspace]
EOF
cd "$t" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --release --offline --quiet
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main():
    sid, pid = sys.argv[1], sys.argv[2]
    j = json.load(sys.stdin)
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    w = "/tmp/seedrepo"
    if not os.path.isdir(w):
        sh("cp -a /repo " + w)
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard $(git -C /repo rev-parse HEAD)" % (w, w, w))
    for f, a, b in j["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(a) < 1:
            print("edit text not found:", f, a); sys.exit(1)
        open(p, "w").write(s.replace(a, b, 1))
    diff = sh("git -C %s diff" % w).stdout.decode()
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "main.rs"), "w").write(j["main"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@DEPS@", "\n".join('keramics-%s = { path = "$repo/keramics-%s" }' % (x, x) for x in j["deps"])))
    json.dump({"property": pid, "needs": j["needs"], "what_it_breaks": j["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    # confirm
    bad = sh("bash %s/demo.sh" % d, cwd=w)
    t = sh("cargo test --offline --quiet -p " + " -p ".join("keramics-" + x for x in
        ["checksums", "core", "datetime", "encodings", "hashes", "layout-map", "sigscan", "types"]), cwd=w, env=dict(os.environ, CARGO_NET_OFFLINE="true"))
    ok = sh("bash %s/demo.sh" % d, cwd="/repo")
    sh("git -C %s checkout -q -- ." % w)
    print(sid, "demo with bug rc", bad.returncode, "| tests rc", t.returncode, "| demo clean rc", ok.returncode)
    good = bad.returncode == 1 or bad.returncode == 101
    if not (good and t.returncode == 0 and ok.returncode == 0):
        print([l for l in (bad.stdout.decode()+t.stdout.decode()+ok.stdout.decode()).split("\n") if "panicked" in l or l.startswith("error") or "FAILED" in l or "left" in l or "right" in l][:12])
        sys.exit(1)
main()
