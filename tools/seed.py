"""Makes a planted bug: seed.py make <id> <property> <spec.py>; seed.py test <id>...
spec.py defines EDITS=[(file, old, new)], NEEDS, BREAKS and MAIN (source of the demonstration program)."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Builds the program main.rs beside this script against the pact_models of /repo (as /opt/vp does: wasm32-wasip1) and runs it.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap '/bin/rm -rf "$T"' EXIT
mkdir -p "$T/pact_models" "$T/demo/src"
cp -r rust/pact_models/src rust/pact_models/tzdata rust/pact_models/build.rs rust/pact_models/README.md "$T/pact_models/" || exit 2
cp /opt/vp/ws/pact_models/Cargo.toml "$T/pact_models/" || exit 2
cp /opt/vp/ws/Cargo.lock "$T/Cargo.lock" || exit 2
cp "$HERE/main.rs" "$T/demo/src/main.rs" || exit 2
sed -i '/^\[dev-dependencies\]/,/^$/d' "$T/pact_models/Cargo.toml"
cat > "$T/Cargo.toml" <<EOF
[workspace]
members = ["pact_models", "demo"]
resolver = "2"
EOF
cat > "$T/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
pact_models = { path = "../pact_models", default-features = false, features = ["datetime", "form_urlencoded"] }
serde_json = "1"
maplit = "1"
bytes = "1"
anyhow = "1"
chrono = { version = "0.4", default-features = false, features = ["std"] }
EOF
cd "$T" || exit 2
export CARGO_TARGET_DIR="$T/target"
cargo run -q -p demo --offline --target wasm32-wasip1 2> "$T/log" || { rc=$?; tail -n 30 "$T/log"; exit 1; }
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(sid, prop, specf):
    ns = {}
    exec(open(specf).read(), ns)
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
    try:
        for f, o, n in ns["EDITS"]:
            p = os.path.join("/repo/rust/pact_models/src", f)
            s = open(p).read()
            assert s.count(o) == 1, (f, s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        diff = sh("git -C /repo diff").stdout
    finally: sh("git -C /repo checkout -- .")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(ns["MAIN"])
    json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)

def stable():
    sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    return json.load(open("/tmp/seedtest.json"))

def test(sid, full=True):
    d = os.path.join(V, "seeded", sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    res = {}
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
    r = sh("bash %s/demo.sh" % d, cwd="/repo"); res["demo_clean"] = r.returncode
    if r.returncode: print(r.stdout[-900:])
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: print("apply failed", r.stdout); return
    try:
        if full:
            b = sh("bash /opt/vp/build.sh"); res["build"] = b.returncode
            if b.returncode: print(b.stdout[-2000:])
            t = stable()
            base = json.load(open("/opt/vp/BASELINE.json"))
            res["broken_stable_tests"] = sorted(set(base["stable"]) - set(t["passed"]))[:5]
            r = sh("bash %s/demo.sh" % d, cwd="/repo"); res["demo_patched"] = r.returncode; res["demo_out"] = r.stdout[-260:]
        c = sh("python3 check.py %s" % prop, cwd=V); res["check"] = c.returncode; res["out"] = c.stdout[-700:]
    finally: sh("git -C /repo checkout -- .")
    good = not full or res["demo_clean"] == 0 and res["build"] == 0 and res["demo_patched"] == 1 and not res["broken_stable_tests"]
    print(sid, prop, "VALID" if good else "INVALID", "CAUGHT" if res["check"] == 1 and "VIOLATION property=" + prop in res["out"] else "MISSED", json.dumps(res, indent=1) if not good or full else res["out"][-400:])
if __name__ == "__main__":
    if sys.argv[1] == "make": make(*sys.argv[2:5])
    elif sys.argv[1] == "check":
        for s in sys.argv[2:]: test(s, False)
    else:
        for s in sys.argv[2:]: test(s)
