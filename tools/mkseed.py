#!/usr/bin/env python3
"""mkseed.py ID PROPERTY DEPS NEEDS WHAT: makes seeded/ID from /tmp/seedwt (a worktree with the change applied)
and /tmp/seed_main.rs (a program that exits nonzero with the change), then confirms it:
applies, builds, passes the stable tests, demo passes without and fails with the change."""
import json, os, shutil, subprocess, sys
V = "/verif"
id, prop, deps, needs, what = sys.argv[1:6]
d = f"{V}/seeded/{id}"
W = "/tmp/seedwt"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no change"
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
shutil.copy("/tmp/seed_main.rs", d + "/main.rs")
dl = ""
for x in deps.split(","):
    n, _, p = x.partition("=")
    if p.startswith("@"):
        dl += '%s = %s\n' % (n, p[1:].replace(";", ","))
        continue
    dl += '%s = { path = "$R/crates/%s" }\n' % (n.replace("_", "-") if False else n, p or n)
src = open("/tmp/seed_main.rs").read()
if src.startswith("// APPEND "):
    # a test of internals: appended to a copy of the file it names
    f, crate = src.split("\n")[0].split()[2:4]
    open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# Runs the tests in main.rs within a copy of {f}; nonzero when the property is broken.
here="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp -a "$R/Cargo.toml" "$R/Cargo.lock" "$R/crates" "$T/"
cat "$here/main.rs" >> "$T/{f}"
cd "$T" && REV=demo CARGO_TARGET_DIR="$T/target" cargo test --offline --quiet -p {crate} seed_demo >"$T/out" 2>&1
rc=$?
grep -q "passed" "$T/out" || rc=9
tail -15 "$T/out"
exit $rc
''')
else: open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# Runs main.rs against the crates in the current directory; nonzero when the property is broken.
here="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$here/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
{dl}EOF
export ROOT="$R" REV=demo
cd "$T" && cargo run --offline --quiet >"$T/out" 2>&1
rc=$?
tail -5 "$T/out"
exit $rc
''')
os.chmod(d + "/demo.sh", 0o755)
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
r = sh(f"timeout 300 {d}/demo.sh", cwd="/repo"); print("unchanged:", r.returncode, r.stdout[-200:])
ok = r.returncode == 0
r = sh(f"timeout 300 {d}/demo.sh", cwd=W); print("changed:", r.returncode, r.stdout[-300:])
ok &= r.returncode != 0
if "--notest" not in sys.argv:
    r = sh("git -C /repo apply %s/patch.diff && bash /opt/vp/build.sh; b=$?; bash /opt/vp/test.sh /tmp/seed_t.json; git -C /repo checkout -- . ; exit $b" % d)
    print("build:", r.returncode)
    t = json.load(open("/tmp/seed_t.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    passed = set(t if isinstance(t, list) else t.get("passed") or t.get("pass") or [])
    miss = [x for x in base["stable"] if x not in passed]
    print("tests missing:", miss, list(t)[:4] if isinstance(t, dict) else "")
    ok &= r.returncode == 0 and not miss
print("SEED OK" if ok else "SEED BAD", id)
