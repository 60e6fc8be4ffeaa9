"""Development helper: writes and verifies a planted bug under /verif/seeded (not used by any check).

mk(id, property, edits, demo, needs, breaks): edits = [(file, old, new)]; demo = ("rust", main.rs) | ("c", main.c) |
("js", script) | ("sh", script)."""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"

RUST = r'''#!/bin/bash
# Builds the small program beside this script against the crates in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
image = "0.24"
nalgebra = "*"
qhull-rs = { path = "$repo/qhull-rs" }
qhull-sys = { path = "$repo/qhull-sys" }
image-palette-recoloring = { path = "$repo/image-palette-recoloring" }
EOF
cd "$w"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTUP_TOOLCHAIN=stable
unset CARGO_RESOLVER_LOCKFILE_PATH RUSTC_WRAPPER
cargo build --offline -q 2> build.log || { %(onfail)s; }
timeout 120 ./target/debug/demo
'''
C = r'''#!/bin/bash
# Compiles the C program beside this script against the header and the C library built from the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
lib=$(ls "$repo"/target/debug/libimage_palette_recoloring_c.a)
gcc -w -I"$repo/image-palette-recoloring-c" "$here/main.c" "$lib" -lm -lpthread -ldl -o "$w/demo" || exit 3
timeout 120 "$w/demo"
'''
JS = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
timeout 120 node "$here/main.js" "$(pwd)"
'''


def sh(cmd, **kw):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def mk(id, prop, edits, demo, needs, breaks, onfail="cat build.log; exit 3", checks=None, verify=True):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain")[1].strip(), "repo dirty"
    kind, body = demo
    if kind == "rust":
        script, fn = RUST % dict(onfail=onfail), "main.rs"
    elif kind == "c":
        script, fn = C, "main.c"
    elif kind == "js":
        script, fn = JS, "main.js"
    else:
        script, fn = body, None
    with open(d + "/demo.sh", "w") as f:
        f.write(script)
    os.chmod(d + "/demo.sh", 0o755)
    if fn:
        with open(d + "/" + fn, "w") as f:
            f.write(body)
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
    try:
        if verify:
            rc, o = sh("bash /opt/vp/build.sh")
            rc, o = sh("bash %s/demo.sh" % d, cwd=R)
            if rc:
                print(id, "DEMO FAILS ON CLEAN TREE", rc, o[-1500:])
                return False
        for file, old, new in edits:
            p = os.path.join(R, file)
            s = open(p).read()
            if s.count(old) < 1:
                print(id, "EDIT NOT FOUND", file, old)
                return False
            if s.count(old) > 1:
                print(id, "edit ambiguous (first used)", file, old)
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        rc, o = sh("git -C /repo diff")
        with open(d + "/patch.diff", "w") as f:
            f.write(o)
        if not verify:
            return True
        rc, o = sh("bash /opt/vp/build.sh")
        if rc:
            print(id, "DOES NOT BUILD", o[-1500:])
            return False
        sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        t = json.load(open("/tmp/seedtest.json"))
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        if base - set(t["passed"]):
            print(id, "TESTS FAIL", base - set(t["passed"]))
            return False
        rc, o = sh("bash %s/demo.sh" % d, cwd=R)
        if rc == 0:
            print(id, "DEMO PASSES WITH THE BUG", o[-800:])
            return False
        print(id, "ok; demo exits", rc, o[-200:].strip())
        for c in checks if checks is not None else [prop]:
            if os.path.exists(V + "/tools/chk_%s.py" % c.lower()):
                rc, o = sh("./check " + c, cwd=V)
                print("   check", c, "exit", rc, [l for l in o.splitlines() if l.strip().startswith(("violated", "undecided"))][:3], "" if rc in (0, 1) else o[-600:])
        return True
    finally:
        sh("git -C /repo checkout -- .")
