#!/usr/bin/env python3
"""plant.py SPEC.py: makes and confirms planted bugs under /verif/seeded (development tool, no check uses it).

SPEC.py calls plant(id, property, edits, needs, breaks, demo) where edits is a list of (file, old, new)."""
import json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
COPY = "/tmp/plant.repo"
BASE = "5599740"
DEMO = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ariadne-dns = { path = "$repo" }
[profile.dev]
debug = false
EOF
cd "$d" || exit 99
CARGO_TARGET_DIR="$d/target" RUSTFLAGS="-Awarnings" cargo build --offline -q || exit 98
timeout 120 "$d/target/debug/demo"
'''

BINS = '''cd "$repo" && CARGO_TARGET_DIR="$d/bins" RUSTFLAGS="-Awarnings" cargo build --offline -q --bins || exit 97
cd "$d" && export BINS="$d/bins/debug"
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def fresh():
    shutil.rmtree(COPY, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, COPY], check=True)


def plant(bid, prop, edits, needs, breaks, demo, bins=False):
    only = sys.argv[2:]
    if only and bid not in only:
        return
    sh(["git", "checkout", "-q", "--", "."], cwd=COPY)
    d = os.path.join(HERE, "seeded", bid)
    tmp = d + ".new"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(os.path.join(tmp, "demo.sh"), "w").write(DEMO.replace('timeout 120', BINS + 'timeout 120') if bins else DEMO)
    os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
    open(os.path.join(tmp, "demo.rs"), "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(tmp, "meta.json"), "w"), indent=1)
    r = sh(["bash", os.path.join(tmp, "demo.sh")], cwd=COPY)
    if r.returncode != 0:
        print(bid, "FAIL: demo fails on the clean tree", r.returncode, r.stdout[-1500:], r.stderr[-1500:])
        return
    for f, old, new in edits:
        p = os.path.join(COPY, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(bid, "FAIL: edit matches %d times in %s: %r" % (t.count(old), f, old[:80]))
            return
        open(p, "w").write(t.replace(old, new))
    diff = sh(["git", "diff"], cwd=COPY).stdout
    open(os.path.join(tmp, "patch.diff"), "w").write(diff)
    # which of the changed lines are original
    orig = changed = 0
    for f in {e[0] for e in edits}:
        bl = sh(["git", "blame", "-s", "HEAD", "--", f], cwd=COPY).stdout.splitlines()
        for ln in sh(["git", "diff", "-U0", "--", f], cwd=COPY).stdout.splitlines():
            if ln.startswith("@@"):
                a = ln.split()[1][1:].split(",")
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for i in range(st, st + n):
                    changed += 1
                    orig += bl[i - 1].lstrip("^").startswith(BASE[:7])
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTFLAGS="")
    env.pop("RUSTFLAGS")
    b = sh(["cargo", "test", "--workspace", "--offline", "--", "--test-threads", "8"], cwd=COPY, env=env)
    if b.returncode != 0:
        print(bid, "FAIL: does not build or tests fail", b.stdout[-800:], b.stderr[-800:])
        return
    r = sh(["bash", os.path.join(tmp, "demo.sh")], cwd=COPY)
    if r.returncode in (0, 98, 99):
        print(bid, "FAIL: demo gives", r.returncode, "with the change", r.stderr[-500:])
        return
    shutil.rmtree(d, ignore_errors=True)
    os.rename(tmp, d)
    print(bid, "ok: demo", r.returncode, "orig lines %d/%d" % (orig, changed), (r.stderr.strip().splitlines() or r.stdout.strip().splitlines() or ["-"])[-1][:150])


if __name__ == "__main__":
    fresh()
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
    shutil.rmtree(COPY, ignore_errors=True)
    subprocess.run("rm -rf /verif/seeded/*.new", shell=True)
