#!/usr/bin/env python3
"""mkseed.py FILE: makes planted bugs from a Python file defining SEEDS = [dict(id, property, edits=[(file, old, new)...], demo, needs, breaks)].
Verifies in a scratch copy: builds, same tests pass, demo passes without and fails with the change."""
import os, shutil, subprocess, sys, json, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# builds a small program against the crate in the current directory and runs it
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -r "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
apint = { path = "$repo" }
serde = { version = "1.0", default-features = false }
serde_test = "1.0"
rand = { version = "0.8", default-features = false }
[profile.dev]
debug = 0
[workspace]
T
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cargo build --offline -q 2> build.log || { cat build.log; exit 3; }
./target/debug/demo
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tests(d):
    r = sh(". /opt/vp/env.sh; CARGO_TARGET_DIR=%s/target cargo test --workspace --all-features --offline 2>&1" % d, d)
    ok = set(m.group(1) for m in re.finditer(r"^test (\S+(?: - .*?)?) \.\.\. ok", r.stdout, re.M))
    return ok, "error" in r.stdout and "could not compile" in r.stdout, r.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    S = "/tmp/seedwork"
    if os.path.exists(S):
        shutil.rmtree(S)
    shutil.copytree("/repo", S, symlinks=True)
    base, _, _ = tests(S)
    print("base tests ok:", len(base))
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        out = os.path.join(H, "seeded", s["id"])
        sh("git checkout -q -- .", S)
        good = True
        for f, a, b in s["edits"]:
            p = os.path.join(S, f)
            t = open(p).read()
            k = s.get("count", 1)
            if t.count(a) != k:
                print(s["id"], "EDIT: occurs", t.count(a), "times in", f)
                good = False
                break
            open(p, "w").write(t.replace(a, b))
        if not good:
            continue
        diff = subprocess.run(["git", "diff"], cwd=S, stdout=subprocess.PIPE, text=True).stdout
        ok, ce, log = tests(S)
        if ce:
            print(s["id"], "does not compile", log[-1500:])
            continue
        lost = base - ok
        if lost:
            print(s["id"], "tests fail:", sorted(lost)[:5])
            continue
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/main.rs", "w").write(s["demo"].lstrip())
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        r1 = sh("bash %s/demo.sh" % out, S)
        sh("git checkout -q -- .", S)
        r0 = sh("bash %s/demo.sh" % out, S)
        fine = r0.returncode == 0 and r1.returncode not in (0, 3)
        print(s["id"], "OK" if fine else "BAD demo: clean %d patched %d\n%s\n--\n%s" % (r0.returncode, r1.returncode, r0.stdout[-800:], r1.stdout[-800:]), flush=True)
        if not fine:
            shutil.rmtree(out)
    shutil.rmtree(S)


main()
