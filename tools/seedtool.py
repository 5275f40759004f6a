#!/usr/bin/env python3
"""seedtool.py new ID PROPERTY   -- from the changes in the scratch copy /tmp/seed/repo and /tmp/seed/main.rs
   seedtool.py verify ID...       -- apply in a scratch copy: builds, tests pass, demo fails; without: demo passes
   seedtool.py run ID [CHECK..]   -- run checks with the bug applied to /repo (undone afterwards)"""
import json, os, shutil, subprocess, sys, time

S = "/verif/seeded"
SCR = "/tmp/seed/repo"
CARGO = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
scale-decode = { path = "REPO/scale-decode" }
scale-info = { version = "2.7.0", default-features = false, features = ["bit-vec", "derive", "std"] }
codec = { package = "parity-scale-codec", version = "3.0.0", default-features = false, features = ["derive", "bit-vec", "std"] }
scale-bits = { version = "0.7.0", default-features = false, features = ["scale-info"] }
scale-type-resolver = { version = "0.2.0", default-features = false, features = ["scale-info"] }
"""
DEMO = """#!/bin/bash
# Builds and runs main.rs against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=/tmp/vp-demo-ID
rm -rf /tmp/vp-demo-ID
mkdir -p "$work/src" || exit 2
cp "$here/main.rs" "$work/src/main.rs"
cp "$here/Cargo.lock" "$work/Cargo.lock"
sed "s|REPO|$repo|" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cd "$work" && CARGO_TARGET_DIR="$work/target" cargo build --offline -q && timeout 100 "$work/target/debug/demo"
rc=$?
rm -rf /tmp/vp-demo-ID
exit $rc
"""


def demo(i, target):
    s = DEMO.replace("ID", i)
    if target:
        lines = s.splitlines(True)
        at = next(k for k, l in enumerate(lines) if l.startswith('cd "$work"'))
        lines[at] = MIRI.replace("TARGET", target)
        s = "".join(lines)
    return s


def sh(cmd, cwd=None, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def scratch():
    if not os.path.isdir(SCR):
        os.makedirs("/tmp/seed", exist_ok=True)
        sh(f"cp -a /repo {SCR}")
    rc, head = sh("git -C /repo rev-parse HEAD")
    rc, h2 = sh(f"git -C {SCR} rev-parse HEAD")
    if head != h2:
        sh(f"git -C {SCR} fetch -q /repo HEAD && git -C {SCR} checkout -q -f FETCH_HEAD")


MIRI = """cd "$work" && export XDG_CACHE_HOME="$work/cache" CARGO_TARGET_DIR="$work/target"
cargo +nightly miri setup -q --target TARGET && timeout 200 cargo +nightly miri run -q --offline --target TARGET
"""


def new(i, prop, needs, breaks, target=None):
    d = f"{S}/{i}"
    os.makedirs(d, exist_ok=True)
    rc, diff = sh("git diff", cwd=SCR)
    assert diff.strip(), "no change"
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy("/tmp/seed/main.rs", d + "/main.rs")
    shutil.copy("/verif/tools/demo.lock", d + "/Cargo.lock")
    open(d + "/Cargo.toml.in", "w").write(CARGO)
    open(d + "/demo.sh", "w").write(demo(i, target))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    return verify(i)


def verify(i):
    scratch()
    d = f"{S}/{i}"
    sh("git checkout -q -f . ", cwd=SCR)
    ok = True
    rc, o = sh(f"RUST_BACKTRACE=0 bash {d}/demo.sh", cwd=SCR)
    if rc != 0:
        print(i, "DEMO FAILS ON CLEAN", o[-3000:])
        ok = False
    rc, o = sh(f"git apply {d}/patch.diff", cwd=SCR)
    if rc != 0:
        print(i, "DOES NOT APPLY", o)
        return False
    rc, o = sh("cargo test --offline --workspace 2>&1", cwd=SCR)
    if rc != 0:
        print(i, "TESTS FAIL", o[-2500:])
        ok = False
    rc, o = sh(f"RUST_BACKTRACE=0 bash {d}/demo.sh", cwd=SCR)
    if rc == 0:
        print(i, "DEMO PASSES WITH BUG")
        ok = False
    elif ("error[" in o or "could not compile" in o) and "C24" not in open(d + "/meta.json").read():
        print(i, "DEMO DOES NOT COMPILE WITH BUG", o[-2000:])
        ok = False
    else:
        print(i, "demo:", o.strip().split("stack backtrace")[0][-300:])
    sh("git checkout -q -f .", cwd=SCR)
    print(i, "OK" if ok else "NOT OK", flush=True)
    return ok


def run(i, checks):
    d = f"{S}/{i}"
    m = json.load(open(d + "/meta.json"))
    rc, o = sh(f"git -C /repo apply {d}/patch.diff")
    assert rc == 0, o
    res = {}
    try:
        for c in checks or [m["property"]]:
            t = time.time()
            rc, o = sh(f"VERIF_SEED={os.environ.get('VERIF_SEED','1')} python3 check.py {c}", cwd="/verif", timeout=1000)
            caught = rc == 1 and f"VIOLATION property={c} " in o
            res[c] = (rc, caught)
            print(f"{i} ({m['property']}) {c}: rc {rc} {'CAUGHT' if caught else 'missed'} {time.time()-t:.0f}s", flush=True)
            if "-v" in sys.argv or rc not in (0, 1):
                print(o[-2500:])
    finally:
        sh("git -C /repo checkout -- .")
    return res


if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if x != "-v"]
    if sys.argv[1] == "verify":
        for i in a or sorted(os.listdir(S)):
            verify(i)
    elif sys.argv[1] == "run":
        run(a[0], a[1:])
    elif sys.argv[1] == "runall":
        for i in a or sorted(os.listdir(S)):
            run(i, [])
    elif sys.argv[1] == "new":
        sys.exit(0 if new(*a) else 1)
    elif sys.argv[1] == "scratch":
        scratch()
