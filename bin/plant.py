#!/usr/bin/env python3
"""Plants bugs for testing the checks (no check uses this): plant.py DEFS.py [ID...]

DEFS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], inputs=[(mode, text)] or main=RUST, needs, breaks)].
Each change is made in a copy of /repo, must build and pass the baseline tests, and its demo must pass without and fail with it;
it is then kept in /verif/seeded/ID.
"""
import json, os, runpy, shutil, subprocess, sys
LAB = "/tmp/w/lab"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")

DEMO = r'''#!/bin/bash
# Runs the command-line example on the texts of inputs.txt (mode, tab, text) and compares what it answers with expected.txt.
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-$PWD/target}
cargo build -q --offline --example main 2>/dev/null || exit 2
out=$(mktemp)
while IFS=$'\t' read -r mode text; do
	echo "> $mode $text"
	printf '%b' "$text" | timeout 20 "$CARGO_TARGET_DIR/debug/examples/main" "--$mode" 2>/dev/null | grep -v '^size of CST arena'
	echo "[${PIPESTATUS[1]}]"
done < "$here/inputs.txt" > "$out"
if [ "$1" = --record ]; then cp "$out" "$here/expected.txt"; fi
diff "$here/expected.txt" "$out" > /dev/null; rc=$?
rm -f "$out"
exit $rc
'''
DEMO_CRATE = r'''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it: it fails if the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
dir=$(mktemp -d)
trap 'rm -rf -- "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp Cargo.lock "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
log = "0.4"
sneturfahi = { path = "$PWD" }
[profile.dev]
debug = false
TOML
CARGO_TARGET_DIR="$dir/target" cargo build -q --offline --manifest-path "$dir/Cargo.toml" || exit 2
timeout 60 "$dir/target/debug/demo"
'''

def sh(cmd, cwd=LAB + "/repo", check=False, env=ENV):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, text=True, capture_output=True)

def lab():
    if not os.path.isdir(LAB + "/repo"):
        os.makedirs(LAB, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", LAB + "/repo"], check=True)
    sh("git checkout -q -- . && git clean -fdq -e target")
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")

def plant(bug):
    env = dict(ENV, CARGO_TARGET_DIR=LAB + "/repo/target")
    sh("git checkout -q -- .")
    dest = f"{LAB}/{bug['id']}"
    subprocess.run(["rm", "-rf", dest]); os.makedirs(dest)
    if "inputs" in bug:
        open(dest + "/demo.sh", "w").write(DEMO)
        open(dest + "/inputs.txt", "w").write("".join(f"{m}\t{t}\n" for m, t in bug["inputs"]))
        r = sh(f"bash {dest}/demo.sh --record", env=env)
        if r.returncode: return f"demo fails without the change: {r.stdout}{r.stderr}"
    else:
        open(dest + "/demo.sh", "w").write(DEMO_CRATE)
        open(dest + "/main.rs", "w").write(bug["main"])
        r = sh(f"bash {dest}/demo.sh", env=env)
        if r.returncode: return f"demo fails without the change: {r.stdout}{r.stderr}"
    for file, old, new in bug["edits"]:
        path = f"{LAB}/repo/{file}"
        text = open(path).read()
        if text.count(old) != 1: sh("git checkout -q -- ."); return f"{file}: {text.count(old)} matches of {old!r}"
        open(path, "w").write(text.replace(old, new))
    r = sh("timeout 900 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", env=env)
    if "error: could not compile" in r.stderr or "error[" in r.stderr:
        sh("git checkout -q -- ."); return "does not build: " + r.stderr[-1500:]
    failed = [l for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
    if failed: sh("git checkout -q -- ."); return f"{len(failed)} tests fail: {failed[:3]}"
    if r.returncode: sh("git checkout -q -- ."); return f"tests exit {r.returncode}: {r.stderr[-600:]}"
    r = sh(f"bash {dest}/demo.sh", env=env)
    if r.returncode in (0, 2): sh("git checkout -q -- ."); return f"demo exits {r.returncode} with the change"
    diff = sh("git diff").stdout
    sh("git checkout -q -- .")
    open(dest + "/patch.diff", "w").write(diff)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(dest + "/meta.json", "w"), indent=2)
    final = f"{VERIF}/seeded/{bug['id']}"
    subprocess.run(["rm", "-rf", final]); shutil.copytree(dest, final)
    return "kept"

if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    lab()
    for bug in bugs:
        if only and bug["id"] not in only: continue
        print(bug["id"], plant(bug), flush=True)
