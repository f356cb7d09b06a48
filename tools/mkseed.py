#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a description (a python file defining SEEDS), and confirms it.

usage: mkseed.py FILE [ID...]        write, and confirm that each patch applies
No check uses this or reads /verif/seeded."""

import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")

DEMO = """#!/bin/bash
# Builds main.rs against /repo's crates in a scratch folder and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.72 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_TARGET_DIR=$t/target RUSTFLAGS=--cap-lints=allow CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
mkdir -p "$t/demo/src" && cd "$t/demo" && cp "$here"/*.rs src/ || exit 3
cp "$here/Cargo.lock" . || exit 3
%COPY%cat > Cargo.toml <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%DEPS%
X
cargo build --offline -q || exit 4
mkdir "$t/scratch" && cd "$t/scratch" && exec_status=0
"$t/target/debug/demo" || exec_status=$?
exit $exec_status
"""


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    for s in seeds:
        if want and s["id"] not in want:
            continue
        d = f"{VERIF}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        tmp = f"/tmp/mkseed-{os.getpid()}"
        subprocess.run(["git", "-C", REPO, "worktree", "add", "-q", "--detach", tmp], check=True)
        try:
            for f, old, new in s["edits"]:
                p = f"{tmp}/{f}"
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "-C", tmp, "diff"], check=True, capture_output=True, text=True).stdout
        finally:
            subprocess.run(["git", "-C", REPO, "worktree", "remove", "--force", tmp], check=True)
        open(f"{d}/patch.diff", "w").write(diff)
        demo = s.get("script") or DEMO.replace("%DEPS%", s["deps"].strip()).replace("%REPO%", "$repo").replace(
            "%COPY%", "".join(f'cp "$repo/{f}" src/ || exit 3\n' for f in s.get("copy", [])))
        open(f"{d}/demo.sh", "w").write(demo)
        os.chmod(f"{d}/demo.sh", 0o755)
        if "main" in s:
            open(f"{d}/main.rs", "w").write(s["main"].lstrip())
        for name, text in s.get("files", {}).items():
            open(f"{d}/{name}", "w").write(text)
        if "script" not in s:
            shutil.copy(f"{VERIF}/tools/Cargo.lock", f"{d}/Cargo.lock")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(f"{d}/meta.json", "w"), indent=1)
        print("wrote", s["id"])


main()
