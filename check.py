#!/usr/bin/env python3
"""Builds (from /repo's working tree) and runs the check of one property.

usage: check.py ID [--replay FILE] [--only PART]      exit 0 held, 1 VIOLATION, 2 error of the check"""

import fcntl
import json
import os
import resource
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, f"{VERIF}/tools")
import mirror  # noqa: E402

BUILD = mirror.BUILD
HARNESS = json.load(open(f"{VERIF}/tools/harness.json"))


def env():
    e = dict(os.environ)
    e.update(
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="1.72", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="", CARGO_TARGET_DIR=f"{BUILD}/target",
        MC_REPLAYS=f"{VERIF}/replays", MC_KNOWN=f"{VERIF}/known-findings.json",
        RUST_BACKTRACE="0",
    )
    e.setdefault("MC_EVIDENCE", f"{VERIF}/evidence")
    e["RUSTFLAGS"] = "--cap-lints=allow"
    e.pop("CARGO_PROFILE_DEV_DEBUG", None)
    e.pop("MC_MAXDEV", None)
    return e


def build(packages):
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        mirror.main()
        cmd = ["cargo", "build", "--offline", "-q"]
        for p in packages:
            cmd += ["-p", p]
        r = subprocess.run(cmd, cwd=mirror.WS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            lines = [l for l in r.stdout.splitlines() if not l.startswith("warning")]
            print("\n".join(lines[-60:]))
            print(f"ERROR cannot build {packages}")
            return False
    return True


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (28 << 30, 28 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(prog, args, extra=None, timeout=840):
    e = env()
    e.update(extra or {})
    p = subprocess.Popen([prog] + args, cwd=VERIF, env=e, preexec_fn=limits,
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        p.send_signal(signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        # one by one: what cargo builds for several packages at once has other features, hence is another build
        ok = all([build([p]) for p in sorted(set(HARNESS.values()))])
        sys.exit(0 if ok else 2)
    prop = sys.argv[1]
    pkg = HARNESS[prop]
    start = time.time()
    if not build([pkg]):
        sys.exit(2)
    built = time.time() - start
    prog = f"{BUILD}/target/debug/{pkg}"
    tier = os.environ.get("VERIF_TIER", "quick")
    total = 870 if tier == "quick" else int(os.environ.get("MC_TIMEOUT", "36000"))
    code, out = run(prog, sys.argv[1:], timeout=max(60, total - built))
    if code is not None and code < 0 or code in (101, 134, 139):
        # The process itself died (stack overflow, abort, memory): find the execution that does it.
        trace = f"{BUILD}/trace-{prop}.json"
        sys.stdout.write(out)
        print(f"  process died with {code}; looking for the execution that kills it")
        left = max(60, total - (time.time() - start))
        code2, out2 = run(prog, sys.argv[1:], {"MC_TRACE": trace}, timeout=left)
        if code2 is not None and (code2 < 0 or code2 in (101, 134, 139)):
            t = json.load(open(trace))
            os.makedirs(f"{VERIF}/replays", exist_ok=True)
            path = f"{VERIF}/replays/{prop}-crash.json"
            json.dump({"property": prop, "part": t["part"], "choices": t["choices"], "tier": tier,
                       "signature": "process dies", "message": f"the process died with {code2}"}, open(path, "w"))
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  part={t['part']} choices={t['choices']}: the process died with {code2}")
            sys.exit(1)
        code, out = code2, out2
    sys.stdout.write(out)
    if code is None:
        print(f"ERROR no result within {total} s")
        sys.exit(2)
    sys.exit(code if code in (0, 1) else 2)


main()
