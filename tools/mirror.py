#!/usr/bin/env python3
"""Lays out /verif/build/ws: a cargo workspace holding /repo's own sources (byte copies of the working
tree), the stub crates of /verif/stubs and the harness crates of /verif/harness.

/repo's own workspace cannot be resolved offline (git dependencies and crates that are not in the
cache), so the manifests are generated here: dev-dependencies, benches and examples are dropped, and
dependencies that are not available are redirected to stub crates. No source file of /repo is changed;
of the copies, only those of SCHED_STD are, in the name of the standard library.

A file is rewritten only when its content differs, so that cargo rebuilds exactly what changed, whatever
the modification times in /repo are."""

import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", f"{VERIF}/build")
WS = f"{BUILD}/ws"

# crates of /repo that are compiled from the working tree
CRATES = [
    "protocol",
    "common/apm-derive",
    "common/config-parser",
    "common/crypto",
    "common/hasher",
    "common/logger",
    "common/merkle",
    "common/version",
    "core/interoperation",
    "core/rpc-client",
    "core/storage",
    "core/db",
    "core/executor",
    "core/mempool",
    "core/network",
    "core/consensus",
    "core/api",
    "core/run",
    "core/cli",
    "devtools/abi-generator",
    "devtools/axon-tools",
]

# sources that harness crates include one by one
EXTRA = ("devtools/chain/",)

# dependency name -> stub crate directory (relative to the workspace)
STUBS = {
    "common-apm": "stubs/common-apm",
    "rocksdb": "stubs/ckb-rocksdb",
    "core-network": "stubs/core-network",
    "lru": "stubs/lru",
    "crossbeam-queue": "stubs/crossbeam-queue",
    "az": "stubs/az",
    "rug": "stubs/rug",
    "bn": "stubs/substrate-bn",
    "tentacle": "stubs/tentacle",
    "tentacle-secio": "stubs/tentacle-secio",
    "bloom-filters": "stubs/bloom-filters",
    "faketime": "stubs/faketime",
    "ipnetwork": "stubs/ipnetwork",
    "prost": "stubs/prost",
    "snap": "stubs/snap",
    "jsonrpsee": "stubs/jsonrpsee",
    "tower": "stubs/tower",
    "tower-http": "stubs/tower-http",
    "socket2": "stubs/socket2",
}


# the same, for one crate of /repo only: locks whose operations the scheduler of harness/sched orders
STUBS_OF = {
    "core/mempool": {"dashmap": "stubs/dashmap", "parking_lot": "stubs/parking-lot"},
    # randomness that the checks of core/network draw
    "protocol": {"rand": "stubs/rand"},
    # the node as a whole: the network itself, and a consensus that shows what it was started with
    "core/run": {"core-network": ("core/network", "axon-core-network"), "core-consensus": ("stubs/run-consensus", "run-consensus")},
}

# crates whose copies name stubs/sched-std, the standard library with atomics that the scheduler orders,
# where the originals name std
SCHED_STD = ["core/rpc-client"]


def write(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except (FileNotFoundError, IsADirectoryError):
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def manifest(rel, text):
    """The manifest of a crate of /repo, without dev parts, and with stubs for what is not available."""
    depth = "../" * (rel.count("/") + 1)
    if rel in SCHED_STD:
        text = text.replace("[dependencies]\n", f'[dependencies]\nsched-std = {{ path = "{depth}stubs/sched-std" }}\n', 1)
    stubs = {**STUBS, **STUBS_OF.get(rel, {})}
    parts = re.split(r"^(?=\[)", text, flags=re.M)
    out = []
    if rel == "core/network":  # the other crates get the stub of this name
        parts = [p.replace('name = "core-network"', 'name = "axon-core-network"', 1) for p in parts]
    for part in parts:
        head = part.split("\n", 1)[0].strip()
        if head.startswith(("[dev-dependencies", "[[bench", "[[example", "[[test")):
            continue
        if head.startswith("[dependencies") or head.startswith("[target"):
            lines = []
            for line in part.split("\n"):
                m = re.match(r"\s*([A-Za-z0-9_-]+)\s*=", line)
                if m and isinstance(stubs.get(m[1]), tuple):
                    path, package = stubs[m[1]]
                    line = f'{m[1]} = {{ path = "{depth}{path}", package = "{package}" }}'
                elif m and m[1] in stubs and os.path.isdir(f"{VERIF}/{stubs[m[1]]}"):
                    name = m[1]
                    pkg = re.search(r'package\s*=\s*"([^"]+)"', line)
                    extra = f', package = "{pkg[1]}"' if pkg else ""
                    if name == "rand":  # not the name of the package it wraps
                        extra = ', package = "sim-rand"'
                    opt = ", optional = true" if "optional = true" in line else ""
                    line = f'{name} = {{ path = "{depth}{stubs[name]}"{extra}{opt} }}'
                elif m and m[1] in ("pprof", "jemalloc-ctl", "jemallocator", "common-memory-tracker"):
                    continue
                lines.append(line)
            part = "\n".join(lines)
        if head.startswith("[features"):
            part = re.sub(r'^(pprof|jemalloc)\s*=.*$', r"\1 = []", part, flags=re.M)
        out.append(part)
    return "".join(out)


def copy_tree(files, src, dst, seen):
    for f in files:
        p = f"{src}/{f}"
        if not os.path.isfile(p):
            continue
        with open(p, "rb") as fh:
            data = fh.read()
        if src == REPO and f.endswith(".rs") and f.startswith(tuple(c + "/src/" for c in SCHED_STD)):
            data = re.sub(rb"(?<![\w:])(::)?std::", b"sched_std::", data)
        d = f"{dst}/{f}"
        seen.add(d)
        write(d, data)


def main():
    os.makedirs(WS, exist_ok=True)
    ls = subprocess.run(
        ["git", "-c", "safe.directory=*", "ls-files", "-z", "--cached", "--others", "--exclude-standard"],
        cwd=REPO, check=True, capture_output=True, text=True,
    ).stdout.split("\0")
    seen = set()
    keep = tuple(c + "/" for c in CRATES) + EXTRA
    files = [f for f in ls if f.startswith(keep)]
    manifests = {f"{c}/Cargo.toml" for c in CRATES}
    copy_tree([f for f in files if f not in manifests], REPO, WS, seen)
    for m in manifests:
        with open(f"{REPO}/{m}") as fh:
            text = fh.read()
        seen.add(f"{WS}/{m}")
        write(f"{WS}/{m}", manifest(os.path.dirname(m), text))
    members = list(CRATES)
    for kind in ("stubs", "harness"):
        base = f"{VERIF}/{kind}"
        for crate in sorted(os.listdir(base)) if os.path.isdir(base) else []:
            if not os.path.isfile(f"{base}/{crate}/Cargo.toml"):
                continue
            members.append(f"{kind}/{crate}")
            for d, _, names in os.walk(f"{base}/{crate}"):
                rel = os.path.relpath(d, VERIF)
                copy_tree([f"{rel}/{n}" for n in names if not n.endswith(".swp")], VERIF, WS, seen)
    for d, _, names in os.walk(WS, topdown=False):
        for n in names:
            p = f"{d}/{n}"
            if p not in seen and p not in (f"{WS}/Cargo.toml", f"{WS}/Cargo.lock"):
                os.unlink(p)
        if not os.listdir(d):
            os.rmdir(d)
    root = '[workspace]\nresolver = "2"\nmembers = [\n' + "".join(f'    "{m}",\n' for m in members) + "]\n"
    with open(f"{VERIF}/tools/profile.toml") as fh:
        root += "\n" + fh.read()
    write(f"{WS}/Cargo.toml", root)
    lock = f"{VERIF}/tools/Cargo.lock"
    if not os.path.exists(f"{WS}/Cargo.lock"):
        shutil.copyfile(lock if os.path.exists(lock) else f"{REPO}/Cargo.lock", f"{WS}/Cargo.lock")


if __name__ == "__main__":
    main()
