#!/usr/bin/env python3
"""Derive /verif/build/ws/dam from /repo: its sources copied as they are (only files whose content changed are
rewritten, so cargo sees exactly what changed), with a Cargo.toml whose synchronisation dependencies are the facades
in /verif/mc/facades, so that the code under check runs under the explorer in /verif/mc/dam_mc.

The only source of truth is /repo's working tree.  Nothing is written outside /verif/build."""

import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DAM_REPO", "/repo")
WS = os.environ.get("DAM_WS", os.path.join(VERIF, "build", "ws"))
FACADES = {
    "crossbeam": ("mc-crossbeam", "crossbeam"),
    "parking_lot": ("mc-parking-lot", "parking_lot"),
    "thread-priority": ("mc-thread-priority", "thread-priority"),
    "may": ("mc-may", "may"),
    "mongodb": ("mc-mongodb", "mongodb"),
}


def put(path, data):
    if os.path.exists(path):
        with open(path, "rb") as f:
            if f.read() == data:
                return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def mirror(src, dst):
    seen = set()
    for base, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        for n in files:
            rel = os.path.relpath(os.path.join(base, n), src)
            seen.add(rel)
            with open(os.path.join(base, n), "rb") as f:
                put(os.path.join(dst, rel), f.read())
    for base, _, files in os.walk(dst):
        for n in files:
            p = os.path.join(base, n)
            if os.path.relpath(p, dst) not in seen:
                os.unlink(p)


def derive(text):
    # sections
    parts = re.split(r"(?m)^(?=\[)", text)
    out = []
    for p in parts:
        head = p.split("\n", 1)[0].strip()
        if head.startswith(("[[bench", "[dev-dependencies", "[profile", "[[test", "[[example", "[workspace")):
            continue
        if head == "[dependencies.mongodb]":
            continue
        if head == "[dependencies]":
            for name in ("crossbeam", "parking_lot", "thread-priority", "may"):
                p, n = re.subn(
                    r"(?ms)^%s\s*=\s*(\{.*?\}|\"[^\"]*\")[ \t]*\n" % re.escape(name), "", p
                )
                if n != 1:
                    sys.exit(f"mkws: dependency {name} not found")
            for name, (pkg, d) in FACADES.items():
                opt = ", optional = true" if name in ("may", "mongodb") else ""
                path = os.path.join(VERIF, "mc", "facades", d.replace("parking_lot", "parking_lot"))
                p += f'{name} = {{ package = "{pkg}", path = "{path}"{opt} }}\n'
            p += f'dam_mc = {{ path = "{os.path.join(VERIF, "mc", "dam_mc")}" }}\n\n'
        if head == "[features]":
            p, n = re.subn(r"(?m)^default\s*=.*$", "default = []", p)
            p = p.rstrip() + "\n\n"
        out.append(p)
    return "".join(out)


def main():
    mirror(os.path.join(REPO, "src"), os.path.join(WS, "dam", "src"))
    mirror(os.path.join(REPO, "dam-macros"), os.path.join(WS, "dam", "dam-macros"))
    with open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8") as f:
        put(os.path.join(WS, "dam", "Cargo.toml"), derive(f.read()).encode())


main()
