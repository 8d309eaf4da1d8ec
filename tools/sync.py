#!/usr/bin/env python3
"""Mirrors the Rust workspace of /repo into work/ws (git-ignored), leaving out what needs the `miri` git dependency.

Every file is copied as it is, except for the few edits in EDITS and the paths in OMIT.
A file of the mirror is written only when its content changes, so cargo rebuilds incrementally."""

import os
import re
import shutil
import sys

SRC = os.environ.get("AQV_SRC", "/repo")     # (another tree only while developing)
DST = os.environ.get("AQV_WS", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "work", "ws"))

TOP = ["Cargo.toml", "Cargo.lock", "rust-toolchain.toml"]
#: Never mirrored: they need miri.
OMIT = ("crates/aquascope/src/interpreter/", "crates/aquascope/tests/interpreter.rs")
#: Generated below a crate: neither mirrored nor deleted.
GENERATED = {"target", "bindings", "node_modules"}

#: file -> (regex, replacement): the uses of miri and of the interpreter module.
EDITS = {
    "crates/aquascope/Cargo.toml": [(r"(?m)^miri *=.*\n", "")],
    "crates/aquascope/src/lib.rs": [
        (r"(?m)^(#\[allow\(clippy::similar_names\)\]\n)?pub mod interpreter;\n", "")
    ],
    "crates/aquascope/src/test_utils.rs": [
        (r"(?m)^  interpreter::\{self, MTrace\},\n", ""),
        (r"(?ms)^pub fn test_interpreter_in_file\(.*?^\}\n", ""),
        (r"crate::interpreter::override_queries", "borrowck_facts::override_queries"),
    ],
    # The match goes on with "_ => unreachable!()".
    "crates/aquascope_front/src/plugin.rs": [
        (r"(?ms)^      Interpreter \{ \.\. \} => \{.*?^      \}\n", "")
    ],
}


def main():
    rels = [f for f in TOP if os.path.lexists(os.path.join(SRC, f))]
    for root, dirs, files in os.walk(os.path.join(SRC, "crates")):
        dirs[:] = [d for d in dirs if d not in GENERATED]
        for f in files:
            rels.append(os.path.relpath(os.path.join(root, f), SRC))
    rels = [r for r in rels if not r.startswith(OMIT)]

    for rel in rels:
        src, dst = os.path.join(SRC, rel), os.path.join(DST, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if os.path.islink(src):
            target = os.readlink(src)
            if not (os.path.islink(dst) and os.readlink(dst) == target):
                if os.path.lexists(dst):
                    os.remove(dst)
                os.symlink(target, dst)
            continue
        with open(src, "rb") as f:
            data = f.read()
        for pattern, repl in EDITS.get(rel, ()):
            data, n = re.subn(pattern.encode(), repl.encode(), data)
            if n == 0:
                print(f"sync.py: warning: nothing in {rel} matches {pattern!r}", file=sys.stderr)
        if rel == "Cargo.lock":
            # cargo drops miri and its dependencies from the mirror's copy: compare with the file it was made from.
            dst_seen = os.path.join(DST, ".Cargo.lock.repo")
            write(dst_seen, data, also=dst)
        else:
            write(dst, data)

    keep = set(rels)
    for root, dirs, files in os.walk(os.path.join(DST, "crates")):
        dirs[:] = [d for d in dirs if d not in GENERATED]
        for f in files:
            path = os.path.join(root, f)
            if os.path.relpath(path, DST) not in keep:
                os.remove(path)
    for root, dirs, files in os.walk(os.path.join(DST, "crates"), topdown=False):
        if not os.listdir(root):
            os.rmdir(root)


def write(path, data, also=None):
    try:
        with open(path, "rb") as f:
            if f.read() == data and (also is None or os.path.exists(also)):
                return
    except FileNotFoundError:
        pass
    for p in (path, also):
        if p:
            if os.path.islink(p):
                os.remove(p)
            elif os.path.isdir(p):
                shutil.rmtree(p)
            with open(p, "wb") as f:
                f.write(data)


main()
