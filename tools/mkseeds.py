#!/usr/bin/env python3
"""Writes seeded/<id>/ (patch.diff, demo.sh, demo.cpp, shim copy, meta.json)
from the table in tools/seeds.py.  usage: mkseeds.py [id ...]"""
import difflib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, os.path.join(HERE, "tools"))
from seeds import SEEDS, _mock  # noqa: E402

DEMO = '''#!/bin/bash
# run in the root of the repository; exit 0: the property holds on this input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
set -e
g++ -std=c++20 -O1 -w -I include -I src %s "$d/demo.cpp" %s -o "$t/demo" -pthread
timeout 120 "$t/demo"
'''


def base(path):
    return subprocess.run(["git", "-C", REPO, "show", "HEAD:" + path], check=True,
                          stdout=subprocess.PIPE, text=True).stdout


def make(s):
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in s["edits"]:
        cur = files.setdefault(f, base(f))
        assert cur.count(old) == 1, (s["id"], f, cur.count(old), old)
        files[f] = cur.replace(old, new)
    out = []
    for f, new in files.items():
        out += ["diff --git a/%s b/%s\n" % (f, f)]
        out += list(difflib.unified_diff(base(f).splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write("".join(out))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    shim = s.get("shim", True)
    if "demo_sh" in s:
        open(os.path.join(d, "demo.sh"), "w").write(s["demo_sh"])
        if s.get("mock"):
            open(os.path.join(d, "mock.rs"), "w").write(_mock())
            open(os.path.join(d, "demo.rs"), "w").write(s["demo"].lstrip())
        elif s.get("cpp"):
            open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip())
    else:
        open(os.path.join(d, "demo.sh"), "w").write(
            DEMO % ('-I "$d/shim"' if shim else "", " ".join(s.get("sources", []))))
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip())
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, t in s.get("files", {}).items():
        open(os.path.join(d, n), "w").write(t)
    sd = os.path.join(d, "shim")
    if s.get("shimdir") or shim and "demo_sh" not in s:
        shutil.copytree(os.path.join(HERE, "shim"), sd, dirs_exist_ok=True)


if __name__ == "__main__":
    for s in SEEDS:
        if not sys.argv[1:] or s["id"] in sys.argv[1:]:
            make(s)
            print(s["id"])
