#!/usr/bin/env python3
"""Ad-hoc mutants (not planted bugs): mutants.py [-j N] [-e] [-r] [id-prefix ...]
Each is applied to a scratch copy of /repo; says which checks see it.  Entries
with props=[...] and equal=True are behaviour-preserving: checks must be quiet."""
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from mutant_table import MUTANTS  # noqa: E402
import blind_table  # noqa: E402,F401
import third_table  # noqa: E402,F401
import fourth_table  # noqa: E402,F401
import fifth_table  # noqa: E402,F401
import sixth_table  # noqa: E402,F401
import seventh_table  # noqa: E402,F401
import eighth_table  # noqa: E402,F401
import ninth_table  # noqa: E402,F401


def one(m):
    d = tempfile.mkdtemp(prefix="mut-")
    out = []
    try:
        for s in ("include", "src"):
            shutil.copytree("/repo/" + s, d + "/" + s)
        for f in ("Cargo.toml", "build.rs"):
            if os.path.exists("/repo/" + f):
                shutil.copy("/repo/" + f, d)
        for f, a, b in m["edits"]:
            p = os.path.join(d, f)
            t = open(p).read()
            if a.startswith("re:"):
                t2 = re.sub(a[3:], b, t)
                if t2 == t:
                    return ["%s: PATTERN NOT FOUND in %s" % (m["id"], f)]
                open(p, "w").write(t2)
                continue
            if t.count(a) < 1:
                return ["%s: TEXT NOT FOUND in %s" % (m["id"], f)]
            t = t.replace(a, b) if m.get("all") else t.replace(a, b, 1)
            open(p, "w").write(t)
        for prop in m["props"]:
            w = tempfile.mkdtemp(prefix="mutw-")
            shutil.copytree(HERE, w + "/v", ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
            if "-r" in sys.argv:
                # the run-time contract alone
                c = open(w + "/v/check.py").read()
                c = c.replace('hasattr(spec, "deductive")', "False")
                open(w + "/v/check.py", "w").write(c)
            try:
                r = subprocess.run(["python3-vt", w + "/v/check.py", prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True, timeout=1500, env=dict(os.environ, TRAJOPT_REPO=d), cwd=w + "/v")
                t = r.stdout
                rc = r.returncode
            except subprocess.TimeoutExpired:
                t, rc = "", 99
            shutil.rmtree(w, ignore_errors=True)
            kind = "quiet" if rc == 0 else "INPUT" if rc == 1 and "no-failing-input" not in t else "OBLIG" if rc == 1 else "RC%d" % rc
            ob = len(re.findall("^failed obligation", t, re.M))
            nt = len(re.findall("^NOTE bounded-only", t, re.M))
            good = (rc == 0) == bool(m.get("equal"))
            line = "%s %-28s %s %s obligations>=%d bounded=%d" % ("ok " if good else "BAD", m["id"], prop, kind, ob, nt)
            tl = [x for x in t.splitlines() if x.strip()]
            line += "  " + (re.search(r"[\d.]+s$", t.strip()).group(0) if re.search(r"[\d.]+s$", t.strip()) else "")
            if not good or (nt and m.get("equal")) or "-v" in sys.argv:
                line += "\n      " + "\n      ".join(x[:400] for x in tl[:12])
            out.append(line)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    ms = [m for m in MUTANTS if not a or any(m["id"].startswith(x) for x in a)]
    if "-e" in sys.argv:
        ms = [m for m in ms if m.get("equal")]
    if "-m" in sys.argv:
        ms = [m for m in ms if not m.get("equal")]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, ms):
            for l in r:
                print(l, flush=True)
