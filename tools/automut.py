#!/usr/bin/env python3
"""Systematic mutants: every operator at every place of the sources.
automut.py [-j N] [-s STEP[:OFFSET]] [file-substring ...]
Prints one line per mutant no proof obligation notices, and what the run-time
contract says about it.  Not part of any check."""
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/trajopt/"
FILES = {
    I + "util/TrajoptUtil.hpp": ["C01", "C02", "C03"],
    I + "util/GenerateLinearInitialGuess.hpp": ["C04"],
    "src/path/SwervePathBuilder.cpp": ["C05", "C06", "C07"],
    I + "path/SwervePathBuilder.hpp": ["C05", "C06", "C07"],
    I + "path/Path.hpp": ["C05", "C06", "C14"],
    I + "constraint/PointPointConstraint.hpp": ["C08"],
    I + "constraint/PointLineConstraint.hpp": ["C08"],
    I + "constraint/LinePointConstraint.hpp": ["C08"],
    I + "constraint/detail/LinePointDistance.hpp": ["C08"],
    I + "constraint/AngularVelocityMaxMagnitudeConstraint.hpp": ["C09"],
    I + "constraint/LinearVelocityMaxMagnitudeConstraint.hpp": ["C09"],
    I + "constraint/LinearVelocityDirectionConstraint.hpp": ["C09"],
    I + "constraint/LinearAccelerationMaxMagnitudeConstraint.hpp": ["C09"],
    I + "constraint/PoseEqualityConstraint.hpp": ["C10"],
    I + "constraint/TranslationEqualityConstraint.hpp": ["C10"],
    I + "constraint/PointAtConstraint.hpp": ["C10"],
    I + "geometry/Translation2.hpp": ["C11"],
    I + "geometry/Rotation2.hpp": ["C11"],
    I + "geometry/Pose2.hpp": ["C11"],
    I + "trajectory/HolonomicTrajectory.hpp": ["C19"],
    I + "trajectory/HolonomicTrajectorySample.hpp": ["C19"],
    "src/SwerveTrajectoryGenerator.cpp": None,
    "src/RustFFI.cpp": ["C20"],
    "src/util/Cancellation.cpp": ["C18"],
}
GEN = [("ConstructSwerveSolution() {", ["C17"]), ("ApplyInitialGuess(\n", ["C16"]), ("bool diagnostics) {", ["C18"]),
       ("  for (size_t wptIndex = 0;", ["C14"]), ("Rotation2v theta{", ["C13"]), ("// Apply kinematics", ["C12"]),
       ("double minWidth", ["C15", "C16", "C12"]), ("SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(", ["C18", "C17", "C13"]), ("", ["C17"])]
ALLG = ["C12", "C13", "C14", "C15", "C16", "C17", "C18"]
SWAPS = [("X", "Y"), ("Cos", "Sin"), ("cos", "sin"), ("vx", "vy"), ("ax", "ay"), ("Fx", "Fy"), ("thetacos", "thetasin"), ("x", "y"),
         ("min", "max"), ("fromIndex", "toIndex"), ("true", "false"), ("front", "back"), ("begin", "end"), ("start", "end"),
         ("length", "width"), ("from_index", "to_index"), ("wheelRadius", "wheelMaxAngularVelocity"), ("startIndex", "endIndex"),
         ("mass", "moi"), ("omega", "alpha"), ("linearVelocity", "linearAcceleration"), ("wptIndex", "sgmtIndex"), ("lhs", "rhs"),
         ("fieldLineStart", "fieldLineEnd"), ("robotLineStart", "robotLineEnd"), ("push_back", "pop_back"), ("m_x", "m_y"), ("m_cos", "m_sin"),
         ("velocityX", "velocityY"), ("accelerationX", "accelerationY"), ("x_n", "x_n_1"), ("v_n", "v_n_1"), ("theta_n", "theta_n_1"),
         ("omega_n", "omega_n_1"), ("j", "i"), ("index", "sampIndex")]
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" >= ", " <= "), (r" == ", " != "), (r" \+ ", " - "), (r" - ", " + "),
       (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b1\b(?!\.)", "2"),
       (r"\b2\b(?!\.)", "1"), (r" \+= ", " -= "), (r" -= ", " += "), (r" \+= ", " = "), (r"std::abs\(", "("), (r"(?<=[(= {,])-(?=[a-zA-Z])", ""), (r" \+ 1\b", ""), (r" - 1\b", ""),
       (r"\b1\.0\b", "2.0"), (r"\b0\.0\b", "1.0"), (r"\b5\.0\b", "-5.0"), (r"(?<=if \()(?=[a-zA-Z!])", "!"), (r"continue;", "break;"), (r"\bSquaredNorm\b", "Norm")]


def mutants(f, text):
    lines = text.split("\n")
    code = False
    for n, l in enumerate(lines):
        if "namespace" in l:
            code = True
        if not code or re.match(r"\s*(//|\*|/\*|#|namespace|using|template|class|concept)", l) or "reserve" in l or "static_assert" in l:
            continue
        c = l.split("//")[0]
        seen = set()
        for a, b in OPS:
            for m in re.finditer(a, c):
                seen.add(c[:m.start()] + b + c[m.end():])
        for a, b in SWAPS:
            for p, q in ((a, b), (b, a)):
                for m in re.finditer(r"(?<![\w])%s(?!\w)" % p, c):
                    seen.add(c[:m.start()] + q + c[m.end():])
        if re.match(r"\s+[\w.>(\[\])*:-]+.*;\s*$", c) and re.match(r".*[;{}]\s*$", lines[n - 1].split("//")[0] or ";") and not re.match(r"\s*(return|constexpr|auto|const|double|size_t|break)\b", c):
            seen.add("")
        if re.match(r"\s*continue;|\s*return;", c):
            seen.add("")
        for s in sorted(seen):
            if s.strip() != c.strip():
                yield n, "\n".join(lines[:n] + [s] + lines[n + 1:]), "%s:%d  %s  ->  %s" % (f, n + 1, c.strip(), s.strip() or "(deleted)")


def region(text, n):
    pos = len("\n".join(text.split("\n")[:n]))
    for k, (w, ps) in enumerate(GEN):
        i = text.find(w)
        if i >= 0 and i <= pos + 1:
            return ps + [p for p in ALLG if p not in ps]
    return ALLG


def run(d, prop, *more):
    r = subprocess.run(["python3-vt", HERE + "/check.py", prop, *more], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=1500, env=dict(os.environ, TRAJOPT_REPO=d, VERIF_EVIDENCE=d), cwd=HERE)
    return r.returncode, r.stdout


def one(job):
    f, text, new, n, what = job
    d = tempfile.mkdtemp(prefix="am-")
    try:
        for s in ("include", "src"):
            shutil.copytree("/repo/" + s, d + "/" + s)
        with open(os.path.join(d, f), "w") as o:
            o.write(new)
        tu = d + "/tu.cpp"
        with open(tu, "w") as o:
            o.write('#include <limits>\n' + "".join('#include "%s"\n' % os.path.join(d, x) for x in FILES if x.endswith(".hpp"))
                    + '#include "%s/src/SwerveTrajectoryGenerator.cpp"\n#include "%s/src/path/SwervePathBuilder.cpp"\n' % (d, d))
        if "RustFFI" not in f:
            r = subprocess.run(["clang++", "-std=c++20", "-fsyntax-only", "-w", "-I", d + "/include", "-I", d + "/src", "-I", HERE + "/shim", tu],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return None
        props = FILES[f] or region(text, n)
        nt = 0
        for p in props:
            rc, t = run(d, p, "--no-harness")
            if rc == 1:
                return ("proof", p, what)
 
            if rc == 2 and "nothing decides" in t:
                nt += 1
                continue
            if rc not in (0, 1):
                if "error:" in t and "RustFFI" in f:
                    return None
                return ("RC%d" % rc, p, what + "\n" + t[-300:])
            nt += len(re.findall("^NOTE bounded-only", t, re.M))
        for p in props:
            rc, t = run(d, p)
            if rc:
                return ("run-time" if nt else "RUN-TIME-ONLY", p, what)
        return ("SURVIVED(bounded=%d)" % nt, ",".join(props), what)
    except subprocess.TimeoutExpired:
        return ("TIMEOUT", "", what)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    j, step, off, a, it = 6, 1, 0, [], iter(sys.argv[1:])
    for x in it:
        if x == "-j":
            j = int(next(it))
        elif x == "-s":
            s = next(it).split(":")
            step, off = int(s[0]), int(s[1]) if len(s) > 1 else 0
        else:
            a.append(x)
    jobs = []
    for f in FILES:
        if a and not any(x in f for x in a):
            continue
        text = open("/repo/" + f).read()
        for n, new, what in mutants(f, text):
            jobs.append((f, text, new, n, what))
    jobs = jobs[off::step]
    print(len(jobs), "mutants", flush=True)
    cnt = {}
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, jobs):
            k = r[0] if r else "does not compile"
            cnt[k] = cnt.get(k, 0) + 1
            if r and r[0] != "proof":
                print("%-14s %s  %s" % r, flush=True)
    print(cnt)
