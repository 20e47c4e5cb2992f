#!/usr/bin/env python3-vt
"""check.py PROP [--tier quick|thorough]: decide one property on /repo."""
import argparse
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import traceback
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "cppvc"), os.path.join(HERE, "specs"), os.path.join(HERE, "rustvc")]
REPO = os.environ.get("TRAJOPT_REPO", "/repo")
SAN = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]

BASE_TRUST = [
    "clang 18 front end (the AST of the sources in /repo's working tree is what is executed symbolically)",
    "cppvc: the verification-condition generator in /verif/cppvc (semantics of the C++ subset, models of std:: listed in cppvc/lib.py)",
    "z3 4.x/5.x (python3-vt z3-solver) as the deductive back end",
    "double arithmetic is treated as exact real arithmetic; size_t/int are bounded machine integers with wrap-around / no-overflow obligations",
]


def harvest():
    """numbers that occur in the sources: inputs worth trying"""
    ints, reals = set(), set()
    for root in ("include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in fs:
                if not f.endswith((".hpp", ".cpp", ".h", ".rs")) or f == "expected":
                    continue
                try:
                    t = open(os.path.join(d, f), errors="replace").read()
                except OSError:
                    continue
                t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)
                for m in re.finditer(r"(?<![\w.])(\d+\.?\d*(?:[eE][-+]?\d+)?)(?![\w.])", t):
                    s = m.group(1)
                    try:
                        if "." in s or "e" in s.lower():
                            x = float(s)
                            reals.add(x)
                            if x == int(x) and 0 <= x < 1e6:
                                ints.add(int(x))
                        else:
                            x = int(s)
                            if x < 2 ** 63:
                                for d_ in (-1, 0, 1):
                                    if x + d_ >= 0:
                                        ints.add(x + d_)
                                reals.add(float(x))
                    except (ValueError, OverflowError):
                        pass
    return ints, reals


class Harness:
    def __init__(self, spec, work):
        self.src = os.path.join(HERE, "harness", spec.HARNESS)
        self.exe = os.path.join(work, "harness")
        import verify
        self.extra = [os.path.join(REPO, s) for s in verify.sources(getattr(spec, "SOURCES", []))]
        self.cflags = list(getattr(spec, "CFLAGS", []))
        self.rc = None
        self.err = ""
        self.prepare = getattr(spec, "prepare", None)
        self.work = work

    def build(self):
        gen = []
        if self.prepare:
            gen = self.prepare(self.work, REPO) or []
        common = ["-std=c++20", "-w", "-I", self.work, "-I", os.path.join(REPO, "include"),
                  "-I", os.path.join(REPO, "src"), "-I", os.path.join(HERE, "shim"),
                  "-I", os.path.join(HERE, "harness")] + SAN + self.cflags
        objs, procs = [], []
        for n, s in enumerate([self.src] + self.extra + list(gen)):
            o = os.path.join(self.work, "o%d.o" % n)
            objs.append(o)
            procs.append(subprocess.Popen(["clang++", "-c", s, "-o", o] + common,
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        rc = 0
        for p in procs:
            out, _ = p.communicate()
            if p.returncode:
                rc = p.returncode
                self.err += out[-3000:]
        if rc == 0:
            p = subprocess.run(["clang++", "-o", self.exe] + objs + SAN + ["-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            rc = p.returncode
            self.err += p.stdout[-3000:]
        self.rc = rc

    def run(self, seed, first, count, seconds, hints):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_abort=0:abort_on_error=0",
                   UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0")
        try:
            p = subprocess.run([self.exe, str(seed), str(first), str(count), str(seconds), hints],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                               timeout=seconds + 200, cwd=self.work)
            out = p.stdout.decode(errors="replace")
            return p.returncode, out
        except subprocess.TimeoutExpired as e:
            return 99, (e.stdout or b"").decode(errors="replace")


def second_opinion(results, limit_s):
    """replay the exported SMT problems on the other installed solvers"""
    import prove as P
    agree = {"cvc5": 0, "z3-4.8": 0}
    tried = 0
    t_end = time.time() + limit_s
    for r in results:
        if not r.ok or r.smt is None or time.time() > t_end:
            continue
        try:
            txt = P.to_smt2(*r.smt)
        except Exception:
            continue
        tried += 1
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        for name, cmd in (("cvc5", ["cvc5", "--tlimit=5000", f.name]),
                          ("z3-4.8", ["z3", "-T:5", f.name])):
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                   text=True, timeout=10)
                if p.stdout.strip().startswith("unsat"):
                    agree[name] += 1
            except (subprocess.TimeoutExpired, OSError):
                pass
        os.unlink(f.name)
    return tried, agree


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check that the tools are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-harness", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        import z3
        import prove  # noqa: F401
        subprocess.run(["clang++", "--version"], check=True, stdout=subprocess.DEVNULL)
        print("ready: z3", z3.get_version_string())
        return
    prop = a.prop
    work = tempfile.mkdtemp(prefix="trajverif-")
    try:
        rc = run(a, prop, work, t0)
    except Exception:
        traceback.print_exc()
        print("ERROR: the check itself failed")
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(a, prop, work, t0):
    import z3
    spec = importlib.import_module(prop.lower())
    thorough = a.tier == "thorough"
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    h = None
    th = None
    if (getattr(spec, "HARNESS", None) or hasattr(spec, "harness")) and not a.no_harness:
        h = spec.harness(spec, work, REPO) if hasattr(spec, "harness") else Harness(spec, work)
        th = threading.Thread(target=h.build)
        th.start()

    # -------------------------------------------------- deductive step
    import front
    results, unsup, under, inlined, assumed, vac = [], [], [], set(), set(), []
    checker = []
    parse_err = None
    ext = {}
    try:
        out = spec.deductive(thorough) if hasattr(spec, "deductive") else []
        for s in out:
            rs = s.discharge(60.0 if thorough else 20.0)
            results.extend(rs)
            unsup.extend(s.unsup)
            under.extend(s.under_contract)
            inlined |= set(s.inlined)
            assumed |= set(s.assumed)
            vac.extend(s.vacuity)
            ext.update(getattr(s, "extra_evidence", {}))
    except front.FrontError as e:
        parse_err = str(e)
    except Exception as e:
        # the verifier itself stumbled: nothing is proved
        traceback.print_exc()
        results = []
        unsup.append(("(all)", "internal: %s %s" % (type(e).__name__, str(e)[:200])))
    for r in results:
        if not r.ok and r.reason.startswith("internal"):
            unsup.append((r.func, "%s: %s" % (r.name, r.reason)))
    results = [r for r in results if r.ok or not r.reason.startswith("internal")]
    t_vc = time.time() - t0
    if th:
        th.join()
    if parse_err is not None:
        print("the sources do not parse: " + parse_err[:2000])
        if h is None or h.rc != 0:
            print("ERROR: the sources do not parse and the harness does not build: nothing decides the property")
            return 2
        unsup.append(("(all)", "the sources do not parse in the verifier's front end"))
    failed = [r for r in results if not r.ok]
    if a.verbose:
        for r in results:
            print("  [%s] %s: %s (%s, %.2fs)" % ("ok" if r.ok else "FAILED " + r.reason, r.func, r.name, r.how, r.t))
        for u in unsup:
            print("  [unsupported] %s: %s" % u)
    if vac and not failed:
        # nothing failed, but a contract's paths contradict each other (the
        # precondition, or an exit that is never reached): proves nothing
        unsup.extend((v, "no state satisfies the contract") for v in vac)

    # -------------------------------------------------- runtime contracts
    ints, reals = harvest()
    for r in failed:
        if r.model is not None:
            ints |= r.model.ints
            reals |= r.model.reals
    hints = os.path.join(work, "hints")
    with open(hints, "w") as f:
        for i in sorted(ints):
            f.write("i %d\n" % i)
        for x in sorted(reals):
            if x == x and abs(x) < 1e300:
                f.write("d %r\n" % x)
    evals = distinct = 0
    fails, samples = [], []
    if h is not None:
        if h.rc != 0:
            print("NOTE the harness does not build against the sources:\n" + h.err[:2000])
            if unsup and not failed:
                print("ERROR: nothing decides the property")
                return 2
    if h is not None and h.rc == 0:
        count = getattr(spec, "CASES", 4000)
        secs = getattr(spec, "SECONDS", 20)
        jobs = 4
        if thorough:
            count *= 20
            secs = max(120, secs * 6)
        outs = [None] * jobs
        per = (count + jobs - 1) // jobs

        def go(k):
            outs[k] = h.run(a.seed, k * per, per, secs, hints)
        ts = [threading.Thread(target=go, args=(k,)) for k in range(jobs)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for rc, out in outs:
            got = [l for l in out.splitlines() if l.startswith("FAIL ")]
            fails.extend(got)
            samples.extend(l[7:] for l in out.splitlines() if l.startswith("SAMPLE "))
            m = re.search(r"^DONE (\d+) (\d+)$", out, re.M)
            if m:
                evals += int(m.group(1))
                distinct += int(m.group(2))
            if rc != 0 and not got:
                if rc == 99 or rc < 0 or "Sanitizer" in out or "runtime error" in out or "Assertion" in out:
                    fails.append("FAIL case=? :: the program crashed or did not end (rc=%d) :: %s" % (rc, out[-600:].replace("\n", " | ")))
                else:
                    print("ERROR: harness rc=%d\n%s" % (rc, out[-2000:]))
                    if unsup and not failed:
                        return 2

    # -------------------------------------------------- verdict
    known = load_known(prop)
    lines = []
    rc = 0
    nviol = 0
    newfails = []
    for f in fails:
        k = next((k for k in known if k[0] in f), None)
        if k is not None:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
        else:
            newfails.append(f)
    if newfails:
        path = os.path.join(evdir, "replay", "%s-input.txt" % prop)
        with open(path, "w") as f:
            f.write("property %s: failing input(s) found by executing the real code\n" % prop)
            f.write("seed=%d tier=%s harness=%s\n" % (a.seed, a.tier, getattr(spec, "HARNESS", "generated from src/lib.rs")))
            f.write("\n".join(newfails) + "\n\n")
            for r in failed:
                f.write("failed obligation: %s: %s (%s %s)\n" % (r.func, r.name, r.how, r.reason))
            f.write("\nreplay: VERIF_SEED=%d python3-vt check.py %s --tier %s\n" % (a.seed, prop, a.tier))
        print(newfails[0][:600])
        for r in failed[:8]:
            print("failed obligation: %s: %s" % (r.func, r.name))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        nviol = len(newfails)
        rc = 1
    elif failed:
        path = os.path.join(evdir, "replay", "%s-obligation.txt" % prop)
        with open(path, "w") as f:
            f.write("property %s: obligation(s) not discharged; no failing input found\n" % prop)
            for r in failed:
                f.write("\n=== %s: %s\nback end: %s result: %s time: %.2fs\n" % (r.func, r.name, r.how, r.reason, r.t))
                if r.smt is not None:
                    f.write("hypotheses:\n" + "\n".join("  " + str(x) for x in r.smt[0]) + "\n")
                    f.write("goal:\n  " + str(r.smt[1]) + "\n")
                if r.model is not None:
                    f.write("counterexample of the verification condition (uninterpreted parts may be spurious):\n" + str(r.model)[:4000] + "\n")
        for r in failed[:8]:
            print("failed obligation: %s: %s [%s]" % (r.func, r.name, r.reason))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        nviol = len(failed)
        rc = 1
    for x in unsup:
        print("NOTE bounded-only: contract %s left the verifier's reach (%s); decided by the bounded runtime contract only" % x)
    if hasattr(spec, "deductive") and not results and not unsup:
        print("ERROR: no obligations generated")
        return 2
    if h is None and unsup and not failed:
        print("ERROR: nothing decides the property")
        return 2
    cov = {
        "obligations": len(results), "discharged": sum(1 for r in results if r.ok),
        "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (prop, a.tier),
        "trusted_base": list(getattr(spec, "BASE_TRUST", BASE_TRUST)) + list(getattr(spec, "TRUST", [])),
        "functions_under_contract": sorted(set(under)),
        "functions_verified_through_their_body_inline": sorted(inlined),
        "callee_contracts_assumed_at_call_sites": sorted(assumed),
        "bounded_only": ["%s: %s" % u for u in unsup],
        "back_ends": {},
        "solver_time_s": round(sum(r.t for r in results), 2),
        "vc_generation_and_proof_s": round(t_vc, 2),
        "vacuity_checked": True,
        "evaluations": evals, "distinct_nontrivial": distinct,
        "rule": getattr(spec, "RULE", "random inputs from VERIF_SEED plus the numeric literals of the sources and the values of failed proofs' counterexamples; distinct by the printed input, trivial when the case has no element to check"),
        "samples": samples[:5] or [r.func + ": " + r.name for r in results[:5]],
    }
    cov.update(ext)
    for r in results:
        cov["back_ends"][r.how] = cov["back_ends"].get(r.how, 0) + 1
    if thorough:
        tried, agree = second_opinion(results, 200)
        cov["second_opinion"] = dict(tried=tried, **agree)
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
          "level": "proof", "coverage": cov,
          "assumptions": list(getattr(spec, "ASSUMPTIONS", [])) + [
              "the runtime harness part is bounded testing and is never counted as proved"],
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged, %d function contracts, %d bounded-only, %d runtime cases, %.1fs"
          % (prop, cov["discharged"], cov["obligations"], len(set(under)), len(unsup), evals, ev["wall_s"]))
    for l in dict.fromkeys(lines):
        print(l)
    return rc


def load_known(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=`([^`]*)` (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


if __name__ == "__main__":
    main()
