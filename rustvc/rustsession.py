"""What check.py needs of a verification session, for Verus."""
import os
import re

import verify
from bridge import BridgeError
from rustapi import Api, Unfit, run_verus

PROOF = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "possible",
         "could not prove", "recommendation not met", "unable to prove")
# calls whose effect the contracts say: a failed obligation of a function that
# makes no other call is a real failure
KNOWN = {"vc_string_from", "vc_text", "pin_mut", "Ok", "Err", "Some", "what", "to_string", "match", "if", "map_err", "deref",
         # of Vec, with exact specifications in vstd
         "truncate", "push", "pop", "insert", "remove", "swap", "clear", "len", "is_empty", "append", "split_off"}


class RustSession:
    def __init__(self):
        self.unsup, self.under_contract, self.inlined, self.assumed, self.vacuity = [], [], set(), set(), []
        self.extra_evidence = {}

    def discharge(self, timeout):
        try:
            api = Api(verify.REPO)
        except (Unfit, BridgeError, OSError, ValueError, IndexError, AttributeError) as e:
            self.unsup.append(("(all)", "extraction: %s" % e))
            return []
        external, nocand = {}, set()
        secs = 0
        for attempt in range(12):
            try:
                text, ranges = api.verus_text(external, nocand)
            except (Unfit, BridgeError) as e:
                self.unsup.append(("(all)", "extraction: %s" % e))
                return []
            v, errs, t = run_verus(text, 120 if timeout > 30 else 30)
            secs += t
            if v is None:
                self.unsup.append(("(all)", "Verus gave no answer"))
                return []
            structural = [e for e in errs if not e[0].startswith(PROOF)]
            again = False
            if structural or v.get("encountered-vir-error"):
                for msg, spans, rend in structural or errs:
                    hit = [f for a, b, (k, f, _) in ranges if k == "fn"
                           and any(p and a <= l0 <= b for l0, _, p in spans)]
                    for f in hit:
                        key = (f.impl, f.trait, f.name)
                        if key not in external:
                            external[key] = msg
                            again = True
                if not again:
                    self.unsup.append(("(all)", "Verus: " + ((structural or errs or [("no result",)])[0][0])[:300]))
                    return []
                continue
            # a helper that does not meet the contract tried for it
            for msg, spans, rend in errs:
                for a, b, (k, f, _) in ranges:
                    if k == "fn" and any(a <= l0 <= b for l0, _, p in spans) and api.contract(f) is None \
                            and f.name not in nocand:
                        nocand.add(f.name)
                        again = True
            if not again:
                break
        # ------------------------------------------------------------ results
        out = []
        failed = {}
        canary = False
        for msg, spans, rend in errs:
            for l0, l1, prim in spans:
                for a, b, (k, f, what) in ranges:
                    if not a <= l0 <= b:
                        continue
                    if k == "canary":
                        canary = True
                    elif k == "clause" and prim:
                        failed[(f.impl, f.trait, f.name, what)] = rend
                    elif k == "fn":
                        failed.setdefault((f.impl, f.trait, f.name, None), rend)
        if not canary:
            self.vacuity.append("a caller of every operation")
        for f in api.fns:
            c = api.contract(f)
            if c is None:
                continue
            key = (f.impl, f.trait, f.name)
            label = "%s%s" % (f.impl + "::" if f.impl else "", f.name)
            if key in external:
                self.unsup.append((label, external[key][:300]))
                continue
            mine = [k for k in failed if k[:3] == key]
            body = api.rest[f.body0:f.body1]
            # obligations Verus puts on the body itself (callee preconditions)
            clauses = [w for w, _ in c[1]]
            if mine and self.unknown(api, body):
                self.unsup.append((label, "calls %s, which has no contract" % ", ".join(sorted(self.unknown(api, body)))))
                continue
            self.under_contract.append(label)
            part = secs / max(1, len(api.fns))
            for w in clauses:
                bad = failed.get(key + (w,))
                out.append(verify.Result(label, w, bad is None, "verus", part, None,
                                         "" if bad is None else "not proved", None))
                if bad:
                    out[-1].model = Text(bad)
            other = [k for k in mine if k[3] is None]
            if other and not any(k[3] in clauses for k in mine):
                out.append(verify.Result(label, "the preconditions of the calls it makes", False, "verus", part, Text(failed[other[0]]), "not proved", None))
        self.assumed |= {"foreign " + f.name for f in api.b.fns} | {"cxx::UniquePtr::pin_mut", "cxx::UniquePtr::deref", "cxx::UniquePtr::as_ref/as_mut/is_null (never null)", "cxx::Exception::what"}
        return out

    def unknown(self, api, body):
        body = api.closures(body)
        known = set(KNOWN) | {f.name for f in api.b.fns}
        known |= {f.name for f in api.fns if api.contract(f) is not None}
        calls = set(a or b for a, b in re.findall(r"\b([A-Za-z_]\w*!?)\s*(?:::\s*<[^>]*>\s*)?[(\[]|\b([A-Za-z_]\w*!)\s*\{", body)) - known
        calls = {c for c in calls if not re.match(r"(else|for|while|loop|return|unsafe|in|as|ref|mut|move|let)$", c)}
        if re.search(r"\b(for|while|loop)\b", body):
            calls.add("a loop")
        if "|" in re.sub(r"\|\||\bmap_err\s*\(\s*\|[^|]*\|", "", body):
            calls.add("a closure")
        return calls


class Text:
    """the verifier's message in place of a model"""

    def __init__(self, t):
        self.t, self.ints, self.reals = t, set(), set()

    def __str__(self):
        return self.t
