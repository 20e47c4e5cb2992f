import rustsession

CASES = 20000
BASE_TRUST = []
TRUST = ["Verus 0.2026.09 (VCs of the Rust text, z3 back end) and vstd's specifications of String/str/Result",
         "assumed contracts of the generated stand-in for the #[cxx::bridge] module: every foreign operation is recorded once, with its arguments, under the C++ name it is bound to (rustvc/rustapi.py)",
         "assumed interface of cxx: UniquePtr::pin_mut gives the exclusive reference to the owned object, Exception::what its message",
         "the extraction listed at the top of rustvc/rustapi.py (comments dropped, bridge module replaced, function pointer types made opaque, contract clauses inserted)"]
ASSUMPTIONS = ["f64 values are compared as values, not as bit patterns, in the proof; as bit patterns at run time"]


def harness(spec, work, repo):
    import harness as H
    return H.RustHarness(spec, work, repo)


def deductive(thorough):
    return [rustsession.RustSession()]
