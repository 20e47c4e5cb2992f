import verify
import bridge
import ffi

HARNESS = "c20.cpp"
SOURCES = ffi.SRC + ["src/SwerveTrajectoryGenerator.cpp"]
CASES = 1600
TRUST = ["assumed interface of cxx: rust::Vec is a vector, rust::Fn a function pointer (shim/rust/cxx.h); a C++ std::exception becomes the Rust error what()",
         "the bridge's C++ header is generated on every run from the #[cxx::bridge] module of src/lib.rs (cppvc/bridge.py): shared structs with the declared fields in the declared order",
         "assumed interface of sleipnir (shim/sleipnir) for the runtime part"]
ASSUMPTIONS = ["limits and tolerances are non-negative (asserted by the native constructors)",
               "the coordinate lists of a polygon have the same length, at least one (no native call has lists of different lengths)",
               "indexes are at most 2^30 (no wrap-around in the index arithmetic)",
               "segment operations are called with from < to"]


def prepare(work, repo):
    bridge.write(repo, work)


def deductive(thorough):
    s = verify.Session((), ffi.SRC, pre=ffi.PRE, generate=bridge.write)
    ffi.v_signatures(s)
    ffi.v_ops(s)
    ffi.v_generate(s)
    ffi.v_callback(s)
    ffi.v_rest(s)
    return [s]
