import verify
import path

HARNESS = "c05.cpp"
SOURCES = path.SRC
CASES = 2000
TRUST = ["assumed interface of sleipnir (shim/sleipnir): the constraints' Apply only"]
ASSUMPTIONS = ["arguments passed by reference do not alias the builder's own state",
               "indexes are at most 2^30 (no wrap-around in the index arithmetic)",
               "segment constraints are added with fromIndex < toIndex (documented assertion)"]


def deductive(thorough):
    s = verify.Session((), path.SRC, pre=path.PRE)
    path.v_default(s)
    path.v_constraints(s)
    path.v_wpts(s)
    return [s]
