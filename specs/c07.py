import verify
import path

HARNESS = "c07.cpp"
SOURCES = path.SRC
CASES = 1500
TRUST = ["the callees' contracts WptConstraint and SgmtConstraint are used at the call sites and proved under C06",
         "assumed interface of sleipnir (shim/sleipnir): the constraints' Apply only (runtime part)"]
ASSUMPTIONS = ["every bumper and the obstacle has at least one point and a safety distance >= 0",
               "the constraint objects mean what C08 says",
               "arguments do not alias the builder's own state, indexes and sizes are at most 2^30",
               "segment obstacles are added with fromIndex < toIndex (documented assertion)"]


def deductive(thorough):
    s = verify.Session((), path.SRC, pre=path.PRE)
    path.v_wptobstacle(s)
    path.v_sgmtobstacle(s)
    return [s]
