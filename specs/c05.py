import verify
import path

HARNESS = "c05.cpp"
SOURCES = path.SRC
CASES = 2000
TRUST = ["assumed interface of sleipnir (shim/sleipnir): the constraints' Apply only",
         "GenerateLinearInitialGuess at the call in CalculateInitialGuess (its own contract is C04)"]
ASSUMPTIONS = ["arguments passed by reference do not alias the builder's own state",
               "indexes and sizes are at most 2^30 (no wrap-around in the index arithmetic)",
               "segment constraints are added with fromIndex < toIndex (documented assertion)"]


def deductive(thorough):
    s = verify.Session((), path.SRC, pre=path.PRE)
    path.v_default(s)
    path.v_settings(s)
    path.v_guesses(s)
    path.v_wpts(s)
    path.v_constraints(s)
    return [s]
