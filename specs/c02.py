import verify
import util

HARNESS = "c02.cpp"


def deductive(thorough):
    s = verify.Session(verify.UNITS["core"])
    util.v_Linspace(s)
    return [s]
