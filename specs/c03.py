import verify
import util

HARNESS = "c03.cpp"


def deductive(thorough):
    s = verify.Session(verify.UNITS["core"])
    util.v_Linspace(s)
    util.v_AngleLinspace(s)
    return [s]
