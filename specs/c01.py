import verify
import util

HARNESS = "c01.cpp"


def deductive(thorough):
    s = verify.Session(verify.UNITS["core"])
    util.v_GetIndex(s)
    return [s]
