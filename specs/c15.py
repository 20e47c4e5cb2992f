import verify
import gen
import path

HARNESS = "c15.cpp"
SOURCES = gen.SRC
TRUST = gen.TRUST
ASSUMPTIONS = gen.ASSUME


def deductive(thorough):
    s = verify.Session((), gen.SRC)
    gen.v_time(s)
    return [s]
