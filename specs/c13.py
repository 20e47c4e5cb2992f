import verify
import gen
import path

HARNESS = "c13.cpp"
SOURCES = gen.SRC
TRUST = gen.TRUST
ASSUMPTIONS = gen.ASSUME


def deductive(thorough):
    s = verify.Session((), gen.SRC)
    gen.v_dynamics(s)
    return [s]
