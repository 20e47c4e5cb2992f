import verify
import gen

HARNESS = "c16.cpp"
SOURCES = gen.SRC
TRUST = gen.TRUST
ASSUMPTIONS = gen.ASSUME


def deductive(thorough):
    s = verify.Session((), gen.SRC)
    gen.v_start(s)
    return [s]
