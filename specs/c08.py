import verify
import cons

HARNESS = "c08.cpp"
TRUST = ["assumed interface of sleipnir (shim/sleipnir): expression semantics, sign(), SubjectTo appends rows"]
ASSUMPTIONS = ["the minimum distance is >= 0, the heading of the pose is a unit vector",
               "equality constraints hold exactly (no solver tolerance)"]


def deductive(thorough):
    s = verify.Session((), (), pre=cons.PRE_SEG)
    cons.v_segment(s)
    cons.lemma_segment(s)
    t = verify.Session((), (), pre=cons.probes(["LinePointConstraint", "PointLineConstraint", "PointPointConstraint"]))
    cons.distance(t)
    return [s, t]
