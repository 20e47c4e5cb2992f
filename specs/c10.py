import verify
import cons

HARNESS = "c10.cpp"
TRUST = ["assumed interface of sleipnir (shim/sleipnir): expression semantics, hypot, SubjectTo appends rows",
         "cosine is decreasing on [0, pi] (heading within the tolerance <=> dot product at least cos(tolerance) times the distance)"]
ASSUMPTIONS = ["the tolerance is in [0, pi]"]


def deductive(thorough):
    t = verify.Session((), (), pre=cons.probes([
        "PoseEqualityConstraint", "TranslationEqualityConstraint", "PointAtConstraint"]))
    cons.equalities(t)
    return [t]
