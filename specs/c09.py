import verify
import cons

HARNESS = "c09.cpp"
TRUST = ["assumed interface of sleipnir (shim/sleipnir): expression semantics, SubjectTo appends rows"]
ASSUMPTIONS = ["limits are >= 0", "a velocity parallel to the direction may point either way (documented in the code)"]


def deductive(thorough):
    t = verify.Session((), (), pre=cons.probes([
        "LinearVelocityMaxMagnitudeConstraint", "LinearAccelerationMaxMagnitudeConstraint",
        "AngularVelocityMaxMagnitudeConstraint", "LinearVelocityDirectionConstraint"]))
    cons.limits(t)
    return [t]
