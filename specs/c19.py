import verify
import traj

HARNESS = "c19.cpp"


def deductive(thorough):
    s = verify.Session(verify.UNITS["core"])
    traj.v_from_solution(s)
    traj.v_from_samples(s)
    traj.v_sample(s, 7)
    traj.v_sample(s, 9)
    return [s]
