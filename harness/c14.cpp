#include "gen.hpp"

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    Setup s = randomSetup(c, 2, 12);
    randomConstraints(c, s);
    SwervePathBuilder with = s.builder();
    Run plain{c, s, s.builder(false)};
    Run full{c, s, with};
    Values v = randomValues(c, s);
    plain.set(v);
    full.set(v);
    auto values = [](const std::vector<Variable>& l) {
      std::vector<double> r;
      for (auto& e : l) r.push_back(e.Value());
      return r;
    };
    // what the constraints demand, on the very states of the samples they cover
    OptimizationProblem ref;
    auto impose = [&](const Constraint& con, size_t p) {
      Pose2v pose{Translation2v{mkvar(v.ch[0][p]), mkvar(v.ch[1][p])}, Rotation2v{mkvar(v.ch[2][p]), mkvar(v.ch[3][p])}};
      Translation2v vel{mkvar(v.ch[4][p]), mkvar(v.ch[5][p])}, acc{mkvar(v.ch[7][p]), mkvar(v.ch[8][p])};
      Constraint copy = con;
      std::visit([&](auto& k) { k.Apply(ref, pose, vel, mkvar(v.ch[6][p]), acc, mkvar(v.ch[9][p])); }, copy);
    };
    auto& w = with.GetPath().waypoints;
    size_t last = 0;
    for (size_t k = 0; k < w.size(); ++k) {
      size_t first = last + 1;
      if (k > 0) last += s.counts[k - 1];
      for (auto& con : w[k].waypointConstraints) impose(con, last);
      if (k > 0)
        for (auto& con : w[k].segmentConstraints)
          for (size_t p = first; p <= last; ++p) impose(con, p);
    }
    auto check = [&](std::vector<double> got, std::vector<double> base, std::vector<double> add, const char* what) {
      base.insert(base.end(), add.begin(), add.end());
      std::sort(base.begin(), base.end());
      std::sort(got.begin(), got.end());
      c.expect(got.size() == base.size(), got.size(), " ", what, ", expected ", base.size(), " with the constraints imposed once on each sample covered");
      for (size_t k = 0; k < got.size(); ++k)
        c.near(got[k], base[k], base[k], what, " (sorted) number ", k, " is not the one the constraints demand");
    };
    check(values(full.problem->equality), values(plain.problem->equality), values(ref.equality), "equalities");
    check(values(full.problem->inequality), values(plain.problem->inequality), values(ref.inequality), "inequalities");
    c.expect(full.problem->objective && plain.problem->objective && std::abs(full.problem->objective->Value() - plain.problem->objective->Value()) < 1e-9,
             "the constraints change the objective");
    c.trivial = s.cons.empty();
  });
}
