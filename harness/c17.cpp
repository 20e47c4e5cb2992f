#include "gen.hpp"

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    Setup s = randomSetup(c, 5, 45);
    Run r{c, s, s.builder()};  // roles: one variable per entry, sizes
    Values v = randomValues(c, s);
    size_t n = s.total(), m = s.drive.modules.size();
    // special values, equal values, nothing but zeros
    size_t mode = c.below(6);
    auto odd = [&](std::vector<double>& row) {
      if (mode == 0 || mode == 5) return;
      bool all = c.coin();
      double same = c.coin() ? 0.0 : c.real(1e4);
      for (double& x : row) x = mode == 1 ? c.real(1e4) : mode == 2 ? (all ? same : x) : c.coin() ? x : mode == 3 ? 0.0 : c.real(1e-3);
    };
    for (auto& row : v.ch) odd(row);
    for (auto& row : v.fx) odd(row);
    for (auto& row : v.fy) odd(row);
    odd(v.dt);
    // each role is the one its links and limits say it is
    auto same = [&](SwerveSolution& sol) {
      for (int k = 0; k < 10; ++k) {
        auto& g = channel(sol, k);
        c.expect(g.size() == n, CHANNELS[k], " has ", g.size(), " entries, expected ", n);
        for (size_t p = 0; p < n; ++p) c.expect(g[p] == v.ch[k][p], CHANNELS[k], "[", p, "] is ", g[p], ", expected ", v.ch[k][p]);
      }
      c.expect(sol.dt.size() == n - 1, "dt has ", sol.dt.size(), " entries, expected ", n - 1);
      size_t at = 0;
      for (size_t k = 0; k < s.counts.size(); ++k)
        for (size_t i = 0; i < s.counts[k]; ++i, ++at) c.expect(sol.dt[at] == v.dt[k], "dt[", at, "] is ", sol.dt[at], ", expected ", v.dt[k]);
      c.expect(sol.moduleFX.size() == n && sol.moduleFY.size() == n, "module forces are not one list per sample");
      for (size_t p = 0; p < n; ++p) c.expect(sol.moduleFX[p] == v.fx[p] && sol.moduleFY[p] == v.fy[p], "module forces of sample ", p, " differ");
    };
    OptimizationProblem::SolveHook() = [&](OptimizationProblem&) {
      r.set(v);
      return SolverStatus{};
    };
    auto sol = r.gen->Generate(c.coin());
    OptimizationProblem::SolveHook() = nullptr;
    c.expect(sol.has_value(), "generation fails although the solver succeeds");
    same(sol.value());
    // the roles are right: consistent motion, then each module's own force limit and arm
    Values w = motion(c, s);
    double scale = magnitude(w) * (1 + s.drive.mass + s.drive.moi) * (1 + m);
    r.set(w);
    double worst = r.worstEquality();
    c.expect(worst <= 1e-9 * scale * scale, "the channels are not those of the problem's states (a motion violates it by ", worst, ")");
    if (m) {
      size_t p = c.below(n), q = c.below(m);
      auto& mod = s.drive.modules[q];
      for (double f : {0.95, 1.05}) {
        Values z = randomValues(c, s, 0.0);
        for (double& d : z.dt) d = 0;
        z.fx[p][q] = f * mod.wheelMaxTorque / mod.wheelRadius;
        r.set(z);
        c.expect((r.worstInequality() >= 0) == (f < 1), "force ", q, " of sample ", p, " is not that module's");
      }
    }
  });
}
