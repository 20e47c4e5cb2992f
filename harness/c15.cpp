#include "gen.hpp"

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    Setup s = randomSetup(c, 6);
    if (c.coin(1, 5)) {
      // no two modules apart
      for (auto& q : s.drive.modules) q.translation = s.drive.modules[0].translation;
      c.in("(all modules in one place) ");
    }
    if (c.coin(1, 1500)) {
      // more samples in a segment than 15 or 16 bits can count
      size_t n = 32700 + c.below(40000);
      s.counts = {1 + c.below(3), n};
      s.wpts.assign(3, {{MPose{1, 2, 0.5}}});
      s.drive.modules.clear();
      c.in("(instead: no modules, ", s.counts[0], " and ", n, " samples) ");
    }
    Run r{c, s, s.builder()};
    Values v = randomValues(c, s, 0.0);
    double width = INFINITY, fast = 0;
    auto& m = s.drive.modules;
    for (size_t a = 0; a < m.size(); ++a) {
      fast = std::max(fast, m[a].wheelRadius * m[a].wheelMaxAngularVelocity);
      for (size_t b = 0; b < a; ++b)
        for (double d : {m[a].translation.X() - m[b].translation.X(), m[a].translation.Y() - m[b].translation.Y()})
          if (d != 0) width = std::min(width, std::abs(d));
    }
    double limit = m.empty() ? INFINITY : width / fast;
    double bound = std::isinf(limit) ? 100.0 : limit;
    double want = 0, scale = 0;
    for (size_t k = 0; k < v.dt.size(); ++k) {
      v.dt[k] = bound * c.uniform(0.0, 0.95);
      want += s.counts[k] * v.dt[k];
    }
    scale = want;
    r.set(v);
    c.expect(r.problem->objective.has_value(), "there is no objective");
    c.near(r.problem->objective->Value(), want, scale, "the objective is not the total time");
    double got = r.worstInequality();
    c.expect(got >= 0, "time steps up to ", bound, " are rejected (", got, ")");
    for (size_t k = 0; k < v.dt.size(); ++k) {
      Values u = v;
      u.dt[k] = bound * 0.98;
      r.set(u);
      got = r.worstInequality();
      c.expect(got >= 0, "a time step of ", u.dt[k], " in segment ", k, " is rejected (", got, ")");
      u.dt[k] = -bound * 1e-3;
      r.set(u);
      got = r.worstInequality();
      c.expect(got < 0, "a negative time step in segment ", k, " is admitted");
      if (!std::isinf(limit)) {
        u.dt[k] = limit * 1.02;
        r.set(u);
        got = r.worstInequality();
        c.expect(got < 0, "a time step of ", u.dt[k], " in segment ", k, " is admitted; the limit is ", limit);
      }
    }
    c.trivial = v.dt.empty();
  });
}
