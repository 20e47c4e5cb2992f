#include "gen.hpp"

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    Setup s = randomSetup(c, 3, 45);
    SwervePathBuilder b = s.builder();
    auto guess = b.CalculateInitialGuess();
    Run r{c, s, b};
    size_t n = s.total();
    auto init = [&](int k, size_t p) { return r.init[r.ch[k][p]]; };
    auto at = [&](const std::vector<double>& v, size_t p) { return v.at(p); };
    for (size_t p = 0; p < n; ++p) {
      c.near(init(0, p), at(guess.x, p), 0, "x of sample ", p, " does not start at the guess");
      c.near(init(1, p), at(guess.y, p), 0, "y of sample ", p, " does not start at the guess");
      c.near(init(2, p), at(guess.thetacos, p), 0, "heading cosine of sample ", p, " does not start at the guess");
      c.near(init(3, p), at(guess.thetasin, p), 0, "heading sine of sample ", p, " does not start at the guess");
      double d[6] = {0, 0, 0, 0, 0, 0};
      double dt = 1;
      if (p > 0) {
        dt = at(guess.dt, p);
        d[0] = (at(guess.x, p) - at(guess.x, p - 1)) / dt;
        d[1] = (at(guess.y, p) - at(guess.y, p - 1)) / dt;
        double c0 = at(guess.thetacos, p - 1), s0 = at(guess.thetasin, p - 1), c1 = at(guess.thetacos, p), s1 = at(guess.thetasin, p);
        d[2] = std::atan2(s1 * c0 - c1 * s0, c1 * c0 + s1 * s0) / dt;
        for (int k = 0; k < 3; ++k) d[3 + k] = (init(4 + k, p) - init(4 + k, p - 1)) / dt;
      }
      for (int k = 0; k < 6; ++k) {
        double got = init(4 + k, p);
        double half = 2 * std::numbers::pi / std::abs(dt);
        double scale = 1000 * (1 + std::abs(d[k]));
        if (k == 2 && std::abs(std::abs(d[k] * dt) - std::numbers::pi) < 1e-6 && std::abs(got - d[k]) > 1e-6 && std::abs(std::abs(got - d[k]) - half) <= 1e-6 * (1 + half)) continue;  // half a turn either way
        c.near(got, d[k], scale, CHANNELS[4 + k], " of sample ", p, " does not start at the backward difference");
      }
    }
    for (size_t k = 0; k < s.counts.size(); ++k)
      c.expect(r.init[r.dt[k]] > 0 && std::isfinite(r.init[r.dt[k]]), "the time step of segment ", k, " starts at ", r.init[r.dt[k]]);
  });
}
