#include "common.hpp"
#include <trajopt/trajectory/HolonomicTrajectory.hpp>

using namespace trajopt;

static std::vector<double> vec(vh::Case& c, size_t n, bool pos = false) {
  std::vector<double> v;
  for (size_t i = 0; i < n; ++i) {
    v.push_back(pos ? c.nonneg(2) : c.real(10));
  }
  return v;
}

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    size_t n = c.size(0, c.coin(1, 20) ? 2000 : 120);
    SwerveSolution s;
    s.x = vec(c, n);
    s.y = vec(c, n);
    s.vx = vec(c, n);
    s.vy = vec(c, n);
    s.omega = vec(c, n);
    s.ax = vec(c, n);
    s.ay = vec(c, n);
    s.alpha = vec(c, n);
    size_t ndt = c.coin() || n == 0 ? n : n - 1;
    bool forward = !c.coin(1, 8);
    s.dt = vec(c, ndt, forward);
    bool unit = c.coin(2, 3);
    std::vector<double> th;
    for (size_t i = 0; i < n; ++i) {
      double a = c.angle();
      double m = unit ? 1.0 : c.positive(3);
      s.thetacos.push_back(m * std::cos(a));
      s.thetasin.push_back(m * std::sin(a));
      if (c.coin(1, 12)) {
        static const double q[][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {-1, -1e-300}};
        size_t k = c.below(5);
        s.thetacos.back() = q[k][0];
        s.thetasin.back() = q[k][1];
      }
    }
    size_t modules = c.size(0, 6);
    for (size_t i = 0; i < n; ++i) {
      s.moduleFX.push_back(vec(c, modules));
      s.moduleFY.push_back(vec(c, modules));
    }
    c.in("samples=", n, " dts=", ndt, " modules=", modules, " ");
    c.list("dt", s.dt);
    c.list("thetacos", s.thetacos);
    c.list("thetasin", s.thetasin);
    c.list("x", s.x);
    HolonomicTrajectory t{s};
    c.expect(t.samples.size() == n, "trajectory has ", t.samples.size(), " samples, expected ", n);
    double ts = 0, length = 0;
    for (size_t i = 0; i < n; ++i) {
      const auto& e = t.samples[i];
      if (i > 0) {
        ts += s.dt[i - 1];
        length += std::abs(s.dt[i - 1]);
      }
      c.near(e.timestamp, ts, length, "timestamp of sample ", i);
      c.expect(i == 0 ? e.timestamp == 0.0 : !forward || e.timestamp >= t.samples[i - 1].timestamp, "time runs backwards at sample ", i);
      c.expect(e.x == s.x[i], "x of sample ", i, " is ", e.x);
      c.expect(e.y == s.y[i], "y of sample ", i, " is ", e.y);
      c.expect(e.velocityX == s.vx[i], "velocityX of sample ", i, " is ", e.velocityX);
      c.expect(e.velocityY == s.vy[i], "velocityY of sample ", i, " is ", e.velocityY);
      c.expect(e.angularVelocity == s.omega[i], "angularVelocity of sample ", i, " is ", e.angularVelocity);
      c.expect(std::abs(e.heading) <= std::numbers::pi + 1e-12, "heading of sample ", i, " is ", e.heading);
      double m = std::hypot(s.thetacos[i], s.thetasin[i]);
      c.near(m * std::cos(e.heading), s.thetacos[i], m, "heading of sample ", i, " (cos)");
      c.near(m * std::sin(e.heading), s.thetasin[i], m, "heading of sample ", i, " (sin)");
      c.expect(e.moduleForcesX == s.moduleFX[i], "x forces of sample ", i);
      c.expect(e.moduleForcesY == s.moduleFY[i], "y forces of sample ", i);
    }
    HolonomicTrajectory u{t.samples};
    c.expect(u.samples.size() == n, "trajectory from samples has ", u.samples.size());
    for (size_t i = 0; i < n; ++i) {
      const auto &a = u.samples[i], &b = t.samples[i];
      c.expect(a.timestamp == b.timestamp && a.x == b.x && a.y == b.y && a.heading == b.heading &&
                   a.velocityX == b.velocityX && a.velocityY == b.velocityY &&
                   a.angularVelocity == b.angularVelocity && a.moduleForcesX == b.moduleForcesX &&
                   a.moduleForcesY == b.moduleForcesY, "sample ", i, " changed");
    }
    HolonomicTrajectorySample p{1.5, 2.5, 3.5, -0.5, 4.5, 5.5, 6.5};
    c.expect(p.timestamp == 1.5 && p.x == 2.5 && p.y == 3.5 && p.heading == -0.5 && p.velocityX == 4.5 &&
                 p.velocityY == 5.5 && p.angularVelocity == 6.5 && p.moduleForcesX.empty() && p.moduleForcesY.empty(),
             "sample without forces");
    HolonomicTrajectorySample q{1.5, 2.5, 3.5, -0.5, 4.5, 5.5, 6.5, {7.5, 8.5}, {9.5}};
    c.expect(q.timestamp == 1.5 && q.x == 2.5 && q.y == 3.5 && q.heading == -0.5 && q.velocityX == 4.5 &&
                 q.velocityY == 5.5 && q.angularVelocity == 6.5 && q.moduleForcesX == std::vector{7.5, 8.5} &&
                 q.moduleForcesY == std::vector{9.5}, "sample with forces");
    c.trivial = n == 0;
  });
}
