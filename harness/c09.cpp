#include "constraint.hpp"

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    State s = randomState(c);
    auto bounded = [&](const char* name, auto make, double mag, auto zero, double sq) {
      double m = c.coin(1, 5) ? 0.0 : c.coin() ? mag * c.uniform(0.5, 1.5) : c.nonneg(6);
      if (c.coin(1, 3)) m = mag * (c.coin() ? 1.001 : 0.999);
      if (m == 0 && c.coin()) zero(), mag = 0;
      s.describe(c);
      c.in(name, " limit=", m, " ");
      auto o = applyAny(c, make(m), s, 1e-9, 0);
      double tol = 1e-6 * (1 + m + mag);
      if (m == 0) {
        c.expect(o.admitted() == (mag == 0) || (mag != 0 && mag < 1e-4), name, ": limit 0 and magnitude ", mag, o.admitted() ? " admitted" : " rejected");
      } else {
        if (mag < m - tol) c.expect(o.admitted(), name, ": magnitude ", mag, " <= ", m, " but rejected");
        if (mag > m + tol) c.expect(!o.admitted(), name, ": magnitude ", mag, " > ", m, " but admitted");
      }
      (void)sq;
    };
    bounded("linear velocity", [](double m) { return LinearVelocityMaxMagnitudeConstraint{m}; }, std::hypot(s.vx, s.vy), [&] { s.vx = s.vy = 0; }, 2);
    bounded("linear acceleration", [](double m) { return LinearAccelerationMaxMagnitudeConstraint{m}; }, std::hypot(s.ax, s.ay), [&] { s.ax = s.ay = 0; }, 2);
    bounded("angular velocity", [](double m) { return AngularVelocityMaxMagnitudeConstraint{m}; }, std::abs(s.w), [&] { s.w = 0; }, 1);
    {
      double ang = c.angle();
      double sp = std::hypot(s.vx, s.vy);
      int how = c.range(0, 3);
      if (how == 0) { s.vx = sp * std::cos(ang); s.vy = sp * std::sin(ang); }
      if (how == 1) { s.vx = -sp * std::cos(ang); s.vy = -sp * std::sin(ang); }
      if (how == 2) { s.vx = -sp * std::sin(ang); s.vy = sp * std::cos(ang); }
      s.describe(c);
      c.in("direction=", ang, " ");
      auto o = applyAny(c, LinearVelocityDirectionConstraint{ang}, s, 1e-9 * (1 + sp * sp), 1e-9 * (1 + sp * sp));
      double cr = std::abs(s.vx * std::sin(ang) - s.vy * std::cos(ang));
      if (cr < 1e-12 * (1 + sp)) c.expect(o.admitted(), "direction: parallel velocity rejected");
      if (cr > 1e-3 * (1 + sp)) c.expect(!o.admitted(), "direction: velocity off by ", cr, " admitted");
    }
  });
}
