#include "constraint.hpp"

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    State s = randomState(c);
    {
      double x = c.real(10), y = c.real(10), h = c.angle();
      bool dx = c.coin(1, 4), dy = c.coin(1, 4), dh = c.coin(1, 4), nonunit = c.coin(1, 8);
      bool flip = c.coin(1, 4);
      s.x = x + (dx ? c.uniform(0.01, 2) * (c.coin() ? 1 : -1) : 0);
      s.y = y + (dy ? c.uniform(0.01, 2) * (c.coin() ? 1 : -1) : 0);
      s.th = h + (dh ? c.uniform(0.05, 3.0) * (c.coin() ? 1 : -1) : 0) + (flip ? std::numbers::pi : 0);
      s.describe(c);
      c.in("pose equality (", x, ",", y, ",", h, ") unit=", !nonunit, " ");
      auto o = applyAny(c, PoseEqualityConstraint{x, y, h}, s, 1e-9 * 100, 1e-9 * 100, !nonunit);
      bool want = !dx && !dy && !dh && !nonunit;
      c.expect(o.admitted() == want, "pose equality: ", want ? "equal pose rejected" : "different pose admitted");
    }
    {
      double x = c.real(10), y = c.real(10);
      bool dx = c.coin(1, 3), dy = c.coin(1, 3);
      s.x = x + (dx ? c.uniform(0.01, 2) * (c.coin() ? 1 : -1) : 0);
      s.y = y + (dy ? c.uniform(0.01, 2) * (c.coin() ? 1 : -1) : 0);
      s.th = c.angle();
      s.describe(c);
      c.in("translation equality (", x, ",", y, ") ");
      auto o = applyAny(c, TranslationEqualityConstraint{x, y}, s, 1e-9 * 100, 1e-9 * 100);
      c.expect(o.admitted() == (!dx && !dy), "translation equality: ", !dx && !dy ? "equal position rejected" : "different position admitted");
    }
    {
      Translation2d p = point(c);
      s.x = c.real(10);
      s.y = c.real(10);
      double tol = c.coin(1, 4) ? 0.0 : c.coin() ? c.uniform(0, std::numbers::pi) : c.uniform(0, 0.3);
      double dx = p.X() - s.x, dy = p.Y() - s.y;
      if (std::hypot(dx, dy) < 1e-2) return;
      double dir = std::atan2(dy, dx);
      double off = c.coin() ? tol * c.uniform(0, 2) : c.uniform(0, std::numbers::pi);
      if (c.coin(1, 5)) off = std::numbers::pi;
      if (off > std::numbers::pi) off = std::numbers::pi;
      s.th = dir + (c.coin() ? off : -off) + 2 * std::numbers::pi * c.range(-1, 1);
      s.describe(c);
      c.in("point at (", p.X(), ",", p.Y(), ") tolerance=", tol, " ");
      auto o = applyAny(c, PointAtConstraint{p, tol}, s, 1e-11, 1e-11);
      if (off < tol - 1e-3) c.expect(o.admitted(), "point-at: off by ", off, " <= ", tol, " but rejected");
      if (off > tol + 1e-3) c.expect(!o.admitted(), "point-at: off by ", off, " > ", tol, " but admitted");
    }
  });
}
