#include "constraint.hpp"

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    State s = randomState(c);
    if (c.coin(1, 4)) { s.x = s.y = s.th = 0; }
    s.describe(c);
    auto judge = [&](const char* name, double d, double m, const Outcome& o) {
      c.expect(o.eqHold, name, ": an equality was imposed");
      double tol = 1e-6 * (1 + d + m);
      if (d > m + tol) c.expect(o.ineqHold, name, ": distance ", d, " >= ", m, " but the pose is rejected");
      if (d < m - tol) c.expect(!o.ineqHold, name, ": distance ", d, " < ", m, " but the pose is admitted");
    };
    auto pick = [&](double d) {
      switch (c.below(6)) {
        case 0: return 0.0;
        case 1: return d * 0.999;
        case 2: return d * 1.001 + 1e-3;
        case 3: return c.nonneg(3);
        default: return d * c.uniform(0, 2);
      }
    };
    Translation2d a = point(c, 2), b = point(c, 2), p = point(c);
    if (dist(a, b) < 1e-3) b = Translation2d{a.X() + 0.5, a.Y() - 0.25};
    if (c.coin(1, 5)) b = Translation2d{a.X(), b.Y() == a.Y() ? a.Y() + 1 : b.Y()};
    if (c.coin(1, 5)) b = Translation2d{b.X() == a.X() ? a.X() + 1 : b.X(), a.Y()};
    if (dist(a, b) < 1e-3) b = Translation2d{a.X() + 0.5, a.Y() - 0.25};
    if (c.coin(1, 12)) b = a;
    if (c.coin(1, 4)) {
      // a field point beside the (moved) segment or its extension
      double t = c.uniform(-0.5, 1.5), n = c.uniform(-1, 1);
      Translation2d A = s.move(a), B = s.move(b);
      p = Translation2d{A.X() + t * (B.X() - A.X()) - n * (B.Y() - A.Y()), A.Y() + t * (B.Y() - A.Y()) + n * (B.X() - A.X())};
    }
    c.in("a=(", a.X(), ",", a.Y(), ") b=(", b.X(), ",", b.Y(), ") p=(", p.X(), ",", p.Y(), ") ");
    {
      double d = dist(s.move(a), p), m = pick(d);
      c.in("point-point m=", m, " ");
      judge("point-point", d, m, applyAny(c, PointPointConstraint{a, p, m}, s, 0, 0));
    }
    {
      double d = segDist(s.move(a), s.move(b), p), m = pick(d);
      c.in("line-point m=", m, " ");
      judge("line-point", d, m, applyAny(c, LinePointConstraint{a, b, p, m}, s, 0, 0));
      c.in("line-point reversed ");
      judge("line-point", d, m, applyAny(c, LinePointConstraint{b, a, p, m}, s, 0, 0));
    }
    {
      Translation2d q = point(c, 2);
      if (c.coin(1, 3)) {
        // put the robot so that q lies beside the segment
        double t = c.uniform(-0.5, 1.5), n = c.uniform(-1, 1);
        Translation2d at{a.X() + t * (b.X() - a.X()) - n * (b.Y() - a.Y()), a.Y() + t * (b.Y() - a.Y()) + n * (b.X() - a.X())};
        s.x = s.y = 0;
        Translation2d r = s.move(q);
        s.x = at.X() - r.X();
        s.y = at.Y() - r.Y();
        s.describe(c);
      }
      double d = segDist(a, b, s.move(q)), m = pick(d);
      c.in("point-line q=(", q.X(), ",", q.Y(), ") m=", m, " ");
      judge("point-line", d, m, applyAny(c, PointLineConstraint{q, a, b, m}, s, 0, 0));
      judge("point-line reversed", d, m, applyAny(c, PointLineConstraint{q, b, a, m}, s, 0, 0));
    }
    {
      // exactly on the segment, its ends and its corners: the clamping boundaries
      Translation2d A{0.0, 0.0}, B{c.positive(4), 0.0};
      State z{0, 0, 0, 0, 0, 0, 0, 0, 0};
      double xs[] = {0, B.X(), B.X() / 2, -0.5, B.X() + 0.5};
      for (double x : xs) {
        double h = 0.5;
        double d = segDist(A, B, Translation2d{x, h});
        c.in("boundary B.x=", B.X(), " x=", x, " ");
        judge("line-point", d, d * 0.99, applyAny(c, LinePointConstraint{A, B, Translation2d{x, h}, d * 0.99}, z, 0, 0));
        judge("line-point", d, d * 1.01, applyAny(c, LinePointConstraint{A, B, Translation2d{x, h}, d * 1.01}, z, 0, 0));
        judge("point-line", d, d * 0.99, applyAny(c, PointLineConstraint{Translation2d{x, h}, A, B, d * 0.99}, z, 0, 0));
        judge("point-line", d, d * 1.01, applyAny(c, PointLineConstraint{Translation2d{x, h}, A, B, d * 1.01}, z, 0, 0));
      }
    }
  });
}
