#include "gen.hpp"

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    Setup s = randomSetup(c);
    if (c.coin(1, 8))
      for (auto& q : s.drive.modules)
        if (c.coin()) q.wheelMaxTorque = 0, c.in("(no torque) ");
    Run r{c, s, s.builder()};
    size_t n = s.total(), m = s.drive.modules.size();
    Values v = motion(c, s);
    double scale = magnitude(v) * (1 + s.drive.mass + s.drive.moi) * (1 + m);
    double tol = 1e-9 * scale * scale;
    r.set(v);
    double w = r.worstEquality();
    c.expect(w <= tol, "a motion that obeys the laws of motion violates an equality by ", w);
    // forces, accelerations and angular accelerations that do not fit
    for (int k = 0; k < 5; ++k) {
      size_t p = c.coin(1, 3) ? (c.coin() ? 0 : n - 1) : c.below(n);
      Values u = v;
      double d = (c.coin() ? 1 : -1) * c.uniform(0.3, 1.0);
      double need = 0;
      size_t q = m ? c.below(m) : 0;
      switch (c.below(5)) {
        case 0: u.ch[7][p] += d; need = s.drive.mass; if (p) continue; break;
        case 1: u.ch[8][p] += d; need = s.drive.mass; if (p) continue; break;
        case 2: u.ch[9][p] += d; need = s.drive.moi; if (p) continue; break;
        case 3: if (!m) continue; u.fx[p][q] += d; need = 1; break;
        default: if (!m) continue; u.fy[p][q] += d; need = 1;
      }
      r.set(u);
      double got = r.worstEquality();
      c.expect(got > 0.5 * std::abs(d) * need, "forces or accelerations of sample ", p, " (module ", q,
               ") may be changed alone (largest residual ", got, ")");
    }
    if (m >= 2) {
      // a couple of forces: no net force, only a torque
      for (int k = 0; k < 3; ++k) {
        size_t p = c.below(n), a = c.below(m), b = c.below(m);
        auto t = s.drive.modules[a].translation, o = s.drive.modules[b].translation;
        double lx = t.X() - o.X(), ly = t.Y() - o.Y(), L = std::hypot(lx, ly);
        if (L < 1e-3) continue;
        double cs = v.ch[2][p], sn = v.ch[3][p];
        double ex = -(lx * sn + ly * cs) / L, ey = (lx * cs - ly * sn) / L;  // across the arm, in the field frame
        Values u = v;
        u.fx[p][a] += ex, u.fy[p][a] += ey;
        u.fx[p][b] -= ex, u.fy[p][b] -= ey;
        r.set(u);
        c.expect(r.worstEquality() > 0.5 * L, "a couple of the modules ", a, " and ", b, " at sample ", p, " turns nothing");
        // along the arm there is no torque
        Values z = v;
        double fx = (lx * cs - ly * sn) / L, fy = (lx * sn + ly * cs) / L;
        z.fx[p][a] += fx, z.fy[p][a] += fy;
        z.fx[p][b] -= fx, z.fy[p][b] -= fy;
        r.set(z);
        c.expect(r.worstEquality() <= tol + 1e-6, "opposite forces of the modules ", a, " and ", b, " at sample ", p,
                 " along their arm are rejected");
      }
    }
    if (!m) return;
    // limits: tiny motion is admitted; one module at one sample is brought to its limit
    Values z = randomValues(c, s, 0.0);
    double slow = 1e300;
    for (auto& q : s.drive.modules) slow = std::min(slow, q.wheelRadius * q.wheelMaxAngularVelocity);
    for (double& d : z.dt) d = 0.0;
    for (int k = 0; k < 6; ++k) {
      size_t p = c.coin(1, 3) ? (c.coin() ? 0 : n - 1) : c.below(n);
      Values u = z;
      bool over = c.coin();
      double f = over ? 1.05 : 0.95;
      size_t q = c.below(m);
      auto& mod = s.drive.modules[q];
      std::string what;
      if (c.coin()) {
        what = "force";
        double a = c.angle(), F = f * mod.wheelMaxTorque / mod.wheelRadius;
        if (mod.wheelMaxTorque == 0) F = over ? c.uniform(0.01, 1) : 0;
        u.fx[p][q] = F * std::cos(a);
        u.fy[p][q] = F * std::sin(a);
      } else {
        what = "wheel speed";
        double vx = c.uniform(-1, 1), vy = c.uniform(-1, 1), om = c.coin(1, 3) ? 0 : c.uniform(-5, 5);
        double cs = u.ch[2][p], sn = u.ch[3][p];
        double ratio = 0;
        for (size_t j = 0; j < m; ++j) {
          auto& t = s.drive.modules[j].translation;
          double ux = vx * cs + vy * sn - t.Y() * om, uy = vy * cs - vx * sn + t.X() * om;
          double q2 = std::hypot(ux, uy) / (s.drive.modules[j].wheelRadius * s.drive.modules[j].wheelMaxAngularVelocity);
          if (q2 > ratio) ratio = q2, q = j;
        }
        if (ratio < 1e-9) continue;
        u.ch[4][p] = vx * f / ratio;
        u.ch[5][p] = vy * f / ratio;
        u.ch[6][p] = om * f / ratio;
      }
      r.set(u);
      double got = r.worstInequality();
      if (over)
        c.expect(got < 0, what, " of module ", q, " at sample ", p, " is five percent over its limit and admitted");
      else
        c.expect(got >= 0, what, " of module ", q, " at sample ", p, " is within its limit and rejected (", got, ")");
    }
  });
}
