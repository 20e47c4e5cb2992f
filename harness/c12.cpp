#include "gen.hpp"

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    Setup s = randomSetup(c);
    Run r{c, s, s.builder()};
    Values v = motion(c, s);
    double scale = magnitude(v) * (1 + s.drive.mass + s.drive.moi) * (1 + s.drive.modules.size());
    double tol = 1e-9 * scale * scale;
    r.set(v);
    double w = r.worstEquality();
    c.expect(w <= tol, "a motion that obeys the kinematics violates an equality by ", w);
    if (s.total() < 2) {
      c.trivial = true;
      return;
    }
    // the same sample moved: some link must break
    for (int k = 0; k < 6; ++k) {
      size_t p = c.below(s.total());
      Values u = v;
      double d = (c.coin() ? 1 : -1) * c.uniform(0.3, 1.0);
      std::string what;
      switch (c.below(6)) {
        case 0: what = "x"; u.ch[0][p] += d; break;
        case 1: what = "y"; u.ch[1][p] += d; break;
        case 2: {
          // heading and the frame of the forces together, so that the dynamics still hold
          what = "heading";
          double cs = std::cos(d), sn = std::sin(d);
          auto turn = [&](double& a, double& b) {
            double e = a * cs - b * sn;
            b = a * sn + b * cs;
            a = e;
          };
          turn(u.ch[2][p], u.ch[3][p]);
          dynamics(s, u, p);
          break;
        }
        case 3: what = "vx and vy"; u.ch[4][p] += d; u.ch[5][p] -= d; break;
        case 4: what = "omega"; u.ch[6][p] += d; break;
        default: {
          if (p == 0 || s.drive.modules.empty()) continue;
          what = "forces and accelerations";
          for (double& f : u.fx[p]) f += d * s.drive.mass;
          dynamics(s, u, p);
        }
      }
      // the next pair must notice too when the previous one is made to fit
      r.set(u);
      double dtp = 1;
      for (double t : v.dt) dtp = std::min(dtp, t);
      double got = r.worstEquality();
      c.expect(got > 0.02 * std::abs(d) * dtp, what, " of sample ", p, " may be changed by ", d,
               " without breaking a link (largest residual ", got, ")");
    }
    // a whole tail shifted: only the link between p-1 and p breaks
    for (int k = 0; k < 4; ++k) {
      size_t p = 1 + c.below(s.total() - 1);
      int q = static_cast<int>(c.below(5));
      Values u = v;
      double d = (c.coin() ? 1 : -1) * c.uniform(0.3, 1.0);
      size_t seg = 0, left = p;
      while (left > s.counts[seg]) left -= s.counts[seg++];
      static const int idx[] = {0, 1, 4, 5, 6};
      size_t tail = p;
      if (q < 2) {
        for (; tail < s.total(); ++tail) u.ch[idx[q]][tail] += d;
      } else {
        // velocity raised from p on, positions or headings follow
        for (; tail < s.total(); ++tail) u.ch[idx[q]][tail] += d;
        size_t sg = 0, in = 0;
        double off = 0;
        for (size_t t = 1; t < s.total(); ++t) {
          while (in >= s.counts[sg]) {
            ++sg;
            in = 0;
          }
          ++in;
          if (t >= p) off += d * v.dt[sg];
          if (q < 4) {
            u.ch[q - 2][t] += off;
          } else if (t >= p) {
            double cs = std::cos(off), sn = std::sin(off), a = u.ch[2][t], b = u.ch[3][t];
            u.ch[2][t] = a * cs - b * sn;
            u.ch[3][t] = a * sn + b * cs;
            for (size_t m = 0; m < s.drive.modules.size(); ++m) {
              double e = u.fx[t][m], f = u.fy[t][m];
              u.fx[t][m] = e * cs - f * sn;
              u.fy[t][m] = e * sn + f * cs;
            }
            dynamics(s, u, t);
          }
        }
      }
      if (q == 4) {
        // accelerations turned with the heading would break other links: compare angular links only
        r.set(u);
        c.expect(r.worstEquality() > 0.5 * std::abs(d), "angular velocity may jump by ", d, " before sample ", p);
        continue;
      }
      r.set(u);
      c.expect(r.worstEquality() > 0.5 * std::abs(d), CHANNELS[idx[q]], " may jump by ", d, " before sample ", p);
      (void)seg;
    }
    // another time step is noticed by its own segment only
    size_t k = c.below(s.counts.size());
    double acc = 0;
    size_t first = 1;
    for (size_t q = 0; q < k; ++q) first += s.counts[q];
    for (size_t p = first; p < first + s.counts[k]; ++p) acc = std::max(acc, std::abs(v.ch[4][p]));
    if (acc > 0.05) {
      Values u = v;
      u.dt[k] += 1.0;
      r.set(u);
      c.expect(r.worstEquality() > 0.9 * acc * 0.5, "the time step of segment ", k, " has no effect");
    }
  });
}
