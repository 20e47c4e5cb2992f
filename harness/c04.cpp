#include "common.hpp"
#include <trajopt/solution/SwerveSolution.hpp>
#include <trajopt/util/GenerateLinearInitialGuess.hpp>

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    size_t W = c.size(1, 9);
    std::vector<std::vector<trajopt::Pose2d>> pts(W);
    struct P { double x, y, th; };
    std::vector<std::vector<P>> ref(W);
    std::vector<size_t> N;
    for (size_t w = 0; w < W; ++w) {
      size_t m = c.coin() ? 1 : c.size(1, 6);
      for (size_t g = 0; g < m; ++g) {
        P p{c.real(20), c.real(20), c.angle()};
        if (c.coin(1, 8) && w > 0) {
          p = ref[w - 1].back();
        } else if (c.coin(1, 8) && g > 0) {
          p = ref[w][c.below(g)];
        }
        ref[w].push_back(p);
        pts[w].push_back(trajopt::Pose2d{p.x, p.y, p.th});
      }
      if (w > 0) {
        N.push_back(c.coin(1, 6) ? m * c.size(1, 6) : c.size(1, 60));
      }
      c.in("wpt", w, "=[");
      for (auto& p : ref[w]) {
        c.in("(", p.x, ",", p.y, ",", p.th, ")");
      }
      c.in("] ");
    }
    c.list("N", N);
    auto s = trajopt::GenerateLinearInitialGuess<trajopt::SwerveSolution>(pts, N);
    size_t total = 1;
    for (auto n : N) {
      total += n;
    }
    c.expect(s.x.size() == total, "x has ", s.x.size(), " entries, expected ", total);
    c.expect(s.y.size() == total, "y has ", s.y.size(), " entries, expected ", total);
    c.expect(s.thetacos.size() == total, "thetacos has ", s.thetacos.size(), " entries, expected ", total);
    c.expect(s.thetasin.size() == total, "thetasin has ", s.thetasin.size(), " entries, expected ", total);
    c.expect(s.dt.size() == total, "dt has ", s.dt.size(), " entries, expected ", total);
    for (size_t k = 0; k < total; ++k) {
      c.expect(std::isfinite(s.dt[k]) && s.dt[k] > 0, "time step ", k, " is ", s.dt[k]);
    }
    auto chk = [&](size_t at, double x, double y, double th, const char* what) {
      c.near(s.x[at], x, 40, what, " x at sample ", at);
      c.near(s.y[at], y, 40, what, " y at sample ", at);
      c.near(s.thetacos[at], std::cos(th), 40, what, " cos at sample ", at);
      c.near(s.thetasin[at], std::sin(th), 40, what, " sin at sample ", at);
    };
    chk(0, ref[0][0].x, ref[0][0].y, ref[0][0].th, "start");
    size_t at = 1;
    for (size_t w = 1; w < W; ++w) {
      size_t m = ref[w].size();
      size_t q = N[w - 1] / m;
      P from = ref[w - 1].back();
      for (size_t g = 0; g < m; ++g) {
        P to = ref[w][g];
        size_t n = g + 1 < m ? q : N[w - 1] - (m - 1) * q;
        double d = std::remainder(to.th - from.th, 2 * std::numbers::pi);
        // half a turn may go either way
        bool half = std::abs(std::abs(d) - std::numbers::pi) < 1e-9;
        for (size_t i = 0; i < n; ++i, ++at) {
          double t = static_cast<double>(i + 1) / n;
          double dd = d;
          if (half && std::abs(s.thetasin[at] - std::sin(from.th + t * d)) > 1e-6) {
            dd = -d;
          }
          if (half && std::abs(s.thetacos[at] - std::cos(from.th + t * dd)) > 1e-6) {
            dd = -d;
          }
          chk(at, from.x + t * (to.x - from.x), from.y + t * (to.y - from.y), from.th + t * dd, "interpolated");
        }
        from = to;
      }
    }
    c.trivial = W < 2;
  });
}
