#include "common.hpp"
#include <trajopt/util/TrajoptUtil.hpp>

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    const double pi = std::numbers::pi;
    double a = c.coin(1, 8) ? c.real(1000) : c.angle();
    double b = c.coin(1, 8) ? c.real(1000) : c.angle();
    if (c.coin(1, 6)) {
      b = a + c.range(-3, 3) * pi + (c.coin() ? 0.0 : c.uniform(-1e-3, 1e-3));
    }
    size_t n = c.size(0, c.coin(1, 40) ? 5000 : 200);
    c.in("start=", a, " end=", b, " samples=", n);
    auto r = trajopt::AngleLinspace(a, b, n);
    c.expect(r.size() == n, "returned ", r.size(), " values");
    if (n > 0) {
      double d = r.back() - a;
      double scale = 1e-2 * (std::abs(a) + std::abs(b));
      c.expect(std::abs(d) <= pi + 1e-9 * (1 + scale), "turns by ", d);
      c.near(std::remainder(r.back() - b, 2 * pi), 0.0, scale, "distance of the last value from the end angle modulo 2 pi");
      for (size_t i = 0; i < n; ++i) {
        c.near(r[i], a + d * (static_cast<double>(i + 1) / static_cast<double>(n)), scale, "value ", i);
      }
    }
    c.trivial = n == 0;
  });
}
