#include "common.hpp"
#include <trajopt/util/TrajoptUtil.hpp>

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    double a = c.real(c.coin() ? 10 : 1e6);
    double b = c.coin(1, 10) ? a : c.real(c.coin() ? 10 : 1e6);
    if (c.coin(1, 10)) {
      b = a + c.real(1e-3);
    }
    size_t n = c.coin(1, 300) ? 30000 + c.below(60000) : c.size(0, c.coin(1, 40) ? 20000 : 300);
    c.in("start=", a, " end=", b, " samples=", n);
    auto r = trajopt::Linspace(a, b, n);
    c.expect(r.size() == n, "returned ", r.size(), " values");
    double scale = std::abs(a) + std::abs(b);
    for (size_t i = 0; i < n; ++i) {
      double t = static_cast<double>(i + 1) / static_cast<double>(n);
      c.near(r[i], a + (b - a) * t, 1e-3 * scale, "value ", i);
    }
    if (n > 0) {
      c.near(r.back(), b, 1e-3 * scale, "last value");
    }
    c.trivial = n == 0;
  });
}
