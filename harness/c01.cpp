#include "common.hpp"
#include <trajopt/util/TrajoptUtil.hpp>

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    size_t segments = c.size(0, c.coin(1, 20) ? 3000 : 40);
    bool huge = c.coin(1, 20);  // sums beyond 32 bits
    std::vector<size_t> N;
    for (size_t i = 0; i < segments; ++i) {
      N.push_back(c.coin(1, 8) ? 0 : c.size(1, huge ? 4000000000u : c.coin(1, 10) ? 1000000 : 120));
    }
    c.list("N", N);
    const std::vector<size_t> before = N;
    size_t w0 = 0, w1 = segments + 1;
    if (segments > 60) {
      w0 = c.below(segments);
      w1 = w0 + 50 < segments + 1 ? w0 + 50 : segments + 1;
    }
    size_t s = c.coin(1, 3) ? 0 : c.size(0, 100000);
    c.in("waypoints=", w0, "..", w1, " sample=", s);
    size_t acc = 0;
    for (size_t j = 0; j + 1 < w0; ++j) {
      acc += N[j];
    }
    for (size_t w = w0; w <= w1; ++w) {
      if (w > 1 && w > w0) {
        acc += N[w - 2];
      }
      size_t want = (w == 0 ? 0 : 1 + acc) + s;
      size_t got = trajopt::GetIndex(N, w, s);
      c.expect(got == want, "index of waypoint ", w, " sample ", s, " is ", got, ", expected ", want);
      if (s == 0) {
        c.expect(trajopt::GetIndex(N, w) == want, "index of waypoint ", w, " with the default sample");
      }
    }
    c.expect(N == before, "the control interval counts were changed");
    // the same vector with other counts
    for (int round = 0; round < 3 && segments > 0; ++round) {
      size_t k = c.below(segments), n = c.size(0, 120), w = k + 2 <= segments ? k + 2 : segments + 1;
      N[k] = n;
      acc = 1;
      for (size_t j = 0; j + 1 < w; ++j) acc += N[j];
      size_t got = trajopt::GetIndex(N, w, s);
      c.expect(got == acc + s, "after count ", k, " became ", n, " the index of waypoint ", w, " is ", got, ", expected ", acc + s);
    }
    c.trivial = segments == 0;
  });
}
