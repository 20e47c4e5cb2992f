// Runtime side of the contracts: the public functions are run on generated
// inputs and the same postconditions that the deductive step proves are
// evaluated (with a tolerance for rounding).
#pragma once

#include <signal.h>
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <numbers>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define HAVE_DEATH_CALLBACK 1
#endif
#endif

namespace vh {

inline std::vector<double> hintD;
inline std::vector<uint64_t> hintI;
inline std::set<uint64_t> distinct;
inline uint64_t currentCase = 0;
inline uint64_t samplesPrinted = 0;
inline std::string describeText;
inline const char* currentStep = "";

struct Failure {
  std::string what;
};

class Case {
 public:
  uint64_t s;
  uint64_t idx;
  std::ostringstream desc;
  std::string saved;
  bool trivial = false;
  std::vector<double> past, pastAngle;

  Case(uint64_t seed, uint64_t index) : s{seed * 0x9E3779B97F4A7C15ull + index * 0xBF58476D1CE4E5B9ull + 12345}, idx{index} {
    desc.precision(17);
    next();
    next();
  }

  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
  int range(int lo, int hi) { return lo + static_cast<int>(below(hi - lo + 1)); }
  bool coin(int num = 1, int den = 2) { return static_cast<int>(below(den)) < num; }
  double unit() { return (next() >> 11) * 0x1.0p-53; }
  double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }

  /// A size in [lo, hi]: small ones, and the numbers that occur in the sources
  size_t size(size_t lo, size_t hi) {
    if (!hintI.empty() && coin(1, 4)) {
      for (int k = 0; k < 8; ++k) {
        uint64_t h = hintI[below(hintI.size())];
        if (h >= lo && h <= hi) {
          return h;
        }
      }
    }
    if (coin(3, 4)) {
      size_t top = lo + 8 < hi ? lo + 8 : hi;
      return lo + below(top - lo + 1);
    }
    return lo + below(hi - lo + 1);
  }

  /// A finite double within [-mag, mag]
  double real(double mag = 100.0) {
    double r = plainReal(mag);
    // a value that has been used before
    if (!past.empty() && coin(1, 9)) {
      double p = past[below(past.size())];
      if (std::abs(p) <= mag) r = p;
    }
    if (past.size() < 40) past.push_back(r);
    return r;
  }
  double plainReal(double mag) {
    switch (below(10)) {
      case 0:
        return 0.0;
      case 1:
        return coin() ? 1.0 : -1.0;
      case 2:
        return static_cast<double>(range(-9, 9));
      case 3:
      case 4:
        if (!hintD.empty()) {
          double h = hintD[below(hintD.size())];
          if (coin(1, 3)) {
            h = -h;
          }
          if (coin(1, 4)) {
            h += uniform(-0.01, 0.01);
          }
          if (std::abs(h) <= mag) {
            return h;
          }
        }
        return uniform(-mag, mag);
      case 5:
        return uniform(-1e-3, 1e-3) * (mag < 1 ? mag : 1.0);
      case 6:
        return uniform(-1, 1) * (mag < 1 ? mag : 1.0);
      default:
        return uniform(-mag, mag);
    }
  }
  double positive(double mag = 100.0) {
    double r = std::abs(real(mag));
    return r < 1e-6 ? 0.5 : r;
  }
  double nonneg(double mag = 100.0) { return std::abs(real(mag)); }
  double angle() {
    double r = plainAngle();
    if (!pastAngle.empty() && coin(1, 9)) r = pastAngle[below(pastAngle.size())];
    if (pastAngle.size() < 40) pastAngle.push_back(r);
    return r;
  }
  double plainAngle() {
    switch (below(6)) {
      case 0: {
        static const double sp[] = {0, 0.25, 0.5, 0.75, 1, 1.5, 2, 3, 4};
        double a = sp[below(9)] * std::numbers::pi;
        return coin() ? a : -a;
      }
      case 1:
        return uniform(-20, 20);
      default:
        return uniform(-std::numbers::pi, std::numbers::pi);
    }
  }

  template <typename... A>
  void in(const A&... a) {
    ((desc << a), ...);
    describeText = desc.str();
    if (describeText.size() > 4000) {
      describeText.resize(4000);
    }
  }
  template <typename T>
  void list(const char* name, const T& v) {
    desc << name << "={";
    size_t n = 0;
    for (const auto& x : v) {
      desc << (n ? "," : "") << x;
      if (++n > 60) {
        desc << ",...";
        break;
      }
    }
    desc << "} ";
    in();
  }

  [[noreturn]] void fail(const std::string& what) { throw Failure{what}; }

  template <typename... A>
  void expect(bool ok, const A&... a) {
    if (!ok) {
      std::ostringstream o;
      o.precision(17);
      ((o << a), ...);
      throw Failure{o.str()};
    }
  }
  /// equal up to rounding; scale = magnitude of the operands involved
  template <typename... A>
  void near(double got, double want, double scale, const A&... a) {
    double tol = 1e-9 * (1.0 + std::abs(scale));
    if (!(std::abs(got - want) <= tol) && !(std::isinf(want) && got == want)) {
      std::ostringstream o;
      o.precision(17);
      ((o << a), ...);
      o << ": got " << got << ", expected " << want;
      throw Failure{o.str()};
    }
  }
};

inline void died() {
  std::printf("\nFAIL case=%llu :: the program was stopped by a sanitizer or library check (%s) :: %s\n",
              static_cast<unsigned long long>(currentCase), currentStep, describeText.c_str());
  std::fflush(stdout);
}

inline void onSignal(int sig) {
  char buf[4800];
  int n = std::snprintf(buf, sizeof buf, "\nFAIL case=%llu :: %s (%s) :: %s\n",
                        static_cast<unsigned long long>(currentCase),
                        sig == SIGALRM ? "does not terminate" : "aborted", currentStep, describeText.c_str());
  if (n > 0 && write(1, buf, n < static_cast<int>(sizeof buf) ? n : sizeof buf)) {
  }
  _exit(1);
}

inline void loadHints(const char* path) {
  std::ifstream f{path};
  std::string kind;
  while (f >> kind) {
    if (kind == "i") {
      uint64_t x;
      f >> x;
      hintI.push_back(x);
    } else {
      std::string t;
      f >> t;
      hintD.push_back(std::strtod(t.c_str(), nullptr));
    }
  }
}

inline uint64_t fnv(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ull;
  }
  return h;
}

/// argv: seed first count seconds hints
template <typename F>
int main_(int argc, char** argv, F run) {
  if (argc < 6) {
    std::fprintf(stderr, "usage: seed first count seconds hints\n");
    return 2;
  }
  uint64_t seed = std::strtoull(argv[1], nullptr, 10);
  uint64_t first = std::strtoull(argv[2], nullptr, 10);
  uint64_t count = std::strtoull(argv[3], nullptr, 10);
  double seconds = std::strtod(argv[4], nullptr);
  loadHints(argv[5]);
#ifdef HAVE_DEATH_CALLBACK
  __sanitizer_set_death_callback(died);
#endif
  signal(SIGALRM, onSignal);
  signal(SIGABRT, onSignal);
  timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  uint64_t done = 0;
  int failures = 0;
  for (uint64_t i = first; i < first + count; ++i) {
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (done > 20 && (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > seconds) {
      break;
    }
    currentCase = i;
    describeText.clear();
    currentStep = "";
    alarm(60);
    Case c{seed, i};
    std::string bad;
    try {
      run(c);
    } catch (const Failure& f) {
      bad = f.what;
    } catch (const std::exception& e) {
      bad = std::string{"unexpected exception: "} + e.what();
    } catch (...) {
      bad = "unexpected exception";
    }
    alarm(0);
    ++done;
    std::string d = c.desc.str();
    if (!c.trivial) {
      distinct.insert(fnv(d));
    }
    if (!bad.empty()) {
      std::printf("FAIL case=%llu :: %s :: %s\n", static_cast<unsigned long long>(i), bad.c_str(),
                  d.substr(0, 3500).c_str());
      if (++failures >= 5) {
        break;
      }
    } else if (samplesPrinted < 3 && !c.trivial) {
      ++samplesPrinted;
      std::printf("SAMPLE %s\n", d.substr(0, 400).c_str());
    }
  }
  std::printf("DONE %llu %llu\n", static_cast<unsigned long long>(done),
              static_cast<unsigned long long>(distinct.size()));
  return failures ? 1 : 0;
}

}  // namespace vh
