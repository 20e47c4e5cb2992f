#include "common.hpp"
#include <trajopt/geometry/Pose2.hpp>

using namespace trajopt;
using sleipnir::Variable;

static double val(double x) { return x; }
static double val(const Variable& v) { return v.Value(); }
static double lastReal[2];
static bool shared_ = false;
static bool holds(const sleipnir::EqualityConstraints& e) {
  for (auto& v : e.constraints) {
    if (std::abs(v.Value()) > 1e-7) return false;
  }
  return true;
}
static bool eq(double a, double b) { return std::abs(a - b) <= 1e-7; }
static bool unit(double c, double s) { return eq(c * c + s * s, 1); }
static Variable mkvar(double x) {
  Variable v{x};
  v.expr->op = sleipnir::detail::Op::kDecision;
  return v;
}
static double num(vh::Case& c, const char* n) {
  double x = c.real(50);
  c.in(n, "=", x, " ");
  return x;
}
static double mk_sd(vh::Case& c, const char* n) { return num(c, n); }
static Variable mk_sv(vh::Case& c, const char* n) { return mkvar(num(c, n)); }
// operands repeat those of the same row half of the time so that equal ones are seen
struct Shared { bool t = false, r = false; double x = 0, y = 0, a = 0; };
static std::pair<double, double> xy(vh::Case& c, const char* n, Shared& s) {
  if (!s.t || c.coin()) { s.x = c.real(50); s.y = c.coin(1, 3) && s.t ? s.y : c.real(50); }
  s.t = true;
  c.in(n, "=(", s.x, ",", s.y, ") ");
  return {s.x, s.y};
}
static std::pair<double, double> cs(vh::Case& c, const char* n, Shared& s, bool sym) {
  if (!s.r || c.coin()) s.a = c.angle();
  else if (c.coin(1, 4)) s.a += std::numbers::pi;
  s.r = true;
  double m = sym && c.coin(1, 8) ? 1.25 : 1.0;
  c.in(n, " heading=", s.a, m != 1 ? " not unit " : " ");
  return {m * std::cos(s.a), m * std::sin(s.a)};
}
static Translation2d mk_Td(vh::Case& c, const char* n, Shared& s) { auto [x, y] = xy(c, n, s); return Translation2d{x, y}; }
static Translation2v mk_Tv(vh::Case& c, const char* n, Shared& s) { auto [x, y] = xy(c, n, s); return Translation2v{mkvar(x), mkvar(y)}; }
static Rotation2d mk_Rd(vh::Case& c, const char* n, Shared& s) { auto [x, y] = cs(c, n, s, false); return Rotation2d{x, y}; }
static Rotation2v mk_Rv(vh::Case& c, const char* n, Shared& s) { auto [x, y] = cs(c, n, s, s.r && false); return Rotation2v{mkvar(x), mkvar(y)}; }
static Pose2d mk_Pd(vh::Case& c, const char* n, Shared& s) { auto t = mk_Td(c, n, s); return Pose2d{t, mk_Rd(c, n, s)}; }
static Pose2v mk_Pv(vh::Case& c, const char* n, Shared& s) { auto t = mk_Tv(c, n, s); return Pose2v{t, mk_Rv(c, n, s)}; }
static double COS(double x) { return std::cos(x); }
static double SIN(double x) { return std::sin(x); }
static double HYP(double x, double y) { return std::hypot(x, y); }
static constexpr double PI = std::numbers::pi;

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    Shared shared;
#include "c11_rows.inc"
    // symbolic results follow later changes of their variables
    Variable x = mkvar(c.real()), y = mkvar(c.real());
    Translation2v t{x, y};
    auto u = (t + Translation2d{1.0, 2.0}) * 3.0;
    x.SetValue(5.0);
    y.SetValue(-6.0);
    c.near(u.X().Value(), 18.0, 1, "value after a change (x)");
    c.near(u.Y().Value(), -12.0, 1, "value after a change (y)");
    const auto [p, q] = Translation2d{c.real(), 4.0};
    c.expect(q == 4.0, "structured binding");
    // not unit vectors are rejected by heading equality
    auto [s1, s2] = std::pair{c.angle(), 1.5};
    Rotation2v bad{mkvar(s2 * std::cos(s1)), mkvar(s2 * std::sin(s1))};
    c.expect(!holds(bad == Rotation2d{s1}), "non-unit left heading accepted");
    c.expect(!holds(Rotation2d{s1} == bad), "non-unit right heading accepted");
    c.expect(!holds(bad == bad), "non-unit headings accepted");
  });
}
