"""The planted bugs (independent of what the checks cover)."""

HEAD = '''
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <numbers>
#include <string>
#include <vector>
static int bad = 0;
#define CHECK(x) do { if (!(x)) { std::printf("line %d: %s\\n", __LINE__, #x); bad = 1; } } while (0)
static bool near(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol; }
'''

UTIL = "include/trajopt/util/TrajoptUtil.hpp"
GUESS = "include/trajopt/util/GenerateLinearInitialGuess.hpp"
BUILD_H = "include/trajopt/path/SwervePathBuilder.hpp"
BUILD_C = "src/path/SwervePathBuilder.cpp"
CON = "include/trajopt/constraint/"
GEO = "include/trajopt/geometry/"

APPLY = '''
using namespace trajopt;
using sleipnir::Variable;
struct R { bool eq = true, in = true; bool ok() const { return eq && in; } };
template <typename C>
static R apply(C con, double x, double y, double th, double vx = 0, double vy = 0, double w = 0, double ax = 0, double ay = 0, double al = 0) {
  sleipnir::OptimizationProblem p;
  auto var = [](double v) { Variable r{v}; r.expr->op = sleipnir::detail::Op::kDecision; return r; };
  Pose2v pose{Translation2v{var(x), var(y)}, Rotation2v{var(std::cos(th)), var(std::sin(th))}};
  con.Apply(p, pose, Translation2v{var(vx), var(vy)}, var(w), Translation2v{var(ax), var(ay)}, var(al));
  R r;
  for (auto& e : p.equality) r.eq = r.eq && std::abs(e.Value()) <= 1e-9;
  for (auto& e : p.inequality) r.in = r.in && e.Value() >= -1e-9;
  return r;
}
'''

GENSRC = ["src/SwerveTrajectoryGenerator.cpp", BUILD_C, "src/util/Cancellation.cpp"]
GENF = "src/SwerveTrajectoryGenerator.cpp"

# runs the generator with a scripted solver; which decision variable is which
# is read off the solution itself
GEN = '''
#include <memory>
#include <trajopt/SwerveTrajectoryGenerator.hpp>
#include <trajopt/util/Cancellation.hpp>
using namespace trajopt;
using Problem = sleipnir::OptimizationProblem;
struct Gen {
  std::unique_ptr<SwerveTrajectoryGenerator> g;
  Problem* p = nullptr;
  SwerveSolution s;            // the number of the variable of every entry
  std::vector<double> first;   // the values the solver starts from
  explicit Gen(const SwervePathBuilder& b, int64_t handle = 0) : g{std::make_unique<SwerveTrajectoryGenerator>(b, handle)} {
    Problem::SolveHook() = [this](Problem& q) {
      p = &q;
      for (auto& v : q.decisionVariables) first.push_back(v.Value());
      for (size_t k = 0; k < q.decisionVariables.size(); ++k) q.decisionVariables[k].SetValue(k + 1.0);
      return sleipnir::SolverStatus{};
    };
    s = g->Generate().value();
    for (size_t k = 0; k < first.size(); ++k) p->decisionVariables[k].SetValue(first[k]);
  }
  void set(double id, double value) { p->decisionVariables.at(size_t(id) - 1).SetValue(value); }
  double get(double id) { return p->decisionVariables.at(size_t(id) - 1).Value(); }
  bool feasible() {
    for (auto& e : p->equality) if (!(std::abs(e.Value()) <= 1e-7)) return false;
    for (auto& e : p->inequality) if (!(e.Value() >= -1e-7)) return false;
    return true;
  }
  bool feasibleWith(double id, double value) {
    double old = get(id);
    set(id, value);
    bool r = feasible();
    set(id, old);
    return r;
  }
  // a motion of a robot of mass 2 with heading 0 and the given accelerations,
  // from the origin, starting at (vx, vy)
  void move(const std::vector<double>& dts, double vx, double vy, const std::vector<double>& ax, const std::vector<double>& ay) {
    double x = 0, y = 0;
    for (size_t k = 0; k < s.x.size(); ++k) {
      if (k > 0) {
        double dt = dts[k - 1];
        set(s.dt[k - 1], dt);
        vx += ax[k] * dt;
        vy += ay[k] * dt;
        x += vx * dt;
        y += vy * dt;
      }
      set(s.x[k], x); set(s.y[k], y); set(s.thetacos[k], 1); set(s.thetasin[k], 0);
      set(s.vx[k], vx); set(s.vy[k], vy); set(s.omega[k], 0);
      set(s.ax[k], ax[k]); set(s.ay[k], ay[k]); set(s.alpha[k], 0);
      size_t m = s.moduleFX[k].size();
      for (size_t q = 0; q < m; ++q) {
        set(s.moduleFX[k][q], 2 * ax[k] / m);
        set(s.moduleFY[k][q], 2 * ay[k] / m);
      }
    }
  }
};
static SwervePathBuilder robot(std::vector<size_t> counts, double speed = 100, double torque = 100) {
  SwervePathBuilder b;
  SwerveDrivetrain d{.mass = 2, .moi = 3, .modules = {}};
  for (double sx : {1.0, -1.0}) for (double sy : {1.0, -1.0})
    d.modules.push_back(SwerveModule{{sx * 50, sy * 50}, 1, speed, torque});
  b.SetDrivetrain(d);
  b.WptInitialGuessPoint(counts.size(), {0, 0, 0});
  b.ControlIntervalCounts(std::move(counts));
  return b;
}
'''

FFI_C = "src/RustFFI.cpp"
FFISRC = [FFI_C] + GENSRC
# the C++ header cxx would generate from lib.rs is produced by bridge.py
FFISH = '''#!/bin/bash
# run in the root of the repository; exit 0: the property holds on this input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
set -e
python3 "$d/bridge.py" . "$t"
g++ -std=c++20 -O1 -w -I include -I src -I "$d/shim" -I "$t" "$d/demo.cpp" %s -o "$t/demo" -pthread
timeout 120 "$t/demo"
''' % " ".join(FFISRC)

FFIDEMO = HEAD + '''
#include <chrono>
#include <thread>
#include <trajopt/SwerveTrajectoryGenerator.hpp>
#include <RustFFI.hpp>
#include <trajoptlib/src/lib.rs.h>
using namespace trajopt;
using Problem = sleipnir::OptimizationProblem;
namespace ffi = trajopt::rsffi;
static void drive(ffi::SwervePathBuilder& b) {
  ffi::SwerveDrivetrain d{};
  d.mass = 2;
  d.moi = 3;
  for (double sx : {1.0, -1.0}) for (double sy : {1.0, -1.0}) {
    ffi::SwerveModule m{};
    m.x = sx; m.y = sy; m.wheel_radius = 1; m.wheel_max_angular_velocity = 50; m.wheel_max_torque = 20;
    d.modules.push_back(m);
  }
  b.set_drivetrain(d);
}
static void counts(ffi::SwervePathBuilder& b, std::vector<size_t> n) {
  rust::Vec<size_t> v;
  for (size_t k : n) v.push_back(k);
  b.set_control_interval_counts(v);
}
'''

# lib.rs with its bridge module replaced by mock.rs, which records every call
RUSTSH = '''#!/bin/bash
# run in the root of the repository; exit 0: the property holds on this input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
set -e
python3 - "$d" "$t" <<'PY'
import re, sys
sys.path.insert(0, sys.argv[1])
from bridge import matching, strip_comments
s = strip_comments(open("src/lib.rs").read())
m = re.search(r"#\\[cxx::bridge[^\\]]*\\]\\s*mod ffi\\s*\\{", s)
e = matching(s, m.end() - 1)
mock = open(sys.argv[1] + "/mock.rs").read()
demo = open(sys.argv[1] + "/demo.rs").read()
open(sys.argv[2] + "/main.rs", "w").write(mock + s[:m.start()] + s[e:] + demo)
PY
rustc --edition 2021 -O -A warnings --crate-name demo -o "$t/demo" "$t/main.rs"
timeout 60 "$t/demo"
'''


def _files(*names):
    import os
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    return {n: open(os.path.join(here, d, n)).read() for n, d in names}


def _mock():
    import os
    import sys
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:0] = [os.path.join(here, "cppvc"), os.path.join(here, "rustvc")]
    import harness
    from rustapi import Api
    api = Api("/repo")
    t = harness.program(api)
    return t[:t.index(api.rest)]


BRIDGE_PY = _files(("bridge.py", "cppvc"))

SEEDS = [
    dict(id="c01-narrow", property="C01", shim=False,
         edits=[(UTIL, "  size_t index = 0;\n  if (wptIndex", "  unsigned short index = 0;\n  if (wptIndex")],
         demo=HEAD + '''
#include <trajopt/util/TrajoptUtil.hpp>
int main() {
  std::vector<size_t> N{40000, 20000, 9000};
  CHECK(trajopt::GetIndex(N, 3, 5) == 60006);
  CHECK(trajopt::GetIndex(N, 4, 0) == 69001);
  return bad;
}
''', needs="segments with 65535 or more samples in total",
         breaks="the index is accumulated in 16 bits and wraps around"),

    dict(id="c02-flat", property="C02", shim=False,
         edits=[(UTIL, "  std::vector<double> result;\n  double delta",
                 "  if (startValue == endValue) {\n    return {endValue};\n  }\n  std::vector<double> result;\n  double delta")],
         demo=HEAD + '''
#include <trajopt/util/TrajoptUtil.hpp>
int main() {
  CHECK(trajopt::Linspace(3, 3, 4).size() == 4);
  CHECK(trajopt::Linspace(3, 5, 4).size() == 4);
  return bad;
}
''', needs="start and end value are equal",
         breaks="a flat interval gets one sample whatever was asked for"),

    dict(id="c03-onewrap", property="C03", shim=False,
         edits=[(UTIL, "  const double numMax = std::trunc((diff - minimumInput) / modulus);\n  diff -= numMax * modulus;",
                 "  if (diff > maximumInput) {\n    diff -= modulus;\n  }"),
                (UTIL, "  const double numMin = std::trunc((diff - maximumInput) / modulus);\n  diff -= numMin * modulus;",
                 "  if (diff < minimumInput) {\n    diff += modulus;\n  }")],
         demo=HEAD + '''
#include <trajopt/util/TrajoptUtil.hpp>
int main() {
  auto a = trajopt::AngleLinspace(0, 9.5, 3);
  CHECK(std::abs(a.back()) <= std::numbers::pi);
  auto b = trajopt::AngleLinspace(2.9, -3.0, 2);
  CHECK(near(b.back(), -3.0 + 2 * std::numbers::pi));
  return bad;
}
''', needs="headings more than one and a half turns apart",
         breaks="the difference is wrapped only once"),

    dict(id="c04-remainder", property="C04",
         edits=[(GUESS, "    size_t N_guessSgmt = N_sgmt / guessPointCount;",
                 "    size_t N_guessSgmt = (N_sgmt + guessPointCount - 1) / guessPointCount;")],
         demo=HEAD + '''
#include <trajopt/solution/SwerveSolution.hpp>
#include <trajopt/util/GenerateLinearInitialGuess.hpp>
using namespace trajopt;
int main() {
  std::vector<std::vector<Pose2d>> g{{Pose2d{0.0, 0.0, Rotation2d{0.0}}},
     {Pose2d{1.0, 0.0, Rotation2d{0.0}}, Pose2d{2.0, 0.0, Rotation2d{0.0}}, Pose2d{3.0, 0.0, Rotation2d{0.0}}, Pose2d{4.0, 1.0, Rotation2d{0.5}}}};
  auto s = GenerateLinearInitialGuess<SwerveSolution>(g, {4});
  CHECK(s.x.size() == 5);
  CHECK(near(s.x.back(), 4));
  s = GenerateLinearInitialGuess<SwerveSolution>(g, {5});
  CHECK(s.x.size() == 6);
  CHECK(near(s.x.back(), 4));
  s = GenerateLinearInitialGuess<SwerveSolution>(g, {9});
  CHECK(s.x.size() == 10 && near(s.x[2], 1));
  return bad;
}
'''.replace("#include <trajopt/solution", "#include <trajopt/solution"), needs="a sample count that is not a multiple of the guess point count",
         breaks="the guess points are not where the even division puts them (and the count can underflow)"),

    dict(id="c05-counts", property="C05", sources=[BUILD_C],
         edits=[(BUILD_C, "      if (i != 0) {", "      if (i > static_cast<int64_t>(controlIntervalCounts.size())) {")],
         demo=HEAD + '''
#include <trajopt/path/SwervePathBuilder.hpp>
using namespace trajopt;
int main() {
  SwervePathBuilder b;
  b.WptInitialGuessPoint(2, Pose2d{});
  CHECK(b.GetControlIntervalCounts().size() == 2);
  b.ControlIntervalCounts({5, 6, 7});
  b.PoseWpt(3, 1, 2, 3);
  CHECK((b.GetControlIntervalCounts() == std::vector<size_t>{5, 6, 7, 40}));
  return bad;
}
''', needs="control interval counts set by hand for more segments than there are, then a new waypoint",
         breaks="the new segment gets no default count"),

    dict(id="c06-lastwpt", property="C06", sources=[BUILD_C],
         edits=[(BUILD_H, "      path.waypoints.at(index).waypointConstraints.push_back(constraint);\n      path",
                 "      if (index < toIndex || toIndex + 1 == path.waypoints.size()) {\n"
                 "        path.waypoints.at(index).waypointConstraints.push_back(constraint);\n      }\n      path")],
         demo=HEAD + '''
#include <trajopt/path/SwervePathBuilder.hpp>
using namespace trajopt;
int main() {
  for (int extra = 0; extra < 2; ++extra) {
    SwervePathBuilder b;
    b.WptInitialGuessPoint(2 + extra, Pose2d{});
    b.SgmtConstraint(1, 2, LinearVelocityMaxMagnitudeConstraint{1.0});
    auto& w = b.GetPath().waypoints;
    CHECK(w[1].waypointConstraints.size() == 1 && w[2].waypointConstraints.size() == 1 && w[0].waypointConstraints.empty());
    CHECK(w[2].segmentConstraints.size() == 1 && w[1].segmentConstraints.empty());
  }
  return bad;
}
''', needs="a segment constraint whose range ends before the last waypoint known so far",
         breaks="the end waypoint of the range does not get the constraint"),

    dict(id="c07-triangle", property="C07", sources=[BUILD_C],
         edits=[(BUILD_C, "      if (bumperCornerCount >= 3) {\n        SgmtConstraint(",
                 "      if (bumperCornerCount > 3) {\n        SgmtConstraint(")],
         demo=HEAD + '''
#include <trajopt/path/SwervePathBuilder.hpp>
using namespace trajopt;
static int lines(size_t n) {
  SwervePathBuilder b;
  Bumpers k{0, {}};
  for (size_t i = 0; i < n; ++i) k.points.push_back(Translation2d{std::cos(2.0 * i), std::sin(2.0 * i)});
  b.AddBumpers(std::move(k));
  b.SgmtObstacle(0, 1, Obstacle{1, {Translation2d{5.0, 5.0}}});
  int r = 0;
  for (auto& c : b.GetPath().waypoints[1].segmentConstraints) r += std::holds_alternative<LinePointConstraint>(c);
  return r;
}
int main() {
  CHECK(lines(4) == 4);
  CHECK(lines(3) == 3);
  CHECK(lines(2) == 1 || lines(2) == 2);
  return bad;
}
''', needs="triangular bumpers and an obstacle over a segment range",
         breaks="the closing edge of the bumpers is not kept clear"),

    dict(id="c08-lerp", property="C08",
         edits=[(CON + "detail/LinePointDistance.hpp", "  auto t = v.Dot(l) / l.SquaredNorm();\n  auto tBounded = max(min(t, 1), 0);  // NOLINT",
                 "  auto t = v.Dot(l) / l.SquaredNorm();\n  auto tBounded = min(max(t, 0), l.SquaredNorm());  // NOLINT")],
         demo=HEAD + '#include <trajopt/constraint/LinePointConstraint.hpp>\n#include <trajopt/constraint/PointLineConstraint.hpp>\n' + APPLY + '''
int main() {
  Translation2d a{0.0, 0.0}, b{2.0, 0.0}, p{3.5, 0.0};
  CHECK(!apply(PointLineConstraint{Translation2d{0.0, 0.0}, a, b, 2.0}, 3.5, 0, 0).ok());
  CHECK(apply(PointLineConstraint{Translation2d{0.0, 0.0}, a, b, 1.4}, 3.5, 0, 0).ok());
  CHECK(apply(LinePointConstraint{a, b, p, 1.4}, 0, 0, 0).ok());
  CHECK(apply(LinePointConstraint{a, Translation2d{1.0, 0.0}, p, 2.4}, 0, 0, 0).ok());
  return bad;
}
''', needs="a segment that is not one metre long and a point beyond its end",
         breaks="the projection is clamped at the squared length instead of the end point"),

    dict(id="c09-dir", property="C09",
         edits=[(CON + "LinearVelocityDirectionConstraint.hpp", "    problem.SubjectTo(dot * dot == linearVelocity.SquaredNorm());",
                 "    if (m_angle.Sin() == 0.0) {\n      problem.SubjectTo(linearVelocity.Y() == 0.0);\n    } else if (std::abs(m_angle.Cos()) < 1e-9) {\n"
                 "      problem.SubjectTo(linearVelocity.Y() == 0.0);\n    } else {\n"
                 "      problem.SubjectTo(dot * dot == linearVelocity.SquaredNorm());\n    }")],
         demo=HEAD + '#include <trajopt/constraint/LinearVelocityDirectionConstraint.hpp>\n' + APPLY + '''
int main() {
  for (double a : {0.0, 0.3, std::numbers::pi / 2, 2.0}) {
    CHECK(apply(LinearVelocityDirectionConstraint{a}, 0, 0, 0, 2 * std::cos(a), 2 * std::sin(a)).ok());
    CHECK(!apply(LinearVelocityDirectionConstraint{a}, 0, 0, 0, -2 * std::sin(a), 2 * std::cos(a)).ok());
  }
  return bad;
}
''', needs="a direction straight along the y axis",
         breaks="a special case for axis directions fixes the wrong component"),

    dict(id="c10-tolerance", property="C10",
         edits=[(CON + "PointAtConstraint.hpp", "                      std::cos(m_headingTolerance) * sleipnir::hypot(dx, dy));",
                 "                      std::cos(std::min(m_headingTolerance, 1.5)) *\n                          sleipnir::hypot(dx, dy));"),
                (CON + "PointAtConstraint.hpp", "#include <cassert>\n", "#include <algorithm>\n#include <cassert>\n")],
         demo=HEAD + '#include <trajopt/constraint/PointAtConstraint.hpp>\n' + APPLY + '''
int main() {
  Translation2d p{3.0, 4.0};
  double dir = std::atan2(4.0, 3.0);
  for (double tol : {0.0, 0.5, 1.5, 2.5}) {
    CHECK(apply(PointAtConstraint{p, tol}, 0, 0, dir + tol - 1e-3 * (tol > 0)).ok());
    CHECK(!apply(PointAtConstraint{p, tol}, 0, 0, dir + tol + 0.1).ok());
  }
  return bad;
}
''', needs="a heading tolerance above 1.5 rad",
         breaks="large tolerances are cut down"),

    dict(id="c11-rotminus", property="C11",
         edits=[(GEO + "Pose2.hpp", "    return {m_translation.RotateBy(other), m_rotation.RotateBy(other)};",
                 "    return {m_translation.RotateBy(other), other.RotateBy(-m_rotation)};")],
         demo=HEAD + '''
#include <trajopt/geometry/Pose2.hpp>
using namespace trajopt;
int main() {
  Pose2d p{1.0, 2.0, Rotation2d{0.4}};
  Pose2d q = p.RotateBy(Rotation2d{0.3});
  CHECK(near(q.Rotation().Cos(), std::cos(0.7)));
  CHECK(near(q.Rotation().Sin(), std::sin(0.7)));
  Pose2d z = Pose2d{1.0, 2.0, Rotation2d{0.0}}.RotateBy(Rotation2d{0.3});
  CHECK(near(z.Rotation().Sin(), std::sin(0.3)));
  return bad;
}
''', needs="rotating a pose whose own heading is not zero",
         breaks="the heading of a rotated pose is the difference of the angles, not their sum"),

    dict(id="c19-clock", property="C19", shim=False,
         edits=[("include/trajopt/trajectory/HolonomicTrajectory.hpp", "        ts += solution.dt[samp - 1];",
                 "        ts = solution.dt[samp - 1] == solution.dt[0]\n                 ? samp * solution.dt[0]\n                 : ts + solution.dt[samp - 1];")],
         demo=HEAD + '''
#include <trajopt/trajectory/HolonomicTrajectory.hpp>
using namespace trajopt;
int main() {
  SwerveSolution s;
  s.dt = {0.1, 0.1, 0.2, 0.1, 0.1};
  for (int k = 0; k < 5; ++k) {
    s.x.push_back(k); s.y.push_back(k); s.thetacos.push_back(1); s.thetasin.push_back(0);
    s.vx.push_back(0); s.vy.push_back(0); s.omega.push_back(0); s.ax.push_back(0); s.ay.push_back(0); s.alpha.push_back(0);
    s.moduleFX.push_back({}); s.moduleFY.push_back({});
  }
  HolonomicTrajectory t{s};
  CHECK(near(t.samples[2].timestamp, 0.2));
  CHECK(near(t.samples[3].timestamp, 0.4));
  CHECK(near(t.samples[4].timestamp, 0.5));
  return bad;
}
''', needs="a later segment whose time step returns to that of the first one",
         breaks="the clock is restarted as sample number times the first time step"),
    dict(id="c12-prevwpt", property="C12", sources=GENSRC,
         edits=[(GENF, "      size_t index = GetIndex(N, wptIndex, sampIndex);\n",
                 "      size_t index = GetIndex(N, wptIndex, sampIndex);\n"
                 "      // The first sample of a segment starts from the previous waypoint\n"
                 "      size_t prevIndex =\n          sampIndex > 0 ? index - 1 : GetIndex(N, wptIndex - 1, 0);\n"),
                (GENF, "      Translation2v v_n_1{vx.at(index - 1), vy.at(index - 1)};",
                 "      Translation2v v_n_1{vx.at(prevIndex), vy.at(prevIndex)};")],
         demo=HEAD + GEN + '''
int main() {
  Gen g{robot({1, 3, 2})};
  g.move({.5, .25, .25, .25, .5, .5}, 1, 2, {0, 1, 2, -1, .5, 3, -2}, {0, .5, 1, 0, -1, 2, 1});
  CHECK(g.feasible());
  for (size_t k = 1; k < g.s.x.size(); ++k) {
    CHECK(!g.feasibleWith(g.s.x[k], g.get(g.s.x[k]) + .1));
    CHECK(!g.feasibleWith(g.s.vy[k], g.get(g.s.vy[k]) + .1));
  }
  return bad;
}
''', needs="a segment with several samples followed by another segment",
         breaks="the velocity of a segment's first sample is linked to the first sample of the previous waypoint instead of its last"),

    dict(id="c12-switchdt", property="C12", sources=GENSRC,
         edits=[(GENF, "      problem.SubjectTo(omega_n_1 + alpha_n * dt_sgmt == omega_n);",
                 "      // The step into a segment still runs on the clock of the previous one\n"
                 "      auto dt_n = sampIndex > 0 || wptIndex < 2 ? dt_sgmt : dt.at(wptIndex - 2);\n"
                 "      problem.SubjectTo(omega_n_1 + alpha_n * dt_n == omega_n);")],
         demo=HEAD + GEN + '''
int main() {
  Gen g{robot({2, 2})};
  std::vector<double> z(5);
  g.move({.5, .5, .25, .25}, 0, 0, z, z);
  CHECK(g.feasible());
  // turning: alpha changes omega with the time step of its own segment
  double dts[] = {0, .5, .5, .25, .25}, om = 0, th = 0;
  for (size_t k = 0; k < 5; ++k) {
    double al = k == 3 ? .8 : 0;
    om += al * dts[k];
    // links cos/sin differences to omega * dt up to the solver's own form, so
    // only the angular rate is looked at
    g.set(g.s.omega[k], om);
    g.set(g.s.alpha[k], al);
    th += om * dts[k];
    g.set(g.s.thetacos[k], std::cos(th));
    g.set(g.s.thetasin[k], std::sin(th));
    double t = 3 * al / 4 / 100;  // four forces at 50 * sqrt 2, along the tangent
    double c = std::cos(th), s = std::sin(th);
    size_t q = 0;
    for (double sx : {1.0, -1.0}) for (double sy : {1.0, -1.0}) {
      double rx = 50 * (sx * c - sy * s), ry = 50 * (sx * s + sy * c);
      g.set(g.s.moduleFX[k][q], -ry * t / 50);
      g.set(g.s.moduleFY[k][q], rx * t / 50);
      ++q;
    }
  }
  CHECK(g.feasible());
  CHECK(!g.feasibleWith(g.s.omega[4], om + .2));
  return bad;
}
''', needs="two segments with different time steps and angular acceleration at the start of the second",
         breaks="angular velocity of a segment's first sample is integrated with the previous segment's time step"),

    dict(id="c13-laststop", property="C13", sources=GENSRC,
         edits=[(GENF, "      problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=\n                        maxWheelVelocity * maxWheelVelocity);",
                 "      // Where the wheels stay still, there's nothing to limit\n"
                 "      if (index + 1 < sampTot || moduleIndex == 0) {\n"
                 "        problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=\n                          maxWheelVelocity * maxWheelVelocity);\n      }")],
         demo=HEAD + GEN + '''
int main() {
  auto b = robot({2});
  SwerveDrivetrain d{.mass = 2, .moi = 3, .modules = {}};
  for (double k : {9.0, 3.0, 9.0, 9.0})
    d.modules.push_back(SwerveModule{{k == 3 ? 50. : -50., 50.}, 1, k, 100});
  d.modules[2].translation = {50, -50};
  d.modules[3].translation = {-50, -50};
  b.SetDrivetrain(d);
  Gen g{b};
  g.move({.25, .25}, 0, 0, {0, 8, 4}, {0, 0, 0});
  CHECK(g.feasible());
  g.move({.25, .25}, 0, 0, {0, 4, 12}, {0, 0, 0});
  CHECK(!g.feasible());
  g.move({.25, .25}, 0, 0, {0, 16, -8}, {0, 0, 0});
  CHECK(!g.feasible());
  return bad;
}
''', needs="the robot is fastest at the very last sample and the slowest wheel is not the first listed",
         breaks="wheel speed of all modules but the first is unlimited at the last sample"),

    dict(id="c13-firsttorque", property="C13", sources=GENSRC,
         edits=[(GENF, "      double maxForce = wheelMaxTorque / wheelRadius;",
                 "      double maxForce =\n          path.drivetrain.modules.front().wheelMaxTorque / wheelRadius;")],
         demo=HEAD + GEN + '''
int main() {
  auto b = robot({1});
  SwerveDrivetrain d{.mass = 2, .moi = 3, .modules = {}};
  d.modules.push_back(SwerveModule{{50, 50}, 1, 100, 10});
  d.modules.push_back(SwerveModule{{-50, -50}, 2, 100, 4});
  b.SetDrivetrain(d);
  Gen g{b};
  g.move({.25}, 0, 0, {0, 1.9}, {0, 0});
  CHECK(g.feasible());
  g.move({.25}, 0, 0, {0, 3}, {0, 0});
  CHECK(!g.feasible());
  return bad;
}
''', needs="modules with different torques",
         breaks="every module is given the torque limit of the first"),

    dict(id="c14-skipfirst", property="C14", sources=GENSRC,
         edits=[(GENF, "      size_t startIndex = GetIndex(N, sgmtIndex + 1, 0);\n",
                 "      // The waypoint before has constraints of its own\n"
                 "      size_t startIndex = GetIndex(N, sgmtIndex + 1, sgmtIndex > 0 && N.at(sgmtIndex) > 1 ? 1 : 0);\n")],
         demo=HEAD + GEN + '''
int main() {
  auto b = robot({2, 3});
  b.SgmtConstraint(0, 2, LinearAccelerationMaxMagnitudeConstraint{5.0});
  Gen g{b};
  std::vector<double> dts(5, .25);
  g.move(dts, 0, 0, {0, 4, 4, 4, -1, 2}, std::vector<double>(6));
  CHECK(g.feasible());
  for (size_t k = 1; k < 6; ++k) {
    std::vector<double> a(6);
    a[k] = 6;
    g.move(dts, 0, 0, a, std::vector<double>(6));
    CHECK(!g.feasible());
  }
  return bad;
}
''', needs="a segment after the first with several samples, and a state out of limits at its first sample only",
         breaks="a segment constraint does not restrict the first sample of a later segment"),

    dict(id="c14-firstacc", property="C14", sources=GENSRC,
         edits=[(GENF, "      size_t index = GetIndex(N, wptIndex + 1, 0) - 1;\n\n      Pose2v pose{",
                 "      size_t index = GetIndex(N, wptIndex + 1, 0) - 1;\n      size_t inputIndex = GetIndex(N, wptIndex, 0);\n\n      Pose2v pose{"),
                (GENF, "      Translation2v linearAcceleration{ax.at(index), ay.at(index)};\n      auto angularAcceleration = alpha.at(index);\n\n      std::visit(\n          [&]",
                 "      Translation2v linearAcceleration{ax.at(inputIndex), ay.at(inputIndex)};\n      auto angularAcceleration = alpha.at(inputIndex);\n\n      std::visit(\n          [&]")],
         demo=HEAD + GEN + '''
int main() {
  auto b = robot({1, 3});
  b.WptConstraint(2, LinearAccelerationMaxMagnitudeConstraint{1.0});
  Gen g{b};
  g.move({.25, .25, .25, .25}, 0, 0, {0, 4, 8, 4, 0.5}, std::vector<double>(5));
  CHECK(g.feasible());
  g.move({.25, .25, .25, .25}, 0, 0, {0, 4, 0.5, 0.5, 2}, std::vector<double>(5));
  CHECK(!g.feasible());
  return bad;
}
''', needs="an acceleration constraint at a waypoint whose segment has several samples",
         breaks="acceleration constraints of a waypoint are imposed on the first sample of its segment"),

    dict(id="c15-samecount", property="C15", sources=GENSRC,
         edits=[(GENF, "    problem.SubjectTo(dt_sgmt >= 0);\n    dt_sgmt",
                 "    // One bound is enough for segments that are sampled alike\n"
                 "    if (sgmtIndex == 0 || N.at(sgmtIndex - 1) != N_sgmt) {\n      problem.SubjectTo(dt_sgmt >= 0);\n    }\n    dt_sgmt")],
         demo=HEAD + GEN + '''
int main() {
  for (auto n : {std::vector<size_t>{2, 3}, std::vector<size_t>{3, 3}}) {
    auto b = robot(n);
    SwerveDrivetrain d{.mass = 2, .moi = 3, .modules = {}};
    b.SetDrivetrain(d);
    Gen g{b};
    size_t k = g.s.x.size();
    g.move(std::vector<double>(k, .5), 0, 0, std::vector<double>(k), std::vector<double>(k));
    CHECK(g.feasible());
    CHECK(!g.feasibleWith(g.s.dt[0], -1));
    CHECK(!g.feasibleWith(g.s.dt[n[0]], -1));
  }
  return bad;
}
''', needs="two consecutive segments with equal sample counts",
         breaks="the second segment's time step may become negative"),

    dict(id="c15-dtsum", property="C15", sources=GENSRC,
         edits=[(GENF, "    auto T_sgmt = dt_sgmt * static_cast<int>(N_sgmt);",
                 "    auto T_sgmt = dt_sgmt * static_cast<int16_t>(N_sgmt);")],
         demo=HEAD + GEN + '''
int main() {
  for (size_t n : {size_t{3}, size_t{40000}}) {
    Gen g{robot({n, 2})};
    g.set(g.s.dt.front(), 2);
    g.set(g.s.dt.back(), 5);
    CHECK(near(g.p->objective->Value(), 2.0 * n + 10));
  }
  return bad;
}
''', needs="a segment of more than 32767 samples",
         breaks="the weight of the segment in the objective wraps around and becomes negative"),

    dict(id="c16-omegawrap", property="C16", sources=GENSRC,
         edits=[(GENF, "        Rotation2d{thetacos, thetasin}\n            .RotateBy(-Rotation2d{last_thetacos, last_thetasin})\n            .Radians() /\n",
                 "        (Rotation2d{thetacos, thetasin}.Radians() -\n         Rotation2d{last_thetacos, last_thetasin}.Radians()) /\n")],
         demo=HEAD + GEN + '''
int main() {
  for (double from : {0.0, 3.0}) {
    auto b = robot({1});
    b.WptInitialGuessPoint(0, {0, 0, from});
    b.WptInitialGuessPoint(1, {0, 0, from + 0.5});
    Gen g{b};
    double w = g.first.at(size_t(g.s.omega[1]) - 1);
    double a = g.first.at(size_t(g.s.alpha[1]) - 1);
    CHECK(w > 0);
    CHECK(a > 0);
  }
  return bad;
}
''', needs="a guess that turns through pi",
         breaks="the guessed angular velocity turns the long way round"),

    dict(id="c16-inplace", property="C16", sources=GENSRC,
         edits=[(GENF, "  size_t sampleTotal = x.size();\n  for (size_t sampleIndex = 0; sampleIndex < sampleTotal; sampleIndex++) {\n    x[sampleIndex].SetValue(solution.x[sampleIndex]);",
                 "  size_t sampleTotal = x.size();\n  for (size_t sampleIndex = 0; sampleIndex < sampleTotal; sampleIndex++) {\n    // Keep what the pose has when the guess has nothing to say\n    if (solution.x[sampleIndex] == 0.0 && solution.y[sampleIndex] == 0.0) {\n      continue;\n    }\n    x[sampleIndex].SetValue(solution.x[sampleIndex]);")],
         demo=HEAD + GEN + '''
int main() {
  auto b = robot({1, 1});
  b.WptInitialGuessPoint(0, {1, 2, 0.25});
  b.WptInitialGuessPoint(1, {0, 0, 0.5});
  b.WptInitialGuessPoint(2, {0, 3, 0.75});
  Gen g{b};
  for (size_t k = 0; k < 3; ++k) {
    double th = 0.25 * (k + 1);
    CHECK(near(g.first.at(size_t(g.s.thetacos[k]) - 1), std::cos(th)));
    CHECK(near(g.first.at(size_t(g.s.thetasin[k]) - 1), std::sin(th)));
  }
  CHECK(near(g.first.at(size_t(g.s.y[2]) - 1), 3));
  return bad;
}
''', needs="a guess exactly at the origin of the field",
         breaks="the guessed heading is not used there and the solver starts from a zero rotation"),

    dict(id="c17-clampdt", property="C17", sources=GENSRC,
         edits=[(GENF, "    double dt_val = dt_sgmt.Value();",
                 "    // Bounds only hold up to the solver's tolerance\n    double dt_val = std::max(dt_sgmt.Value(), 1e-3);")],
         demo=HEAD + GEN + '''
int main() {
  SwerveTrajectoryGenerator g{robot({2, 1})};
  for (double v : {0.5, 1e-5, 0.0}) {
    Problem::SolveHook() = [&](Problem& q) {
      for (auto& x : q.decisionVariables) x.SetValue(v);
      return sleipnir::SolverStatus{};
    };
    auto s = g.Generate().value();
    CHECK(s.dt.size() == 3);
    for (double d : s.dt) CHECK(d == v);
  }
  return bad;
}
''', needs="a solver result with a very short time step (waypoints at the same place)",
         breaks="the reported time step is not the solver's"),

    dict(id="c17-forcerows", property="C17", sources=GENSRC,
         edits=[(GENF, "  for (auto& row : matrix) {\n    valueMatrix.push_back(RowSolutionValue(row));\n  }",
                 "  for (auto& row : matrix) {\n    // A row that's all zero tells nothing\n    auto values = RowSolutionValue(row);\n"
                 "    if (std::all_of(values.begin(), values.end(),\n                    [](double value) { return value == 0.0; })) {\n      values.clear();\n    }\n"
                 "    valueMatrix.push_back(std::move(values));\n  }")],
         demo=HEAD + GEN + '''
int main() {
  SwerveTrajectoryGenerator g{robot({2})};
  for (double v : {0.5, 0.0}) {
    Problem::SolveHook() = [&](Problem& q) {
      for (auto& x : q.decisionVariables) x.SetValue(v);
      return sleipnir::SolverStatus{};
    };
    auto s = g.Generate().value();
    CHECK(s.moduleFX.size() == 3);
    CHECK(s.moduleFY.size() == 3);
    for (auto& r : s.moduleFX) CHECK(r.size() == 4 && r[3] == v);
    for (auto& r : s.moduleFY) CHECK(r.size() == 4 && r[3] == v);
  }
  return bad;
}
''', needs="a sample at which every module force in one axis is exactly zero",
         breaks="the forces of that sample are reported as an empty list"),

    dict(id="c18-acceptable", property="C18", sources=GENSRC,
         edits=[(GENF, "  if (static_cast<int>(status.exitCondition) < 0 ||\n      status.exitCondition ==\n          sleipnir::SolverExitCondition::kCallbackRequestedStop) {",
                 "  if (status.exitCondition != sleipnir::SolverExitCondition::kSuccess) {")],
         demo=HEAD + GEN + '''
int main() {
  using E = sleipnir::SolverExitCondition;
  SwerveTrajectoryGenerator g{robot({2})};
  for (E e : {E::kSuccess, E::kSolvedToAcceptableTolerance, E::kCallbackRequestedStop, E::kLocallyInfeasible, E::kTimeout}) {
    Problem::SolveHook() = [&](Problem&) { return sleipnir::SolverStatus{e}; };
    auto s = g.Generate();
    bool ok = e == E::kSuccess || e == E::kSolvedToAcceptableTolerance;
    CHECK(s.has_value() == ok);
    if (!s.has_value()) CHECK(s.error() == sleipnir::ToMessage(e));
  }
  return bad;
}
''', needs="a solver that stops at its acceptable tolerance",
         breaks="a solution good enough for the solver is thrown away and reported as an error"),

    dict(id="c18-latecancel", property="C18", sources=GENSRC,
         edits=[(GENF, "    for (auto& callback : callbacks) {\n      callback();\n    }\n    return trajopt::GetCancellationFlag();",
                 "    if (trajopt::GetCancellationFlag()) {\n      trajopt::GetCancellationFlag() = 0;\n      return true;\n    }\n"
                 "    for (auto& callback : callbacks) {\n      callback();\n    }\n    return false;")],
         demo=HEAD + GEN + '''
#include <chrono>
#include <thread>
int main() {
  auto b = robot({2});
  int calls = 0;
  b.AddIntermediateCallback([&](SwerveSolution&, int64_t) { ++calls; GetCancellationFlag() = 1; });
  SwerveTrajectoryGenerator g{b};
  Problem::SolveHook() = [&](Problem& q) {
    for (int k = 0; k < 20; ++k) {
      std::this_thread::sleep_for(std::chrono::milliseconds{30});
      int before = calls;
      bool stop = q.callback({k});
      CHECK(stop == (calls > before));
      if (stop) return sleipnir::SolverStatus{sleipnir::SolverExitCondition::kCallbackRequestedStop};
    }
    return sleipnir::SolverStatus{};
  };
  CHECK(!g.Generate().has_value());
  return bad;
}
''', needs="a cancellation requested from within a progress callback",
         breaks="the request is only looked at before the callbacks, so the solver does another iteration"),
    dict(id="c20-dupguess", property="C20", demo_sh=FFISH, shimdir=True, files=dict(BRIDGE_PY), cpp=True,
         edits=[(FFI_C, "  for (const auto& guess_point : guess_points) {\n",
                 "  for (const auto& guess_point : guess_points) {\n"
                 "    // The same point again adds nothing\n"
                 "    if (!cppGuessPoints.empty() && cppGuessPoints.back().X() == guess_point.x &&\n"
                 "        cppGuessPoints.back().Y() == guess_point.y) {\n      continue;\n    }\n")],
         demo=FFIDEMO + '''
int main() {
  for (int turn : {0, 1}) {
    ffi::SwervePathBuilder b;
    drive(b);
    b.pose_wpt(0, 0, 0, 0);
    b.pose_wpt(1, 9, 0, 0);
    rust::Vec<ffi::Pose2d> guess;
    for (int k : {1, 2}) {
      ffi::Pose2d p{};
      p.x = turn ? 5 : 5 * k;
      p.y = 7;
      p.heading = k;
      guess.push_back(p);
    }
    b.sgmt_initial_guess_points(0, guess);
    counts(b, {3});
    bool turned = false;
    Problem::SolveHook() = [&](Problem& q) {
      for (auto& v : q.decisionVariables) turned = turned || near(v.Value(), std::cos(2.0));
      return sleipnir::SolverStatus{};
    };
    b.generate(false, 0);
    CHECK(turned);
  }
  return bad;
}
''', needs="two consecutive guess points at the same place with different headings",
         breaks="the second one is dropped"),

    dict(id="c20-handle32", property="C20", demo_sh=FFISH, shimdir=True, files=dict(BRIDGE_PY), cpp=True,
         edits=[(FFI_C, "        callback(HolonomicTrajectory{rustSamples}, handle);",
                 "        callback(HolonomicTrajectory{rustSamples},\n                 static_cast<int32_t>(handle));")],
         demo=FFIDEMO + '''
static int64_t seen = 0;
static void told(ffi::HolonomicTrajectory, int64_t h) { seen = h; }
int main() {
  for (int64_t h : {int64_t{7}, int64_t{-3}, int64_t{1} << 40}) {
    ffi::SwervePathBuilder b;
    drive(b);
    b.pose_wpt(0, 0, 0, 0);
    b.pose_wpt(1, 4, 0, 0);
    counts(b, {2});
    b.add_progress_callback(told);
    Problem::SolveHook() = [&](Problem& q) {
      q.callback({0});
      std::this_thread::sleep_for(std::chrono::milliseconds{40});
      q.callback({1});
      return sleipnir::SolverStatus{};
    };
    b.generate(false, h);
    CHECK(seen == h);
  }
  return bad;
}
''', needs="a handle that does not fit into 32 bits",
         breaks="progress callbacks get another handle"),

    dict(id="c20-square", property="C20", demo_sh=FFISH, shimdir=True, files=dict(BRIDGE_PY), cpp=True,
         edits=[(FFI_C, "  path_builder.SgmtObstacle(from_index, to_index, {radius, {{x, y}}});",
                 "  // A circle no larger than a point needs no safety distance\n"
                 "  path_builder.SgmtObstacle(from_index, to_index,\n                            {radius > 0 ? radius : 0.01, {{x, y}}});")],
         demo=FFIDEMO + '''
int main() {
  for (double radius : {0.0, 0.5}) {
    ffi::SwervePathBuilder b;
    drive(b);
    b.set_bumpers(1, 1);
    b.pose_wpt(0, 0, 0, 0);
    b.pose_wpt(1, 4, 0, 0);
    counts(b, {1});
    size_t held = 0, before = 0;
    double worst[2];
    for (int k : {0, 1}) {
      if (k) b.sgmt_circle_obstacle(0, 1, 0, 10, radius);
      Problem::SolveHook() = [&](Problem& q) {
        // the robot at the origin: the obstacle is 9.5 in front of the bumper
        size_t n = 0;
        for (size_t k = 0; k < q.decisionVariables.size(); ++k) q.decisionVariables[k].SetValue(0.25 + 0.01 * k);
        double far = -1e9;
        for (auto& e : q.inequality) { ++n; }
        worst[k] = 0;
        for (size_t i = before; k && i < n; ++i) far = std::max(far, -q.inequality[i].Value());
        for (auto& e : q.inequality) worst[k] += e.Value();
        held = n;
        return sleipnir::SolverStatus{};
      };
      b.generate(false, 0);
      if (!k) before = held;
    }
    // the same builder calls, natively
    trajopt::SwervePathBuilder nb;
    trajopt::SwerveDrivetrain d{2, 3, {}};
    for (double sx : {1.0, -1.0}) for (double sy : {1.0, -1.0}) d.modules.push_back({{sx, sy}, 1, 50, 20});
    nb.SetDrivetrain(d);
    nb.AddBumpers({0.01, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}});
    nb.PoseWpt(0, 0, 0, 0);
    nb.PoseWpt(1, 4, 0, 0);
    nb.ControlIntervalCounts({1});
    nb.SgmtObstacle(0, 1, {radius, {{0, 10}}});
    double sum = 0;
    Problem::SolveHook() = [&](Problem& q) {
      for (size_t k = 0; k < q.decisionVariables.size(); ++k) q.decisionVariables[k].SetValue(0.25 + 0.01 * k);
      for (auto& e : q.inequality) sum += e.Value();
      return sleipnir::SolverStatus{};
    };
    SwerveTrajectoryGenerator{nb}.Generate();
    CHECK(std::abs(sum - worst[1]) < 1e-9);
  }
  return bad;
}
''', needs="a circle obstacle of radius zero",
         breaks="the obstacle is given a radius that nobody asked for"),

    dict(id="c21-firstline", property="C21", demo_sh=RUSTSH, files=dict(BRIDGE_PY), mock=True,
         edits=[("src/lib.rs", "            Err(msg) => Err(msg.what().to_string()),",
                 "            Err(msg) => Err(msg.what().trim_end().to_string()),")],
         demo='''
fn main() {
    for text in ["failed", "first line\\nsecond line", "ends in space ", ""] {
        let mut b = SwervePathBuilder::new();
        ffi::SCRIPT_generate.with(|s| *s.borrow_mut() = Some(Err(text.to_string())));
        assert_eq!(b.generate(true, 5).unwrap_err(), text);
    }
}
''', needs="an error message that ends in white space",
         breaks="the reported message is not the one received"),

    dict(id="c21-polyclose", property="C21", demo_sh=RUSTSH, files=dict(BRIDGE_PY), mock=True,
         edits=[("src/lib.rs", "        x: Vec<f64>,\n        y: Vec<f64>,\n        radius: f64,\n    ) {\n",
                 "        mut x: Vec<f64>,\n        mut y: Vec<f64>,\n        radius: f64,\n    ) {\n"
                 "        // The outline is closed anyway\n"
                 "        if x.len() > 1 && x.first() == x.last() && y.first() == y.last() {\n"
                 "            x.pop();\n            y.pop();\n        }\n")],
         demo='''
fn main() {
    for (x, y) in [(vec![0.0, 1.0, 2.0], vec![3.0, 4.0, 5.0]), (vec![0.0, 1.0, 0.0], vec![3.0, 4.0, 3.0]), (vec![1.0], vec![1.0]), (vec![7.0, 7.0], vec![1.0, 1.0])] {
        let mut b = SwervePathBuilder::new();
        vc::take();
        b.sgmt_polygon_obstacle(0, 1, x.clone(), y.clone(), 0.5);
        let log = vc::take();
        let want = format!("({}, {}, {}, {}, {})", vc::Enc::enc(&0usize), vc::Enc::enc(&1usize), vc::Enc::enc(&x), vc::Enc::enc(&y), vc::Enc::enc(&0.5f64));
        assert_eq!(log.len(), 1);
        assert!(log[0].ends_with(&want), "{} {}", log[0], want);
    }
}
''', needs="a polygon whose last corner repeats the first",
         breaks="the last corner is not passed on"),

    dict(id="c21-defaultbuilder", property="C21", demo_sh=RUSTSH, files=dict(BRIDGE_PY), mock=True,
         edits=[("src/lib.rs", "        crate::ffi::SwervePathBuilder::set_control_interval_counts(\n            self.path_builder.pin_mut(),\n            counts,\n        );",
                 "        if self.counts != counts {\n            self.counts = counts.clone();\n            crate::ffi::SwervePathBuilder::set_control_interval_counts(\n                self.path_builder.pin_mut(),\n                counts,\n            );\n        }"),
                ("src/lib.rs", "    path_builder: cxx::UniquePtr<crate::ffi::SwervePathBuilder>,\n",
                 "    path_builder: cxx::UniquePtr<crate::ffi::SwervePathBuilder>,\n    counts: Vec<usize>,\n"),
                ("src/lib.rs", "            path_builder: crate::ffi::swerve_path_builder_new(),\n",
                 "            path_builder: crate::ffi::swerve_path_builder_new(),\n            counts: Vec::new(),\n")],
         demo='''
fn main() {
    let mut b = SwervePathBuilder::new();
    vc::take();
    for n in [vec![], vec![3, 4], vec![3, 4], vec![5]] {
        b.set_control_interval_counts(n.clone());
        let log = vc::take();
        assert_eq!(log.len(), 1);
        assert!(log[0].ends_with(&format!("({})", vc::Enc::enc(&n))));
    }
}
''', needs="the same counts (or no counts at first) set again",
         breaks="the call does not reach the foreign layer"),
]
