#include "gen.hpp"

#include <time.h>

#include <trajopt/trajectory/HolonomicTrajectory.hpp>

#include <RustFFI.hpp>
#include <trajoptlib/src/lib.rs.h>
#include <bridge_check.hpp>

namespace ffi = trajopt::rsffi;
using Native = trajopt::SwervePathBuilder;

static_assert(sizeof(ffi::SwervePathBuilder) == sizeof(Native), "the layer holds a native builder and nothing else");
static Native& native(ffi::SwervePathBuilder& b) { return reinterpret_cast<Native&>(b); }

struct Told {
  int id;
  int64_t handle;
  ffi::HolonomicTrajectory traj;
};
static std::vector<Told> told;
struct NativeTold {
  int id;
  int64_t handle;
  trajopt::HolonomicTrajectory traj;
};
static std::vector<NativeTold> nativeTold;

template <int K>
static void progress(ffi::HolonomicTrajectory t, int64_t h) {
  told.push_back({K, h, std::move(t)});
}
static void (*const PROGRESS[])(ffi::HolonomicTrajectory, int64_t) = {progress<0>, progress<1>, progress<2>, progress<3>};

static void sameTrajectory(vh::Case& c, const ffi::HolonomicTrajectory& a, const trajopt::HolonomicTrajectory& b, const char* what) {
  c.expect(a.samples.size() == b.samples.size(), what, " has ", a.samples.size(), " samples, expected ", b.samples.size());
  for (size_t k = 0; k < b.samples.size(); ++k) {
    auto& x = a.samples[k];
    auto& y = b.samples[k];
    auto same = [&](double u, double v, const char* f) {
      c.expect(u == v || (u != u && v != v), what, " sample ", k, " ", f, " is ", u, ", expected ", v);
    };
    same(x.timestamp, y.timestamp, "timestamp");
    same(x.x, y.x, "x");
    same(x.y, y.y, "y");
    same(x.heading, y.heading, "heading");
    same(x.velocity_x, y.velocityX, "velocity x");
    same(x.velocity_y, y.velocityY, "velocity y");
    same(x.angular_velocity, y.angularVelocity, "angular velocity");
    c.expect(x.module_forces_x.size() == y.moduleForcesX.size() && x.module_forces_y.size() == y.moduleForcesY.size(), what,
             " sample ", k, " has forces of another number of modules");
    for (size_t m = 0; m < y.moduleForcesX.size(); ++m) same(x.module_forces_x[m], y.moduleForcesX[m], "module force x");
    for (size_t m = 0; m < y.moduleForcesY.size(); ++m) same(x.module_forces_y[m], y.moduleForcesY[m], "module force y");
  }
}

/// two native builders hold the same path, settings and guesses
static void same(vh::Case& c, Native& a, Native& b) {
  auto &p = a.GetPath(), &q = b.GetPath();
  c.expect(p.waypoints.size() == q.waypoints.size(), p.waypoints.size(), " waypoints, natively ", q.waypoints.size());
  for (size_t k = 0; k < q.waypoints.size(); ++k) {
    c.expect(signatures(p.waypoints[k].waypointConstraints) == signatures(q.waypoints[k].waypointConstraints),
             "constraints of waypoint ", k, " differ from the native ones");
    c.expect(signatures(p.waypoints[k].segmentConstraints) == signatures(q.waypoints[k].segmentConstraints),
             "constraints of the segment to waypoint ", k, " differ from the native ones");
  }
  c.expect(a.GetControlIntervalCounts() == b.GetControlIntervalCounts(), "control interval counts differ from the native ones");
  auto &d = p.drivetrain, &e = q.drivetrain;
  c.expect(d.modules.size() == e.modules.size(), "number of modules differs");
  if (!e.modules.empty() || !d.modules.empty())
    c.expect(d.mass == e.mass && d.moi == e.moi, "mass properties are ", d.mass, " and ", d.moi, ", natively ", e.mass, " and ", e.moi);
  for (size_t k = 0; k < e.modules.size(); ++k) {
    const auto &x = d.modules[k], &y = e.modules[k];
    c.expect(x.translation.X() == y.translation.X() && x.translation.Y() == y.translation.Y() && x.wheelRadius == y.wheelRadius &&
                 x.wheelMaxAngularVelocity == y.wheelMaxAngularVelocity && x.wheelMaxTorque == y.wheelMaxTorque,
             "module ", k, " differs from the native one");
  }
  c.expect(p.callbacks.size() == q.callbacks.size(), p.callbacks.size(), " callbacks, natively ", q.callbacks.size());
  if (!q.waypoints.empty()) {
    Native u = a, v = b;
    Obstacle wall{0.125, {Translation2d{3.0, 0.5}, Translation2d{4.0, 0.75}}};
    u.WptObstacle(0, wall);
    v.WptObstacle(0, wall);
    c.expect(signatures(u.GetPath().waypoints[0].waypointConstraints) == signatures(v.GetPath().waypoints[0].waypointConstraints),
             "bumpers differ from the native ones");
    std::vector<size_t> n(q.waypoints.size() - 1, 40);
    std::vector<size_t> n2 = n;
    u.ControlIntervalCounts(std::move(n));
    v.ControlIntervalCounts(std::move(n2));
    auto g = u.CalculateInitialGuess(), w = v.CalculateInitialGuess();
    auto eq = [&](auto& s, auto& t, const char* what) {
      c.expect(s.size() == t.size(), "initial guess ", what, " has another length than the native one");
      for (size_t i = 0; i < t.size(); ++i) c.expect(s[i] == t[i], "initial guess ", what, "[", i, "] is ", s[i], ", natively ", t[i]);
    };
    eq(g.x, w.x, "x");
    eq(g.y, w.y, "y");
    eq(g.thetacos, w.thetacos, "cos");
    eq(g.thetasin, w.thetasin, "sin");
  }
}

static SwerveSolution randomSolution(vh::Case& c) {
  SwerveSolution s;
  size_t n = c.coin(1, 9) ? 0 : c.coin(1, 12) ? c.size(1, 150) : 1 + c.below(5), m = c.coin(1, 12) ? c.size(0, 12) : c.below(4);
  for (size_t k = 0; k < n; ++k) {
    s.dt.push_back(c.positive(1));
    for (int ch = 0; ch < 10; ++ch) channel(s, ch).push_back(c.real(9));
    s.moduleFX.emplace_back();
    s.moduleFY.emplace_back();
    for (size_t q = 0; q < m; ++q) {
      s.moduleFX.back().push_back(c.real(50));
      s.moduleFY.back().push_back(c.real(50));
    }
  }
  return s;
}

int main(int argc, char** argv) {
  static const int codes[] = {0, 1, 2, -1, -2, -3, -4, -5, -6, -7};
  return vh::main_(argc, argv, [](vh::Case& c) {
    auto holder = ffi::swerve_path_builder_new();
    c.expect(holder != nullptr, "no builder is made");
    auto& f = *holder;
    Native n;
    told.clear();
    nativeTold.clear();
    int steps = c.range(1, 9);
    auto drivetrain = [&] {
      ffi::SwerveDrivetrain d{};
      d.mass = c.positive(90);
      d.moi = c.positive(20);
      SwerveDrivetrain e{d.mass, d.moi, {}};
      size_t m = c.coin(1, 15) ? c.size(1, 24) : 1 + c.below(6);
      for (size_t q = 0; q < m; ++q) {
        ffi::SwerveModule s{};
        s.x = c.real(1);
        s.y = c.real(1);
        s.wheel_radius = c.positive(1);
        s.wheel_max_angular_velocity = c.positive(90);
        s.wheel_max_torque = c.positive(9);
        d.modules.push_back(s);
        e.modules.push_back(SwerveModule{Translation2d{s.x, s.y}, s.wheel_radius, s.wheel_max_angular_velocity, s.wheel_max_torque});
        c.in(q ? " (" : "set_drivetrain((", s.x, ",", s.y, " r=", s.wheel_radius, " w=", s.wheel_max_angular_velocity, " t=", s.wheel_max_torque, ")");
      }
      c.in(" mass=", d.mass, " moi=", d.moi, ") ");
      f.set_drivetrain(d);
      n.SetDrivetrain(e);
    };
    auto counts = [&](size_t len) {
      rust::Vec<size_t> v;
      std::vector<size_t> w;
      for (size_t q = 0; q < len; ++q) {
        size_t k = c.coin(1, 8) ? c.size(0, 60) : 4 + c.below(4);
        v.push_back(k);
        w.push_back(k);
      }
      c.list("set_control_interval_counts", w);
      f.set_control_interval_counts(std::move(v));
      n.ControlIntervalCounts(std::move(w));
    };
    for (int step = 0; step < steps; ++step) {
      size_t i = c.coin(1, 12) ? c.size(0, 40) : c.below(4);
      size_t to = i + 1 + c.below(3);
      double x = c.real(9), y = c.real(9), h = c.angle(), r = c.nonneg(3);
      int op = static_cast<int>(c.below(20));
      c.in(op, "(", i, ",", to, ";", x, ",", y, ",", h, ",", r, ") ");
      switch (op) {
        case 0:
          f.pose_wpt(i, x, y, h);
          n.PoseWpt(i, x, y, h);
          break;
        case 1:
          f.translation_wpt(i, x, y, h);
          n.TranslationWpt(i, x, y, h);
          break;
        case 2:
          f.empty_wpt(i, x, y, h);
          n.WptInitialGuessPoint(i, Pose2d{x, y, Rotation2d{h}});
          break;
        case 3: {
          rust::Vec<ffi::Pose2d> v;
          std::vector<Pose2d> w;
          size_t k = c.coin(1, 12) ? c.size(0, 30) : c.below(4);
          for (size_t q = 0; q < k; ++q) {
            ffi::Pose2d p{};
            p.x = c.real(9);
            p.y = c.real(9);
            p.heading = c.angle();
            if (q && c.coin(1, 5)) {
              p.x = w.back().X();
              p.y = w.back().Y();
              if (c.coin()) p.heading = v[q - 1].heading;
            }
            v.push_back(p);
            w.push_back(Pose2d{p.x, p.y, Rotation2d{p.heading}});
          }
          f.sgmt_initial_guess_points(i, v);
          n.SgmtInitialGuessPoints(i, w);
          break;
        }
        case 4:
          f.wpt_linear_velocity_direction(i, h);
          n.WptConstraint(i, LinearVelocityDirectionConstraint{h});
          break;
        case 5:
          f.wpt_linear_velocity_max_magnitude(i, r);
          n.WptConstraint(i, LinearVelocityMaxMagnitudeConstraint{r});
          break;
        case 6:
          f.wpt_angular_velocity_max_magnitude(i, r);
          n.WptConstraint(i, AngularVelocityMaxMagnitudeConstraint{r});
          break;
        case 7:
          f.wpt_linear_acceleration_max_magnitude(i, r);
          n.WptConstraint(i, LinearAccelerationMaxMagnitudeConstraint{r});
          break;
        case 8:
          f.wpt_point_at(i, x, y, r);
          n.WptConstraint(i, PointAtConstraint{Translation2d{x, y}, r});
          break;
        case 9:
          f.sgmt_linear_velocity_direction(i, to, h);
          n.SgmtConstraint(i, to, LinearVelocityDirectionConstraint{h});
          break;
        case 10:
          f.sgmt_linear_velocity_max_magnitude(i, to, r);
          n.SgmtConstraint(i, to, LinearVelocityMaxMagnitudeConstraint{r});
          break;
        case 11:
          f.sgmt_angular_velocity_max_magnitude(i, to, r);
          n.SgmtConstraint(i, to, AngularVelocityMaxMagnitudeConstraint{r});
          break;
        case 12:
          f.sgmt_linear_acceleration_max_magnitude(i, to, r);
          n.SgmtConstraint(i, to, LinearAccelerationMaxMagnitudeConstraint{r});
          break;
        case 13:
          f.sgmt_point_at(i, to, x, y, r);
          n.SgmtConstraint(i, to, PointAtConstraint{Translation2d{x, y}, r});
          break;
        case 14:
          f.sgmt_circle_obstacle(i, to, x, y, r);
          n.SgmtObstacle(i, to, Obstacle{r, {Translation2d{x, y}}});
          break;
        case 15: {
          rust::Vec<double> px, py;
          Obstacle o{r, {}};
          size_t k = c.coin(1, 25) ? (c.coin() ? c.size(1, 140) : 50 + c.below(90)) : 1 + c.below(4);
          for (size_t q = 0; q < k; ++q) {
            double u = c.real(9), v = c.real(9);
            if (q && c.coin(1, 6)) {
              size_t back = c.coin() ? q - 1 : 0;
              u = px[back];
              v = py[back];
            }
            px.push_back(u);
            py.push_back(v);
            o.points.emplace_back(u, v);
          }
          if (c.coin(1, 6)) {
            // lists of different length describe no polygon
            rust::Vec<double>& longer = c.coin() ? px : py;
            for (size_t q = 1 + c.below(3); q > 0; --q) longer.push_back(c.real(9));
            c.in("lists of ", px.size(), " and ", py.size(), " ");
            f.sgmt_polygon_obstacle(i, to, px, py, r);
            break;
          }
          f.sgmt_polygon_obstacle(i, to, px, py, r);
          n.SgmtObstacle(i, to, o);
          break;
        }
        case 16: {
          double l = c.positive(2), w = c.positive(2);
          f.set_bumpers(l, w);
          n.AddBumpers(Bumpers{0.01, {{l / 2, w / 2}, {-l / 2, w / 2}, {-l / 2, -w / 2}, {l / 2, -w / 2}}});
          break;
        }
        case 17:
          drivetrain();
          break;
        case 18:
          counts(c.below(4));
          break;
        default: {
          int id = static_cast<int>(c.below(4));
          f.add_progress_callback(PROGRESS[id]);
          n.AddIntermediateCallback([id](SwerveSolution& s, int64_t hd) { nativeTold.push_back({id, hd, trajopt::HolonomicTrajectory{s}}); });
        }
      }
      same(c, native(f), n);
    }
    // callbacks
    auto checkTold = [&] {
      c.expect(told.size() == nativeTold.size(), told.size(), " progress reports, natively ", nativeTold.size());
      for (size_t k = 0; k < told.size(); ++k) {
        c.expect(told[k].id == nativeTold[k].id, "another callback is called");
        c.expect(told[k].handle == nativeTold[k].handle, "the callback is given handle ", told[k].handle, ", natively ", nativeTold[k].handle);
        sameTrajectory(c, told[k].traj, nativeTold[k].traj, "progress report");
      }
      told.clear();
      nativeTold.clear();
    };
    SwerveSolution s = randomSolution(c);
    for (size_t k = 0; k < n.GetPath().callbacks.size(); ++k) {
      int64_t handle = static_cast<int64_t>(c.next());
      native(f).GetPath().callbacks.at(k)(s, handle);
      n.GetPath().callbacks[k](s, handle);
      checkTold();
    }
    GetCancellationFlag() = 0;
    if (c.coin(1, 8)) {
      ffi::cancel_all();
      c.expect(GetCancellationFlag() != 0, "cancel_all does not request cancellation");
      ffi::cancel_all();
      c.expect(GetCancellationFlag() != 0, "a second cancel_all does not request cancellation");
      GetCancellationFlag() = 0;
    }
    if (n.GetPath().waypoints.empty() || n.GetPath().waypoints.size() > 5) return;
    for (auto& g : n.GetPath().waypoints) (void)g;
    drivetrain();
    {
      // every segment has at least as many control intervals as guess poses
      std::vector<size_t> w(n.GetPath().waypoints.size() - 1, 14);
      rust::Vec<size_t> v;
      for (auto k : w) v.push_back(k);
      f.set_control_interval_counts(std::move(v));
      n.ControlIntervalCounts(std::move(w));
    }
    int code = codes[c.below(10)];
    bool diagnostics = c.coin();
    int64_t handle = static_cast<int64_t>(c.next());
    uint64_t tag = c.below(1000);
    bool pause = c.coin(1, 30);
    c.in("generate(", diagnostics, ",", handle, ") exit=", code, " ");
    bool sawDiagnostics = false;
    OptimizationProblem::SolveHook() = [&](OptimizationProblem& p) {
      sawDiagnostics = p.lastConfig.diagnostics;
      for (size_t k = 0; k < p.decisionVariables.size(); ++k)
        p.decisionVariables[k].SetValue(std::sin(static_cast<double>(tag + k)) + 1.25);
      if (pause && p.callback) {
        p.callback(sleipnir::SolverIterationInfo{0});
        timespec t{0, 20000000};
        nanosleep(&t, nullptr);
        told.clear();
        nativeTold.clear();
        p.callback(sleipnir::SolverIterationInfo{1});
      }
      SolverStatus st;
      st.exitCondition = static_cast<SolverExitCondition>(code);
      return st;
    };
    std::string error;
    bool threw = false;
    ffi::HolonomicTrajectory got;
    Native before = native(f);
    try {
      const auto& cf = f;
      got = cf.generate(diagnostics, handle);
    } catch (const std::exception& e) {
      threw = true;
      error = e.what();
    }
    c.expect(sawDiagnostics == diagnostics, "diagnostics are ", sawDiagnostics ? "on" : "off");
    std::vector<Told> reports = told;
    told.clear();
    nativeTold.clear();
    SwerveTrajectoryGenerator gen{n, handle};
    auto want = gen.Generate(diagnostics);
    OptimizationProblem::SolveHook() = nullptr;
    if (pause && !n.GetPath().callbacks.empty()) {
      told = reports;
      checkTold();
    }
    c.expect(threw == !want.has_value(), threw ? "an error is reported for a solution" : "an error is not reported");
    if (threw)
      c.expect(error == want.error(), "the error is '", error, "', natively '", want.error(), "'");
    else
      sameTrajectory(c, got, trajopt::HolonomicTrajectory{want.value()}, "the trajectory");
    same(c, native(f), before);
  });
}
