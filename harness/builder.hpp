#pragma once
#include "constraint.hpp"
#include <trajopt/path/SwervePathBuilder.hpp>
#include <trajopt/util/GenerateLinearInitialGuess.hpp>

/// what a constraint does, on fixed states, to full precision
inline std::string signature(const Constraint& con) {
  static const double states[3][9] = {{0.3, -1.2, 0.7, 1.1, -0.4, 0.9, 0.2, -0.8, 1.7},
                                      {-5.5, 2.25, -2.1, -0.6, 2.4, -1.3, 3.1, 0.15, -0.35},
                                      {40.0, 31.0, 3.0, 0.01, 0.02, 0.03, -7.0, 6.0, 5.0}};
  std::ostringstream o;
  o.precision(17);
  o << con.index() << ":";
  for (auto& s : states) {
    OptimizationProblem problem;
    Pose2v pose{Translation2v{mkvar(s[0]), mkvar(s[1])}, Rotation2v{mkvar(std::cos(s[2])), mkvar(std::sin(s[2]))}};
    Translation2v v{mkvar(s[3]), mkvar(s[4])}, a{mkvar(s[6]), mkvar(s[7])};
    Constraint copy = con;
    std::visit([&](auto& k) { k.Apply(problem, pose, v, mkvar(s[5]), a, mkvar(s[8])); }, copy);
    for (auto& e : problem.equality) o << "e" << e.Value() << ",";
    for (auto& e : problem.inequality) o << "i" << e.Value() << ",";
    o << ";";
  }
  return o.str();
}

struct MPose {
  double x, y, th;
  Pose2d get() const { return Pose2d{x, y, Rotation2d{th}}; }
};

struct MWpt {
  std::vector<std::string> wc, sc;
  std::vector<MPose> guess{MPose{0, 0, 0}};
};

/// now and then one the case has used before
inline MPose randomPose(vh::Case& c) {
  static uint64_t owner = ~uint64_t{0};
  static std::vector<MPose> seen;
  if (owner != c.idx) {
    owner = c.idx;
    seen.clear();
  }
  if (!seen.empty() && c.coin(1, 4)) return seen[c.below(seen.size())];
  MPose p{c.real(9), c.real(9), c.angle()};
  seen.push_back(p);
  return p;
}

/// the property's own account of what the calls do
struct Model {
  std::vector<MWpt> w;
  std::vector<size_t> counts;
  SwerveDrivetrain drive{};
  bool driveSet = false;  // mass and moi are indeterminate before
  std::vector<int> callbacks;

  void grow(size_t upto) {
    while (w.size() <= upto) {
      if (!w.empty()) counts.push_back(40);
      w.emplace_back();
    }
  }
};

inline Constraint newConstraint(vh::Case& c) {
  switch (c.below(10)) {
    case 0: return AngularVelocityMaxMagnitudeConstraint{c.nonneg(9)};
    case 1: return LinearAccelerationMaxMagnitudeConstraint{c.nonneg(9)};
    case 2: return LinearVelocityDirectionConstraint{c.angle()};
    case 3: return LinearVelocityMaxMagnitudeConstraint{c.nonneg(9)};
    case 4: return LinePointConstraint{Translation2d{0.0, c.real(3)}, Translation2d{1.0, c.real(3)}, point(c), c.nonneg(3)};
    case 5: return PointAtConstraint{point(c), c.nonneg(1)};
    case 6: return PointLineConstraint{point(c, 2), Translation2d{0.0, c.real(3)}, Translation2d{1.0, c.real(3)}, c.nonneg(3)};
    case 7: return PointPointConstraint{point(c, 2), point(c), c.nonneg(3)};
    case 8: return PoseEqualityConstraint{c.real(9), c.real(9), c.angle()};
    default: return TranslationEqualityConstraint{c.real(9), c.real(9)};
  }
}

/// now and then one that has been used before
inline Constraint randomConstraint(vh::Case& c) {
  static uint64_t owner = ~uint64_t{0};
  static std::vector<Constraint> seen;
  if (owner != c.idx) {
    owner = c.idx;
    seen.clear();
  }
  if (!seen.empty() && c.coin(1, 5)) return seen[c.below(seen.size())];
  seen.push_back(newConstraint(c));
  return seen.back();
}

inline std::vector<std::string> signatures(const std::vector<Constraint>& v) {
  std::vector<std::string> r;
  for (auto& c : v) r.push_back(signature(c));
  return r;
}

inline int lastCallback = -1;
inline int64_t lastHandle = 0;

/// the whole observable state of the builder against the model
inline void compare(vh::Case& c, SwervePathBuilder& b, const Model& m) {
  auto& p = b.GetPath();
  c.expect(p.waypoints.size() == m.w.size(), p.waypoints.size(), " waypoints, expected ", m.w.size());
  for (size_t k = 0; k < m.w.size(); ++k) {
    c.expect(signatures(p.waypoints[k].waypointConstraints) == m.w[k].wc, "constraints of waypoint ", k, ": ",
             p.waypoints[k].waypointConstraints.size(), " of them, expected ", m.w[k].wc.size(), " (or different ones)");
    c.expect(signatures(p.waypoints[k].segmentConstraints) == m.w[k].sc, "constraints of the segment to waypoint ", k, ": ",
             p.waypoints[k].segmentConstraints.size(), " of them, expected ", m.w[k].sc.size(), " (or different ones)");
  }
  c.expect(b.GetControlIntervalCounts() == m.counts, "control interval counts differ: ", b.GetControlIntervalCounts().size(),
           " entries, expected ", m.counts.size());
  c.expect((!m.driveSet || (p.drivetrain.mass == m.drive.mass && p.drivetrain.moi == m.drive.moi)) &&
               p.drivetrain.modules.size() == m.drive.modules.size(),
           "drivetrain differs");
  for (size_t k = 0; k < m.drive.modules.size(); ++k) {
    const auto &x = p.drivetrain.modules[k], &y = m.drive.modules[k];
    c.expect(x.translation.X() == y.translation.X() && x.translation.Y() == y.translation.Y() && x.wheelRadius == y.wheelRadius &&
                 x.wheelMaxAngularVelocity == y.wheelMaxAngularVelocity && x.wheelMaxTorque == y.wheelMaxTorque,
             "module ", k, " differs");
  }
  c.expect(p.callbacks.size() == m.callbacks.size(), p.callbacks.size(), " callbacks, expected ", m.callbacks.size());
  for (size_t k = 0; k < m.callbacks.size(); ++k) {
    SwerveSolution s;
    p.callbacks[k](s, 77);
    c.expect(lastCallback == m.callbacks[k] && lastHandle == 77, "callback ", k, " is not the registered one");
  }
  if (!m.w.empty() && m.counts.size() + 1 == m.w.size()) {
    std::vector<std::vector<Pose2d>> g;
    for (auto& w : m.w) {
      g.emplace_back();
      for (auto& q : w.guess) g.back().push_back(q.get());
    }
    auto got = b.CalculateInitialGuess();
    auto want = GenerateLinearInitialGuess<SwerveSolution>(g, m.counts);
    auto same = [&](auto& u, auto& v, const char* what) {
      c.expect(u.size() == v.size(), "initial guess ", what, " has ", u.size(), " samples, expected ", v.size());
      for (size_t i = 0; i < u.size(); ++i) c.expect(u[i] == v[i], "initial guess ", what, "[", i, "] is ", u[i], ", expected ", v[i]);
    };
    same(got.x, want.x, "x");
    same(got.y, want.y, "y");
    same(got.thetacos, want.thetacos, "cos");
    same(got.thetasin, want.thetasin, "sin");
    same(got.dt, want.dt, "dt");
  }
}
