#pragma once
#include "common.hpp"
#include <trajopt/constraint/Constraint.hpp>

using namespace trajopt;
using sleipnir::Variable;
using sleipnir::OptimizationProblem;

inline Variable mkvar(double x) {
  Variable v{x};
  v.expr->op = sleipnir::detail::Op::kDecision;
  return v;
}

/// robot state in numbers and the same state as variables
struct State {
  double x, y, th, vx, vy, w, ax, ay, al;
  void describe(vh::Case& c) const {
    c.in("state{x=", x, " y=", y, " heading=", th, " v=(", vx, ",", vy, ") omega=", w, " a=(", ax, ",", ay, ") alpha=", al, "} ");
  }
  Translation2d move(const Translation2d& p) const {
    return Translation2d{x + p.X() * std::cos(th) - p.Y() * std::sin(th), y + p.X() * std::sin(th) + p.Y() * std::cos(th)};
  }
};

inline State randomState(vh::Case& c) {
  return {c.real(10), c.real(10), c.angle(), c.real(5), c.real(5), c.real(5), c.real(5), c.real(5), c.real(5)};
}

/// 1: admitted with margin, 0: rejected with margin
struct Outcome {
  bool eqHold, ineqHold;
  double worst;
  bool admitted() const { return eqHold && ineqHold; }
};

/// Applies the constraint to a problem that already has content; checks the frame.
template <typename C>
Outcome apply(vh::Case& c, C& con, const State& s, double tolEq, double tolIn, bool unit = true) {
  OptimizationProblem other;
  OptimizationProblem problem;
  Variable u = problem.DecisionVariable();
  u.SetValue(0.25);
  problem.SubjectTo(u == 17.0);
  problem.SubjectTo(u >= 3.0);
  problem.Minimize(u * 2.0);
  double m = unit ? 1.0 : 1.1;
  Pose2v pose{Translation2v{mkvar(s.x), mkvar(s.y)}, Rotation2v{mkvar(m * std::cos(s.th)), mkvar(m * std::sin(s.th))}};
  Translation2v v{mkvar(s.vx), mkvar(s.vy)}, a{mkvar(s.ax), mkvar(s.ay)};
  Variable w = mkvar(s.w), al = mkvar(s.al);
  if (c.coin()) {
    Pose2v pose2{Translation2v{mkvar(1), mkvar(2)}, Rotation2v{mkvar(0), mkvar(1)}};
    con.Apply(other, pose2, a, al, v, w);
  }
  con.Apply(problem, pose, v, w, a, al);
  c.expect(problem.decisionVariables.size() == 1, "Apply created decision variables");
  c.expect(problem.objective && problem.objective->Value() == 0.5, "Apply changed the objective");
  c.expect(problem.equality.size() >= 1 && problem.equality[0].Value() == 0.25 - 17, "Apply changed an earlier equality");
  c.expect(problem.inequality.size() >= 1 && problem.inequality[0].Value() == 0.25 - 3, "Apply changed an earlier inequality");
  c.expect(pose.X().Value() == s.x && pose.Y().Value() == s.y && v.X().Value() == s.vx && w.Value() == s.w && a.Y().Value() == s.ay,
           "Apply changed values");
  Outcome o{true, true, 1e300};
  for (size_t i = 1; i < problem.equality.size(); ++i) {
    if (!(std::abs(problem.equality[i].Value()) <= tolEq)) o.eqHold = false;
  }
  for (size_t i = 1; i < problem.inequality.size(); ++i) {
    double r = problem.inequality[i].Value();
    if (!(r >= -tolIn)) o.ineqHold = false;
    o.worst = std::min(o.worst, r);
  }
  return o;
}

/// the constraint itself, or (sometimes) held by the variant used in paths
template <typename C>
Outcome applyAny(vh::Case& c, const C& con, const State& s, double tolEq, double tolIn, bool unit = true) {
  if (c.coin()) {
    C copy = con;
    return apply(c, copy, s, tolEq, tolIn, unit);
  }
  Constraint held{con};
  return std::visit([&](auto& k) { return apply(c, k, s, tolEq, tolIn, unit); }, held);
}

inline double dist(const Translation2d& a, const Translation2d& b) { return std::hypot(a.X() - b.X(), a.Y() - b.Y()); }

/// distance of p to the segment a b by clamped projection
inline double segDist(const Translation2d& a, const Translation2d& b, const Translation2d& p) {
  double lx = b.X() - a.X(), ly = b.Y() - a.Y();
  double L = lx * lx + ly * ly;
  double t = ((p.X() - a.X()) * lx + (p.Y() - a.Y()) * ly) / L;
  t = L > 0 ? std::min(1.0, std::max(0.0, t)) : 0.0;
  return std::hypot(a.X() + t * lx - p.X(), a.Y() + t * ly - p.Y());
}

inline Translation2d point(vh::Case& c, double mag = 10) {
  double x = c.real(mag), y = c.real(mag);
  return Translation2d{x, y};
}
