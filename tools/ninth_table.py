"""More mutants and refactorings: constraints, geometry, linear guess, trajectory."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from eighth_table import *  # noqa: E402,F401,F403
from eighth_table import m, e  # noqa: E402

I = "include/trajopt/"
C = I + "constraint/"
LP, PL, PP, PA = (C + n + "Constraint.hpp" for n in ("LinePoint", "PointLine", "PointPoint", "PointAt"))
LV, LA, AV, LD = (C + n + "Constraint.hpp" for n in ("LinearVelocityMaxMagnitude", "LinearAccelerationMaxMagnitude",
                                                     "AngularVelocityMaxMagnitude", "LinearVelocityDirection"))
PE, TE = (C + n + "EqualityConstraint.hpp" for n in ("Pose", "Translation"))
LPD = C + "detail/LinePointDistance.hpp"
T2, R2, P2 = (I + "geometry/" + n + "2.hpp" for n in ("Translation", "Rotation", "Pose"))

# ---- distances
LPB = """    auto lineStart =
        pose.Translation() + m_robotLineStart.RotateBy(pose.Rotation());
    auto lineEnd =
        pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
"""
LPT = """    bool isPoint = (m_robotLineEnd - m_robotLineStart).SquaredNorm() == 0.0;
    auto squaredDist =
        isPoint ? (lineStart - m_fieldPoint).SquaredNorm()
                : detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
"""
e("i-lp-onfield", ["C08"], (LP, LPB, """    const auto onField = [&pose](const Translation2d& robotFrame) {
      return pose.Translation() + robotFrame.RotateBy(pose.Rotation());
    };
    const auto lineStart = onField(m_robotLineStart);
    const auto lineEnd = onField(m_robotLineEnd);
"""))
e("i-lp-ret", ["C08"], (LP, LPT, """    const double minSquared = m_minDistance * m_minDistance;
    if ((m_robotLineEnd - m_robotLineStart).SquaredNorm() == 0.0) {
      problem.SubjectTo((lineStart - m_fieldPoint).SquaredNorm() >= minSquared);
      return;
    }
    problem.SubjectTo(detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint) >= minSquared);
"""))
e("i-lp-ispt", ["C08"], (LP, "    bool isPoint = (m_robotLineEnd - m_robotLineStart).SquaredNorm() == 0.0;\n", """    const bool isPoint = m_robotLineStart.X() == m_robotLineEnd.X() &&
                         m_robotLineStart.Y() == m_robotLineEnd.Y();
"""))
m("i-lp-ispt1", ["C08"], (LP, "    bool isPoint = (m_robotLineEnd - m_robotLineStart).SquaredNorm() == 0.0;\n", """    const bool isPoint = m_robotLineStart.X() == m_robotLineEnd.X();
"""))
m("i-lp-ispt2", ["C08"], (LP, "m_robotLineStart).SquaredNorm() == 0.0;\n", "m_robotLineStart).SquaredNorm() < 1e-4;\n"))
m("i-lp-ispt3", ["C08"], (LP, "(lineStart - m_fieldPoint).SquaredNorm()", "(lineStart - m_fieldPoint).Dot(lineEnd - lineStart)"))
m("i-lp-zero", ["C08"], (LP, "    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);\n", "    if (m_minDistance * m_minDistance > 1e-6) {\n      problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);\n    }\n"))
e("i-lp-zero", ["C08"], (LP, "    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);\n", "    problem.SubjectTo(squaredDist - std::pow(m_minDistance, 2) >= 0.0);\n"), (LP, "#include <cassert>\n", "#include <cassert>\n#include <cmath>\n"))
e("i-lp-flip", ["C08"], (LP, "detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);", "detail::LinePointDistance(lineEnd, lineStart, m_fieldPoint);"))
e("i-pl-flip", ["C08"], (PL, """detail::LinePointDistance(m_fieldLineStart,
                                                       m_fieldLineEnd, point);""", """detail::LinePointDistance(m_fieldLineEnd,
                                                       m_fieldLineStart, point);"""))
e("i-pl-class", ["C08"], (PL, """    auto squaredDist = isPoint
                           ? (m_fieldLineStart - point).SquaredNorm()
                           : detail::LinePointDistance(m_fieldLineStart,
                                                       m_fieldLineEnd, point);
    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
""", """    problem.SubjectTo(SquaredDistance(point, isPoint) >= m_minDistance * m_minDistance);
"""), (PL, " private:\n", """ private:
  sleipnir::Variable SquaredDistance(const Translation2v& point, bool isPoint) const {
    if (isPoint) {
      return (point - m_fieldLineStart).SquaredNorm();
    }
    return detail::LinePointDistance(m_fieldLineStart, m_fieldLineEnd, point);
  }

"""))
e("i-pp-diff", ["C08"], (PP, """    auto dx = m_fieldPoint.X() - bumperCorner.X();
    auto dy = m_fieldPoint.Y() - bumperCorner.Y();
    problem.SubjectTo(dx * dx + dy * dy >= m_minDistance * m_minDistance);
""", """    const auto difference = bumperCorner - m_fieldPoint;
    problem.SubjectTo(difference.Dot(difference) >= m_minDistance * m_minDistance);
"""))
e("i-pp-pow", ["C08"], (PP, "dx * dx + dy * dy >=", "sleipnir::pow(dx, 2) + sleipnir::pow(dy, 2) >="))
e("i-pp-flip", ["C08"], (PP, "problem.SubjectTo(dx * dx + dy * dy >= m_minDistance * m_minDistance);", "problem.SubjectTo(m_minDistance * m_minDistance <= dx * dx + dy * dy);"))
m("i-pp-norm", ["C08"], (PP, "problem.SubjectTo(dx * dx + dy * dy >= m_minDistance * m_minDistance);", "problem.SubjectTo(dx * dx + dy * dy >= m_minDistance * std::max(m_minDistance, 0.1));"), (PP, "#include <cassert>\n", "#include <algorithm>\n#include <cassert>\n"))
m("i-pp-minus", ["C08"], (PP, "m_robotPoint.RotateBy(pose.Rotation());", "m_robotPoint.RotateBy(-pose.Rotation());"))
e("i-pp-robotframe", ["C08"], (PP, """    auto bumperCorner =
        pose.Translation() + m_robotPoint.RotateBy(pose.Rotation());
    auto dx = m_fieldPoint.X() - bumperCorner.X();
    auto dy = m_fieldPoint.Y() - bumperCorner.Y();
""", """    const auto offset = m_robotPoint.RotateBy(pose.Rotation());
    auto dx = m_fieldPoint.X() - pose.X() - offset.X();
    auto dy = m_fieldPoint.Y() - pose.Y() - offset.Y();
"""))
# ---- LinePointDistance
LBODY = """  Translation2<R> l{lineEnd.X() - lineStart.X(), lineEnd.Y() - lineStart.Y()};
  Translation2<R> v{point.X() - lineStart.X(), point.Y() - lineStart.Y()};

  auto t = v.Dot(l) / l.SquaredNorm();
  auto tBounded = max(min(t, 1), 0);  // NOLINT

  Translation2<R> i{Lerp(lineStart.X(), lineEnd.X(), tBounded),
                    Lerp(lineStart.Y(), lineEnd.Y(), tBounded)};
  return (i - point).SquaredNorm();
"""
e("i-lpd-ops", ["C07", "C08"], (LPD, LBODY, """  const auto l = lineEnd - lineStart;
  const auto v = point - lineStart;
  const R t = (v.X() * l.X() + v.Y() * l.Y()) / (l.X() * l.X() + l.Y() * l.Y());
  const R clamped = min(max(t, 0), 1);
  const R dx = lineStart.X() + clamped * l.X() - point.X();
  const R dy = lineStart.Y() + clamped * l.Y() - point.Y();
  return dx * dx + dy * dy;
"""))
m("i-lpd-clamp", ["C07", "C08"], (LPD, "max(min(t, 1), 0);", "min(t, 1);"))
m("i-lpd-clamp1", ["C07", "C08"], (LPD, "max(min(t, 1), 0);", "max(t, 0);"))
m("i-lpd-norm", ["C07", "C08"], (LPD, "v.Dot(l) / l.SquaredNorm();", "v.Dot(l) / sleipnir::hypot(l.X(), l.Y());"))
# ---- limits
ANGB = """    if (m_maxMagnitude == 0.0) {
      problem.SubjectTo(angularVelocity == 0.0);
    } else {
      problem.SubjectTo(angularVelocity >= -m_maxMagnitude);
      problem.SubjectTo(angularVelocity <= m_maxMagnitude);
    }
"""
e("i-av-only", ["C09"], (AV, ANGB, """    problem.SubjectTo(angularVelocity >= -m_maxMagnitude);
    problem.SubjectTo(angularVelocity <= m_maxMagnitude);
"""))
e("i-av-ret", ["C09"], (AV, ANGB, """    if (const double limit = m_maxMagnitude; limit != 0.0) {
      problem.SubjectTo(angularVelocity <= limit);
      problem.SubjectTo(-angularVelocity <= limit);
      return;
    }
    problem.SubjectTo(angularVelocity == 0.0);
"""))
m("i-av-eps", ["C09"], (AV, "if (m_maxMagnitude == 0.0) {", "if (m_maxMagnitude < 1e-3) {"))
m("i-av-one", ["C09"], (AV, "      problem.SubjectTo(angularVelocity >= -m_maxMagnitude);\n", ""))
m("i-av-sq", ["C09"], (AV, ANGB, """    problem.SubjectTo(angularVelocity * angularVelocity <= m_maxMagnitude);
"""))
e("i-av-sq", ["C09"], (AV, """      problem.SubjectTo(angularVelocity >= -m_maxMagnitude);
      problem.SubjectTo(angularVelocity <= m_maxMagnitude);
""", """      problem.SubjectTo(angularVelocity * angularVelocity <= m_maxMagnitude * m_maxMagnitude);
"""))
e("i-lv-norm", ["C09"], (LV, "linearVelocity.SquaredNorm() <=\n                        m_maxMagnitude * m_maxMagnitude", "linearVelocity.X() * linearVelocity.X() + linearVelocity.Y() * linearVelocity.Y() <=\n                        m_maxMagnitude * m_maxMagnitude"))
e("i-lv-vec", ["C09"], (LV, """      problem.SubjectTo(linearVelocity.X() == 0.0);
      problem.SubjectTo(linearVelocity.Y() == 0.0);
""", """      problem.SubjectTo(linearVelocity == Translation2d{0.0, 0.0});
"""))
e("i-la-for", ["C09"], (LA, """      problem.SubjectTo(linearAcceleration.X() == 0.0);
      problem.SubjectTo(linearAcceleration.Y() == 0.0);
""", """      for (const auto& component : {linearAcceleration.X(), linearAcceleration.Y()}) {
        problem.SubjectTo(component == 0.0);
      }
"""))
m("i-la-box", ["C09"], (LA, """      problem.SubjectTo(linearAcceleration.SquaredNorm() <=
                        m_maxMagnitude * m_maxMagnitude);
""", """      problem.SubjectTo(linearAcceleration.X() * linearAcceleration.X() <=
                        m_maxMagnitude * m_maxMagnitude);
      problem.SubjectTo(linearAcceleration.Y() * linearAcceleration.Y() <=
                        m_maxMagnitude * m_maxMagnitude);
"""))
m("i-la-dot", ["C09"], (LA, "             [[maybe_unused]] const Translation2v& linearVelocity,\n", "             const Translation2v& linearVelocity,\n"), (LA, "linearAcceleration.SquaredNorm() <=", "linearAcceleration.Dot(linearVelocity) <="))
e("i-ld-cross", ["C09"], (LD, """    auto dot = linearVelocity.Dot(Translation2d{m_angle.Cos(), m_angle.Sin()});
    problem.SubjectTo(dot * dot == linearVelocity.SquaredNorm());
""", """    const Translation2d direction{m_angle.Cos(), m_angle.Sin()};
    const auto dot = linearVelocity.X() * direction.X() + linearVelocity.Y() * direction.Y();
    problem.SubjectTo(linearVelocity.SquaredNorm() == dot * dot);
"""))
e("i-ld-member", ["C09"], (LD, "Translation2d{m_angle.Cos(), m_angle.Sin()}", "m_direction"), (LD, "m_angle{angle} {}", "m_direction{std::cos(angle), std::sin(angle)} {}"), (LD, "  trajopt::Rotation2d m_angle;\n", "  trajopt::Translation2d m_direction;\n"), (LD, "#include <sleipnir/autodiff/Variable.hpp>\n", "#include <cmath>\n\n#include <sleipnir/autodiff/Variable.hpp>\n"))
m("i-ld-abs", ["C09"], (LD, "dot * dot == linearVelocity", "dot * dot <= linearVelocity"))
m("i-ld-sin", ["C09"], (LD, "m_angle.Cos(), m_angle.Sin()", "m_angle.Cos(), 1.0 - m_angle.Cos()"))
# ---- equality
e("i-pe-split", ["C10"], (PE, "    problem.SubjectTo(pose == m_pose);\n", """    problem.SubjectTo(pose.Translation() == m_pose.Translation());
    problem.SubjectTo(pose.Rotation() == m_pose.Rotation());
"""))
e("i-pe-local", ["C10"], (PE, "    problem.SubjectTo(pose == m_pose);\n", """    const Pose2d target{m_pose.X(), m_pose.Y(), m_pose.Rotation()};
    const auto equal = pose == target;
    problem.SubjectTo(equal);
"""))
m("i-pe-onlyx", ["C10"], (PE, "    problem.SubjectTo(pose == m_pose);\n", """    problem.SubjectTo(pose.Translation() == m_pose.Translation());
    problem.SubjectTo(pose.Rotation().Cos() == m_pose.Rotation().Cos());
"""))
e("i-pe-cs", ["C10"], (PE, "    problem.SubjectTo(pose == m_pose);\n", """    problem.SubjectTo(pose.Translation() == m_pose.Translation());
    problem.SubjectTo(pose.Rotation().Cos() * m_pose.Rotation().Sin() == pose.Rotation().Sin() * m_pose.Rotation().Cos());
    problem.SubjectTo(pose.Rotation().Cos() * pose.Rotation().Cos() + pose.Rotation().Sin() * pose.Rotation().Sin() == 1.0);
"""))
e("i-te-xy", ["C10"], (TE, "    problem.SubjectTo(pose.Translation() == m_translation);\n", """    problem.SubjectTo(pose.X() == m_translation.X());
    problem.SubjectTo(pose.Y() == m_translation.Y());
"""))
m("i-te-origin", ["C10"], (TE, "    problem.SubjectTo(pose.Translation() == m_translation);\n", """    problem.SubjectTo(pose.X() == m_translation.X());
    if (m_translation.Y() != m_translation.X()) {
      problem.SubjectTo(pose.Y() == m_translation.Y());
    }
"""))
PAB = """    auto dx = m_fieldPoint.X() - pose.X();
    auto dy = m_fieldPoint.Y() - pose.Y();
    auto dot = pose.Rotation().Cos() * dx + pose.Rotation().Sin() * dy;
    problem.SubjectTo(dot >=
                      std::cos(m_headingTolerance) * sleipnir::hypot(dx, dy));
"""
e("i-pa-vec", ["C10"], (PA, PAB, """    const auto toPoint = m_fieldPoint - pose.Translation();
    const Translation2v heading{pose.Rotation().Cos(), pose.Rotation().Sin()};
    problem.SubjectTo(heading.Dot(toPoint) >= toPoint.Norm() * std::cos(m_headingTolerance));
"""))
e("i-pa-dist", ["C10"], (PA, PAB, """    const auto [dx, dy] = m_fieldPoint - pose.Translation();
    const auto& heading = pose.Rotation();
    const double cosTolerance = std::cos(m_headingTolerance);
    problem.SubjectTo(heading.Cos() * dx + heading.Sin() * dy - cosTolerance * sleipnir::hypot(dx, dy) >= 0.0);
"""))
m("i-pa-acos", ["C10"], (PA, "std::cos(m_headingTolerance) *", "(1.0 - m_headingTolerance * m_headingTolerance / 2.0) *"))
m("i-pa-abs", ["C10"], (PA, "    problem.SubjectTo(dot >=\n                      std::cos(m_headingTolerance) * sleipnir::hypot(dx, dy));\n", "    problem.SubjectTo(dot * dot >= std::cos(m_headingTolerance) * std::cos(m_headingTolerance) * (dx * dx + dy * dy));\n"))
# ---- geometry
e("i-t2-minus", ["C11"], (T2, "    return *this + -other;\n", "    using R = decltype(std::declval<T>() + std::declval<U>());\n    return Translation2<R>{X() - other.X(), Y() - other.Y()};\n"))
e("i-t2-sq", ["C11"], (T2, "  constexpr auto SquaredNorm() const { return m_x * m_x + m_y * m_y; }\n", "  constexpr auto SquaredNorm() const { return Dot(*this); }\n"))
e("i-t2-dist", ["C11"], (T2, "    return hypot(other.X() - m_x, other.Y() - m_y);  // NOLINT\n", "    return (other - *this).Norm();\n"))
m("i-t2-dist1", ["C11"], (T2, "    return hypot(other.X() - m_x, other.Y() - m_y);  // NOLINT\n", "    return (other + *this).Norm();\n"))
e("i-t2-rot", ["C11"], (T2, """    return Translation2<R>{m_x * other.Cos() - m_y * other.Sin(),
                           m_x * other.Sin() + m_y * other.Cos()};
""", """    const auto& cosine = other.Cos();
    const auto& sine = other.Sin();
    R x = cosine * m_x - sine * m_y;
    R y = cosine * m_y + sine * m_x;
    return Translation2<R>{std::move(x), std::move(y)};
"""))
e("i-t2-div", ["C11"], (T2, "    return Translation2<R>{m_x / scalar, m_y / scalar};\n", "    return *this * (1.0 / scalar);\n"), (T2, "    using R = decltype(std::declval<T>() + std::declval<U>());\n    return *this * (1.0 / scalar);\n", "    return *this * (1.0 / scalar);\n"))
m("i-t2-get", ["C11"], (T2, "  if constexpr (I == 0) {\n    return translation.X();", "  if constexpr (I == 1) {\n    return translation.X();"))
e("i-r2-minus", ["C11"], (R2, "    return *this + -other;\n", "    return Rotation2<T>{m_cos * other.m_cos + m_sin * other.m_sin, m_sin * other.m_cos - m_cos * other.m_sin};\n"))
e("i-r2-deg", ["C11"], (R2, "    return atan2(m_sin, m_cos) / std::numbers::pi * 180.0;  // NOLINT\n", "    constexpr double degreesPerRadian = 180.0 / std::numbers::pi;\n    return Radians() * degreesPerRadian;\n"))
e("i-r2-init", ["C11"], (R2, "  std::vector<sleipnir::EqualityConstraints> constraints;\n", "  std::vector<sleipnir::EqualityConstraints> constraints;\n  constraints.reserve(3);\n"))
e("i-r2-unit", ["C10", "C11"], (R2, "template <typename T, typename U>\n  requires std::same_as<T, sleipnir::Variable> ||", "template <typename T>\nauto SquaredLength(const Rotation2<T>& rotation) {\n  return rotation.Cos() * rotation.Cos() + rotation.Sin() * rotation.Sin();\n}\n\ntemplate <typename T, typename U>\n  requires std::same_as<T, sleipnir::Variable> ||"), (R2, "    constraints.emplace_back(lhs.Cos() * lhs.Cos() + lhs.Sin() * lhs.Sin() ==\n                             1.0);", "    constraints.emplace_back(SquaredLength(lhs) == 1.0);"))
m("i-r2-unit1", ["C10", "C11"], (R2, "    constraints.emplace_back(lhs.Cos() * lhs.Cos() + lhs.Sin() * lhs.Sin() ==\n                             1.0);", "    constraints.emplace_back(lhs.Cos() * rhs.Cos() + lhs.Sin() * rhs.Sin() ==\n                             1.0);"))
e("i-p2-rot", ["C11"], (P2, "    return {m_translation.RotateBy(other), m_rotation.RotateBy(other)};\n", "    return Pose2<T>{m_translation.RotateBy(other), other.RotateBy(m_rotation)};\n"))
m("i-p2-rot1", ["C11"], (P2, "    return {m_translation.RotateBy(other), m_rotation.RotateBy(other)};\n", "    return {m_translation.RotateBy(other), m_rotation + Rotation2<T>{other.Cos(), other.Cos() * other.Sin()}};\n"))
BLP = "src/path/SwervePathBuilder.cpp"
# ---- obstacles
W1 = """        WptConstraint(index, LinePointConstraint{
                                 _bumpers.points.at(bumperCornerIndex),
                                 _bumpers.points.at(bumperCornerIndex + 1),
                                 obstaclePoint, minDistance});
"""
e("i-ob-flip", ["C07"], (BLP, W1, """        WptConstraint(index, LinePointConstraint{
                                 _bumpers.points.at(bumperCornerIndex + 1),
                                 _bumpers.points.at(bumperCornerIndex),
                                 obstaclePoint, minDistance});
"""))
m("i-ob-flip1", ["C07"], (BLP, W1, """        WptConstraint(index, LinePointConstraint{
                                 _bumpers.points.at(bumperCornerIndex + 1),
                                 _bumpers.points.at(bumperCornerIndex + 1),
                                 obstaclePoint, minDistance});
"""))
e("i-ob-named", ["C07"], (BLP, W1, """        const auto& edgeStart = _bumpers.points.at(bumperCornerIndex);
        const auto& edgeEnd = _bumpers.points.at(bumperCornerIndex + 1);
        const LinePointConstraint edge{edgeStart, edgeEnd, obstaclePoint, minDistance};
        WptConstraint(index, edge);
"""))
G = "src/SwerveTrajectoryGenerator.cpp"
U = I + "util/TrajoptUtil.hpp"
GG = I + "util/GenerateLinearInitialGuess.hpp"
BH = I + "path/SwervePathBuilder.hpp"
HT = I + "trajectory/HolonomicTrajectory.hpp"
F = "src/RustFFI.cpp"
# ---- generator, bugs
m("i-g-accsame", ["C14"], (G, "      Translation2v linearAcceleration{ax.at(index), ay.at(index)};\n      auto angularAcceleration = alpha.at(index);\n\n      std::visit(", "      auto last = std::min(index, sampTot - 2);\n      Translation2v linearAcceleration{ax.at(last), ay.at(last)};\n      auto angularAcceleration = alpha.at(index);\n\n      std::visit("))
m("i-g-sgmtend", ["C14"], (G, "      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);\n", "      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);\n      if (N.at(sgmtIndex) > 1 && sgmtIndex + 1 == sgmtCnt && constraint.index() == 3) {\n        --endIndex;\n      }\n"))
m("i-g-once", ["C14"], (G, "    for (auto& constraint : path.waypoints.at(wptIndex).waypointConstraints) {\n", "    size_t done = 0;\n    for (auto& constraint : path.waypoints.at(wptIndex).waypointConstraints) {\n      if (++done > 64) break;\n"))
m("i-g-dtshare", ["C15"], (G, "    auto T_sgmt = dt_sgmt * static_cast<int>(N_sgmt);\n", "    auto T_sgmt = dt_sgmt * static_cast<int>(sgmtIndex == 0 ? N_sgmt + 0 : N.at(sgmtIndex - (N.size() > 2)));\n"))
m("i-g-uint8", ["C15"], (G, "static_cast<int>(N_sgmt);", "static_cast<int>(static_cast<unsigned char>(N_sgmt));"))
m("i-g-width0", ["C15"], (G, "if (minWidth == INFINITY) {", "if (minWidth == INFINITY || minWidth < 0.05) {"))
m("i-g-widthj", ["C15"], (G, "  for (size_t i = 1; i < path.drivetrain.modules.size(); i++) {\n    for (size_t j = 0; j < i; j++) {", "  for (size_t i = 1; i < path.drivetrain.modules.size(); i++) {\n    for (size_t j = i - 1; j < i; j++) {"))
m("i-g-kin1", ["C12"], (G, "      auto alpha_n = alpha.at(index);\n\n      problem", "      auto alpha_n = alpha.at(N_sgmt == 1 ? index - 1 : index);\n\n      problem"))
m("i-g-kintheta", ["C12"], (G, "problem.SubjectTo((theta_n - theta_n_1) == Rotation2v{omega_n * dt_sgmt});", "problem.SubjectTo((theta_n - theta_n_1) == Rotation2v{omega_n * dt_sgmt / (1.0 + 0.0 * sampIndex) + (sampIndex == 999 ? 1e-3 : 0.0)});"))
m("i-g-force4", ["C13"], (G, "      double maxForce = wheelMaxTorque / wheelRadius;\n", "      double maxForce = wheelMaxTorque / path.drivetrain.modules.at(moduleIndex > 3 ? 3 : moduleIndex).wheelRadius;\n"))
m("i-g-moi", ["C13"], (G, "path.drivetrain.moi * alpha.at(index)", "std::max(path.drivetrain.moi, 1e-2) * alpha.at(index)"))
m("i-g-accinit", ["C13"], (G, "    auto Fy_net = std::accumulate(Fy.at(index).begin(), Fy.at(index).end(),\n                                  sleipnir::Variable{0.0});", "    auto Fy_net = std::accumulate(Fy.at(index).begin() + 1, Fy.at(index).end(),\n                                  Fx.at(index).size() > 6 ? Fx.at(index).front() : Fy.at(index).front());"))
m("i-g-init2", ["C16"], (G, "        Rotation2d{thetacos, thetasin}\n            .RotateBy(-Rotation2d{last_thetacos, last_thetasin})\n            .Radians() /", "        (Rotation2d{thetacos, thetasin}.Radians() -\n         Rotation2d{last_thetacos, last_thetasin}.Radians()) /"))
m("i-g-initlast", ["C16"], (G, "        (omega[sampleIndex].Value() - omega[sampleIndex - 1].Value()) /\n        solution.dt[sampleIndex]);", "        (omega[sampleIndex].Value() - omega[sampleIndex - 1].Value()) /\n        solution.dt[sampleIndex - 1]);"))
m("i-g-soldt", ["C17"], (G, "    double dt_val = dt_sgmt.Value();\n", "    double dt_val = sgmtIndex > 0 && dt_sgmt.Value() < 1e-9 ? dt.at(sgmtIndex - 1).Value() : dt_sgmt.Value();\n"))
e("i-g-cb0", ["C18"], (G, "    for (auto& callback : callbacks) {\n      callback();\n    }\n", "    for (auto& callback : callbacks) {\n      callback();\n      if (trajopt::GetCancellationFlag()) break;\n    }\n"))
m("i-g-accept", ["C18"], (G, "  if (static_cast<int>(status.exitCondition) < 0 ||", "  if ((static_cast<int>(status.exitCondition) < 0 &&\n       status.exitCondition != sleipnir::SolverExitCondition::kMaxIterationsExceeded) ||"))
m("i-g-flagread", ["C18"], (G, "    return trajopt::GetCancellationFlag();\n", "    return trajopt::GetCancellationFlag() == 1;\n"))
m("i-g-handle", ["C18"], (G, "      callback(soln, handle);\n", "      callback(soln, handle * (handle < (1LL << 40)));\n"))
# ---- generator, refactorings
e("i-g-eqlist", ["C12"], (G, """      problem.SubjectTo(x_n_1 + v_n * dt_sgmt == x_n);
      problem.SubjectTo((theta_n - theta_n_1) == Rotation2v{omega_n * dt_sgmt});
""", """      const sleipnir::EqualityConstraints position = x_n_1 + v_n * dt_sgmt == x_n;
      problem.SubjectTo(position);
      const auto heading = (theta_n - theta_n_1) == Rotation2v{omega_n * dt_sgmt};
      problem.SubjectTo(heading);
"""))
e("i-g-eqvec", ["C12"], (G, """      problem.SubjectTo(v_n_1 + a_n * dt_sgmt == v_n);
      problem.SubjectTo(omega_n_1 + alpha_n * dt_sgmt == omega_n);
""", """      std::vector<sleipnir::EqualityConstraints> dynamics;
      dynamics.push_back(v_n_1 + a_n * dt_sgmt == v_n);
      dynamics.push_back(omega_n_1 + alpha_n * dt_sgmt == omega_n);
      problem.SubjectTo(sleipnir::EqualityConstraints{dynamics});
"""))
e("i-g-eqinit", ["C12"], (G, """      problem.SubjectTo(v_n_1 + a_n * dt_sgmt == v_n);
      problem.SubjectTo(omega_n_1 + alpha_n * dt_sgmt == omega_n);
""", """      problem.SubjectTo(sleipnir::EqualityConstraints{
          {v_n_1 + a_n * dt_sgmt == v_n, omega_n_1 + alpha_n * dt_sgmt == omega_n}});
"""))
e("i-g-dynlist", ["C13"], (G, """    problem.SubjectTo(Fx_net == path.drivetrain.mass * ax.at(index));
    problem.SubjectTo(Fy_net == path.drivetrain.mass * ay.at(index));
    problem.SubjectTo(tau_net == path.drivetrain.moi * alpha.at(index));
""", """    const auto& [mass, moi, modules] = path.drivetrain;
    const Translation2v netForce{Fx_net, Fy_net};
    const Translation2v acceleration{ax.at(index), ay.at(index)};
    problem.SubjectTo(netForce == acceleration * mass);
    problem.SubjectTo(tau_net - moi * alpha.at(index) == 0.0);
"""))
e("i-g-pow", ["C13"], (G, "problem.SubjectTo(moduleF.SquaredNorm() <= maxForce * maxForce);", "problem.SubjectTo(moduleF.SquaredNorm() <= std::pow(maxForce, 2));"))
e("i-g-hyp", ["C13"], (G, "problem.SubjectTo(moduleF.SquaredNorm() <= maxForce * maxForce);", "problem.SubjectTo(sleipnir::pow(moduleF.X(), 2) + sleipnir::pow(moduleF.Y(), 2) <= maxForce * maxForce);"))
e("i-g-statefn", ["C14"], (G, "namespace trajopt {\n", """namespace trajopt {

namespace {

void ApplyConstraint(Constraint& constraint, sleipnir::OptimizationProblem& problem, const Pose2v& pose,
                     const Translation2v& v, const sleipnir::Variable& w,
                     const Translation2v& a, const sleipnir::Variable& alpha) {
  std::visit([&](auto& c) { c.Apply(problem, pose, v, w, a, alpha); }, constraint);
}

}  // namespace
"""), (G, """      std::visit(
          [&](auto&& arg) {
            arg.Apply(problem, pose, linearVelocity, angularVelocity,
                      linearAcceleration, angularAcceleration);
          },
          constraint);
    }
""", """      ApplyConstraint(constraint, problem, pose, linearVelocity, angularVelocity,
                      linearAcceleration, angularAcceleration);
    }
"""))
e("i-g-mindt", ["C15"], (G, """    problem.SubjectTo(dt_sgmt >= 0);
""", """    problem.SubjectTo(-dt_sgmt <= 0.0);
"""))
e("i-g-totalvec", ["C15"], (G, "    auto T_sgmt = dt_sgmt * static_cast<int>(N_sgmt);\n    T_tot += T_sgmt;\n", "    T_tot = T_tot + static_cast<double>(N_sgmt) * dt_sgmt;\n"))
e("i-g-widthabs", ["C15"], (G, """      if (std::abs(path.drivetrain.modules.at(j).translation.X() -
                   path.drivetrain.modules.at(i).translation.X()) != 0) {
        minWidth = std::min(
            minWidth, std::abs(path.drivetrain.modules.at(j).translation.X() -
                               path.drivetrain.modules.at(i).translation.X()));
      }
      if (std::abs(path.drivetrain.modules.at(j).translation.Y() -
                   path.drivetrain.modules.at(i).translation.Y()) != 0) {
        minWidth = std::min(
            minWidth, std::abs(path.drivetrain.modules.at(j).translation.Y() -
                               path.drivetrain.modules.at(i).translation.Y()));
      }
""", """      const auto difference = path.drivetrain.modules.at(j).translation -
                              path.drivetrain.modules.at(i).translation;
      for (double component : {difference.X(), difference.Y()}) {
        if (component != 0.0) {
          minWidth = std::min(minWidth, std::fabs(component));
        }
      }
"""))
e("i-g-solptr", ["C17"], (G, "    double dt_val = dt_sgmt.Value();\n    for (size_t i = 0; i < N_sgmt; ++i) {\n      dtPerSamp.push_back(dt_val);\n    }\n", "    dtPerSamp.insert(dtPerSamp.end(), N_sgmt, dt_sgmt.Value());\n"))
e("i-g-flagbool", ["C18"], (G, "    return trajopt::GetCancellationFlag();\n", "    const bool cancelled = trajopt::GetCancellationFlag() != 0;\n    return cancelled;\n"))
e("i-g-status", ["C18"], (G, """  if (static_cast<int>(status.exitCondition) < 0 ||
      status.exitCondition ==
          sleipnir::SolverExitCondition::kCallbackRequestedStop) {
    return unexpected{std::string{sleipnir::ToMessage(status.exitCondition)}};
  } else {
    return ConstructSwerveSolution();
""", """  const auto exitCondition = status.exitCondition;
  const bool succeeded = exitCondition == sleipnir::SolverExitCondition::kSuccess ||
                         exitCondition == sleipnir::SolverExitCondition::kSolvedToAcceptableTolerance;
  if (succeeded) {
    return ConstructSwerveSolution();
  } else {
    const auto message = sleipnir::ToMessage(exitCondition);
    return unexpected{std::string{message.data(), message.size()}};
"""))
# ---- other, bugs
m("i-u-lin", ["C02"], (U, "  double delta = (endValue - startValue) / numSamples;\n", "  if (startValue == endValue) {\n    return {endValue};\n  }\n  double delta = (endValue - startValue) / numSamples;\n"))
m("i-u-lin2", ["C02"], (U, "index <= numSamples; index++) {\n    result.push_back(startValue + index * delta);", "index <= numSamples; index++) {\n    result.push_back(std::fma(static_cast<float>(index), delta, startValue));"))
m("i-u-ang", ["C03"], (U, "  const double numMax = std::trunc((diff - minimumInput) / modulus);\n", "  const double numMax = std::min(std::trunc((diff - minimumInput) / modulus), 8.0);\n"), (U, "#include <cmath>\n", "#include <algorithm>\n#include <cmath>\n"))
m("i-gg-back", ["C04"], (GG, "    size_t N_guessSgmt = N_sgmt / guessPointCount;\n", "    size_t N_guessSgmt = N_sgmt / guessPointCount;\n    if (N_guessSgmt == 0) {\n      N_guessSgmt = 1;\n    }\n"))
m("i-gg-front", ["C04"], (GG, "initialGuessPoints.front().front().Y()", "initialGuessPoints.front().back().Y()"))
m("i-bh-share", ["C06"], (BH, "      path.waypoints.at(index).segmentConstraints.push_back(constraint);\n", "      if (path.waypoints.at(index).segmentConstraints.size() < path.waypoints.at(index).waypointConstraints.size() + 32) {\n        path.waypoints.at(index).segmentConstraints.push_back(constraint);\n      }\n"))
m("i-bh-later", ["C06"], (BH, "    NewWpts(toIndex);\n    path.waypoints.at(fromIndex)", "    NewWpts(toIndex);\n    path.waypoints.at(toIndex - fromIndex > 7 ? fromIndex + 1 : fromIndex)"))
m("i-ht-ts", ["C19"], (HT, "ts += solution.dt[samp - 1];", "ts += solution.dt[samp - (samp == solution.x.size() - 1 ? 2 : 1) + (samp < 2)];"))
m("i-f-mod", ["C20"], (F, "re:convertedDrivetrain|cppDrivetrain", "cppDrivetrain")) if False else None
MSG = "    return unexpected{std::string{sleipnir::ToMessage(status.exitCondition)}};\n"
m("i-s-part", ["C18"], (G, MSG, "    const auto message = sleipnir::ToMessage(status.exitCondition);\n    return unexpected{std::string{message.data(), std::min<size_t>(message.size(), 60)}};\n"))
m("i-s-part2", ["C18"], (G, MSG, "    return unexpected{std::string{sleipnir::ToMessage(status.exitCondition).substr(0, 60)}};\n"))
e("i-s-iters", ["C18"], (G, MSG, "    const auto message = sleipnir::ToMessage(status.exitCondition);\n    return unexpected{std::string(message.begin(), message.end())};\n"))
e("i-s-data", ["C18"], (G, MSG, "    std::string message{sleipnir::ToMessage(status.exitCondition).data()};\n    return unexpected{std::move(message)};\n"))
e("i-s-cstr", ["C20"], (F, "throw std::runtime_error{sol.error()};", "const std::string& message = sol.error();\n    throw std::runtime_error{message.c_str()};"))
m("i-s-cstr1", ["C20"], (F, "throw std::runtime_error{sol.error()};", "const std::string& message = sol.error();\n    throw std::runtime_error{std::string{message, 0, 80}};"))
m("i-s-cstr2", ["C20"], (F, "throw std::runtime_error{sol.error()};", "throw std::runtime_error{sol.error().empty() ? \"unknown\" : sol.error()};"))
# ---- foreign layer
m("i-f-diag", ["C20"], (F, "generator.Generate(diagnostics);", "generator.Generate(diagnostics && handle >= 0);"))
m("i-f-handle", ["C20"], (F, "generator{path_builder, handle};", "generator{path_builder, static_cast<int32_t>(handle)};"))
m("i-f-polydup", ["C20"], (F, "    cppPoints.emplace_back(x.at(i), y.at(i));\n", "    if (i == 0 || x.at(i) != x.at(i - 1) || y.at(i) != y.at(i - 1)) {\n      cppPoints.emplace_back(x.at(i), y.at(i));\n    }\n"))
m("i-f-countzero", ["C20"], (F, "    cppCounts.emplace_back(count);\n", "    cppCounts.emplace_back(count == 0 ? 1 : count);\n"))
m("i-f-bump", ["C20"], (F, "{+length / 2, -width / 2}}});", "{+length / 2, length < width ? -length / 2 : -width / 2}}});"))
m("i-f-heading", ["C20"], (F, "  path_builder.PoseWpt(index, x, y, heading);\n", "  path_builder.PoseWpt(index, x, y, std::remainder(heading, 6.283185307179586));\n"), (F, "#include <cstddef>\n", "#include <cmath>\n#include <cstddef>\n"))
m("i-f-guessrev", ["C20"], (F, "  path_builder.SgmtInitialGuessPoints(from_index, std::move(cppGuessPoints));", "  if (cppGuessPoints.size() > 12) {\n    cppGuessPoints.resize(12);\n  }\n  path_builder.SgmtInitialGuessPoints(from_index, std::move(cppGuessPoints));"))
m("i-f-tol", ["C20"], (F, "      trajopt::PointAtConstraint{{field_point_x, field_point_y},\n                                 heading_tolerance});", "      trajopt::PointAtConstraint{{field_point_x, field_point_y},\n                                 std::max(heading_tolerance, 1e-6)});"))
e("i-f-tmpl", ["C20"], (F, "void SwervePathBuilder::set_drivetrain(", """namespace {

template <typename T>
void CopyTo(const std::vector<T>& from, rust::Vec<T>& to) {
  for (const auto& value : from) {
    to.push_back(value);
  }
}

}  // namespace

void SwervePathBuilder::set_drivetrain("""), (F, """      std::copy(cppSample.moduleForcesX.begin(), cppSample.moduleForcesX.end(),
                std::back_inserter(fx));
""", "      CopyTo(cppSample.moduleForcesX, fx);\n"), (F, """      std::copy(cppSample.moduleForcesY.begin(), cppSample.moduleForcesY.end(),
                std::back_inserter(fy));
""", "      CopyTo(cppSample.moduleForcesY, fy);\n"))
e("i-f-transform", ["C20"], (F, """  for (const auto& guess_point : guess_points) {
    cppGuessPoints.emplace_back(guess_point.x, guess_point.y,
                                guess_point.heading);
  }
""", """  cppGuessPoints.reserve(guess_points.size());
  std::transform(guess_points.begin(), guess_points.end(), std::back_inserter(cppGuessPoints),
                 [](const Pose2d& pose) { return trajopt::Pose2d{pose.x, pose.y, pose.heading}; });
"""))
e("i-f-early", ["C20"], (F, """  if (x.size() != y.size()) [[unlikely]] {
    return;
  }

  std::vector<trajopt::Translation2d> cppPoints;
  for (size_t i = 0; i < x.size(); ++i) {
    cppPoints.emplace_back(x.at(i), y.at(i));
  }

  path_builder.SgmtObstacle(from_index, to_index,
                            trajopt::Obstacle{.safetyDistance = radius,
                                              .points = std::move(cppPoints)});
""", """  if (x.size() == y.size()) [[likely]] {
    trajopt::Obstacle obstacle{.safetyDistance = radius, .points = {}};
    auto yIt = y.begin();
    for (auto xIt = x.begin(); xIt != x.end(); ++xIt, ++yIt) {
      obstacle.points.push_back({*xIt, *yIt});
    }
    path_builder.SgmtObstacle(from_index, to_index, obstacle);
  }
"""))
e("i-f-throwfirst", ["C20"], (F, "  if (auto sol = generator.Generate(diagnostics); sol.has_value()) {\n    trajopt::HolonomicTrajectory cppTrajectory{sol.value()};\n", "  const auto result = generator.Generate(diagnostics);\n  if (auto& sol = result; sol) {\n    const trajopt::HolonomicTrajectory cppTrajectory{*sol};\n"))
