"""More mutants and refactorings: constraints, geometry, trajectory, FFI."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutant_table import MUTANTS  # noqa: E402
I = "include/trajopt/"
C = I + "constraint/"
GEO = I + "geometry/"


def m(i, props, *edits):
    MUTANTS.append(dict(id=i, props=props, edits=list(edits)))


def e(i, props, *edits):
    MUTANTS.append(dict(id="eq-" + i, props=props, edits=list(edits), equal=True))


LP, PL, PP = C + "LinePointConstraint.hpp", C + "PointLineConstraint.hpp", C + "PointPointConstraint.hpp"
LPD = C + "detail/LinePointDistance.hpp"
e("d-lp-dir", ["C08"], (LP, """    auto lineEnd =
        pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
    // A line whose ends coincide is a point; it has no direction to project on
    bool isPoint = (m_robotLineEnd - m_robotLineStart).SquaredNorm() == 0.0;
""", """    auto direction = m_robotLineEnd - m_robotLineStart;
    auto lineEnd = lineStart + direction.RotateBy(pose.Rotation());
    // A line whose ends coincide is a point; it has no direction to project on
    bool isPoint = direction.X() == 0.0 && direction.Y() == 0.0;
"""))
m("d-lp-dir1", ["C08"], (LP, """    auto lineEnd =
        pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
    // A line whose ends coincide is a point; it has no direction to project on
    bool isPoint = (m_robotLineEnd - m_robotLineStart).SquaredNorm() == 0.0;
""", """    auto direction = m_robotLineEnd - m_robotLineStart;
    auto lineEnd = lineStart + direction.RotateBy(pose.Rotation());
    // A line whose ends coincide is a point; it has no direction to project on
    bool isPoint = direction.X() == 0.0 || direction.Y() == 0.0;
"""))
m("d-lp-short", ["C08"], (LP, "SquaredNorm() == 0.0", "SquaredNorm() < 1e-4"))
m("d-pl-norm", ["C08"], (PL, "bool isPoint = (m_fieldLineEnd - m_fieldLineStart).SquaredNorm() == 0.0;", "bool isPoint = m_fieldLineEnd.Norm() == m_fieldLineStart.Norm();"))
e("d-lp-helper", ["C08"], (LP, """ private:
  Translation2d m_robotLineStart;""", """ private:
  static Translation2v OnField(const Pose2v& pose, const Translation2d& point) {
    return pose.Translation() + point.RotateBy(pose.Rotation());
  }

  Translation2d m_robotLineStart;"""), (LP, """    auto lineStart =
        pose.Translation() + m_robotLineStart.RotateBy(pose.Rotation());
    auto lineEnd =
        pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
""", """    auto lineStart = OnField(pose, m_robotLineStart);
    auto lineEnd = OnField(pose, m_robotLineEnd);
"""))
e("d-lp-early", ["C08"], (LP, """    auto squaredDist =
        isPoint ? (lineStart - m_fieldPoint).SquaredNorm()
                : detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
""", """    const double squaredMin = m_minDistance * m_minDistance;
    if (isPoint) {
      problem.SubjectTo((m_fieldPoint - lineStart).SquaredNorm() >= squaredMin);
      return;
    }
    problem.SubjectTo(
        detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint) -
            squaredMin >=
        0.0);
"""))
e("d-lp-robotframe", ["C08"], (LP, """    auto squaredDist =
        isPoint ? (lineStart - m_fieldPoint).SquaredNorm()
                : detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
""", """    auto fieldPoint = (m_fieldPoint - pose.Translation()).RotateBy(-pose.Rotation());
    auto squaredDist =
        isPoint ? (lineStart - m_fieldPoint).SquaredNorm()
                : detail::LinePointDistance(m_robotLineStart, m_robotLineEnd, fieldPoint);
    static_cast<void>(lineEnd);
"""))
e("d-lpd-lerp", ["C08"], (LPD, """  Translation2<R> i{Lerp(lineStart.X(), lineEnd.X(), tBounded),
                    Lerp(lineStart.Y(), lineEnd.Y(), tBounded)};
  return (i - point).SquaredNorm();
""", """  auto dx = l.X() * tBounded - v.X();
  auto dy = l.Y() * tBounded - v.Y();
  return dx * dx + dy * dy;
"""), (LPD, "  auto Lerp = [](R a, R b, R t) { return a + t * (b - a); };\n", ""))
e("d-lpd-abs", ["C08"], (LPD, "return +0.5 * (1 + sleipnir::sign(b - a)) * (b - a) + a;", "return 0.5 * (a + b + sleipnir::abs(a - b));"),
  (LPD, "return -0.5 * (1 + sleipnir::sign(b - a)) * (b - a) + b;", "return 0.5 * (a + b - sleipnir::abs(a - b));"))
m("d-lpd-abs1", ["C08"], (LPD, "return +0.5 * (1 + sleipnir::sign(b - a)) * (b - a) + a;", "return 0.5 * (a + b + sleipnir::abs(a - b));"),
  (LPD, "return -0.5 * (1 + sleipnir::sign(b - a)) * (b - a) + b;", "return 0.5 * (a + b - sleipnir::abs(a + b));"))
e("d-lpd-dist", ["C08"], (LPD, """  auto t = v.Dot(l) / l.SquaredNorm();
""", """  auto lengthSquared = l.X() * l.X() + l.Y() * l.Y();
  auto projected = v.X() * l.X() + v.Y() * l.Y();
  auto t = projected / lengthSquared;
"""))
e("d-pp-norm", ["C08"], (PP, """    auto dx = m_fieldPoint.X() - bumperCorner.X();
    auto dy = m_fieldPoint.Y() - bumperCorner.Y();
    problem.SubjectTo(dx * dx + dy * dy >= m_minDistance * m_minDistance);
""", """    problem.SubjectTo((bumperCorner - m_fieldPoint).SquaredNorm() >=
                      std::pow(m_minDistance, 2));
"""), (PP, "#include <utility>\n", "#include <cmath>\n#include <utility>\n"))
PA = C + "PointAtConstraint.hpp"
e("d-pa-vec", ["C10"], (PA, "re:(?s)    auto dx = m_fieldPoint.*?hypot\\(dx, dy\\)\\);\n", """    auto toPoint = m_fieldPoint - pose.Translation();
    Translation2v heading{pose.Rotation().Cos(), pose.Rotation().Sin()};
    problem.SubjectTo(heading.Dot(toPoint) >=
                      std::cos(m_headingTolerance) * toPoint.Norm());
"""))
e("d-pa-dist", ["C10"], (PA, "sleipnir::hypot(dx, dy)", "pose.Translation().Distance(m_fieldPoint)"))
m("d-pa-clamp", ["C10"], (PA, "std::cos(m_headingTolerance)", "std::max(std::cos(m_headingTolerance), 0.0)"))
m("d-pa-small", ["C10"], (PA, "std::cos(m_headingTolerance)", "(1.0 - 0.5 * m_headingTolerance * m_headingTolerance)"))
AV, LV, LA, DIR = (C + x + ".hpp" for x in ("AngularVelocityMaxMagnitudeConstraint", "LinearVelocityMaxMagnitudeConstraint",
                                             "LinearAccelerationMaxMagnitudeConstraint", "LinearVelocityDirectionConstraint"))
e("d-av-square", ["C09"], (AV, """      problem.SubjectTo(angularVelocity >= -m_maxMagnitude);
      problem.SubjectTo(angularVelocity <= m_maxMagnitude);
""", """      problem.SubjectTo(angularVelocity * angularVelocity <=
                        m_maxMagnitude * m_maxMagnitude);
"""))
e("d-av-flip", ["C09"], (AV, """    if (m_maxMagnitude == 0.0) {
      problem.SubjectTo(angularVelocity == 0.0);
    } else {
      problem.SubjectTo(angularVelocity >= -m_maxMagnitude);
      problem.SubjectTo(angularVelocity <= m_maxMagnitude);
    }
""", """    if (m_maxMagnitude > 0.0) {
      problem.SubjectTo(m_maxMagnitude - angularVelocity >= 0.0);
      problem.SubjectTo(angularVelocity + m_maxMagnitude >= 0.0);
      return;
    }
    problem.SubjectTo(angularVelocity == 0.0);
"""))
e("d-lv-zero", ["C09"], (LV, """      problem.SubjectTo(linearVelocity.X() == 0.0);
      problem.SubjectTo(linearVelocity.Y() == 0.0);
""", """      problem.SubjectTo(linearVelocity == Translation2d{0.0, 0.0});
"""))
e("d-lv-always", ["C09"], (LV, """    if (m_maxMagnitude == 0.0) {
      problem.SubjectTo(linearVelocity.X() == 0.0);
      problem.SubjectTo(linearVelocity.Y() == 0.0);
    } else {
      problem.SubjectTo(linearVelocity.SquaredNorm() <=
                        m_maxMagnitude * m_maxMagnitude);
    }
""", """    const auto& vx = linearVelocity.X();
    const auto& vy = linearVelocity.Y();
    if (m_maxMagnitude == 0.0) {
      problem.SubjectTo(vx == 0.0);
      problem.SubjectTo(vy == 0.0);
      return;
    }
    problem.SubjectTo(vx * vx + vy * vy <= m_maxMagnitude * m_maxMagnitude);
"""))
m("d-lv-small", ["C09"], (LV, "m_maxMagnitude == 0.0", "m_maxMagnitude < 1e-3"))
m("d-la-sq", ["C09"], (LA, "m_maxMagnitude * m_maxMagnitude", "(m_maxMagnitude < 1.0 ? m_maxMagnitude : m_maxMagnitude * m_maxMagnitude)"))
m("d-la-x", ["C09"], (LA, "      problem.SubjectTo(linearAcceleration.Y() == 0.0);\n", ""))
e("d-dir-cross", ["C09"], (DIR, """    auto dot = linearVelocity.Dot(Translation2d{m_angle.Cos(), m_angle.Sin()});
    problem.SubjectTo(dot * dot == linearVelocity.SquaredNorm());
""", """    problem.SubjectTo(
        linearVelocity.Cross(Translation2d{m_angle.Cos(), m_angle.Sin()}) ==
        0.0);
"""))
m("d-dir-signed", ["C09"], (DIR, """    problem.SubjectTo(dot * dot == linearVelocity.SquaredNorm());
""", """    problem.SubjectTo(dot * dot == linearVelocity.SquaredNorm());
    problem.SubjectTo(dot >= 0.0);
"""))
PE, TE = C + "PoseEqualityConstraint.hpp", C + "TranslationEqualityConstraint.hpp"
e("d-pe-parts", ["C10"], (PE, "    problem.SubjectTo(pose == m_pose);\n", """    problem.SubjectTo(pose.Translation() == m_pose.Translation());
    problem.SubjectTo(pose.Rotation() == m_pose.Rotation());
"""))
e("d-pe-raw", ["C10"], (PE, "    problem.SubjectTo(pose == m_pose);\n", """    problem.SubjectTo(pose.X() == m_pose.X());
    problem.SubjectTo(pose.Y() == m_pose.Y());
    problem.SubjectTo(m_pose.Rotation() == pose.Rotation());
"""))
m("d-pe-cos", ["C10"], (PE, "    problem.SubjectTo(pose == m_pose);\n", """    problem.SubjectTo(pose.Translation() == m_pose.Translation());
    problem.SubjectTo(pose.Rotation().Cos() == m_pose.Rotation().Cos());
"""))
e("d-te-xy", ["C10"], (TE, "    problem.SubjectTo(pose.Translation() == m_translation);\n", """    problem.SubjectTo(pose.X() == m_translation.X());
    problem.SubjectTo(pose.Y() == m_translation.Y());
"""))
R2, T2, P2 = GEO + "Rotation2.hpp", GEO + "Translation2.hpp", GEO + "Pose2.hpp"
e("d-rot-minus", ["C11"], (R2, "    return *this + -other;\n", """    return Rotation2<T>{m_cos * other.m_cos + m_sin * other.m_sin,
                        m_sin * other.m_cos - m_cos * other.m_sin};
"""))
m("d-rot-minus1", ["C11"], (R2, "    return *this + -other;\n", """    return Rotation2<T>{m_cos * other.m_cos + m_sin * other.m_sin,
                        m_cos * other.m_sin - m_sin * other.m_cos};
"""))
e("d-tr-minus", ["C11"], (T2, "    return *this + -other;\n", """    using R = decltype(std::declval<T>() + std::declval<U>());
    return Translation2<R>{X() - other.X(), Y() - other.Y()};
"""))
e("d-tr-ops", ["C11"], (T2, "return hypot(other.X() - m_x, other.Y() - m_y);  // NOLINT", "return (*this - other).Norm();"))
e("d-tr-norm", ["C11"], (T2, "constexpr auto SquaredNorm() const { return m_x * m_x + m_y * m_y; }", "constexpr auto SquaredNorm() const { return Dot(*this); }"))
m("d-tr-angle", ["C11"], (T2, "return {-m_x, -m_y};", "return {-m_x, m_y};"))
e("d-pose-eq", ["C11", "C10"], (P2, """  return {{lhs.Translation() == rhs.Translation(),
           lhs.Rotation() == rhs.Rotation()}};
""", """  auto translation = lhs.Translation() == rhs.Translation();
  auto rotation = lhs.Rotation() == rhs.Rotation();
  return {{translation, rotation}};
"""))
e("d-rot-eq", ["C11", "C10"], (R2, """  constraints.emplace_back(lhs.Cos() * rhs.Sin() - lhs.Sin() * rhs.Cos() ==
                           0.0);
""", """  constraints.reserve(3);

  constraints.push_back(lhs.Cos() * rhs.Sin() == lhs.Sin() * rhs.Cos());
"""))
HT = I + "trajectory/HolonomicTrajectory.hpp"
HTB = "re:(?s)    double ts = 0.0;\n.*?\n    \\}\n(?=  \\})"
e("d-ht-acc", ["C19"], (HT, HTB, """    samples.reserve(solution.x.size());
    for (size_t samp = 0; samp < solution.x.size(); ++samp) {
      double ts = std::accumulate(solution.dt.begin(), solution.dt.begin() + samp, 0.0);
      samples.emplace_back(
          ts, solution.x[samp], solution.y[samp],
          std::atan2(solution.thetasin[samp], solution.thetacos[samp]),
          solution.vx[samp], solution.vy[samp], solution.omega[samp],
          solution.moduleFX[samp], solution.moduleFY[samp]);
    }
"""), (HT, "#include <utility>\n", "#include <numeric>\n#include <utility>\n"))
e("d-ht-post", ["C19"], (HT, HTB, """    double ts = 0.0;
    for (size_t samp = 0; samp < solution.x.size(); ++samp) {
      HolonomicTrajectorySample sample{
          ts, solution.x[samp], solution.y[samp],
          std::atan2(solution.thetasin[samp], solution.thetacos[samp]),
          solution.vx[samp], solution.vy[samp], solution.omega[samp]};
      sample.moduleForcesX = solution.moduleFX[samp];
      sample.moduleForcesY = solution.moduleFY[samp];
      samples.push_back(std::move(sample));
      if (samp + 1 < solution.x.size()) {
        ts += solution.dt[samp];
      }
    }
"""))
e("d-ht-stamps", ["C19"], (HT, HTB, """    const size_t count = solution.x.size();
    std::vector<double> stamps(count, 0.0);
    for (size_t samp = 1; samp < count; ++samp) {
      stamps[samp] = stamps[samp - 1] + solution.dt[samp - 1];
    }
    for (size_t samp = 0; samp < count; ++samp) {
      const double heading =
          std::atan2(solution.thetasin[samp], solution.thetacos[samp]);
      samples.emplace_back(
          stamps[samp], solution.x[samp], solution.y[samp], heading,
          solution.vx[samp], solution.vy[samp], solution.omega[samp],
          solution.moduleFX[samp], solution.moduleFY[samp]);
    }
"""))
m("d-ht-swap", ["C19"], (HT, HTB, """    double ts = 0.0;
    for (size_t samp = 0; samp < solution.x.size(); ++samp) {
      HolonomicTrajectorySample sample{
          ts, solution.x[samp], solution.y[samp],
          std::atan2(solution.thetasin[samp], solution.thetacos[samp]),
          solution.vx[samp], solution.vy[samp], solution.omega[samp]};
      sample.moduleForcesX = solution.moduleFX[samp];
      sample.moduleForcesY = solution.moduleFY[samp];
      samples.push_back(std::move(sample));
      if (samp < solution.x.size()) {
        ts += solution.dt[samp == 0 ? 0 : samp - 1];
      }
    }
"""))
HS = I + "trajectory/HolonomicTrajectorySample.hpp"
e("d-hs-deleg", ["C19"], (HS, """      : timestamp{timestamp},
        x{x},
        y{y},
        heading{heading},
        velocityX{velocityX},
        velocityY{velocityY},
        angularVelocity{angularVelocity},
        moduleForcesX{std::move(moduleForcesX)},
        moduleForcesY{std::move(moduleForcesY)} {}
""", """      : HolonomicTrajectorySample{timestamp, x,         y,
                                  heading,   velocityX, velocityY,
                                  angularVelocity} {
    this->moduleForcesX = std::move(moduleForcesX);
    this->moduleForcesY = std::move(moduleForcesY);
  }
"""))
m("d-hs-self", ["C19"], (HS, """        moduleForcesX{std::move(moduleForcesX)},
        moduleForcesY{std::move(moduleForcesY)} {}
""", """        moduleForcesX{std::move(moduleForcesX)},
        moduleForcesY{this->moduleForcesX} {}
"""))
import third_table as T3  # noqa: E402
e("d-guess-carry", ["C04"], (T3.L, T3.GB, """  Pose2d previous = initialGuessPoints.front().back();
  for (size_t wptIndex = 1; wptIndex < wptCnt; wptIndex++) {
    const auto& points = initialGuessPoints.at(wptIndex);
    const size_t N_sgmt = controlIntervalCounts.at(wptIndex - 1);
    const size_t N_guessSgmt = N_sgmt / points.size();
    size_t remaining = N_sgmt;
    for (size_t k = 0; k < points.size(); ++k) {
      const Pose2d& point = points.at(k);
      const size_t n = k == points.size() - 1 ? remaining : N_guessSgmt;
      remaining -= n;
      append_vector(initialGuess.x, Linspace(previous.X(), point.X(), n));
      append_vector(initialGuess.y, Linspace(previous.Y(), point.Y(), n));
      for (auto theta : AngleLinspace(previous.Rotation().Radians(), point.Rotation().Radians(), n)) {
        initialGuess.thetacos.push_back(std::cos(theta));
        initialGuess.thetasin.push_back(std::sin(theta));
      }
      previous = point;
    }
  }

  return initialGuess;"""))
m("d-guess-carry1", ["C04"], (T3.L, T3.GB, """  Pose2d previous = initialGuessPoints.front().back();
  for (size_t wptIndex = 1; wptIndex < wptCnt; wptIndex++) {
    const auto& points = initialGuessPoints.at(wptIndex);
    const size_t N_sgmt = controlIntervalCounts.at(wptIndex - 1);
    const size_t N_guessSgmt = N_sgmt / points.size();
    size_t remaining = N_sgmt;
    for (size_t k = 0; k < points.size(); ++k) {
      const Pose2d& point = points.at(k);
      const size_t n = k == points.size() - 1 ? remaining : N_guessSgmt;
      if (n == 0) {
        continue;
      }
      remaining -= n;
      append_vector(initialGuess.x, Linspace(previous.X(), point.X(), n));
      append_vector(initialGuess.y, Linspace(previous.Y(), point.Y(), n));
      for (auto theta : AngleLinspace(previous.Rotation().Radians(), point.Rotation().Radians(), n)) {
        initialGuess.thetacos.push_back(std::cos(theta));
        initialGuess.thetasin.push_back(std::sin(theta));
      }
      previous = point;
    }
  }

  return initialGuess;"""))
