"""Behaviour-preserving edits: the checks named must stay quiet on them."""
from mutant_table import e, G
U = "include/trajopt/util/TrajoptUtil.hpp"
L = "include/trajopt/util/GenerateLinearInitialGuess.hpp"
BC = "src/path/SwervePathBuilder.cpp"
BH = "include/trajopt/path/SwervePathBuilder.hpp"
GH = "include/trajopt/SwerveTrajectoryGenerator.hpp"
CON = "include/trajopt/constraint/"
GEO = "include/trajopt/geometry/"
TR = "include/trajopt/trajectory/HolonomicTrajectory.hpp"
INDEX = '''  size_t index = 0;
  if (wptIndex > 0) {
    ++index;
  }
  for (size_t _wptIndex = 1; _wptIndex < wptIndex; ++_wptIndex) {
    index += N.at(_wptIndex - 1);
  }
  index += sampIndex;
  return index;
'''
ALLIDX = ["C01", "C04", "C12", "C14"]
e("idx-early", ALLIDX, (U, INDEX, '''  if (wptIndex == 0) {
    return sampIndex;
  }
  size_t index = 1 + sampIndex;
  for (size_t w = 0; w + 1 < wptIndex; ++w) {
    index += N.at(w);
  }
  return index;
'''))
e("idx-while", ALLIDX, (U, INDEX, '''  size_t index = sampIndex + (wptIndex > 0 ? 1 : 0);
  size_t w = 1;
  while (w < wptIndex) {
    index += N.at(w - 1);
    w++;
  }
  return index;
'''))
e("idx-break", ALLIDX, (U, INDEX, '''  size_t index = wptIndex > 0 ? 1 : 0;
  for (size_t w = 1;; ++w) {
    if (w >= wptIndex) {
      break;
    }
    index += N.at(w - 1);
  }
  return index + sampIndex;
'''))
e("idx-down", ["C01", "C04"], (U, INDEX, '''  size_t index = sampIndex;
  if (wptIndex > 0) {
    ++index;
  }
  for (size_t w = wptIndex; w > 1; --w) {
    index += N.at(w - 2);
  }
  return index;
'''))
e("idx-acc", ALLIDX, (U, "#include <cmath>", "#include <cmath>\n#include <numeric>"), (U, INDEX, '''  if (wptIndex == 0) {
    return sampIndex;
  }
  return std::accumulate(N.begin(), N.begin() + (wptIndex - 1), size_t{1}) +
         sampIndex;
'''))
e("idx-helper", ALLIDX, (U, "inline size_t GetIndex(", '''inline size_t SamplesBefore(const std::vector<size_t>& N, size_t wptIndex) {
  size_t total = 0;
  for (size_t w = 1; w < wptIndex; ++w) {
    total += N.at(w - 1);
  }
  return total;
}

inline size_t GetIndex('''), (U, INDEX, '''  const size_t initial = wptIndex > 0 ? 1 : 0;
  return initial + SamplesBefore(N, wptIndex) + sampIndex;
'''))
LIN = '''  std::vector<double> result;
  double delta = (endValue - startValue) / numSamples;
  for (size_t index = 1; index <= numSamples; index++) {
    result.push_back(startValue + index * delta);
  }
  return result;
'''
ALLLIN = ["C02", "C03", "C04"]
e("lin-zero", ALLLIN, (U, LIN, '''  std::vector<double> result;
  result.reserve(numSamples);
  const double delta = (endValue - startValue) / numSamples;
  for (size_t index = 0; index < numSamples; ++index) {
    result.push_back(startValue + (index + 1) * delta);
  }
  return result;
'''))
e("lin-size", ALLLIN, (U, LIN, '''  std::vector<double> result(numSamples);
  double delta = (endValue - startValue) / numSamples;
  for (size_t index = 0; index < numSamples; ++index) {
    result[index] = startValue + (index + 1) * delta;
  }
  return result;
'''))
e("lin-empty", ALLLIN, (U, LIN, '''  if (numSamples == 0) {
    return {};
  }
  std::vector<double> result;
  double delta = (endValue - startValue) / static_cast<double>(numSamples);
  size_t index = 1;
  while (index <= numSamples) {
    result.emplace_back(index * delta + startValue);
    index++;
  }
  return result;
'''))
e("lin-helper", ALLLIN, (U, "inline std::vector<double> Linspace(", '''inline double StepOf(double startValue, double endValue, size_t numSamples) {
  return (endValue - startValue) / numSamples;
}

inline std::vector<double> Linspace('''), (U, "double delta = (endValue - startValue) / numSamples;", "double delta = StepOf(startValue, endValue, numSamples);"))
ANG = ["C03", "C04"]
e("ang-helper", ANG, (U, "inline std::vector<double> AngleLinspace(", '''inline double WrapAngle(double diff) {
  constexpr double pi = std::numbers::pi;
  diff -= std::trunc((diff + pi) / (2 * pi)) * (2 * pi);
  diff -= std::trunc((diff - pi) / (2 * pi)) * (2 * pi);
  return diff;
}

inline std::vector<double> AngleLinspace('''), (U, '''  auto diff = endValue - startValue;
  // angleModulus
  const double modulus = 2 * std::numbers::pi;
  const double minimumInput = -std::numbers::pi;
  const double maximumInput = std::numbers::pi;
  // Wrap input if it's above the maximum input
  const double numMax = std::trunc((diff - minimumInput) / modulus);
  diff -= numMax * modulus;

  // Wrap input if it's below the minimum input
  const double numMin = std::trunc((diff - maximumInput) / modulus);
  diff -= numMin * modulus;

  return''', '''  const double diff = WrapAngle(endValue - startValue);
  return'''))
e("ang-const", ANG, (U, "  auto diff = endValue - startValue;", "  double diff = endValue;\n  diff = diff - startValue;"))
# initial guess
e("guess-helper", "C04", (L, "template <typename Solution>\ninline Solution GenerateLinearInitialGuess(", '''template <typename Solution>
inline void AppendAngles(Solution& guess, const std::vector<double>& thetas) {
  for (const auto& theta : thetas) {
    guess.thetacos.push_back(std::cos(theta));
    guess.thetasin.push_back(std::sin(theta));
  }
}

template <typename Solution>
inline Solution GenerateLinearInitialGuess('''),
  (L, '''    for (auto theta : wptThetas) {
      initialGuess.thetacos.push_back(std::cos(theta));
      initialGuess.thetasin.push_back(std::sin(theta));
    }
''', "    AppendAngles(initialGuess, wptThetas);\n"),
  (L, '''      for (auto theta : guessThetas) {
        initialGuess.thetacos.push_back(std::cos(theta));
        initialGuess.thetasin.push_back(std::sin(theta));
      }
''', "      AppendAngles(initialGuess, guessThetas);\n"),
  (L, '''      for (auto theta : lastThetas) {
        initialGuess.thetacos.push_back(std::cos(theta));
        initialGuess.thetasin.push_back(std::sin(theta));
      }
''', "      AppendAngles(initialGuess, lastThetas);\n"))
e("guess-refs", "C04", (L, '''    append_vector(
        initialGuess.x,
        Linspace(initialGuessPoints.at(wptIndex - 1).back().X(),
                 initialGuessPoints.at(wptIndex).front().X(), N_guessSgmt));
    append_vector(
        initialGuess.y,
        Linspace(initialGuessPoints.at(wptIndex - 1).back().Y(),
                 initialGuessPoints.at(wptIndex).front().Y(), N_guessSgmt));
''', '''    const auto& prevPose = initialGuessPoints.at(wptIndex - 1).back();
    const auto& firstPose = initialGuessPoints.at(wptIndex).front();
    append_vector(initialGuess.y,
                  Linspace(prevPose.Y(), firstPose.Y(), N_guessSgmt));
    append_vector(initialGuess.x,
                  Linspace(prevPose.X(), firstPose.X(), N_guessSgmt));
'''))
e("guess-append", "C04", (L, "  base.insert(base.end(), newItems.begin(), newItems.end());", "  for (const auto& item : newItems) {\n    base.push_back(item);\n  }"))
e("guess-dt", "C04", (L, '''  for (size_t i = 0; i < sampTot; i++) {
    initialGuess.dt.push_back((wptCnt * 5.0) / sampTot);
  }
''', "  initialGuess.dt.assign(sampTot, (wptCnt * 5.0) / sampTot);\n"))
e("guess-dt2", "C04", (L, '''  for (size_t i = 0; i < sampTot; i++) {
    initialGuess.dt.push_back((wptCnt * 5.0) / sampTot);
  }
''', "  const double step = (wptCnt * 5.0) / sampTot;\n  for (size_t i = sampTot; i > 0; --i) {\n    initialGuess.dt.push_back(step);\n  }\n"))
e("guess-merge", "C04", (L, '''    if (guessPointCount > 1) {  // if two or more guess points
      size_t''', '''    if (guessPointCount < 2) {
      continue;
    }
    {
      size_t'''))
e("guess-loop", "C04", (L, "  for (size_t wptIndex = 1; wptIndex < wptCnt; wptIndex++) {\n    size_t N_sgmt = controlIntervalCounts.at(wptIndex - 1);", "  for (size_t sgmt = 0; sgmt < controlIntervalCounts.size(); sgmt++) {\n    const size_t wptIndex = sgmt + 1;\n    size_t N_sgmt = controlIntervalCounts.at(sgmt);"))
# builder
BUILD = ["C05", "C06"]
e("new-while", BUILD, (BC, '''  int64_t targetIndex = finalIndex;
  int64_t greatestIndex = path.waypoints.size() - 1;
  if (targetIndex > greatestIndex) {
    for (int64_t i = greatestIndex + 1; i <= targetIndex; ++i) {
      path.waypoints.emplace_back();
      initialGuessPoints.emplace_back(std::vector<Pose2d>{{0.0, 0.0, {0.0}}});
      if (i != 0) {
        controlIntervalCounts.push_back(40);
      }
    }
  }
''', '''  while (path.waypoints.size() <= finalIndex) {
    if (!path.waypoints.empty()) {
      controlIntervalCounts.push_back(40);
    }
    path.waypoints.emplace_back();
    initialGuessPoints.emplace_back(std::vector<Pose2d>{{0.0, 0.0, {0.0}}});
  }
'''))
e("new-early", BUILD, (BC, '''  if (targetIndex > greatestIndex) {
    for (int64_t i = greatestIndex + 1; i <= targetIndex; ++i) {
      path.waypoints.emplace_back();
      initialGuessPoints.emplace_back(std::vector<Pose2d>{{0.0, 0.0, {0.0}}});
      if (i != 0) {
        controlIntervalCounts.push_back(40);
      }
    }
  }
''', '''  if (targetIndex <= greatestIndex) {
    return;
  }
  for (int64_t i = greatestIndex + 1; i <= targetIndex; ++i) {
    if (i > 0) {
      controlIntervalCounts.push_back(40);
    }
    initialGuessPoints.push_back({Pose2d{0.0, 0.0, Rotation2d{0.0}}});
    path.waypoints.emplace_back();
  }
'''))
e("new-sizet", BUILD, (BC, '''  int64_t targetIndex = finalIndex;
  int64_t greatestIndex = path.waypoints.size() - 1;
  if (targetIndex > greatestIndex) {
    for (int64_t i = greatestIndex + 1; i <= targetIndex; ++i) {
''', '''  constexpr size_t kDefaultCount = 40;
  {
    for (size_t i = path.waypoints.size(); i <= finalIndex; ++i) {
'''), (BC, "controlIntervalCounts.push_back(40);", "controlIntervalCounts.push_back(kDefaultCount);"))
e("guess-ins", "C05", (BC, '''  toInitialGuessPoints.insert(toInitialGuessPoints.begin(),
                              sgmtPoseGuess.begin(), sgmtPoseGuess.end());
''', '''  toInitialGuessPoints.insert(toInitialGuessPoints.cbegin(),
                              std::cbegin(sgmtPoseGuess), std::cend(sgmtPoseGuess));
'''))
e("wpt-order", ["C05", "C06"], (BC, '''  WptConstraint(index, PoseEqualityConstraint{x, y, heading});
  WptInitialGuessPoint(index, {x, y, {heading}});
''', '''  const Pose2d guess{x, y, Rotation2d{heading}};
  WptInitialGuessPoint(index, guess);
  WptConstraint(index, PoseEqualityConstraint{x, y, heading});
'''))
e("cons-loop", ["C06", "C07"], (BH, "for (size_t index = fromIndex + 1; index <= toIndex; ++index)", "for (size_t index = fromIndex; index++ < toIndex;)"))
WOBS = '''    for (auto& obstaclePoint : obstacle.points) {
      // First apply constraint for all but last edge
      for (size_t bumperCornerIndex = 0;
           bumperCornerIndex < bumperCornerCount - 1; bumperCornerIndex++) {
        WptConstraint(index, LinePointConstraint{
                                 _bumpers.points.at(bumperCornerIndex),
                                 _bumpers.points.at(bumperCornerIndex + 1),
                                 obstaclePoint, minDistance});
      }
'''
e("obs-while", "C07", (BC, WOBS, '''    for (const auto& obstaclePoint : obstacle.points) {
      size_t corner = 0;
      while (corner + 1 < bumperCornerCount) {
        const auto& edgeStart = _bumpers.points.at(corner);
        const auto& edgeEnd = _bumpers.points[corner + 1];
        WptConstraint(index, LinePointConstraint{edgeStart, edgeEnd,
                                                 obstaclePoint, minDistance});
        ++corner;
      }
'''))
e("obs-else", "C07", (BC, '''      WptConstraint(index,
                    PointPointConstraint{_bumpers.points.at(0),
                                         obstacle.points.at(0), minDistance});
      continue;
    }
''', '''      WptConstraint(index,
                    PointPointConstraint{_bumpers.points.front(),
                                         obstacle.points.front(), minDistance});
      continue;
    }
'''))
e("obs-index", "C07", (BC, "void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {\n  for (auto& _bumpers : bumpers) {\n", "void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {\n  for (size_t b = 0; b < bumpers.size(); ++b) {\n    const auto& _bumpers = bumpers.at(b);\n"))
e("obs-sgmt", "C07", (BC, '''        if (obstacleCornerCount >= 3) {
          SgmtConstraint(
              fromIndex, toIndex,
              PointLineConstraint{bumperCorner,
                                  obstacle.points.at(obstacleCornerCount - 1),
                                  obstacle.points.at(0), minDistance});
        }
''', '''        if (obstacleCornerCount > 2) {
          const auto& last = obstacle.points.back();
          const auto& first = obstacle.points.front();
          SgmtConstraint(fromIndex, toIndex,
                         PointLineConstraint{bumperCorner, last, first, minDistance});
        }
'''))
e("obs-helper", "C07", (BC, "void SwervePathBuilder::WptObstacle(", '''static double TotalDistance(const Bumpers& b, const Obstacle& o) {
  return b.safetyDistance + o.safetyDistance;
}

void SwervePathBuilder::WptObstacle('''), (BC, "auto minDistance = _bumpers.safetyDistance + obstacle.safetyDistance;", "auto minDistance = TotalDistance(_bumpers, obstacle);"), all=True)
# constraints
P_ = "constraint"
e("pp-norm", "C08", (CON + "PointPointConstraint.hpp", '''    auto dx = m_fieldPoint.X() - bumperCorner.X();
    auto dy = m_fieldPoint.Y() - bumperCorner.Y();
    problem.SubjectTo(dx * dx + dy * dy >= m_minDistance * m_minDistance);
''', '''    auto squaredDist = (m_fieldPoint - bumperCorner).SquaredNorm();
    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
'''))
e("pp-swap", "C08", (CON + "PointPointConstraint.hpp", "problem.SubjectTo(dx * dx + dy * dy >= m_minDistance * m_minDistance);", "const double minSquared = m_minDistance * m_minDistance;\n    problem.SubjectTo(minSquared <= dx * dx + dy * dy);"))
e("lp-early", "C08", (CON + "LinePointConstraint.hpp", '''    auto lineStart =
        pose.Translation() + m_robotLineStart.RotateBy(pose.Rotation());
    auto lineEnd =
        pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
''', '''    auto toField = [&](const Translation2d& p) {
      return pose.Translation() + p.RotateBy(pose.Rotation());
    };
    auto lineEnd = toField(m_robotLineEnd);
    auto lineStart = toField(m_robotLineStart);
'''))
e("dist-vec", "C08", (CON + "detail/LinePointDistance.hpp", '''  Translation2<R> i{Lerp(lineStart.X(), lineEnd.X(), tBounded),
                    Lerp(lineStart.Y(), lineEnd.Y(), tBounded)};
  return (i - point).SquaredNorm();
''', '''  auto dx = Lerp(lineStart.X(), lineEnd.X(), tBounded) - point.X();
  auto dy = Lerp(lineStart.Y(), lineEnd.Y(), tBounded) - point.Y();
  return dx * dx + dy * dy;
'''))
e("dist-lerp", "C08", (CON + "detail/LinePointDistance.hpp", "return a + t * (b - a); };", "return (1.0 - t) * a + t * b; };"))
e("ang-abs", "C09", (CON + "AngularVelocityMaxMagnitudeConstraint.hpp", '''      problem.SubjectTo(angularVelocity >= -m_maxMagnitude);
      problem.SubjectTo(angularVelocity <= m_maxMagnitude);
''', '''      problem.SubjectTo(angularVelocity <= m_maxMagnitude);
      problem.SubjectTo(-m_maxMagnitude <= angularVelocity);
'''))
e("vel-early", "C09", (CON + "LinearVelocityMaxMagnitudeConstraint.hpp", '''      problem.SubjectTo(linearVelocity.X() == 0.0);
      problem.SubjectTo(linearVelocity.Y() == 0.0);
    } else {
      problem.SubjectTo(linearVelocity.SquaredNorm() <=
                        m_maxMagnitude * m_maxMagnitude);
    }
''', '''      problem.SubjectTo(linearVelocity.Y() == 0.0);
      problem.SubjectTo(linearVelocity.X() == 0.0);
      return;
    }
    const auto& v = linearVelocity;
    problem.SubjectTo(v.X() * v.X() + v.Y() * v.Y() <=
                      m_maxMagnitude * m_maxMagnitude);
'''))
e("dir-dot", "C09", (CON + "LinearVelocityDirectionConstraint.hpp", "auto dot = linearVelocity.Dot(Translation2d{m_angle.Cos(), m_angle.Sin()});", "auto dot = linearVelocity.X() * m_angle.Cos() + linearVelocity.Y() * m_angle.Sin();"))
e("dir-member", "C09", (CON + "LinearVelocityDirectionConstraint.hpp", "m_angle", "m_direction"), all=True)
e("at-dot", "C10", (CON + "PointAtConstraint.hpp", '''    auto dx = m_fieldPoint.X() - pose.X();
    auto dy = m_fieldPoint.Y() - pose.Y();
    auto dot = pose.Rotation().Cos() * dx + pose.Rotation().Sin() * dy;
    problem.SubjectTo(dot >=
                      std::cos(m_headingTolerance) * sleipnir::hypot(dx, dy));
''', '''    auto toPoint = m_fieldPoint - pose.Translation();
    auto dot = toPoint.X() * pose.Rotation().Cos() +
               toPoint.Y() * pose.Rotation().Sin();
    const double minCos = std::cos(m_headingTolerance);
    problem.SubjectTo(minCos * toPoint.Norm() <= dot);
'''))
e("te-xy", "C10", (CON + "TranslationEqualityConstraint.hpp", "problem.SubjectTo(pose.Translation() == m_translation);", "problem.SubjectTo(pose.X() == m_translation.X());\n    problem.SubjectTo(pose.Y() == m_translation.Y());"))
e("pe-split", "C10", (CON + "PoseEqualityConstraint.hpp", "problem.SubjectTo(pose == m_pose);", "problem.SubjectTo(pose.Translation() == m_pose.Translation());\n    problem.SubjectTo(pose.Rotation() == m_pose.Rotation());"))
# geometry
GEOP = ["C11", "C08", "C10"]
e("rot-minus", GEOP, (GEO + "Rotation2.hpp", "return *this + -other;", "return RotateBy(-other);"))
e("rot-local", GEOP, (GEO + "Rotation2.hpp", '''    return Rotation2<R>{Cos() * other.Cos() - Sin() * other.Sin(),
                        Cos() * other.Sin() + Sin() * other.Cos()};
''', '''    R newCos = m_cos * other.Cos() - m_sin * other.Sin();
    R newSin = m_sin * other.Cos() + m_cos * other.Sin();
    return Rotation2<R>{newCos, newSin};
'''))
e("tr-minus", GEOP, (GEO + "Translation2.hpp", '''  constexpr auto operator-(const Translation2<U>& other) const {
    return *this + -other;
''', '''  constexpr auto operator-(const Translation2<U>& other) const {
    using R = decltype(std::declval<T>() - std::declval<U>());
    return Translation2<R>{m_x - other.m_x_(), m_y - other.m_y_()};
'''.replace("m_x_()", "X()").replace("m_y_()", "Y()")))
e("tr-dist", ["C11"], (GEO + "Translation2.hpp", "return hypot(other.X() - m_x, other.Y() - m_y);", "return (other - *this).Norm();"))
e("tr-sq", GEOP, (GEO + "Translation2.hpp", "return m_x * m_x + m_y * m_y;", "return Dot(*this);"))
e("tr-rename", GEOP + ["C07"], (GEO + "Translation2.hpp", "m_x", "m_east"), all=True)
e("eq-order", GEOP, (GEO + "Rotation2.hpp", '''  constraints.emplace_back(lhs.Cos() * rhs.Sin() - lhs.Sin() * rhs.Cos() ==
                           0.0);
''', '''  constraints.push_back(lhs.Cos() * rhs.Sin() == lhs.Sin() * rhs.Cos());
'''))
# trajectory
e("traj-inc", "C19", (TR, '''      if (samp != 0) {
        ts += solution.dt[samp - 1];
      }
''', ""), (TR, "solution.moduleFX[samp], solution.moduleFY[samp]);", "solution.moduleFX[samp], solution.moduleFY[samp]);\n      if (samp < solution.dt.size()) {\n        ts += solution.dt[samp];\n      }"))
e("traj-push", "C19", (TR, '''      samples.emplace_back(
          ts, solution.x[samp], solution.y[samp],
          std::atan2(solution.thetasin[samp], solution.thetacos[samp]),
          solution.vx[samp], solution.vy[samp], solution.omega[samp],
          solution.moduleFX[samp], solution.moduleFY[samp]);
''', '''      const double heading =
          std::atan2(solution.thetasin[samp], solution.thetacos[samp]);
      HolonomicTrajectorySample sample{
          ts, solution.x[samp], solution.y[samp], heading,
          solution.vx[samp], solution.vy[samp], solution.omega[samp]};
      sample.moduleForcesX = solution.moduleFX[samp];
      sample.moduleForcesY = solution.moduleFY[samp];
      samples.push_back(std::move(sample));
'''))
e("traj-while", "C19", (TR, "for (size_t samp = 0; samp < solution.x.size(); ++samp) {\n      if (samp != 0) {", "const size_t count = solution.x.size();\n    samples.reserve(count);\n    for (size_t samp = 0; samp != count; samp++) {\n      if (samp > 0) {"))
# generator
KIN = ["C12", "C14", "C15"]
e("kin-state", "C12", (G, '''      problem.SubjectTo(x_n_1 + v_n * dt_sgmt == x_n);
''', '''      problem.SubjectTo(x_n == x_n_1 + v_n * dt_sgmt);
'''))
e("kin-order", "C12", (G, '''      problem.SubjectTo((theta_n - theta_n_1) == Rotation2v{omega_n * dt_sgmt});
      problem.SubjectTo(v_n_1 + a_n * dt_sgmt == v_n);
''', '''      problem.SubjectTo(v_n_1 + a_n * dt_sgmt == v_n);
      problem.SubjectTo(theta_n - theta_n_1 == Rotation2v{dt_sgmt * omega_n});
'''))
e("kin-index", "C12", (G, '''    for (size_t sampIndex = 0; sampIndex < N_sgmt; ++sampIndex) {
      size_t index = GetIndex(N, wptIndex, sampIndex);

''', '''    const size_t first = GetIndex(N, wptIndex);
    for (size_t index = first; index < first + N_sgmt; ++index) {
'''))
e("kin-sgmt", "C12", (G, '''  for (size_t wptIndex = 1; wptIndex < wptCnt; ++wptIndex) {
    size_t N_sgmt = N.at(wptIndex - 1);
    auto dt_sgmt = dt.at(wptIndex - 1);

    for (size_t sampIndex = 0; sampIndex < N_sgmt; ++sampIndex) {
      size_t index = GetIndex(N, wptIndex, sampIndex);
''', '''  size_t index = 0;
  for (size_t sgmt = 0; sgmt < sgmtCnt; ++sgmt) {
    auto dt_sgmt = dt.at(sgmt);

    for (size_t sampIndex = 0; sampIndex < N.at(sgmt); ++sampIndex) {
      ++index;
'''))
e("dyn-sum", "C13", (G, '''    auto Fx_net = std::accumulate(Fx.at(index).begin(), Fx.at(index).end(),
                                  sleipnir::Variable{0.0});
''', '''    sleipnir::Variable Fx_net = 0.0;
    for (auto& force : Fx.at(index)) {
      Fx_net += force;
    }
'''))
e("dyn-merge", "C13", (G, '''      tau_net += r.Cross(F);
    }

    // Apply module power constraints
    auto vWrtRobot = v.RotateBy(-theta);
    for (size_t moduleIndex = 0; moduleIndex < path.drivetrain.modules.size();
         ++moduleIndex) {
      const auto& [translation, wheelRadius, wheelMaxAngularVelocity,
                   wheelMaxTorque] = path.drivetrain.modules.at(moduleIndex);

''', '''      tau_net += r.Cross(F);

      // Apply module power constraints
      auto vWrtRobot = v.RotateBy(-theta);
'''))
e("dyn-range", "C13", (G, '''    auto vWrtRobot = v.RotateBy(-theta);
    for (size_t moduleIndex = 0; moduleIndex < path.drivetrain.modules.size();
         ++moduleIndex) {
      const auto& [translation, wheelRadius, wheelMaxAngularVelocity,
                   wheelMaxTorque] = path.drivetrain.modules.at(moduleIndex);
''', '''    const auto vWrtRobot = v.RotateBy(-theta);
    size_t moduleIndex = 0;
    for (const auto& module : path.drivetrain.modules) {
      const auto& translation = module.translation;
      const double wheelRadius = module.wheelRadius;
      const double wheelMaxAngularVelocity = module.wheelMaxAngularVelocity;
      const double wheelMaxTorque = module.wheelMaxTorque;
'''), (G, "problem.SubjectTo(moduleF.SquaredNorm() <= maxForce * maxForce);", "problem.SubjectTo(moduleF.SquaredNorm() <= maxForce * maxForce);\n      ++moduleIndex;"))
e("con-hoist", "C14", (G, '''    for (auto& constraint : path.waypoints.at(wptIndex).waypointConstraints) {
      // First index of next wpt - 1
      size_t index = GetIndex(N, wptIndex + 1, 0) - 1;
''', '''    const size_t index = GetIndex(N, wptIndex + 1, 0) - 1;
    for (auto& constraint : path.waypoints.at(wptIndex).waypointConstraints) {
'''))
e("con-swap", "C14", (G, '''    for (auto& constraint :
         path.waypoints.at(sgmtIndex + 1).segmentConstraints) {
      size_t startIndex = GetIndex(N, sgmtIndex + 1, 0);
      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);

      for (size_t index = startIndex; index < endIndex; ++index) {
''', '''    size_t startIndex = GetIndex(N, sgmtIndex + 1, 0);
    size_t endIndex = startIndex + N.at(sgmtIndex);
    for (size_t index = startIndex; index < endIndex; ++index) {
      for (auto& constraint :
           path.waypoints.at(sgmtIndex + 1).segmentConstraints) {
'''))
e("con-lambda", "C14", (G, '''  for (size_t wptIndex = 0; wptIndex < wptCnt; ++wptIndex) {
    for (auto& constraint : path.waypoints.at(wptIndex).waypointConstraints) {
      // First index of next wpt - 1
      size_t index = GetIndex(N, wptIndex + 1, 0) - 1;

      Pose2v pose{
          x.at(index), y.at(index), {thetacos.at(index), thetasin.at(index)}};
      Translation2v linearVelocity{vx.at(index), vy.at(index)};
      auto angularVelocity = omega.at(index);
      Translation2v linearAcceleration{ax.at(index), ay.at(index)};
      auto angularAcceleration = alpha.at(index);

      std::visit(
          [&](auto&& arg) {
            arg.Apply(problem, pose, linearVelocity, angularVelocity,
                      linearAcceleration, angularAcceleration);
          },
          constraint);
    }
  }
''', '''  auto applyAt = [&](Constraint& constraint, size_t index) {
    Pose2v pose{
        x.at(index), y.at(index), {thetacos.at(index), thetasin.at(index)}};
    Translation2v linearVelocity{vx.at(index), vy.at(index)};
    Translation2v linearAcceleration{ax.at(index), ay.at(index)};

    std::visit(
        [&](auto&& arg) {
          arg.Apply(problem, pose, linearVelocity, omega.at(index),
                    linearAcceleration, alpha.at(index));
        },
        constraint);
  };
  for (size_t wptIndex = 0; wptIndex < wptCnt; ++wptIndex) {
    for (auto& constraint : path.waypoints.at(wptIndex).waypointConstraints) {
      applyAt(constraint, GetIndex(N, wptIndex + 1, 0) - 1);
    }
  }
'''))
e("time-fold", "C15", (G, '''    auto T_sgmt = dt_sgmt * static_cast<int>(N_sgmt);
    T_tot += T_sgmt;

    problem.SubjectTo(dt_sgmt >= 0);
    dt_sgmt.SetValue(5.0 / N_sgmt);
''', '''    dt_sgmt.SetValue(5.0 / N_sgmt);
    problem.SubjectTo(0 <= dt_sgmt);
    T_tot = T_tot + static_cast<int>(N_sgmt) * dt_sgmt;
'''))
WID = '''  double minWidth = INFINITY;
  for (size_t i = 1; i < path.drivetrain.modules.size(); i++) {
    for (size_t j = 0; j < i; j++) {
      if (std::abs(path.drivetrain.modules.at(j).translation.X() -
                   path.drivetrain.modules.at(i).translation.X()) != 0) {
        minWidth = std::min(
            minWidth, std::abs(path.drivetrain.modules.at(j).translation.X() -
                               path.drivetrain.modules.at(i).translation.X()));
      }
      if (std::abs(path.drivetrain.modules.at(j).translation.Y() -
                   path.drivetrain.modules.at(i).translation.Y()) != 0) {
        minWidth = std::min(
            minWidth, std::abs(path.drivetrain.modules.at(j).translation.Y() -
                               path.drivetrain.modules.at(i).translation.Y()));
      }
    }
  }
'''
e("width-local", "C15", (G, WID, '''  double minWidth = INFINITY;
  for (size_t i = 1; i < path.drivetrain.modules.size(); i++) {
    for (size_t j = 0; j < i; j++) {
      const auto& a = path.drivetrain.modules.at(j).translation;
      const auto& b = path.drivetrain.modules.at(i).translation;
      const double width = std::abs(a.X() - b.X());
      const double length = std::abs(a.Y() - b.Y());
      if (width != 0) {
        minWidth = std::min(minWidth, width);
      }
      if (length != 0) {
        minWidth = std::min(minWidth, length);
      }
    }
  }
'''))
e("width-helper", "C15", (G, "SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(", '''inline double MinModuleSpacing(const std::vector<SwerveModule>& modules) {
  double spacing = INFINITY;
  for (size_t i = 0; i < modules.size(); i++) {
    for (size_t j = i + 1; j < modules.size(); j++) {
      double dx = std::abs(modules.at(j).translation.X() -
                           modules.at(i).translation.X());
      double dy = std::abs(modules.at(j).translation.Y() -
                           modules.at(i).translation.Y());
      if (dx > 0 && dx < spacing) {
        spacing = dx;
      }
      if (dy > 0 && dy < spacing) {
        spacing = dy;
      }
    }
  }
  return spacing;
}

SwerveTrajectoryGenerator::SwerveTrajectoryGenerator('''), (G, WID, "  double minWidth = MinModuleSpacing(path.drivetrain.modules);\n"))
e("width-guard", "C15", (G, '''    // Without two distinct module positions, there's no width to limit by
    if (minWidth == INFINITY) {
      continue;
    }

    for (auto module : path.drivetrain.modules) {
      problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *
                            module.wheelMaxAngularVelocity <=
                        minWidth);
    }
''', '''    if (minWidth < INFINITY) {
      for (const auto& module : path.drivetrain.modules) {
        double maxSpeed = module.wheelRadius * module.wheelMaxAngularVelocity;
        problem.SubjectTo(dt.at(sgmtIndex) * maxSpeed <= minWidth);
      }
    }
'''))
e("dec-order", KIN + ["C13", "C16", "C17"], (G, '''    x.emplace_back(problem.DecisionVariable());
    y.emplace_back(problem.DecisionVariable());
''', '''    y.push_back(problem.DecisionVariable());
    x.push_back(problem.DecisionVariable());
'''))
e("dec-forces", ["C13", "C17"], (G, '''  for (size_t sampIndex = 0; sampIndex < sampTot; ++sampIndex) {
    auto& _Fx = Fx.emplace_back();
    auto& _Fy = Fy.emplace_back();
    _Fx.reserve(moduleCnt);
    _Fy.reserve(moduleCnt);
  }
''', '''  Fx.resize(sampTot);
  Fy.resize(sampTot);
'''))
e("init-two", "C16", (G, '''  for (size_t sampleIndex = 0; sampleIndex < sampleTotal; sampleIndex++) {
    x[sampleIndex].SetValue(solution.x[sampleIndex]);
    y[sampleIndex].SetValue(solution.y[sampleIndex]);
''', '''  for (size_t i = 0; i < sampleTotal; ++i) {
    x[i].SetValue(solution.x[i]);
  }
  for (size_t sampleIndex = 0; sampleIndex < sampleTotal; ++sampleIndex) {
    y.at(sampleIndex).SetValue(solution.y.at(sampleIndex));
'''))
e("init-locals", "C16", (G, '''    vx[sampleIndex].SetValue(
        (solution.x[sampleIndex] - solution.x[sampleIndex - 1]) /
        solution.dt[sampleIndex]);
''', '''    const double dtSample = solution.dt[sampleIndex];
    const double dx = solution.x[sampleIndex] - solution.x[sampleIndex - 1];
    vx[sampleIndex].SetValue(dx / dtSample);
'''))
e("init-split", "C16", (G, '''    ax[sampleIndex].SetValue(
        (vx[sampleIndex].Value() - vx[sampleIndex - 1].Value()) /
        solution.dt[sampleIndex]);
''', ""), (G, '''    alpha[sampleIndex].SetValue(
        (omega[sampleIndex].Value() - omega[sampleIndex - 1].Value()) /
        solution.dt[sampleIndex]);
  }
''', '''    alpha[sampleIndex].SetValue(
        (omega[sampleIndex].Value() - omega[sampleIndex - 1].Value()) /
        solution.dt[sampleIndex]);
  }
  for (size_t i = 1; i < sampleTotal; i++) {
    ax[i].SetValue((vx[i].Value() - vx[i - 1].Value()) / solution.dt[i]);
  }
'''))
e("init-helper", "C16", (G, "void SwerveTrajectoryGenerator::ApplyInitialGuess(", '''inline double HeadingChange(const SwerveSolution& s, size_t i) {
  Rotation2d current{s.thetacos[i], s.thetasin[i]};
  Rotation2d last{s.thetacos[i - 1], s.thetasin[i - 1]};
  return current.RotateBy(-last).Radians();
}

void SwerveTrajectoryGenerator::ApplyInitialGuess('''), (G, '''    omega[sampleIndex].SetValue(
        Rotation2d{thetacos, thetasin}
            .RotateBy(-Rotation2d{last_thetacos, last_thetasin})
            .Radians() /
        solution.dt[sampleIndex]);
''', '''    omega[sampleIndex].SetValue(HeadingChange(solution, sampleIndex) /
                                solution.dt[sampleIndex]);
'''), (G, '''    double thetacos = solution.thetacos[sampleIndex];
    double thetasin = solution.thetasin[sampleIndex];
    double last_thetacos = solution.thetacos[sampleIndex - 1];
    double last_thetasin = solution.thetasin[sampleIndex - 1];

''', ""))
e("sol-transform", "C17", (G, '''  valueRowVector.reserve(rowVector.size());
  for (auto& expression : rowVector) {
    valueRowVector.push_back(expression.Value());
  }
''', '''  std::transform(rowVector.begin(), rowVector.end(),
                 std::back_inserter(valueRowVector),
                 [](auto& expression) { return expression.Value(); });
'''))
e("sol-size", "C17", (G, '''  std::vector<double> valueRowVector;
  valueRowVector.reserve(rowVector.size());
  for (auto& expression : rowVector) {
    valueRowVector.push_back(expression.Value());
  }
''', '''  std::vector<double> valueRowVector(rowVector.size());
  for (size_t i = 0; i < rowVector.size(); ++i) {
    valueRowVector[i] = rowVector[i].Value();
  }
'''))
e("sol-dt", "C17", (G, '''    size_t N_sgmt = N.at(sgmtIndex);
    sleipnir::Variable dt_sgmt = dt.at(sgmtIndex);
    double dt_val = dt_sgmt.Value();
    for (size_t i = 0; i < N_sgmt; ++i) {
      dtPerSamp.push_back(dt_val);
    }
''', '''    dtPerSamp.insert(dtPerSamp.end(), N.at(sgmtIndex),
                     dt.at(sgmtIndex).Value());
'''))
e("sol-dt2", "C17", (G, '''    double dt_val = dt_sgmt.Value();
    for (size_t i = 0; i < N_sgmt; ++i) {
      dtPerSamp.push_back(dt_val);
    }
''', '''    size_t i = 0;
    while (i++ < N_sgmt) {
      dtPerSamp.push_back(dt_sgmt.Value());
    }
'''))
e("sol-named", "C17", (G, '''  return SwerveSolution{dtPerSamp,
                        RowSolutionValue(x),
''', '''  auto xs = RowSolutionValue(x);
  return SwerveSolution{std::move(dtPerSamp),
                        std::move(xs),
'''))
e("gen-early", "C18", (G, '''  if (static_cast<int>(status.exitCondition) < 0 ||
      status.exitCondition ==
          sleipnir::SolverExitCondition::kCallbackRequestedStop) {
    return unexpected{std::string{sleipnir::ToMessage(status.exitCondition)}};
  } else {
    return ConstructSwerveSolution();
  }
''', '''  const auto condition = status.exitCondition;
  const bool cancelled =
      condition == sleipnir::SolverExitCondition::kCallbackRequestedStop;
  if (!cancelled && static_cast<int>(condition) >= 0) {
    return ConstructSwerveSolution();
  }
  return unexpected{std::string{sleipnir::ToMessage(condition)}};
'''))
e("gen-store", "C18", (G, "  GetCancellationFlag() = 0;", "  GetCancellationFlag().store(0);"), (G, "return trajopt::GetCancellationFlag();", "return trajopt::GetCancellationFlag().load() != 0;"))
e("gen-switch", "C18", (G, '''  if (static_cast<int>(status.exitCondition) < 0 ||
      status.exitCondition ==
          sleipnir::SolverExitCondition::kCallbackRequestedStop) {
    return unexpected{std::string{sleipnir::ToMessage(status.exitCondition)}};
  } else {
    return ConstructSwerveSolution();
  }
''', '''  switch (status.exitCondition) {
    case sleipnir::SolverExitCondition::kSuccess:
    case sleipnir::SolverExitCondition::kSolvedToAcceptableTolerance:
      return ConstructSwerveSolution();
    default:
      return unexpected{std::string{sleipnir::ToMessage(status.exitCondition)}};
  }
'''))
e("gen-clock", "C18", (G, '''    if (now - lastFrameTime < timePerFrame) {
      return;
    }

    lastFrameTime = now;

    auto soln = ConstructSwerveSolution();
    for (auto& callback : this->path.callbacks) {
      callback(soln, handle);
    }
''', '''    if (now - lastFrameTime >= timePerFrame) {
      lastFrameTime = now;

      auto soln = ConstructSwerveSolution();
      for (size_t i = 0; i < path.callbacks.size(); ++i) {
        path.callbacks[i](soln, handle);
      }
    }
'''))
e("gen-info", "C18", (G, '''  problem.Callback([this](const sleipnir::SolverIterationInfo&) -> bool {
    for (auto& callback : callbacks) {
      callback();
    }
    return trajopt::GetCancellationFlag();
  });
''', '''  auto onIteration = [this](const sleipnir::SolverIterationInfo&) -> bool {
    for (auto& callback : callbacks) {
      callback();
    }
    return trajopt::GetCancellationFlag();
  };
  problem.Callback(onIteration);
'''))
# second batch: renamed private parts, methods split off, moved definitions
e("ren-counts", ["C05", "C06", "C12"], (BC, r"re:\bcontrolIntervalCounts\b", "intervalCounts"), (BH, r"re:\bcontrolIntervalCounts\b", "intervalCounts"))
e("ren-guess", ["C05"], (BC, r"re:\binitialGuessPoints\b", "guessPoses"), (BH, r"re:\binitialGuessPoints\b", "guessPoses"))
e("ren-path", ["C05", "C06", "C07"], (BC, r"re:\bpath\.", "m_path."), (BC, r"return path;", "return m_path;"), (BH, r"re:\bpath\.", "m_path."), (BH, "SwervePath path;", "SwervePath m_path;"))
e("ren-bumpers", ["C05", "C07"], (BC, r"re:\bbumpers\b(?!\s+(edge|and))", "m_bumpers"), (BH, "std::vector<Bumpers> bumpers;", "std::vector<Bumpers> m_bumpers;"))
ALLG = ["C12", "C13", "C14", "C15", "C16", "C17", "C18"]
e("ren-N", ALLG, (G, r"re:\bN\b", "counts"), (GH, r"re:\bN\b", "counts"))
e("ren-dt", ["C12", "C15", "C16", "C17"], (G, r"re:(?<![.\w])dt\b", "timeSteps"), (GH, r"re:\bdt\b", "timeSteps"))
e("ren-x", ["C12", "C13", "C16", "C17"], (G, r"re:(?<![.\w])x\b", "posX"), (GH, r"re:\bx;", "posX;"))
e("ren-problem", ["C12", "C15", "C18"], (G, r"re:\bproblem\b", "nlp"), (GH, r"re:\bproblem\b", "nlp"))
e("ren-apply", ["C16"], (G, r"re:\bApplyInitialGuess\b", "SeedVariables"), (GH, r"re:\bApplyInitialGuess\b", "SeedVariables"))
e("ren-construct", ["C17", "C18"], (G, r"re:\bConstructSwerveSolution\b", "ReadSolution"), (GH, r"re:\bConstructSwerveSolution\b", "ReadSolution"))
KINT = '''  for (size_t wptIndex = 1; wptIndex < wptCnt; ++wptIndex) {
    size_t N_sgmt = N.at(wptIndex - 1);
    auto dt_sgmt = dt.at(wptIndex - 1);
'''
import re as _re
_g = open("/repo/" + G).read()
_kin = _g[_g.index("  // Apply kinematics constraints\n"):_g.index("  for (size_t index = 0; index < sampTot; ++index) {\n    Rotation2v theta{")]
_dyn = _g[_g.index("  for (size_t index = 0; index < sampTot; ++index) {\n    Rotation2v theta{"):_g.index("  for (size_t wptIndex = 0; wptIndex < wptCnt; ++wptIndex) {\n    for (auto& constraint")]
_con = _g[_g.index("  for (size_t wptIndex = 0; wptIndex < wptCnt; ++wptIndex) {\n    for (auto& constraint"):_g.index("  ApplyInitialGuess(initialGuess);")]
_tim = _g[_g.index("  // Minimize total time\n"):_g.index("  // Apply kinematics constraints\n")]
_dec = _g[_g.index("  x.reserve(sampTot);"):_g.index("  double minWidth = INFINITY;")]
_lim = _g[_g.index("  double minWidth = INFINITY;"):_g.index("  // Minimize total time\n")]
HEADD = "  void ApplyInitialGuess(const SwerveSolution& solution);\n"
ENDG = "void SwerveTrajectoryGenerator::ApplyInitialGuess("


def split(name, text, pre=""):
    return [(G, text, "  %s();\n" % name), (G, ENDG, "void SwerveTrajectoryGenerator::%s() {\n%s%s}\n\n%s" % (name, pre, text, ENDG)),
            (GH, HEADD, "  void %s();\n%s" % (name, HEADD))]


e("split-kin", ["C12", "C14"], *split("AddKinematics", _kin, "  const size_t wptCnt = 1 + N.size();\n"))
e("split-dyn", ["C13"], *split("AddDynamics", _dyn, "  const size_t sampTot = x.size();\n"))
e("split-con", ["C14"], *split("AddConstraints", _con, "  const size_t sgmtCnt = N.size();\n  const size_t wptCnt = 1 + sgmtCnt;\n"))
e("split-time", ["C15"], *split("MinimizeTime", _tim))
e("split-dec", ["C12", "C13", "C15", "C16", "C17"], *split("AddVariables", _dec, "  size_t sampTot = GetIndex(N, N.size() + 1);\n  size_t sgmtCnt = N.size();\n  size_t moduleCnt = path.drivetrain.modules.size();\n"))
e("split-lim", ["C15"], *split("LimitTimeSteps", _lim, "  const size_t sgmtCnt = N.size();\n"))
e("order-dyn", ["C12", "C13", "C14"], (G, _kin + _dyn, _dyn + _kin))
e("order-con", ["C13", "C14"], (G, _dyn + _con, _con + _dyn))
e("order-time", ["C12", "C13", "C15"], (G, _tim + _kin + _dyn, _kin + _dyn + _tim))
# small reorderings and no-ops
e("noop-gen", ALLG, (G, "  // Minimize total time\n", "  [[maybe_unused]] const size_t unusedCount = sampTot + 1;\n  // Minimize total time\n"))
e("init-zero", ["C16"], (G, '''  vx[0].SetValue(0.0);
  vy[0].SetValue(0.0);
  omega[0].SetValue(0.0);
  ax[0].SetValue(0.0);
  ay[0].SetValue(0.0);
  alpha[0].SetValue(0.0);
''', '''  for (auto* channel : {&vx, &vy, &omega, &ax, &ay, &alpha}) {
    channel->at(0).SetValue(0.0);
  }
'''))
e("init-front", ["C16"], (G, '''  vx[0].SetValue(0.0);
  vy[0].SetValue(0.0);
''', '''  vx.front().SetValue(0.0);
  vy.front().SetValue(0.0);
'''))
e("init-i", ["C16"], (G, '''    ax[sampleIndex].SetValue(
        (vx[sampleIndex].Value() - vx[sampleIndex - 1].Value()) /
        solution.dt[sampleIndex]);
''', '''    const auto derivative = [&](std::vector<sleipnir::Variable>& v) {
      return (v[sampleIndex].Value() - v[sampleIndex - 1].Value()) /
             solution.dt[sampleIndex];
    };
    ax[sampleIndex].SetValue(derivative(vx));
'''))
e("init-prev", ["C16"], (G, '''    double thetacos = solution.thetacos[sampleIndex];
    double thetasin = solution.thetasin[sampleIndex];
    double last_thetacos = solution.thetacos[sampleIndex - 1];
    double last_thetasin = solution.thetasin[sampleIndex - 1];

    omega[sampleIndex].SetValue(
        Rotation2d{thetacos, thetasin}
            .RotateBy(-Rotation2d{last_thetacos, last_thetasin})
            .Radians() /
''', '''    const Rotation2d theta{solution.thetacos[sampleIndex],
                           solution.thetasin[sampleIndex]};
    const Rotation2d lastTheta{solution.thetacos[sampleIndex - 1],
                               solution.thetasin[sampleIndex - 1]};

    omega[sampleIndex].SetValue(
        (theta - lastTheta).Radians() /
'''))
e("dyn-hoistomega", ["C13"], (G, "    Translation2v v{vx.at(index), vy.at(index)};\n\n    // Solve", "    Translation2v v{vx.at(index), vy.at(index)};\n    const auto& omega_n = omega.at(index);\n\n    // Solve"),
  (G, "vWrtRobot.X() - translation.Y() * omega.at(index)", "vWrtRobot.X() - omega_n * translation.Y()"))
e("dyn-cross", ["C13"], (G, "tau_net += r.Cross(F);", "tau_net += r.X() * F.Y() - r.Y() * F.X();"))
e("dyn-force2", ["C13"], (G, "problem.SubjectTo(moduleF.SquaredNorm() <= maxForce * maxForce);", "problem.SubjectTo(moduleF.X() * moduleF.X() + moduleF.Y() * moduleF.Y() <=\n                        maxForce * maxForce);"))
e("dyn-moduleloop", ["C13"], (G, '''      const auto& [translation, wheelRadius, wheelMaxAngularVelocity,
                   wheelMaxTorque] = path.drivetrain.modules.at(moduleIndex);

      auto r = translation.RotateBy(theta);
''', '''      const SwerveModule& module = path.drivetrain.modules.at(moduleIndex);

      auto r = module.translation.RotateBy(theta);
'''))
e("con-state", ["C14"], (G, "inline std::vector<double> RowSolutionValue(", '''namespace {

struct SampleState {
  Pose2v pose;
  Translation2v velocity;
  sleipnir::Variable omega;
  Translation2v acceleration;
  sleipnir::Variable alpha;
};

}  // namespace

inline std::vector<double> RowSolutionValue('''), (G, '''        Pose2v pose{
            x.at(index), y.at(index), {thetacos.at(index), thetasin.at(index)}};
        Translation2v linearVelocity{vx.at(index), vy.at(index)};
        auto angularVelocity = omega.at(index);
        Translation2v linearAcceleration{ax.at(index), ay.at(index)};
        auto angularAcceleration = alpha.at(index);

        std::visit(
            [&](auto&& arg) {
              arg.Apply(problem, pose, linearVelocity, angularVelocity,
                        linearAcceleration, angularAcceleration);
            },
            constraint);
''', '''        SampleState state{
            Pose2v{x.at(index), y.at(index),
                   Rotation2v{thetacos.at(index), thetasin.at(index)}},
            Translation2v{vx.at(index), vy.at(index)}, omega.at(index),
            Translation2v{ax.at(index), ay.at(index)}, alpha.at(index)};

        std::visit(
            [&](auto& arg) {
              arg.Apply(problem, state.pose, state.velocity, state.omega,
                        state.acceleration, state.alpha);
            },
            constraint);
'''))
e("guess-lambda", ["C04"], (L, "  for (size_t wptIndex = 1; wptIndex < wptCnt; wptIndex++) {", '''  auto appendAngles = [&](const std::vector<double>& thetas) {
    for (double theta : thetas) {
      initialGuess.thetacos.push_back(std::cos(theta));
      initialGuess.thetasin.push_back(std::sin(theta));
    }
  };

  for (size_t wptIndex = 1; wptIndex < wptCnt; wptIndex++) {'''),
  (L, '''    for (auto theta : wptThetas) {
      initialGuess.thetacos.push_back(std::cos(theta));
      initialGuess.thetasin.push_back(std::sin(theta));
    }
''', "    appendAngles(wptThetas);\n"))
e("guess-segment", ["C04"], (L, "template <typename Solution>\ninline Solution GenerateLinearInitialGuess(", '''template <typename Solution>
inline void AppendSegment(Solution& guess, const Pose2d& from, const Pose2d& to,
                          size_t count) {
  append_vector(guess.x, Linspace(from.X(), to.X(), count));
  append_vector(guess.y, Linspace(from.Y(), to.Y(), count));
  for (auto theta : AngleLinspace(from.Rotation().Radians(),
                                  to.Rotation().Radians(), count)) {
    guess.thetacos.push_back(std::cos(theta));
    guess.thetasin.push_back(std::sin(theta));
  }
}

template <typename Solution>
inline Solution GenerateLinearInitialGuess('''), (L, open("/repo/" + L).read().split("    size_t N_guessSgmt = N_sgmt / guessPointCount;\n")[1].split("  }\n\n  return initialGuess;")[0], '''    const auto& points = initialGuessPoints.at(wptIndex);
    AppendSegment(initialGuess, initialGuessPoints.at(wptIndex - 1).back(),
                  points.front(), N_guessSgmt);
    for (size_t i = 1; i + 1 < guessPointCount; i++) {
      AppendSegment(initialGuess, points.at(i - 1), points.at(i), N_guessSgmt);
    }
    if (guessPointCount > 1) {
      AppendSegment(initialGuess, points.at(guessPointCount - 2), points.back(),
                    N_sgmt - (guessPointCount - 1) * N_guessSgmt);
    }
'''))
e("build-inl", ["C05", "C06"], (BH, "    NewWpts(index);\n    path.waypoints.at(index).waypointConstraints.push_back(constraint);", "    NewWpts(index);\n    auto& waypoint = path.waypoints.at(index);\n    waypoint.waypointConstraints.emplace_back(constraint);"))
e("sgmt-split", ["C06", "C07"], (BH, '''    for (size_t index = fromIndex + 1; index <= toIndex; ++index) {
      path.waypoints.at(index).waypointConstraints.push_back(constraint);
      path.waypoints.at(index).segmentConstraints.push_back(constraint);
    }
''', '''    for (size_t index = fromIndex + 1; index <= toIndex; ++index) {
      path.waypoints.at(index).waypointConstraints.push_back(constraint);
    }
    for (size_t index = toIndex; index > fromIndex; --index) {
      path.waypoints[index].segmentConstraints.push_back(constraint);
    }
'''))
e("sgmt-first", ["C06", "C07"], (BH, '''    path.waypoints.at(fromIndex).waypointConstraints.push_back(constraint);
    for (size_t index = fromIndex + 1; index <= toIndex; ++index) {
      path.waypoints.at(index).waypointConstraints.push_back(constraint);
      path.waypoints.at(index).segmentConstraints.push_back(constraint);
    }
''', '''    for (size_t index = fromIndex; index <= toIndex; ++index) {
      path.waypoints.at(index).waypointConstraints.push_back(constraint);
      if (index != fromIndex) {
        path.waypoints.at(index).segmentConstraints.push_back(constraint);
      }
    }
'''))
e("sgmt-iter", ["C06"], (BH, '''    for (size_t index = fromIndex + 1; index <= toIndex; ++index) {
      path.waypoints.at(index).waypointConstraints.push_back(constraint);
      path.waypoints.at(index).segmentConstraints.push_back(constraint);
    }
''', '''    for (auto it = path.waypoints.begin() + fromIndex + 1;
         it != path.waypoints.begin() + toIndex + 1; ++it) {
      it->waypointConstraints.push_back(constraint);
      it->segmentConstraints.push_back(constraint);
    }
'''))
_w = open("/repo/" + BC).read()
_wo = _w[_w.index("    // robot bumper edge to obstacle point constraints\n"):_w.index("void SwervePathBuilder::SgmtObstacle(")]
e("obs-unify", ["C07"], (BC, "void SwervePathBuilder::WptObstacle(", '''template <typename Apply>
static void ForEachEdge(const std::vector<Translation2d>& points, Apply&& apply) {
  for (size_t i = 0; i + 1 < points.size(); ++i) {
    apply(points.at(i), points.at(i + 1));
  }
  if (points.size() >= 3) {
    apply(points.back(), points.front());
  }
}

void SwervePathBuilder::WptObstacle('''), (BC, WOBS + '''      // apply to last edge: the edge connecting the last point to the first
      // must have at least three points to need this
      if (bumperCornerCount >= 3) {
        WptConstraint(index,
                      LinePointConstraint{
                          _bumpers.points.at(bumperCornerCount - 1),
                          _bumpers.points.at(0), obstaclePoint, minDistance});
      }
    }
''', '''    for (auto& obstaclePoint : obstacle.points) {
      ForEachEdge(_bumpers.points, [&](const auto& start, const auto& end) {
        WptConstraint(index, LinePointConstraint{start, end, obstaclePoint, minDistance});
      });
    }
'''))
e("obs-mod", ["C07"], (BC, WOBS + '''      // apply to last edge: the edge connecting the last point to the first
      // must have at least three points to need this
      if (bumperCornerCount >= 3) {
        WptConstraint(index,
                      LinePointConstraint{
                          _bumpers.points.at(bumperCornerCount - 1),
                          _bumpers.points.at(0), obstaclePoint, minDistance});
      }
    }
''', '''    size_t edgeCount =
        bumperCornerCount >= 3 ? bumperCornerCount : bumperCornerCount - 1;
    for (auto& obstaclePoint : obstacle.points) {
      for (size_t edge = 0; edge < edgeCount; ++edge) {
        WptConstraint(
            index, LinePointConstraint{
                       _bumpers.points.at(edge),
                       _bumpers.points.at((edge + 1) % bumperCornerCount),
                       obstaclePoint, minDistance});
      }
    }
'''))
e("obs-nocont", ["C07"], (BC, "void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {\n  for (auto& _bumpers : bumpers) {", "void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {\n  if (bumpers.empty()) {\n    return;\n  }\n  for (auto& _bumpers : bumpers) {"))
e("lpd-clamp", ["C08"], (CON + "detail/LinePointDistance.hpp", "auto tBounded = max(min(t, 1), 0);", "auto tBounded = min(max(t, 0), 1);"))
e("lpd-abs", ["C08"], (CON + "detail/LinePointDistance.hpp", "return +0.5 * (1 + sleipnir::sign(b - a)) * (b - a) + a;", "return 0.5 * (a + b + sleipnir::abs(b - a));"))
e("lpd-norm", ["C08"], (CON + "detail/LinePointDistance.hpp", "  Translation2<R> l{lineEnd.X() - lineStart.X(), lineEnd.Y() - lineStart.Y()};\n", "  const auto l = lineEnd - lineStart;\n"), (CON + "detail/LinePointDistance.hpp", "auto t = v.Dot(l) / l.SquaredNorm();", "auto t = (v.X() * l.X() + v.Y() * l.Y()) / l.Dot(l);"))
e("flag-inline", ["C18"], ("src/util/Cancellation.cpp", "  static std::atomic<int> flag{0};\n  return flag;", "  return cancellationFlag;"), ("src/util/Cancellation.cpp", "std::atomic<int>& GetCancellationFlag()", "static std::atomic<int> cancellationFlag{0};\n\nstd::atomic<int>& GetCancellationFlag()"))
e("gen-msg", ["C18"], (G, "return unexpected{std::string{sleipnir::ToMessage(status.exitCondition)}};", "std::string message{sleipnir::ToMessage(status.exitCondition)};\n    return unexpected{std::move(message)};"))
e("gen-msg2", ["C18"], (G, "return unexpected{std::string{sleipnir::ToMessage(status.exitCondition)}};", "return unexpected{std::string(sleipnir::ToMessage(status.exitCondition))};"))
e("gen-cfg", ["C18"], (G, "  auto status = problem.Solve({.tolerance = 1e-4, .diagnostics = diagnostics});", "  sleipnir::SolverConfig config;\n  config.tolerance = 1e-4;\n  config.diagnostics = diagnostics;\n  auto status = problem.Solve(config);"))
e("gen-helper", ["C18"], (G, "expected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate(", '''inline bool Succeeded(sleipnir::SolverExitCondition condition) {
  return static_cast<int>(condition) >= 0 &&
         condition != sleipnir::SolverExitCondition::kCallbackRequestedStop;
}

expected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate('''), (G, '''  if (static_cast<int>(status.exitCondition) < 0 ||
      status.exitCondition ==
          sleipnir::SolverExitCondition::kCallbackRequestedStop) {
''', "  if (!Succeeded(status.exitCondition)) {\n"))
e("cb-foreach", ["C18"], (G, '''    for (auto& callback : this->path.callbacks) {
      callback(soln, handle);
    }
''', '''    std::for_each(path.callbacks.begin(), path.callbacks.end(),
                  [&](auto& callback) { callback(soln, handle); });
'''))
e("traj-range", ["C19"], (TR, "double ts = 0.0;", "double ts{};"), (TR, "samples.emplace_back(\n          ts,", "samples.emplace_back(\n          samp == 0 ? 0.0 : ts,"))
e("traj-helper", ["C19"], (TR, "  explicit HolonomicTrajectory(const SwerveSolution& solution) {", '''  explicit HolonomicTrajectory(const SwerveSolution& solution) {
    const auto headingAt = [&](size_t i) {
      return std::atan2(solution.thetasin[i], solution.thetacos[i]);
    };'''), (TR, "std::atan2(solution.thetasin[samp], solution.thetacos[samp]),\n          solution.vx", "headingAt(samp),\n          solution.vx"))
e("sol-agg", ["C17"], (G, '''  return SwerveSolution{dtPerSamp,
                        RowSolutionValue(x),
                        RowSolutionValue(y),
                        RowSolutionValue(thetacos),
                        RowSolutionValue(thetasin),
                        RowSolutionValue(vx),
                        RowSolutionValue(vy),
                        RowSolutionValue(omega),
                        RowSolutionValue(ax),
                        RowSolutionValue(ay),
                        RowSolutionValue(alpha),
                        MatrixSolutionValue(Fx),
                        MatrixSolutionValue(Fy)};
''', '''  SwerveSolution solution;
  solution.dt = std::move(dtPerSamp);
  solution.x = RowSolutionValue(x);
  solution.y = RowSolutionValue(y);
  solution.thetacos = RowSolutionValue(thetacos);
  solution.thetasin = RowSolutionValue(thetasin);
  solution.vx = RowSolutionValue(vx);
  solution.vy = RowSolutionValue(vy);
  solution.omega = RowSolutionValue(omega);
  solution.ax = RowSolutionValue(ax);
  solution.ay = RowSolutionValue(ay);
  solution.alpha = RowSolutionValue(alpha);
  solution.moduleFX = MatrixSolutionValue(Fx);
  solution.moduleFY = MatrixSolutionValue(Fy);
  return solution;
'''))
F = "src/RustFFI.cpp"
FH = "src/RustFFI.hpp"
CONVG = '''    rust::Vec<HolonomicTrajectorySample> rustSamples;
    for (const auto& cppSample : cppTrajectory.samples) {
      rust::Vec<double> fx;
      std::copy(cppSample.moduleForcesX.begin(), cppSample.moduleForcesX.end(),
                std::back_inserter(fx));

      rust::Vec<double> fy;
      std::copy(cppSample.moduleForcesY.begin(), cppSample.moduleForcesY.end(),
                std::back_inserter(fy));

      rustSamples.push_back(HolonomicTrajectorySample{
          cppSample.timestamp, cppSample.x, cppSample.y, cppSample.heading,
          cppSample.velocityX, cppSample.velocityY, cppSample.angularVelocity,
          std::move(fx), std::move(fy)});
    }

    return HolonomicTrajectory{std::move(rustSamples)};
'''
CONVC = '''        rust::Vec<HolonomicTrajectorySample> rustSamples;
        for (const auto& cppSample : cppTrajectory.samples) {
          rust::Vec<double> fx;
          std::copy(cppSample.moduleForcesX.begin(),
                    cppSample.moduleForcesX.end(), std::back_inserter(fx));

          rust::Vec<double> fy;
          std::copy(cppSample.moduleForcesY.begin(),
                    cppSample.moduleForcesY.end(), std::back_inserter(fy));

          rustSamples.push_back(HolonomicTrajectorySample{
              cppSample.timestamp, cppSample.x, cppSample.y, cppSample.heading,
              cppSample.velocityX, cppSample.velocityY,
              cppSample.angularVelocity, std::move(fx), std::move(fy)});
        }

        callback(HolonomicTrajectory{rustSamples}, handle);
'''
HELP = '''namespace trajopt::rsffi {

namespace {

rust::Vec<double> ToRustVec(const std::vector<double>& values) {
  rust::Vec<double> result;
  for (double value : values) {
    result.push_back(value);
  }
  return result;
}

HolonomicTrajectory ToRust(const trajopt::HolonomicTrajectory& trajectory) {
  HolonomicTrajectory result;
  for (const auto& sample : trajectory.samples) {
    result.samples.push_back(HolonomicTrajectorySample{
        sample.timestamp, sample.x, sample.y, sample.heading, sample.velocityX,
        sample.velocityY, sample.angularVelocity,
        ToRustVec(sample.moduleForcesX), ToRustVec(sample.moduleForcesY)});
  }
  return result;
}

}  // namespace
'''
e("ffi-helper", ["C20"], (F, "namespace trajopt::rsffi {\n", HELP), (F, CONVG, "    return ToRust(cppTrajectory);\n"),
  (F, CONVC, "        callback(ToRust(cppTrajectory), handle);\n"))
e("ffi-helper2", ["C20"], (F, "namespace trajopt::rsffi {\n", HELP), (F, '''    trajopt::HolonomicTrajectory cppTrajectory{sol.value()};

''' + CONVG, "    return ToRust(trajopt::HolonomicTrajectory{*sol});\n"),
  (F, '''  path_builder.AddIntermediateCallback(
      [=](trajopt::SwerveSolution& solution, int64_t handle) {
        trajopt::HolonomicTrajectory cppTrajectory{solution};

''' + CONVC, '''  path_builder.AddIntermediateCallback(
      [callback](trajopt::SwerveSolution& solution, int64_t handle) {
        callback(ToRust(trajopt::HolonomicTrajectory{solution}), handle);
'''))
e("ffi-transform", ["C20"], (F, "#include <vector>", "#include <algorithm>\n#include <iterator>\n#include <vector>"), (F, '''  for (const auto& module : drivetrain.modules) {
    cppModules.push_back(
        trajopt::SwerveModule{{module.x, module.y},
                              module.wheel_radius,
                              module.wheel_max_angular_velocity,
                              module.wheel_max_torque});
  }
''', '''  std::transform(drivetrain.modules.begin(), drivetrain.modules.end(),
                 std::back_inserter(cppModules), [](const SwerveModule& m) {
                   return trajopt::SwerveModule{
                       .translation = {m.x, m.y},
                       .wheelRadius = m.wheel_radius,
                       .wheelMaxAngularVelocity = m.wheel_max_angular_velocity,
                       .wheelMaxTorque = m.wheel_max_torque};
                 });
'''))
e("ffi-reserve", ["C20"], (F, "  std::vector<trajopt::SwerveModule> cppModules;\n", "  std::vector<trajopt::SwerveModule> cppModules;\n  cppModules.reserve(drivetrain.modules.size());\n"),
  (F, "  std::vector<size_t> cppCounts;\n", "  std::vector<size_t> cppCounts;\n  cppCounts.reserve(counts.size());\n"))
e("ffi-counts", ["C20"], (F, '''  std::vector<size_t> cppCounts;
  for (const auto& count : counts) {
    cppCounts.emplace_back(count);
  }

  path_builder.ControlIntervalCounts(std::move(cppCounts));
''', '''  path_builder.ControlIntervalCounts(
      std::vector<size_t>(counts.begin(), counts.end()));
'''))
e("ffi-index", ["C20"], (F, '''  for (const auto& count : counts) {
    cppCounts.emplace_back(count);
  }
''', '''  for (size_t i = 0; i < counts.size(); ++i) {
    cppCounts.push_back(counts[i]);
  }
'''))
e("ffi-member", ["C20"], (F, "re:\\bpath_builder\\b", "builder_"), (FH, "re:\\bpath_builder\\b", "builder_"))
e("ffi-guard", ["C20"], (F, '''  if (auto sol = generator.Generate(diagnostics); sol.has_value()) {
    trajopt::HolonomicTrajectory cppTrajectory{sol.value()};
''', '''  auto sol = generator.Generate(diagnostics);
  if (!sol) {
    throw std::runtime_error{sol.error()};
  }
  {
    trajopt::HolonomicTrajectory cppTrajectory{*sol};
'''), (F, '''  } else {
    throw std::runtime_error{sol.error()};
  }
''', "  }\n"))
e("ffi-local", ["C20"], (F, "path_builder.SgmtObstacle(from_index, to_index, {radius, {{x, y}}});", '''const trajopt::Translation2d center{x, y};
  trajopt::Obstacle circle{.safetyDistance = radius, .points = {center}};
  path_builder.SgmtObstacle(from_index, to_index, circle);'''),
  (F, '''  path_builder.SetDrivetrain(trajopt::SwerveDrivetrain{
      drivetrain.mass, drivetrain.moi, std::move(cppModules)});
''', '''  trajopt::SwerveDrivetrain cppDrivetrain{
      .mass = drivetrain.mass, .moi = drivetrain.moi, .modules = cppModules};
  path_builder.SetDrivetrain(std::move(cppDrivetrain));
'''))
e("ffi-poly", ["C20"], (F, '''  if (x.size() != y.size()) [[unlikely]] {
    return;
  }

  std::vector<trajopt::Translation2d> cppPoints;
  for (size_t i = 0; i < x.size(); ++i) {
    cppPoints.emplace_back(x.at(i), y.at(i));
  }
''', '''  const size_t count = x.size();
  if (count != y.size()) {
    return;
  }

  std::vector<trajopt::Translation2d> cppPoints;
  cppPoints.reserve(count);
  for (size_t i = 0; i != count; ++i) {
    cppPoints.push_back(trajopt::Translation2d{x[i], y[i]});
  }
'''))
e("ffi-bumpers", ["C20"], (F, '''  path_builder.AddBumpers(
      trajopt::Bumpers{.safetyDistance = 0.01,
                       .points = {{+length / 2, +width / 2},
                                  {-length / 2, +width / 2},
                                  {-length / 2, -width / 2},
                                  {+length / 2, -width / 2}}});
''', '''  const double front = length / 2;
  const double left = 0.5 * width;
  trajopt::Bumpers bumpers{0.01, {}};
  bumpers.points.emplace_back(front, left);
  bumpers.points.emplace_back(-front, left);
  bumpers.points.emplace_back(-front, -left);
  bumpers.points.emplace_back(front, -left);
  path_builder.AddBumpers(std::move(bumpers));
'''))
e("ffi-pose", ["C20"], (F, "  path_builder.WptInitialGuessPoint(index, {x_guess, y_guess, heading_guess});", '''  const trajopt::Pose2d guess{trajopt::Translation2d{x_guess, y_guess},
                              trajopt::Rotation2d{heading_guess}};
  path_builder.WptInitialGuessPoint(index, guess);'''))
e("ffi-con", ["C20"], (F, '''  path_builder.WptConstraint(
      index, trajopt::LinearVelocityMaxMagnitudeConstraint{magnitude});
''', '''  trajopt::Constraint constraint =
      trajopt::LinearVelocityMaxMagnitudeConstraint{magnitude};
  path_builder.WptConstraint(index, constraint);
'''), (F, '''  path_builder.WptConstraint(index,
                             trajopt::LinearVelocityDirectionConstraint{angle});
''', '''  const trajopt::LinearVelocityDirectionConstraint direction{angle};
  path_builder.WptConstraint(index, direction);
'''))
e("ffi-flag", ["C20"], (F, "trajopt::GetCancellationFlag() = 1;", "auto& flag = trajopt::GetCancellationFlag();\n  flag.store(1);"))
e("ffi-handlename", ["C20"], (F, "int64_t handle) const {\n  trajopt::SwerveTrajectoryGenerator generator{path_builder, handle};", "int64_t id) const {\n  auto builder = path_builder;\n  trajopt::SwerveTrajectoryGenerator generator{std::move(builder), id};"))
L = "src/lib.rs"
e("rs-maperr", ["C21"], (L, """        match self.path_builder.generate(diagnostics, handle) {
            Ok(traj) => Ok(traj),
            Err(msg) => Err(msg.what().to_string()),
        }
""", """        self.path_builder
            .generate(diagnostics, handle)
            .map_err(|msg| msg.what().to_string())
"""))
e("rs-inner", ["C21"], (L, "    pub fn new() -> SwervePathBuilder {", """    fn inner(&mut self) -> std::pin::Pin<&mut crate::ffi::SwervePathBuilder> {
        self.path_builder.pin_mut()
    }

    pub fn new() -> SwervePathBuilder {"""), (L, "re:(?<=\\()self\\.path_builder\\.pin_mut\\(\\),", "self.inner(),"))
e("rs-methods", ["C21"], (L, "re:crate::ffi::SwervePathBuilder::(\\w+)\\(\\s*self\\.path_builder\\.pin_mut\\(\\),", "self.path_builder.pin_mut().\\1("))
e("rs-field", ["C21"], (L, "re:\\bpath_builder(?=[.:])", "inner"))
e("rs-use", ["C21"], (L, "pub struct SwervePathBuilder {", "use crate::ffi::SwervePathBuilder as Native;\n\npub struct SwervePathBuilder {"), (L, "re:crate::ffi::SwervePathBuilder::", "Native::"))
e("rs-let", ["C21"], (L, "        crate::ffi::SwervePathBuilder::set_bumpers(self.path_builder.pin_mut(), length, width);", "        let builder = self.path_builder.pin_mut();\n        builder.set_bumpers(length, width);"),
  (L, "            Err(msg) => Err(msg.what().to_string()),", "            Err(e) => {\n                let text = String::from(e.what());\n                Err(text)\n            }"))
e("rs-names", ["C21"], (L, "pub fn pose_wpt(&mut self, index: usize, x: f64, y: f64, heading: f64) {\n        crate::ffi::SwervePathBuilder::pose_wpt(self.path_builder.pin_mut(), index, x, y, heading);",
  "pub fn pose_wpt(&mut self, i: usize, px: f64, py: f64, theta: f64) {\n        crate::ffi::SwervePathBuilder::pose_wpt(self.path_builder.pin_mut(), i, px, py, theta);"))
e("rs-default", ["C21"], (L, "        SwervePathBuilder {\n            path_builder: crate::ffi::swerve_path_builder_new(),\n        }", "        let path_builder = crate::ffi::swerve_path_builder_new();\n        Self { path_builder }"), (L, "        Self::new()\n", "        SwervePathBuilder::new()\n"))
e("rs-errfn", ["C21"], (L, "pub fn cancel_all() {", "fn message(error: cxx::Exception) -> String {\n    error.what().to_string()\n}\n\npub fn cancel_all() {"), (L, "Err(msg) => Err(msg.what().to_string())", "Err(msg) => Err(message(msg))"))
e("rs-display", ["C21"], (L, "Err(msg.what().to_string())", "Err(msg.to_string())"))
e("rs-owned", ["C21"], (L, "Err(msg.what().to_string())", "Err(msg.what().to_owned())"))
e("rs-swapsrc", ["C21"], (L, "            self.path_builder.pin_mut(),\n            counts,", "            self.path_builder.pin_mut(),\n            {\n                let n = counts;\n                n\n            },"))
e("rs-reorder", ["C20", "C21"], (L, "        fn set_bumpers(self: Pin<&mut SwervePathBuilder>, length: f64, width: f64);\n", ""), (L, "        fn cancel_all();\n", "        fn cancel_all();\n\n        fn set_bumpers(self: Pin<&mut SwervePathBuilder>, length: f64, width: f64);\n"))
e("rs-macro", ["C21"], (L, "pub struct SwervePathBuilder {", """macro_rules! native {
    ($self:ident . $op:ident ( $($arg:expr),* $(,)? )) => {
        crate::ffi::SwervePathBuilder::$op($self.path_builder.pin_mut(), $($arg),*)
    };
}

pub struct SwervePathBuilder {"""), (L, "        crate::ffi::SwervePathBuilder::set_bumpers(self.path_builder.pin_mut(), length, width);", "        native!(self.set_bumpers(length, width));"))
e("rs-clone", ["C21"], (L, "            Ok(traj) => Ok(traj),", "            Ok(traj) => Ok(HolonomicTrajectory {\n                samples: traj.samples,\n            }),"))
