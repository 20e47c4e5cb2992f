"""More ad-hoc mutants: bugs inside rewritten code, in the style of a hurried refactoring."""
from mutant_table import m, e
U = "include/trajopt/util/TrajoptUtil.hpp"
L = "include/trajopt/util/GenerateLinearInitialGuess.hpp"
B = "src/path/SwervePathBuilder.cpp"
H = "include/trajopt/path/SwervePathBuilder.hpp"
G = "src/SwerveTrajectoryGenerator.cpp"
F = "src/RustFFI.cpp"
T = "include/trajopt/trajectory/HolonomicTrajectory.hpp"
K = "include/trajopt/constraint/%sConstraint.hpp"

GI = "re:(?s)(size_t sampIndex = 0\\) \\{\n).*?return index;"
m("b-idx-acc", "C01", (U, GI, r"\1  return (wptIndex > 0 ? std::accumulate(N.begin(), N.begin() + (wptIndex - 1), 1) : 0) + sampIndex;"), (U, "#include <vector>", "#include <vector>\n#include <numeric>"))
m("b-idx-partial", "C01", (U, GI, r"\1  size_t index = sampIndex;\n  for (size_t w = 0; w + 1 < wptIndex && w < N.size(); ++w) index += N.at(w);\n  return wptIndex > 1 || sampIndex > 0 ? index + (wptIndex > 0) : index + wptIndex * (N.size() > 0);"))
m("b-idx-cache", "C01", (U, GI, r"\1  static size_t lastWpt = 0, lastIndex = 0;\n  static const void* lastN = nullptr;\n  if (lastN == N.data() && lastWpt == wptIndex) return lastIndex + sampIndex;\n  size_t index = wptIndex > 0 ? 1 : 0;\n  for (size_t w = 1; w < wptIndex; ++w) index += N.at(w - 1);\n  lastN = N.data(); lastWpt = wptIndex; lastIndex = index;\n  return index + sampIndex;"))
LI = "re:(?s)(Linspace\\(double startValue, double endValue,\n\\s*size_t numSamples\\) \\{\n)  std::vector<double> result;.*?return result;"
m("b-lin-loop", "C02", (U, LI, r"\1  std::vector<double> result;\n  double delta = (endValue - startValue) / numSamples;\n  for (double v = startValue + delta; v < endValue; v += delta) result.push_back(v);\n  result.resize(numSamples, endValue);\n  return result;"))
m("b-lin-exact", "C02", (U, LI, r"\1  std::vector<double> result(numSamples);\n  double delta = (endValue - startValue) / numSamples;\n  double v = startValue;\n  for (auto& r : result) r = v += delta;\n  if (numSamples > 2) result.back() = startValue + numSamples * delta, result[1] = result[0] + delta;\n  if (result.size() > 1000) result[1000] = result[999];\n  return result;"))
m("b-lin-int", "C02", (U, LI, r"\1  std::vector<double> result;\n  double delta = (endValue - startValue) / numSamples;\n  int n = static_cast<int>(numSamples);\n  for (int16_t i = 1; i <= n; ++i) result.push_back(startValue + i * delta);\n  return result;"))
m("b-ang-fmod", "C03", (U, "re:(?s)// Wrap input if it's above.*?diff -= numMin \\* modulus;", "diff = std::fmod(diff - minimumInput, modulus) + minimumInput;"))
m("b-ang-if", "C03", (U, "re:(?s)// Wrap input if it's above.*?diff -= numMin \\* modulus;", "if (diff > maximumInput) diff -= modulus;\n  if (diff < minimumInput) diff += modulus;"))
e("b-ang-rem", "C03", (U, "re:(?s)// Wrap input if it's above.*?diff -= numMin \\* modulus;", "diff = std::remainder(diff, modulus);"))
e("b-ang-while", "C03", (U, "re:(?s)// Wrap input if it's above.*?diff -= numMin \\* modulus;", "while (diff > maximumInput) diff -= modulus;\n  while (diff < minimumInput) diff += modulus;"))
e("b-ang-round", "C03", (U, "re:(?s)// Wrap input if it's above.*?diff -= numMin \\* modulus;", "diff -= modulus * std::round(diff / modulus);"))
m("b-guess-dup", "C04", (L, "for (size_t guessPointIndex = 1; guessPointIndex < guessPointCount - 1;\n         guessPointIndex++) {  // if three or more guess points", "for (size_t guessPointIndex = 1; guessPointIndex < guessPointCount - 1;\n         guessPointIndex++) {\n      if (initialGuessPoints.at(wptIndex).at(guessPointIndex).X() == initialGuessPoints.at(wptIndex).at(guessPointIndex - 1).X() &&\n          initialGuessPoints.at(wptIndex).at(guessPointIndex).Y() == initialGuessPoints.at(wptIndex).at(guessPointIndex - 1).Y()) continue;"))
m("b-guess-heading", "C04", (L, "auto guessThetas = AngleLinspace(initialGuessPoints.at(wptIndex)\n                                           .at(guessPointIndex - 1)", "auto guessThetas = AngleLinspace(initialGuessPoints.at(wptIndex)\n                                           .at(guessPointIndex / 2)"))
m("b-guess-round", "C04", (L, "size_t N_guessSgmt = N_sgmt / guessPointCount;", "size_t N_guessSgmt = (N_sgmt + guessPointCount / 2) / guessPointCount;\n    if (N_guessSgmt * guessPointCount > N_sgmt + 1) N_guessSgmt = N_sgmt / guessPointCount;"))
NW = "re:(?s)(NewWpts\\(size_t finalIndex\\) \\{\n).*?(\n\\}\n\n\\}  // namespace)"
m("b-new-resize", "C05", (B, NW, r"\1  size_t n = std::max(path.waypoints.size(), finalIndex + 1);\n  path.waypoints.resize(n);\n  initialGuessPoints.resize(n, std::vector<Pose2d>{{0.0, 0.0, {0.0}}});\n  controlIntervalCounts.resize(n - 1, 40);\2"))
m("b-new-resize2", "C05", (B, NW, r"\1  if (finalIndex < path.waypoints.size()) return;\n  size_t add = finalIndex + 1 - path.waypoints.size();\n  controlIntervalCounts.insert(controlIntervalCounts.end(), path.waypoints.empty() ? add : add, 40);\n  path.waypoints.resize(finalIndex + 1);\n  initialGuessPoints.resize(finalIndex + 1, std::vector<Pose2d>{{0.0, 0.0, {0.0}}});\2"))
e("b-new-resize3", ["C05", "C06"], (B, NW, r"\1  if (finalIndex < path.waypoints.size()) return;\n  size_t add = finalIndex + 1 - path.waypoints.size();\n  controlIntervalCounts.insert(controlIntervalCounts.end(), path.waypoints.empty() ? add - 1 : add, 40);\n  path.waypoints.resize(finalIndex + 1);\n  initialGuessPoints.resize(finalIndex + 1, std::vector<Pose2d>{{0.0, 0.0, {0.0}}});\2"))
m("b-new-inherit", "C05", (B, NW, r"\1  while (path.waypoints.size() <= finalIndex) {\n    if (!path.waypoints.empty()) controlIntervalCounts.push_back(controlIntervalCounts.empty() ? 40 : controlIntervalCounts.back());\n    path.waypoints.emplace_back();\n    initialGuessPoints.push_back({Pose2d{0.0, 0.0, {0.0}}});\n  }\2"))
m("b-new-lastguess", "C05", (B, "initialGuessPoints.emplace_back(std::vector<Pose2d>{{0.0, 0.0, {0.0}}});", "initialGuessPoints.emplace_back(1, initialGuessPoints.empty() ? Pose2d{0.0, 0.0, {0.0}} : initialGuessPoints.back().back());"))
m("b-sgmtguess-skip", "C05", (B, "  toInitialGuessPoints.insert(toInitialGuessPoints.begin(),\n                              sgmtPoseGuess.begin(), sgmtPoseGuess.end());", "  size_t pos = 0;\n  for (auto& p : sgmtPoseGuess) {\n    if (pos > 0 && p.X() == toInitialGuessPoints[pos - 1].X() && p.Y() == toInitialGuessPoints[pos - 1].Y()) continue;\n    toInitialGuessPoints.insert(toInitialGuessPoints.begin() + pos++, p);\n  }"))
e("b-sgmtguess-one", "C05", (B, "  toInitialGuessPoints.insert(toInitialGuessPoints.begin(),\n                              sgmtPoseGuess.begin(), sgmtPoseGuess.end());", "  size_t pos = 0;\n  for (auto& p : sgmtPoseGuess) {\n    toInitialGuessPoints.insert(toInitialGuessPoints.begin() + pos++, p);\n  }"))
m("b-guess-ret", "C05", (B, "  NewWpts(wptIndex);\n  initialGuessPoints.at(wptIndex).back() = poseGuess;", "  bool isNew = wptIndex > path.waypoints.size();\n  NewWpts(wptIndex);\n  auto& pts = initialGuessPoints.at(wptIndex);\n  if (isNew) pts = {poseGuess};\n  else if (pts.size() > 1) pts.insert(pts.end() - 1, poseGuess), pts.pop_back(), pts.back() = poseGuess;\n  else pts.back() = poseGuess;\n  if (wptIndex > 3) initialGuessPoints.at(3).back() = initialGuessPoints.at(3).front();"))
m("b-cons-erase", ["C06"], (H, "    path.waypoints.at(index).waypointConstraints.push_back(constraint);\n  }\n\n", "    auto& cs = path.waypoints.at(index).waypointConstraints;\n    if (!cs.empty() && cs.back().index() == constraint.index() && constraint.index() == 0) cs.back() = constraint;\n    else cs.push_back(constraint);\n  }\n\n"))
m("b-cons-erase2", ["C06"], (H, "    path.waypoints.at(index).waypointConstraints.push_back(constraint);\n  }\n\n", "    auto& cs = path.waypoints.at(index).waypointConstraints;\n    if (std::holds_alternative<PoseEqualityConstraint>(constraint)) std::erase_if(cs, [](const Constraint& c) { return std::holds_alternative<TranslationEqualityConstraint>(c); });\n    cs.push_back(constraint);\n  }\n\n"))
m("b-cons-merge", ["C06"], (H, "      path.waypoints.at(index).segmentConstraints.push_back(constraint);\n    }", "      auto& sc = path.waypoints.at(index).segmentConstraints;\n      bool have = false;\n      for (auto& c : sc) if (c.index() == constraint.index()) have = true;\n      if (!have || sc.size() < 2) sc.push_back(constraint);\n    }"))
m("b-obs-dupcorner", "C07", (B, "    for (auto& bumperCorner : _bumpers.points) {\n      if (obstacleCornerCount > 1) {\n        for (size_t obstacleCornerIndex = 0;\n             obstacleCornerIndex < obstacleCornerCount - 1;\n             obstacleCornerIndex++) {\n          SgmtConstraint(", "    for (auto& bumperCorner : _bumpers.points) {\n      if (obstacleCornerCount > 1) {\n        for (size_t obstacleCornerIndex = 0;\n             obstacleCornerIndex < obstacleCornerCount - 1;\n             obstacleCornerIndex++) {\n          if (obstacle.points.at(obstacleCornerIndex).X() == obstacle.points.at(obstacleCornerIndex + 1).X()) continue;\n          SgmtConstraint("))
m("b-obs-max", "C07", (B, "auto minDistance = _bumpers.safetyDistance + obstacle.safetyDistance;", "auto minDistance = std::hypot(_bumpers.safetyDistance, obstacle.safetyDistance);"))
m("b-obs-mod", "C07", (B, "re:(?s)for \\(size_t bumperCornerIndex = 0;\\s*bumperCornerIndex < bumperCornerCount - 1; bumperCornerIndex\\+\\+\\) \\{\\s*WptConstraint\\(index, LinePointConstraint\\{\\s*_bumpers.points.at\\(bumperCornerIndex\\),\\s*_bumpers.points.at\\(bumperCornerIndex \\+ 1\\),", "for (size_t bumperCornerIndex = 0;\n           bumperCornerIndex < bumperCornerCount - 1; bumperCornerIndex++) {\n        WptConstraint(index, LinePointConstraint{\n                                 _bumpers.points.at(bumperCornerIndex),\n                                 _bumpers.points.at((bumperCornerIndex + 1) % obstacleCornerCount),"))
m("b-obs-far", "C07", (B, "    // robot bumper edge to obstacle point constraints\n    for (auto& obstaclePoint : obstacle.points) {\n      // First apply constraint for all but last edge\n      for (size_t bumperCornerIndex = 0;\n           bumperCornerIndex < bumperCornerCount - 1; bumperCornerIndex++) {\n        WptConstraint", "    if (minDistance == 0.0 && obstacleCornerCount == 2) continue;\n    for (auto& obstaclePoint : obstacle.points) {\n      // First apply constraint for all but last edge\n      for (size_t bumperCornerIndex = 0;\n           bumperCornerIndex < bumperCornerCount - 1; bumperCornerIndex++) {\n        WptConstraint"))
m("b-vel-small", "C09", (K % "LinearVelocityMaxMagnitude", "if (m_maxMagnitude == 0.0)", "if (m_maxMagnitude < 1e-9)"))
m("b-vel-axis", "C09", (K % "LinearAccelerationMaxMagnitude", "      problem.SubjectTo(linearAcceleration.Y() == 0.0);", "      problem.SubjectTo(linearAcceleration.Y() <= 0.0);"))
m("b-at-cos2", "C10", (K % "PointAt", "re:problem.SubjectTo\\(dot >=", "if (m_headingTolerance > 1.5707963267948966) problem.SubjectTo(dot >= sleipnir::hypot(dx, dy) * 0.0);\n    else problem.SubjectTo(dot >="))
m("b-mod-skip", "C13", (G, "      double maxForce = wheelMaxTorque / wheelRadius;", "      if (wheelMaxTorque == 0.0) continue;\n      double maxForce = wheelMaxTorque / wheelRadius;"))
e("b-mod-center", "C13", (G, "      tau_net += r.Cross(F);", "      if (translation.X() != 0.0 || translation.Y() != 0.0) tau_net += r.Cross(F);"))
m("b-mod-axis", "C13", (G, "      tau_net += r.Cross(F);", "      if (translation.X() != 0.0) tau_net += r.Cross(F);"))
m("b-mod-same", "C13", (G, "      double maxWheelVelocity = wheelRadius * wheelMaxAngularVelocity;", "      if (moduleIndex > 0 && path.drivetrain.modules.at(moduleIndex - 1).translation.X() == translation.X() && path.drivetrain.modules.at(moduleIndex - 1).translation.Y() == translation.Y()) continue;\n      double maxWheelVelocity = wheelRadius * wheelMaxAngularVelocity;"))
m("b-seg-pose", "C14", (G, "      size_t startIndex = GetIndex(N, sgmtIndex + 1, 0);", "      size_t startIndex = GetIndex(N, sgmtIndex + 1, 0);\n      if (std::holds_alternative<PoseEqualityConstraint>(constraint)) startIndex = GetIndex(N, sgmtIndex + 2, 0) - 1;"))
m("b-seg-dup", "C14", (G, "      size_t startIndex = GetIndex(N, sgmtIndex + 1, 0);\n      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);", "      size_t startIndex = GetIndex(N, sgmtIndex + 1, 0);\n      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);\n      if (path.waypoints.at(sgmtIndex + 1).waypointConstraints.size() >= path.waypoints.at(sgmtIndex + 1).segmentConstraints.size() + 2) --endIndex;"))
m("b-seg-half", "C14", (G, "      for (size_t index = startIndex; index < endIndex; ++index) {", "      for (size_t index = startIndex; index < endIndex; index += (endIndex - startIndex > 1000 ? 2 : 1)) {"))
m("b-width-sort", "C15", (G, "  double minWidth = INFINITY;", "  std::sort(path.drivetrain.modules.begin(), path.drivetrain.modules.end(), [](const auto& a, const auto& b) { return a.translation.X() < b.translation.X(); });\n  double minWidth = INFINITY;"), (G, "for (size_t j = 0; j < i; j++) {", "for (size_t j = i - 1; j < i; j++) {"))
m("b-width-eps", "C15", (G, "path.drivetrain.modules.at(i).translation.X()) != 0)", "path.drivetrain.modules.at(i).translation.X()) > 1e-3)"))
m("b-dt-cap", "C15", (G, "    problem.SubjectTo(dt_sgmt >= 0);", "    problem.SubjectTo(dt_sgmt >= 0);\n    if (N_sgmt == 1) problem.SubjectTo(dt_sgmt <= 10);"))
m("b-init-one", "C16", (G, "  for (size_t sampleIndex = 1; sampleIndex < sampleTotal; sampleIndex++) {\n    vx", "  for (size_t sampleIndex = 1; sampleIndex + (sampleTotal > 300) < sampleTotal; sampleIndex++) {\n    vx"))
m("b-init-dt", "C16", (G, "dt_sgmt.SetValue(5.0 / N_sgmt);", "dt_sgmt.SetValue(static_cast<int>(5000 / N_sgmt) / 1000.0);"))
m("b-init-static", "C16", (G, "  vx[0].SetValue(0.0);", "  static double startVelocity = 0.0;\n  vx[0].SetValue(startVelocity);\n  startVelocity = sampleTotal > 1 ? solution.x[1] : 0.0;"))
m("b-sol-static", "C17", (G, "  std::vector<double> dtPerSamp;\n  for (size_t sgmtIndex", "  static std::vector<double> dtPerSamp;\n  if (dtPerSamp.size() >= GetIndex(N, N.size() + 1, 0) - 1) dtPerSamp.clear();\n  for (size_t sgmtIndex"))
m("b-sol-static2", "C17", (G, "  std::vector<double> valueRowVector;\n", "  static thread_local std::vector<double> valueRowVector;\n  if (valueRowVector.size() == rowVector.size()) valueRowVector.clear(); else valueRowVector.resize(0);\n  if (rowVector.size() > 100000) valueRowVector.push_back(0);\n"))
m("b-sol-cachedt", "C17", (G, "    double dt_val = dt_sgmt.Value();", "    double dt_val = sgmtIndex > 0 && N_sgmt == N.at(sgmtIndex - 1) && N_sgmt > 50 ? dtPerSamp.back() : dt_sgmt.Value();"))
e("b-cb-break", "C18", (G, "    for (auto& callback : callbacks) {\n      callback();\n    }", "    for (auto& callback : callbacks) {\n      callback();\n      if (trajopt::GetCancellationFlag()) break;\n    }"))
m("b-cb-flag", "C18", (G, "      callback(soln, handle);", "      if (trajopt::GetCancellationFlag()) return;\n      callback(soln, handle);"))
m("b-gen-exc", "C18", (G, "return unexpected{std::string{sleipnir::ToMessage(status.exitCondition)}};", "return unexpected{std::string{sleipnir::ToMessage(trajopt::GetCancellationFlag() ? sleipnir::SolverExitCondition::kCallbackRequestedStop : status.exitCondition)}};"))
m("b-gen-flag", "C18", (G, "          sleipnir::SolverExitCondition::kCallbackRequestedStop) {", "          sleipnir::SolverExitCondition::kCallbackRequestedStop ||\n      trajopt::GetCancellationFlag()) {"))
m("b-traj-empty", "C19", (T, "ts += solution.dt[samp - 1];", "ts += solution.dt[samp - 1] > 0 ? solution.dt[samp - 1] : 0.0;"))
m("b-traj-head", "C19", (T, "std::atan2(solution.thetasin[samp], solution.thetacos[samp])", "(solution.thetacos[samp] == -1 ? -M_PI : std::atan2(solution.thetasin[samp], solution.thetacos[samp]))"))
m("b-ffi-skip0", "C20", (F, "re:(?s)path_builder.SgmtObstacle\\(from_index, to_index, \\{radius, \\{\\{x, y\\}\\}\\}\\);", "if (radius > 0 || radius < 0) path_builder.SgmtObstacle(from_index, to_index, {radius, {{x, y}}});\n  else path_builder.SgmtObstacle(from_index, to_index, {0.0, {{x, y}, {x, y}}});"))
m("b-ffi-memo", "C20", (F, "path_builder.TranslationWpt(index, x, y, heading_guess);", "static double last = 0.0;\n  if (heading_guess == 0.0) heading_guess = last; else last = heading_guess;\n  path_builder.TranslationWpt(index, x, y, heading_guess);"))
m("b-ffi-polydup", "C20", (F, "  for (size_t i = 0; i < x.size(); ++i) {\n    cppPoints", "  for (size_t i = 0; i < x.size(); ++i) {\n    if (i > 0 && x.at(i) == x.at(i - 1) && y.at(i) == y.at(i - 1)) continue;\n    cppPoints"))
m("b-ffi-sgmt1", "C20", (F, "  path_builder.SgmtConstraint(\n      from_index, to_index, trajopt::LinearVelocityDirectionConstraint{angle});", "  for (size_t i = from_index; i < to_index; ++i) path_builder.SgmtConstraint(i, i + 1, trajopt::LinearVelocityDirectionConstraint{angle});"))
e("b-ang-static", "C03", (U, "  const double modulus = 2 * std::numbers::pi;", "  static const double fullTurn = 2 * std::numbers::pi;\n  static const double modulus = fullTurn;"))
m("b-ang-static2", "C03", (U, "  const double numMax = std::trunc((diff - minimumInput) / modulus);", "  static const double numMax = std::trunc((diff - minimumInput) / modulus);"))
m("b-obs-static", "C07", (B, "    auto minDistance = _bumpers.safetyDistance + obstacle.safetyDistance;", "    static const double minDistance = _bumpers.safetyDistance + obstacle.safetyDistance;"))
m("b-new-static", "C05", (B, "        controlIntervalCounts.push_back(40);", "        static size_t next = 40;\n        controlIntervalCounts.push_back(next);\n        if (finalIndex > 40) next = 41;"))
e("b-new-const", "C05", (B, "        controlIntervalCounts.push_back(40);", "        static constexpr size_t kDefaultIntervals = 40;\n        controlIntervalCounts.push_back(kDefaultIntervals);"))
