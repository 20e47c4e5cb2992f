"""More mutants and refactorings: arrays, spans, functors, member pointers."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seventh_table import *  # noqa: E402,F401,F403
from seventh_table import G, GH, BC, BH, F, RS, U, HT, GG, m, e  # noqa: E402

INC8 = ("#include <algorithm>\n#include <chrono>\n", "#include <algorithm>\n#include <array>\n#include <chrono>\n#include <functional>\n#include <iterator>\n#include <numeric>\n#include <span>\n#include <tuple>\n#include <utility>\n")
BINC8 = ("#include <utility>\n", "#include <algorithm>\n#include <array>\n#include <functional>\n#include <iterator>\n#include <span>\n#include <utility>\n#include <vector>\n")

# ---- ApplyInitialGuess
AIG4 = """    x[sampleIndex].SetValue(solution.x[sampleIndex]);
    y[sampleIndex].SetValue(solution.y[sampleIndex]);
    thetacos[sampleIndex].SetValue(solution.thetacos[sampleIndex]);
    thetasin[sampleIndex].SetValue(solution.thetasin[sampleIndex]);
  }
"""
AIGH = "  for (size_t sampleIndex = 0; sampleIndex < sampleTotal; sampleIndex++) {\n" + AIG4
e("h-init-pairs", ["C16"], (G, *INC8), (G, AIGH, """  const std::array<std::pair<std::vector<sleipnir::Variable>*, const std::vector<double>*>, 4> rows{{
      {&x, &solution.x}, {&y, &solution.y}, {&thetacos, &solution.thetacos}, {&thetasin, &solution.thetasin}}};
  for (const auto& [variables, values] : rows) {
    for (size_t k = 0; k < sampleTotal; ++k) {
      (*variables)[k].SetValue((*values)[k]);
    }
  }
"""))
m("h-init-pairs1", ["C16"], (G, *INC8), (G, AIGH, """  const std::array<std::pair<std::vector<sleipnir::Variable>*, const std::vector<double>*>, 4> rows{{
      {&x, &solution.x}, {&y, &solution.y}, {&thetacos, &solution.thetacos}, {&thetasin, &solution.thetasin}}};
  for (const auto& [variables, values] : rows) {
    for (size_t k = 0; k + 1 < sampleTotal; ++k) {
      (*variables)[k].SetValue((*values)[k]);
    }
  }
"""))
ZERO6 = """  vx[0].SetValue(0.0);
  vy[0].SetValue(0.0);
  omega[0].SetValue(0.0);
  ax[0].SetValue(0.0);
  ay[0].SetValue(0.0);
  alpha[0].SetValue(0.0);
"""
e("h-init-zeros", ["C16"], (G, *INC8), (G, ZERO6, """  for (auto row : std::array{&vx, &vy, &omega, &ax, &ay, &alpha}) {
    row->front().SetValue(0.0);
  }
"""))
e("h-init-refs", ["C16"], (G, *INC8), (G, ZERO6, """  for (std::vector<sleipnir::Variable>& row : {std::ref(vx), std::ref(vy), std::ref(omega), std::ref(ax), std::ref(ay), std::ref(alpha)}) {
    row[0].SetValue(0.0);
  }
"""))
e("h-init-zeros1", ["C16"], (G, *INC8), (G, ZERO6, """  for (auto row : std::array{&vx, &vy, &omega, &ax, &ay, &ax}) {
    row->front().SetValue(0.0);
  }
"""))
e("h-init-setter", ["C16"], (G, AIGH, """  auto assign = [](std::vector<sleipnir::Variable>& variables, const std::vector<double>& values) {
    auto value = values.begin();
    for (auto& variable : variables) {
      variable.SetValue(*value++);
    }
  };
  assign(x, solution.x);
  assign(y, solution.y);
  assign(thetacos, solution.thetacos);
  assign(thetasin, solution.thetasin);
"""))

# ---- ConstructSwerveSolution
DT = """    for (size_t i = 0; i < N_sgmt; ++i) {
      dtPerSamp.push_back(dt_val);
    }
"""
e("h-sol-insert", ["C17"], (G, DT, "    dtPerSamp.insert(dtPerSamp.cend(), N_sgmt, dt_val);\n"))
e("h-sol-resize", ["C17"], (G, DT, "    dtPerSamp.resize(dtPerSamp.size() + N_sgmt, dt_val);\n"))
e("h-sol-fill", ["C17"], (G, *INC8), (G, DT, "    std::fill_n(std::back_inserter(dtPerSamp), N_sgmt, dt_val);\n"))
e("h-sol-gen", ["C17"], (G, *INC8), (G, DT, "    std::generate_n(std::back_inserter(dtPerSamp), N_sgmt, [&] { return dt_val; });\n"))
m("h-sol-resize1", ["C17"], (G, DT, "    dtPerSamp.resize(sgmtIndex + N_sgmt, dt_val);\n"))
e("h-sol-down", ["C17"], (G, DT, """    for (size_t left = N_sgmt; left > 0; --left) {
      dtPerSamp.emplace_back(dt_val);
    }
"""))
e("h-sol-dowhile", ["C17"], (G, DT, """    size_t i = 0;
    while (i++ < N_sgmt) {
      dtPerSamp.push_back(dt_val);
    }
"""))
e("h-sol-reserve", ["C17"], (G, *INC8), (G, "  std::vector<double> dtPerSamp;\n", "  std::vector<double> dtPerSamp;\n  dtPerSamp.reserve(std::reduce(N.begin(), N.end()));\n"))
SOLRET = """  return SwerveSolution{dtPerSamp,
                        RowSolutionValue(x),
                        RowSolutionValue(y),"""
e("h-sol-assign", ["C17"], (G, "re:(?s)  return SwerveSolution\\{dtPerSamp,.*?MatrixSolutionValue\\(Fy\\)\\};\n", """  SwerveSolution solution;
  solution.dt = std::move(dtPerSamp);
  solution.x = RowSolutionValue(x);
  solution.y = RowSolutionValue(y);
  solution.thetacos = RowSolutionValue(thetacos);
  solution.thetasin = RowSolutionValue(thetasin);
  solution.vx = RowSolutionValue(vx);
  solution.vy = RowSolutionValue(vy);
  solution.omega = RowSolutionValue(omega);
  solution.ax = RowSolutionValue(ax);
  solution.ay = RowSolutionValue(ay);
  solution.alpha = RowSolutionValue(alpha);
  solution.moduleFX = MatrixSolutionValue(Fx);
  solution.moduleFY = MatrixSolutionValue(Fy);
  return solution;
"""))
e("h-sol-desig", ["C17"], (G, "re:(?s)  return SwerveSolution\\{dtPerSamp,.*?MatrixSolutionValue\\(Fy\\)\\};\n", """  return {.dt = std::move(dtPerSamp),
          .x = RowSolutionValue(x),
          .y = RowSolutionValue(y),
          .thetacos = RowSolutionValue(thetacos),
          .thetasin = RowSolutionValue(thetasin),
          .vx = RowSolutionValue(vx),
          .vy = RowSolutionValue(vy),
          .omega = RowSolutionValue(omega),
          .ax = RowSolutionValue(ax),
          .ay = RowSolutionValue(ay),
          .alpha = RowSolutionValue(alpha),
          .moduleFX = MatrixSolutionValue(Fx),
          .moduleFY = MatrixSolutionValue(Fy)};
"""))

# ---- the constructor
e("h-con-sum", ["C14"], (G, *INC8), (G, "  size_t sampTot = GetIndex(N, wptCnt, 0);\n", "  size_t sampTot = std::reduce(N.begin(), N.end(), size_t{1});\n"))
e("h-con-running", ["C12"], (G, "  for (size_t wptIndex = 1; wptIndex < wptCnt; ++wptIndex) {\n    size_t N_sgmt", "  size_t index = 0;\n  for (size_t wptIndex = 1; wptIndex < wptCnt; ++wptIndex) {\n    size_t N_sgmt"), (G, "      size_t index = GetIndex(N, wptIndex, sampIndex);\n", "      ++index;\n"))
m("h-con-running1", ["C12"], (G, "  for (size_t wptIndex = 1; wptIndex < wptCnt; ++wptIndex) {\n    size_t N_sgmt", "  size_t index = 0;\n  for (size_t wptIndex = 1; wptIndex < wptCnt; ++wptIndex) {\n    size_t N_sgmt"), (G, "      size_t index = GetIndex(N, wptIndex, sampIndex);\n", "      index = sampIndex == 0 ? wptIndex == 1 ? 1 : index + 1 : index + (N_sgmt > 1000 ? 0 : 1);\n"))
e("h-con-net", ["C12"], (G, "  for (size_t index = 0; index < sampTot; ++index) {\n    Rotation2v theta{", "  const auto& modules = path.drivetrain.modules;\n  for (size_t index = 0; index < sampTot; ++index) {\n    Rotation2v theta{"),
  (G, "re:(?s)    auto Fx_net = std::accumulate.*?sleipnir::Variable\\{0.0\\}\\);\n\n    // Solve for net torque\n", "    sleipnir::Variable Fx_net = 0.0;\n    sleipnir::Variable Fy_net = 0.0;\n\n    // Solve for net torque\n"),
  (G, "      tau_net += r.Cross(F);\n", "      Fx_net += F.X();\n      Fy_net += F.Y();\n      tau_net += r.Cross(F);\n"))
e("h-con-iter", ["C12", "C13"], (G, *INC8), (G, """    for (size_t moduleIndex = 0; moduleIndex < path.drivetrain.modules.size();
         ++moduleIndex) {
      const auto& [translation, wheelRadius, wheelMaxAngularVelocity,
                   wheelMaxTorque] = path.drivetrain.modules.at(moduleIndex);

      auto r =""", """    for (auto it = path.drivetrain.modules.begin(); it != path.drivetrain.modules.end(); ++it) {
      const size_t moduleIndex = std::distance(path.drivetrain.modules.begin(), it);
      const auto& translation = it->translation;

      auto r ="""))
STATE = """      Pose2v pose{
          x.at(index), y.at(index), {thetacos.at(index), thetasin.at(index)}};
      Translation2v linearVelocity{vx.at(index), vy.at(index)};
      auto angularVelocity = omega.at(index);
      Translation2v linearAcceleration{ax.at(index), ay.at(index)};
      auto angularAcceleration = alpha.at(index);

      std::visit(
          [&](auto&& arg) {
            arg.Apply(problem, pose, linearVelocity, angularVelocity,
                      linearAcceleration, angularAcceleration);
          },
          constraint);
"""
STATE2 = STATE.replace("\n", "\n  ")
STATE2 = ("  " + STATE2)[:-2].replace("\n  \n", "\n\n")
FUNCTOR = """struct ConstraintApplier {
  sleipnir::OptimizationProblem& problem;
  const Pose2v& pose;
  const Translation2v& linearVelocity;
  const sleipnir::Variable& angularVelocity;
  const Translation2v& linearAcceleration;
  const sleipnir::Variable& angularAcceleration;

  template <typename T>
  void operator()(T&& constraint) const {
    constraint.Apply(problem, pose, linearVelocity, angularVelocity, linearAcceleration, angularAcceleration);
  }
};

SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
"""
VIS = """      std::visit(
          [&](auto&& arg) {
            arg.Apply(problem, pose, linearVelocity, angularVelocity,
                      linearAcceleration, angularAcceleration);
          },
          constraint);
"""
e("h-con-functor", ["C14"], (G, "SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(\n", FUNCTOR), (G, VIS, "      std::visit(ConstraintApplier{problem, pose, linearVelocity, angularVelocity, linearAcceleration, angularAcceleration}, constraint);\n"))
e("h-con-apply", ["C14"], (G, "  for (size_t wptIndex = 0; wptIndex < wptCnt; ++wptIndex) {\n    for (auto& constraint :", "  auto applyAt = [this](Constraint& constraint, size_t index) {\n" + STATE.replace("      ", "    ", 1).replace("\n      ", "\n    ") + "  };\n\n  for (size_t wptIndex = 0; wptIndex < wptCnt; ++wptIndex) {\n    for (auto& constraint :"),
  (G, "      size_t index = GetIndex(N, wptIndex + 1, 0) - 1;\n\n" + STATE, "      applyAt(constraint, GetIndex(N, wptIndex + 1, 0) - 1);\n"),
  (G, "      for (size_t index = startIndex; index < endIndex; ++index) {\n" + STATE2, "      for (size_t index = startIndex; index < endIndex; ++index) {\n        applyAt(constraint, index);\n"))
e("h-con-order", ["C14"], (G, """    for (auto& constraint :
         path.waypoints.at(sgmtIndex + 1).segmentConstraints) {
      size_t startIndex = GetIndex(N, sgmtIndex + 1, 0);
      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);

      for (size_t index = startIndex; index < endIndex; ++index) {
""", """    const size_t startIndex = GetIndex(N, sgmtIndex + 1, 0);
    const size_t endIndex = startIndex + N.at(sgmtIndex);

    for (size_t index = startIndex; index < endIndex; ++index) {
      for (auto& constraint : path.waypoints.at(sgmtIndex + 1).segmentConstraints) {
"""))
e("h-con-memptr", ["C12", "C17"], (G, *INC8), (G, """    x.emplace_back(problem.DecisionVariable());
    y.emplace_back(problem.DecisionVariable());
""", """    for (auto* row : {&x, &y}) {
      row->push_back(problem.DecisionVariable());
    }
"""))
e("h-con-rows", ["C12", "C17"], (G, "  for (size_t index = 0; index < sampTot; ++index) {\n    x.emplace_back(problem.DecisionVariable());\n    y.emplace_back(problem.DecisionVariable());\n", "  auto addVariable = [this](std::vector<sleipnir::Variable>& row) -> sleipnir::Variable& {\n    return row.emplace_back(problem.DecisionVariable());\n  };\n  for (size_t index = 0; index < sampTot; ++index) {\n    addVariable(x);\n    addVariable(y);\n"))
e("h-con-width-hypot", ["C15"], (G, *INC8), (G, "  double minWidth = INFINITY;\n", "  auto lower = [](double& limit, double value) {\n    if (value != 0 && value < limit) {\n      limit = value;\n    }\n  };\n  double minWidth = INFINITY;\n"),
  (G, "re:(?s)      if \\(std::abs\\(path.drivetrain.modules.at\\(j\\).translation.X\\(\\) -.*?\n    \\}\n  \\}\n\n  for \\(size_t sgmt", "      const auto gap = path.drivetrain.modules.at(j).translation - path.drivetrain.modules.at(i).translation;\n      lower(minWidth, std::abs(gap.X()));\n      lower(minWidth, std::abs(gap.Y()));\n    }\n  }\n\n  for (size_t sgmt"))
m("h-con-width-hypot1", ["C15"], (G, *INC8), (G, "  double minWidth = INFINITY;\n", "  auto lower = [](double& limit, double value) {\n    if (value > 0 && value < limit) {\n      limit = value;\n    }\n  };\n  double minWidth = INFINITY;\n"),
  (G, "re:(?s)      if \\(std::abs\\(path.drivetrain.modules.at\\(j\\).translation.X\\(\\) -.*?\n    \\}\n  \\}\n\n  for \\(size_t sgmt", "      const auto gap = path.drivetrain.modules.at(j).translation - path.drivetrain.modules.at(i).translation;\n      lower(minWidth, gap.X());\n      lower(minWidth, gap.Y());\n    }\n  }\n\n  for (size_t sgmt"))
e("h-con-width-exch", ["C15", "C12"], (G, *INC8), (G, "    auto N_sgmt = N.at(sgmtIndex);\n    auto T_sgmt = dt_sgmt * static_cast<int>(N_sgmt);\n    T_tot += T_sgmt;\n", "    const size_t N_sgmt = N.at(sgmtIndex);\n    T_tot += dt_sgmt * static_cast<double>(N_sgmt);\n"))
e("h-gen-switch", ["C18"], (G, "re:(?s)  if \\(static_cast<int>\\(status.exitCondition\\) < 0.*?\n  \\}\n\\}\n", """  const auto exit = status.exitCondition;
  const bool failed = static_cast<int>(exit) < 0 || exit == sleipnir::SolverExitCondition::kCallbackRequestedStop;
  return failed ? expected<SwerveSolution, std::string>{unexpected{std::string{sleipnir::ToMessage(exit)}}} : expected<SwerveSolution, std::string>{ConstructSwerveSolution()};
}
"""))
e("h-gen-func", ["C18"], (G, *INC8), (G, "    for (auto& callback : callbacks) {\n      callback();\n    }\n", "    std::for_each(callbacks.begin(), callbacks.end(), [](const std::function<void()>& f) { f(); });\n"))
e("h-gen-invoke", ["C18"], (G, *INC8), (G, "      callback(soln, handle);\n", "      std::invoke(callback, soln, handle);\n"))
e("h-gen-exch", ["C18"], (G, *INC8), (G, "    lastFrameTime = now;\n\n", "    std::exchange(lastFrameTime, now);\n\n"))
e("h-gen-elapsed", ["C18"], (G, "    if (now - lastFrameTime < timePerFrame) {\n", "    const auto elapsed = now - lastFrameTime;\n    const bool due = elapsed >= timePerFrame;\n    if (!due) {\n"))

# ---- the builder
e("h-obs-span", ["C07"], (BC, *BINC8), (BC, "    size_t bumperCornerCount = _bumpers.points.size();\n", "    const std::span<const Translation2d> corners{_bumpers.points};\n    size_t bumperCornerCount = corners.size();\n"), (BC, "      WptConstraint(index,\n                    PointPointConstraint{_bumpers.points.at(0),", "      WptConstraint(index,\n                    PointPointConstraint{corners[0],"))
e("h-new-resize", ["C05"], (BC, "re:(?s)void SwervePathBuilder::NewWpts\\(size_t finalIndex\\) \\{.*?\n\\}\n", """void SwervePathBuilder::NewWpts(size_t finalIndex) {
  const size_t before = path.waypoints.size();
  if (finalIndex < before) {
    return;
  }
  const size_t added = finalIndex + 1 - before;
  path.waypoints.resize(before + added);
  initialGuessPoints.resize(before + added, std::vector<Pose2d>{Pose2d{0, 0, 0}});
  controlIntervalCounts.insert(controlIntervalCounts.end(), before == 0 ? added - 1 : added, 40);
}
"""))
e("h-guess-front", ["C05"], (BC, "re:(?s)  std::vector<Pose2d>& toInitialGuessPoints =.*?sgmtPoseGuess.end\\(\\)\\);\n", """  auto& points = initialGuessPoints.at(fromIndex + 1);
  for (size_t k = 0; k < sgmtPoseGuess.size(); ++k) {
    points.insert(points.begin() + k, sgmtPoseGuess[k]);
  }
"""))
e("h-guess-new", ["C05"], (BC, "re:(?s)  std::vector<Pose2d>& toInitialGuessPoints =.*?sgmtPoseGuess.end\\(\\)\\);\n", """  std::vector<Pose2d> all{sgmtPoseGuess};
  auto& points = initialGuessPoints.at(fromIndex + 1);
  all.insert(all.end(), points.begin(), points.end());
  points = std::move(all);
"""))
e("h-guess-swap", ["C05"], (BC, "re:(?s)  std::vector<Pose2d>& toInitialGuessPoints =.*?sgmtPoseGuess.end\\(\\)\\);\n", """  std::vector<Pose2d> all;
  auto& points = initialGuessPoints.at(fromIndex + 1);
  all.reserve(sgmtPoseGuess.size() + points.size());
  for (const auto& pose : sgmtPoseGuess) {
    all.push_back(pose);
  }
  for (const auto& pose : points) {
    all.push_back(pose);
  }
  points.swap(all);
"""))
m("h-guess-front1", ["C05"], (BC, "re:(?s)  std::vector<Pose2d>& toInitialGuessPoints =.*?sgmtPoseGuess.end\\(\\)\\);\n", """  auto& points = initialGuessPoints.at(fromIndex + 1);
  for (size_t k = 0; k < sgmtPoseGuess.size(); ++k) {
    points.insert(points.end() - 1, sgmtPoseGuess[k]);
  }
"""))

# ---- the initial guess
BODY = "re:(?s)    size_t N_guessSgmt = N_sgmt / guessPointCount;\n.*?\n  \\}\n\n  return initialGuess;"
CARRY = """    size_t N_guessSgmt = N_sgmt / guessPointCount;
    Pose2d from = initialGuessPoints.at(wptIndex - 1).back();
    size_t left = N_sgmt;
    for (size_t k = 0; k < guessPointCount; ++k) {
      const Pose2d& to = initialGuessPoints.at(wptIndex).at(k);
      const size_t count = k + 1 == guessPointCount ? left : N_guessSgmt;
      append_vector(initialGuess.x, Linspace(from.X(), to.X(), count));
      append_vector(initialGuess.y, Linspace(from.Y(), to.Y(), count));
      for (double theta : AngleLinspace(from.Rotation().Radians(), to.Rotation().Radians(), count)) {
        initialGuess.thetacos.push_back(std::cos(theta));
        initialGuess.thetasin.push_back(std::sin(theta));
      }
      left -= count;
      from = to;
    }
  }

  return initialGuess;"""
e("h-guess-carry", ["C04"], (GG, BODY, CARRY))
m("h-guess-carry1", ["C04"], (GG, BODY, CARRY.replace("k + 1 == guessPointCount ? left", "k + 1 == guessPointCount && left > 0 ? left - left % guessPointCount + N_sgmt % guessPointCount % 3")))
LAM = """    size_t N_guessSgmt = N_sgmt / guessPointCount;
    const auto& points = initialGuessPoints.at(wptIndex);
    auto interpolate = [&](const Pose2d& from, const Pose2d& to, size_t count) {
      append_vector(initialGuess.x, Linspace(from.X(), to.X(), count));
      append_vector(initialGuess.y, Linspace(from.Y(), to.Y(), count));
      for (double theta : AngleLinspace(from.Rotation().Radians(), to.Rotation().Radians(), count)) {
        initialGuess.thetacos.push_back(std::cos(theta));
        initialGuess.thetasin.push_back(std::sin(theta));
      }
    };
    const Pose2d& start = initialGuessPoints.at(wptIndex - 1).back();
    if (guessPointCount == 1) {
      interpolate(start, points.front(), N_sgmt);
      continue;
    }
    interpolate(start, points.front(), N_guessSgmt);
    for (size_t k = 1; k + 1 < guessPointCount; ++k) {
      interpolate(points.at(k - 1), points.at(k), N_guessSgmt);
    }
    interpolate(points.at(guessPointCount - 2), points.back(), N_sgmt - N_guessSgmt * (guessPointCount - 1));
  }

  return initialGuess;"""
e("h-guess-lam", ["C04"], (GG, BODY, LAM))
m("h-guess-lam1", ["C04"], (GG, BODY, LAM.replace("interpolate(points.at(k - 1), points.at(k), N_guessSgmt)", "interpolate(k == 1 ? start : points.at(k - 1), points.at(k), N_guessSgmt)")))
e("h-guess-dt", ["C04"], (GG, "re:(?s)  for \\(size_t i = 0; i < sampTot; i\\+\\+\\) \\{.*?\n  \\}\n", "  initialGuess.dt.assign(sampTot, (wptCnt * 5.0) / sampTot);\n"))
e("h-guess-ctor", ["C04"], (GG, "re:(?s)  for \\(size_t i = 0; i < sampTot; i\\+\\+\\) \\{.*?\n  \\}\n", "  initialGuess.dt = std::vector<double>(sampTot, (wptCnt * 5.0) / sampTot);\n"))

# ---- the trajectory
LOOP = "re:(?s)    for \\(size_t samp = 0; samp < solution.x.size\\(\\); \\+\\+samp\\) \\{.*?\n    \\}\n"
SAMPLE = """ts, solution.x[samp], solution.y[samp],
          std::atan2(solution.thetasin[samp], solution.thetacos[samp]),
          solution.vx[samp], solution.vy[samp], solution.omega[samp],
          solution.moduleFX[samp], solution.moduleFY[samp]"""
e("h-traj-after", ["C19"], (HT, LOOP, """    const size_t count = solution.x.size();
    samples.reserve(count);
    for (size_t samp = 0; samp < count; ++samp) {
      samples.push_back(HolonomicTrajectorySample{%s});
      if (samp + 1 < count) {
        ts += solution.dt[samp];
      }
    }
""" % SAMPLE))
e("h-traj-lambda", ["C19"], (HT, LOOP, """    auto add = [&](size_t samp) {
      samples.emplace_back(
          %s);
    };
    if (solution.x.empty()) {
      return;
    }
    add(0);
    for (size_t samp = 1; samp < solution.x.size(); ++samp) {
      ts += solution.dt[samp - 1];
      add(samp);
    }
""" % SAMPLE))
m("h-traj-after1", ["C19"], (HT, LOOP, """    const size_t count = solution.x.size();
    for (size_t samp = 0; samp < count; ++samp) {
      samples.push_back(HolonomicTrajectorySample{%s});
      if (samp + 2 < count) {
        ts += solution.dt[samp];
      }
    }
""" % SAMPLE))
e("h-traj-times", ["C19"], (HT, LOOP, """    std::vector<double> times;
    times.reserve(solution.x.size());
    for (size_t samp = 0; samp < solution.x.size(); ++samp) {
      times.push_back(samp == 0 ? 0.0 : times.back() + solution.dt[samp - 1]);
    }
    for (size_t samp = 0; samp < solution.x.size(); ++samp) {
      ts = times[samp];
      samples.emplace_back(
          %s);
    }
""" % SAMPLE))

# ---- the foreign interface
e("h-ffi-range", ["C20"], (F, "re:(?s)  std::vector<size_t> cppCounts;\n.*?\n  \\}\n", "  std::vector<size_t> cppCounts(counts.begin(), counts.end());\n"))
e("h-ffi-reserve", ["C20"], (F, "  std::vector<trajopt::SwerveModule> cppModules;\n", "  std::vector<trajopt::SwerveModule> cppModules;\n  cppModules.reserve(drivetrain.modules.size());\n"))
e("h-ffi-index", ["C20"], (F, "  for (const auto& guess_point : guess_points) {\n    cppGuessPoints.emplace_back(guess_point.x, guess_point.y,\n                                guess_point.heading);\n  }\n", "  for (size_t k = 0; k != guess_points.size(); ++k) {\n    const Pose2d& p = guess_points[k];\n    cppGuessPoints.push_back(trajopt::Pose2d{p.x, p.y, p.heading});\n  }\n"))
e("h-ffi-half", ["C20"], (F, "re:(?s)  path_builder.AddBumpers\\(\n.*?\\}\\}\\}\\);\n", """  const double x = 0.5 * length;
  const double y = 0.5 * width;
  trajopt::Bumpers bumpers;
  bumpers.safetyDistance = 0.01;
  bumpers.points = {{x, y}, {-x, y}, {-x, -y}, {x, -y}};
  path_builder.AddBumpers(std::move(bumpers));
"""))
m("h-ffi-half1", ["C20"], (F, "re:(?s)  path_builder.AddBumpers\\(\n.*?\\}\\}\\}\\);\n", """  const double x = 0.5 * length;
  const double y = 0.5 * width;
  trajopt::Bumpers bumpers;
  bumpers.safetyDistance = 0.01;
  bumpers.points = {{x, y}, {x, -y}, {-x, -y}};
  if (y > 0) bumpers.points.push_back({-x, y});
  path_builder.AddBumpers(std::move(bumpers));
"""))

# ---- the builder
SG = """    NewWpts(toIndex);
    path.waypoints.at(fromIndex).waypointConstraints.push_back(constraint);
    for (size_t index = fromIndex + 1; index <= toIndex; ++index) {
      path.waypoints.at(index).waypointConstraints.push_back(constraint);
      path.waypoints.at(index).segmentConstraints.push_back(constraint);
    }
"""
e("h-sg-wpt", ["C06"], (BH, SG, """    NewWpts(toIndex);
    for (size_t index = fromIndex; index <= toIndex; ++index) {
      auto& waypoint = path.waypoints.at(index);
      waypoint.waypointConstraints.push_back(constraint);
      if (index != fromIndex) {
        waypoint.segmentConstraints.push_back(constraint);
      }
    }
"""))
e("h-sg-two", ["C06", "C05"], (BH, SG, """    for (size_t index = fromIndex; index <= toIndex; ++index) {
      WptConstraint(index, constraint);
    }
    for (size_t index = fromIndex; index < toIndex; ++index) {
      path.waypoints.at(index + 1).segmentConstraints.emplace_back(constraint);
    }
"""))
e("h-sg-iter", ["C06"], (BH, SG, """    NewWpts(toIndex);
    auto first = path.waypoints.begin() + fromIndex;
    const auto last = path.waypoints.begin() + toIndex;
    first->waypointConstraints.push_back(constraint);
    while (first != last) {
      ++first;
      first->waypointConstraints.push_back(constraint);
      first->segmentConstraints.push_back(constraint);
    }
"""))
m("h-sg-two1", ["C06"], (BH, SG, """    NewWpts(toIndex);
    for (size_t index = fromIndex; index <= toIndex; ++index) {
      WptConstraint(index, constraint);
    }
    for (size_t index = fromIndex; index < toIndex && index < path.waypoints.size() - 2; ++index) {
      path.waypoints.at(index + 1).segmentConstraints.emplace_back(constraint);
    }
"""))
e("h-pose-order", ["C05"], (BC, """  WptConstraint(index, PoseEqualityConstraint{x, y, heading});
  WptInitialGuessPoint(index, {x, y, {heading}});
""", """  const Pose2d pose{x, y, Rotation2d{heading}};
  WptInitialGuessPoint(index, pose);
  WptConstraint(index, PoseEqualityConstraint{x, y, heading});
"""))
e("h-new-while", ["C05"], (BC, "re:(?s)void SwervePathBuilder::NewWpts\\(size_t finalIndex\\) \\{.*?\n\\}\n", """void SwervePathBuilder::NewWpts(size_t finalIndex) {
  while (path.waypoints.size() <= finalIndex) {
    if (!path.waypoints.empty()) {
      controlIntervalCounts.push_back(40);
    }
    path.waypoints.push_back({});
    initialGuessPoints.push_back({Pose2d{0.0, 0.0, Rotation2d{0.0}}});
  }
}
"""))

e("h-sg-wpts", ["C06", "C05"], (BH, SG, """    NewWpts(toIndex);
    WptConstraint(fromIndex, constraint);
    for (size_t index = fromIndex + 1; index <= toIndex; ++index) {
      WptConstraint(index, constraint);
      path.waypoints.at(index).segmentConstraints.push_back(constraint);
    }
"""))
e("h-sg-down", ["C06"], (BH, SG, """    NewWpts(toIndex);
    for (size_t index = toIndex; index > fromIndex; --index) {
      path.waypoints.at(index).waypointConstraints.push_back(constraint);
      path.waypoints.at(index).segmentConstraints.push_back(constraint);
    }
    path.waypoints.at(fromIndex).waypointConstraints.push_back(constraint);
"""))
e("h-sg-sub", ["C06"], (BH, SG, """    NewWpts(toIndex);
    auto& waypoints = path.waypoints;
    std::for_each(waypoints.begin() + fromIndex, waypoints.begin() + toIndex + 1, [&](auto& waypoint) { waypoint.waypointConstraints.push_back(constraint); });
    std::for_each(waypoints.begin() + fromIndex + 1, waypoints.begin() + toIndex + 1, [&](auto& waypoint) { waypoint.segmentConstraints.push_back(constraint); });
"""), (BH, "#include <cassert>\n", "#include <algorithm>\n#include <cassert>\n"))
